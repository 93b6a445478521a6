//! The header read timeout, over virtual time.
use crate::body::{BodyPlan, Hint, Step};
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use bytes::Bytes;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C17",
        run,
        quick: 1_000_000,
        thorough: 40_000_000,
        max_len: 400,
        rule: "a case is a history of 1-5 exchanges on one server connection over virtual time: every piece of head and body, every service step, response step and transport unblocking happens after a chosen gap around multiples of the timeout; non-trivial when a timeout is in force and at least one wait is longer than half of it",
        must_labels: &["default", "set", "disabled", "no-timer", "fires", "fires-mid-head", "fires-idle", "fires-at-start", "eof", "graceful", "long-service", "long-body", "long-response", "blocked-write", "pipelined-full", "pipelined-partial", "near-deadline", "background", "default-reset", "second-exchange", "blank-lines"],
    }
}

struct W {
    srv: Srv,
    t: Option<Duration>,
    /// what the connection may be counting from, if it is waiting for a head: [lo, hi]
    wait: Option<(Duration, Option<Duration>)>,
    ended: bool,
}
impl W {
    fn now(&self) -> Duration {
        self.srv.ex.clock.now()
    }
    /// let time pass up to `at`; Ok(false) if the connection legitimately timed out
    fn pass(&mut self, at: Duration) -> Result<bool, Fail> {
        ensure!(self.srv.ex.run_timed(at) == Stall::Quiet, "spin", "keeps waking itself: {}", self.srv.show_state());
        self.check()
    }
    fn run(&mut self) -> Result<bool, Fail> {
        ensure!(self.srv.ex.run() == Stall::Quiet, "spin", "keeps waking itself: {}", self.srv.show_state());
        self.check()
    }
    fn check(&mut self) -> Result<bool, Fail> {
        let now = self.now();
        let end = self.srv.ended();
        match (&self.wait, self.t) {
            (Some((lo, hi)), Some(t)) => {
                let first = *lo + t;
                let last = hi.map(|h| h + t);
                match end {
                    Some(e) => {
                        ensure!(!e.ok && e.kinds.contains("timeout"), "ended-early", "the connection ended at {:?} while waiting since {:?} (timeout {t:?}): {} {}", e.at, self.wait, e.kinds, e.text);
                        ensure!(e.at >= first, "fired-early", "timed out at {:?}, but it only waits since {lo:?} and the timeout is {t:?}", e.at);
                        if let Some(l) = last {
                            ensure!(e.at <= l, "fired-late", "timed out at {:?}, waiting since {hi:?}, timeout {t:?}", e.at);
                        }
                        ensure!(self.srv.io.dropped(), "not-closed", "the transport is still open after the timeout");
                        self.ended = true;
                        Ok(false)
                    }
                    None => {
                        if let Some(l) = last {
                            ensure!(now < l, "no-timeout", "still open at {now:?}, waiting since {hi:?}, timeout {t:?}: {}", self.srv.show_state());
                        }
                        Ok(true)
                    }
                }
            }
            _ => {
                if let Some(e) = end {
                    let sig = if e.kinds.contains("timeout") { "fired-wrongly" } else { "ended-early" };
                    fail!(sig, "the connection ended at {:?} ({} {}) though it is not waiting for a head under a timeout (now {now:?})", e.at, e.kinds, e.text);
                }
                Ok(true)
            }
        }
    }
}

/// gaps in units of t/8, slightly off so that nothing falls on a deadline
fn gap(s: &mut Src, t: Duration, seq: &mut u32, small: bool) -> Duration {
    *seq += 1;
    let jitter = Duration::from_nanos(1 + 2 * *seq as u64);
    let k = if small { *s.pick(&[0u32, 0, 0, 1, 2, 4]) } else { *s.pick(&[0u32, 0, 0, 1, 3, 6, 7, 8, 9, 17, 80]) };
    if k == 0 {
        return Duration::ZERO;
    }
    t * k / 8 + jitter
}

struct Ex {
    head: Vec<u8>,
    body: Vec<u8>,
    read: ReadPlan,
    g: Gate,
    gated_resp: bool,
    block: bool,
    ahead: usize,
    plan: RespPlan,
}

fn cut(s: &mut Src, b: &[u8]) -> Vec<Vec<u8>> {
    let n = s.weighted(&[4, 3, 2, 1]) + 1;
    let mut at: Vec<usize> = (1..n).map(|_| s.below(b.len() + 1)).collect();
    at.push(0);
    at.push(b.len());
    at.sort();
    at.windows(2).map(|w| b[w[0]..w[1]].to_vec()).filter(|v| !v.is_empty()).collect()
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = SrvCfg::plain();
    cfg.half_close = s.chance(64);
    cfg.pipeline_flush = s.chance(64);
    cfg.writev = *s.pick(&[None, Some(true), Some(false)]);
    cfg.timer = true;
    cfg.default_reset = s.chance(100);
    cx.label_if(cfg.default_reset, "default-reset");
    let t = match s.weighted(&[6, 2, 1, 1]) {
        0 => {
            cx.label("set");
            let d = Duration::from_millis(*s.pick(&[1000u64, 1, 40, 5000, 30_000, 60_000, 3_600_000]));
            cfg.header_timeout = Some(Some(d));
            Some(d)
        }
        1 => {
            cx.label("default");
            Some(Duration::from_secs(30))
        }
        2 => {
            cx.label("disabled");
            cfg.header_timeout = Some(None);
            None
        }
        _ => {
            cx.label("no-timer");
            cfg.timer = false;
            None
        }
    };
    let unit = t.unwrap_or(Duration::from_secs(30));
    let io_cfg = if s.chance(80) { IoCfg { cap: usize::MAX, ..IoCfg::gen(s) } } else { IoCfg::plain() };
    let sched = Plan::gen(s, 8);
    let n = s.weighted(&[3, 4, 3, 2, 1]) + 1;
    let mut exs: Vec<Ex> = vec![];
    for i in 0..n {
        let mut head = vec![];
        if s.chance(40) {
            cx.label("blank-lines");
            head.extend_from_slice(*s.pick(&[&b"\r\n"[..], b"\n", b"\r\n\r\n"]));
        }
        let kind = s.weighted(&[5, 3, 2]);
        let len = *s.pick(&[1usize, 5, 60, 2000]);
        let data = payload(i as u8, len);
        let (m, hs, body) = match kind {
            0 => ("GET", String::new(), vec![]),
            1 => ("POST", format!("content-length: {len}\r\n"), data.clone()),
            _ => ("PUT", "transfer-encoding: chunked\r\n".to_string(), [format!("{len:x}\r\n").as_bytes(), &data, b"\r\n0\r\n\r\n"].concat()),
        };
        head.extend_from_slice(format!("{m} /{i} HTTP/1.1\r\n").as_bytes());
        let st = Style::clean();
        for k in 0..s.below(3) {
            h1gen::header(s, st, &mut head, format!("x-{k}").as_bytes(), b"v");
        }
        head.extend_from_slice(hs.as_bytes());
        head.extend_from_slice(b"\r\n");
        let read = match s.weighted(&[4, 2, 2]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Gated(0),
            _ => ReadPlan::BackgroundGated,
        };
        let mut p = RespPlan::simple();
        p.read = read.clone();
        p.pauses = Plan::gen(s, 3);
        let g = Gate::default();
        let gated_resp = s.chance(90);
        let mut steps = vec![];
        if s.chance(200) {
            steps.push(Step::Data(Bytes::from(payload(100 + i as u8, *s.pick(&[1usize, 30, 3000]))), s.range(1, 3)));
        }
        if gated_resp {
            steps.push(Step::Gate(g.clone()));
        }
        if s.chance(128) {
            steps.push(Step::Data(Bytes::from(payload(200 + i as u8, s.range(1, 40))), 1));
        }
        let hint = if s.chance(100) { Hint::Unknown } else { Hint::Exact };
        p.body = BodyPlan { steps, hint, honest_end: !s.chance(60) };
        let block = s.chance(50);
        let ahead = if i + 1 < n && !(block && read == ReadPlan::BackgroundGated) { *s.pick(&[0usize, 0, 1, 2]) } else { 0 };
        exs.push(Ex { head, body, read, g, gated_resp, block, ahead, plan: p });
    }
    let pf = cfg.pipeline_flush;
    let finale = s.weighted(&[5, 1, 1]);
    cx.describe(|| format!("T={t:?} cfg={} io[{}] finale={finale} {}", cfg.show(), io_cfg.show(), exs.iter().map(|e| format!("[{} body={} block={} ahead={} gated={}] -> {}", show(&e.head), e.body.len(), e.block, e.ahead, e.gated_resp, e.plan.show())).collect::<Vec<_>>().join(" || ")));

    let plans: Vec<RespPlan> = exs.iter().map(|e| e.plan.clone()).collect();
    let srv = Srv::start(&cfg, &io_cfg, sched, Rc::new(move |i, _| plans[i.min(plans.len() - 1)].clone()));
    let trace: Rc<RefCell<Vec<String>>> = Default::default();
    let mut w = W { srv, t, wait: Some((Duration::ZERO, Some(Duration::ZERO))), ended: false };
    let r = drive(s, cx, &mut w, &exs, unit, (finale, pf), &trace);
    cx.describe(|| trace.borrow().join(" "));
    r
}

fn complete_responses(w: &W) -> Result<usize, Fail> {
    let methods: Vec<Vec<u8>> = w.srv.calls.borrow().iter().map(|c| c.method.clone().into_bytes()).collect();
    let out = w.srv.io.output();
    let st = wire::responses(&out, &methods, false).map_err(|e| Fail::new("malformed-output", format!("{e} in {}", show(&out))))?;
    Ok(st.msgs.len())
}

#[allow(clippy::too_many_arguments)]
fn drive(s: &mut Src, cx: &mut Cx, w: &mut W, exs: &[Ex], unit: Duration, (finale, pf): (usize, bool), tr: &RefCell<Vec<String>>) -> R {
    let mut seq = 0;
    let n = exs.len();
    let on = w.t.is_some();
    let note = |w: &W, what: String| tr.borrow_mut().push(format!("{:?}:{what}", w.now()));
    // pieces of the next head fed ahead of time
    let mut fed_ahead: usize = 0;
    w.run()?;
    for i in 0..n {
        let e = &exs[i];
        // ---- the head
        let rest = &e.head[fed_ahead..];
        let mut mid = fed_ahead > 0;
        if !rest.is_empty() {
            for (k, piece) in cut(s, rest).into_iter().enumerate() {
                let small = s.chance(190);
                let g = gap(s, unit, &mut seq, small);
                cx.nontrivial |= on && g * 2 >= unit;
                // aim close to the deadline now and then
                let mut at = w.now() + g;
                if let (Some((_, Some(hi))), Some(t), true) = (w.wait, w.t, s.chance(50)) {
                    let eps = Duration::from_nanos(1);
                    let x = if s.chance(128) { hi + t + eps } else { hi + t - eps };
                    if x > w.now() {
                        cx.label("near-deadline");
                        cx.nontrivial = true;
                        at = x;
                    }
                }
                if !w.pass(at)? {
                    cx.label("fires");
                    cx.label(if mid { "fires-mid-head" } else if i == 0 && k == 0 { "fires-at-start" } else { "fires-idle" });
                    ensure!(w.srv.calls.borrow().len() == i, "late-request", "{} requests delivered, {i} heads were complete", w.srv.calls.borrow().len());
                    return Ok(());
                }
                feed(&w.srv.io.rx, &piece);
                note(w, format!("head{i}+{}", piece.len()));
                mid = true;
                // the head is complete with its last byte; until then it keeps waiting
                let complete = w.srv.io.rx.lock().unwrap().total_in as usize >= exs[..=i].iter().map(|e| e.head.len()).sum::<usize>() + exs[..i].iter().map(|e| e.body.len()).sum::<usize>();
                if complete {
                    break;
                }
                w.run()?;
                ensure!(w.srv.calls.borrow().len() == i, "early-request", "request {i} delivered before its head was complete");
            }
        }
        fed_ahead = 0;
        w.wait = None;
        if i > 0 {
            cx.label("second-exchange");
        }
        // sometimes block the transport for the response
        if e.block {
            cx.label("blocked-write");
            let have = { let p = lock(&w.srv.io.tx); p.buf.len() };
            set_cap(&w.srv.io.tx, have + s.below(60));
        }
        w.run()?;
        ensure!(w.srv.calls.borrow().len() == i + 1, "not-served", "head {i} was complete at {:?} (in time) but is not delivered: {}", w.now(), w.srv.show_state());
        {
            let c = w.srv.calls.borrow();
            ensure!(c[i].at == w.now(), "late-request", "head {i} complete at {:?}, delivered at {:?}", w.now(), c[i].at);
            ensure!(c[i].uri == format!("/{i}"), "wrong-request", "request {i} is {}", c[i].uri);
        }
        // ---- body, service, response, transport: in a generated order
        let mut todo: Vec<u8> = vec![];
        let pieces = if e.body.is_empty() { vec![] } else { cut(s, &e.body) };
        let mut next_piece = 0;
        if !pieces.is_empty() {
            todo.push(b'b');
        }
        if e.read != ReadPlan::All {
            todo.push(b's');
        }
        if e.gated_resp {
            todo.push(b'r');
        }
        if e.block {
            todo.push(b'u');
        }
        let mut ahead = e.ahead;
        cx.label_if(e.read == ReadPlan::BackgroundGated && !e.body.is_empty(), "background");
        loop {
            // is the exchange over?
            let body_in = next_piece == pieces.len();
            let done_read = { let c = w.srv.calls.borrow(); body_in && c[i].read_done };
            let produced = { let st = w.srv.stats.borrow(); st.len() > i && (st[i].borrow().ended || st[i].borrow().dropped) };
            let visible = complete_responses(w)? > i;
            if done_read && visible && produced {
                let now = w.now();
                let lo = match w.wait {
                    Some((lo, _)) => lo,
                    None => now,
                };
                w.wait = Some((lo, Some(now)));
                note(w, format!("exchange{i} over"));
                break;
            }
            if done_read && produced && w.wait.is_none() && (e.read == ReadPlan::BackgroundGated || (pf && fed_ahead > 0)) {
                // an upload that ends after its response was produced, or pipeline_flush with
                // more input at hand: the connection may already wait for the next head while
                // the transport holds the response back
                w.wait = Some((w.now(), None));
            }
            if todo.is_empty() {
                fail!("stuck", "everything was done for exchange {i}, but it is not over: {}", w.srv.show_state());
            }
            let k = s.below(todo.len());
            let g = gap(s, unit, &mut seq, false);
            cx.nontrivial |= on && g * 2 >= unit;
            let long = on && g > unit;
            if !w.pass(w.now() + g)? {
                cx.label("fires");
                return Ok(());
            }
            // pipelined bytes of the next head
            if ahead > 0 && next_piece == pieces.len() && s.chance(128) && w.wait.is_none() {
                let nh = &exs[i + 1].head;
                let full = ahead == 2;
                let upto = if full { nh.len() } else { nh.len() - 1 - s.below(nh.len() - 1).min(nh.len() - 2) };
                cx.label(if full { "pipelined-full" } else { "pipelined-partial" });
                feed(&w.srv.io.rx, &nh[..upto]);
                note(w, format!("ahead+{upto}"));
                fed_ahead = upto;
                ahead = 0;
            }
            match todo[k] {
                b'b' => {
                    cx.label_if(long, "long-body");
                    feed(&w.srv.io.rx, &pieces[next_piece]);
                    next_piece += 1;
                    note(w, format!("body{i}+"));
                    if next_piece == pieces.len() {
                        todo.remove(k);
                    }
                }
                b's' => {
                    cx.label_if(long, "long-service");
                    w.srv.gate.open();
                    note(w, "gate".into());
                    todo.remove(k);
                }
                b'r' => {
                    cx.label_if(long, "long-response");
                    e.g.open();
                    note(w, "resp".into());
                    todo.remove(k);
                }
                _ => {
                    set_cap(&w.srv.io.tx, usize::MAX);
                    note(w, "unblock".into());
                    todo.remove(k);
                }
            }
            // a complete head that waits in the buffer is served as soon as the exchange is over
            let next_full = fed_ahead > 0 && fed_ahead == exs.get(i + 1).map_or(0, |e| e.head.len());
            ensure!(w.srv.ex.run() == Stall::Quiet, "spin", "keeps waking itself: {}", w.srv.show_state());
            if next_full && w.srv.calls.borrow().len() == i + 2 {
                let vis = complete_responses(w)? > i;
                ensure!(w.srv.calls.borrow()[i].read_done, "overlap", "request {} delivered during exchange {i}", i + 1);
                let _ = vis;
                w.wait = None;
                w.check()?;
                note(w, format!("exchange{i} over, next one buffered"));
                break;
            }
            w.check()?;
        }
        w.srv.gate.close();
        // leftover gates and blocked transports
        e.g.open();
        set_cap(&w.srv.io.tx, usize::MAX);
        if !w.run()? {
            return Ok(());
        }
        if let (Some((lo, None)), true) = (w.wait, true) {
            w.wait = Some((lo, Some(w.now())));
        }
    }
    // ---- afterwards
    let Some((_, Some(hi))) = w.wait else { fail!("harness", "not idle at the end") };
    match finale {
        0 => {
            let partial = s.chance(100);
            if partial {
                feed(&w.srv.io.rx, *s.pick(&[&b"GET / HTTP/1.1\r\nx: y\r\n"[..], b"\r\n", b"G", b"POST / HTTP/1.1"]));
            }
            match w.t {
                Some(t) => {
                    if w.pass(hi + t - Duration::from_nanos(1))? {
                        cx.label("near-deadline");
                        ensure!(!w.pass(hi + t)?, "no-timeout", "still open");
                    }
                    cx.label("fires");
                    cx.label(if partial { "fires-mid-head" } else { "fires-idle" });
                }
                None => {
                    w.pass(w.now() + Duration::from_secs(86_400 * 50))?;
                }
            }
        }
        1 => {
            cx.label("eof");
            let g = gap(s, unit, &mut seq, true);
            if !w.pass(w.now() + g)? {
                return Ok(());
            }
            feed_eof(&w.srv.io.rx);
            w.srv.ex.run();
            let Some(e) = w.srv.ended() else { fail!("stuck", "still open after the client closed an idle connection") };
            ensure!(e.ok, "eof-error", "closing an idle connection gave {} {}", e.kinds, e.text);
        }
        _ => {
            cx.label("graceful");
            let g = gap(s, unit, &mut seq, true);
            if !w.pass(w.now() + g)? {
                return Ok(());
            }
            w.srv.ctl.graceful();
            w.srv.ex.run();
            let Some(e) = w.srv.ended() else { fail!("stuck", "still open after graceful shutdown of an idle connection") };
            ensure!(e.ok, "graceful-error", "graceful shutdown of an idle connection gave {} {}", e.kinds, e.text);
        }
    }
    Ok(())
}
