//! 100 Continue: exactly when it is due.
use crate::body::BodyPlan;
use crate::checks::c01;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd, Fr, RefCfg};
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C16",
        run,
        quick: 500_000,
        thorough: 40_000_000,
        max_len: 420,
        rule: "a case is 1-4 requests with every combination of version, expectation, body framing and way of sending the body (with the head, after seeing 100 Continue, late, never) against services that read at once, later, partly, in the background, poll once, or never; non-trivial when a request carries an expectation",
        must_labels: &["sent", "not-sent", "waits", "together", "late", "withheld", "http10", "no-body", "other-expectation", "chunked", "background", "held", "poll-once", "before-gate", "second-request", "pending-write"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Send {
    Together,
    Waits,
    Late,
    /// the body never comes
    Withheld,
}
struct Rq {
    head: Vec<u8>,
    body: Vec<u8>,
    send: Send,
}

fn gen_rq(s: &mut Src, cx: &mut Cx, last: bool) -> Rq {
    let st = Style { connect: false, ..Style::clean() };
    let mut head = vec![];
    let v10 = s.chance(32);
    let m = *s.pick(&["POST", "PUT", "GET", "X"]);
    head.extend_from_slice(format!("{m} /p HTTP/1.{}\r\n", if v10 { 0 } else { 1 }).as_bytes());
    if v10 {
        cx.label("http10");
        head.extend_from_slice(b"connection: keep-alive\r\n");
    }
    let exp: Option<&[u8]> = match s.weighted(&[9, 3, 1]) {
        0 => Some(*s.pick(&[&b"100-continue"[..], b"100-Continue", b"100-CONTINUE"])),
        1 => None,
        _ => Some(*s.pick(&[&b"200-ok"[..], b"100-continued", b"", b"100"])),
    };
    let early = s.chance(128);
    let put = |s: &mut Src, head: &mut Vec<u8>| {
        if let Some(v) = exp {
            h1gen::header(s, st, head, s_pick_name(early), v);
        }
    };
    if early {
        put(s, &mut head);
    }
    if exp.is_some_and(|e| !e.eq_ignore_ascii_case(b"100-continue")) {
        cx.label("other-expectation");
    }
    let mut body = vec![];
    let n = *s.pick(&[1usize, 5, 64, 300, 9000]);
    match s.weighted(&[4, 4, 2]) {
        0 => {
            head.extend_from_slice(format!("content-length: {n}\r\n").as_bytes());
            body = payload(s.u8(), n);
        }
        1 if !v10 => {
            head.extend_from_slice(b"transfer-encoding: chunked\r\n");
            let data = payload(s.u8(), if s.chance(32) { 0 } else { n });
            let tr = h1gen::gen_trailers(s);
            h1gen::chunk_encode(s, st, &data, &tr, &mut body);
            cx.label("chunked");
        }
        _ => {
            cx.label("no-body");
            if s.chance(100) {
                head.extend_from_slice(b"content-length: 0\r\n");
            }
        }
    }
    if !early {
        put(s, &mut head);
    }
    head.extend_from_slice(b"\r\n");
    let send = match s.weighted(&[4, 5, 3, 1]) {
        0 => Send::Together,
        1 => Send::Waits,
        2 => Send::Late,
        _ if last && !body.is_empty() => Send::Withheld,
        _ => Send::Waits,
    };
    Rq { head, body, send }
}
fn s_pick_name(early: bool) -> &'static [u8] {
    if early {
        b"Expect"
    } else {
        b"expect"
    }
}

/// number of 100 Continue allowed for a request with an expectation, once its response has begun
fn due(p: &RespPlan) -> (usize, usize) {
    match p.read {
        ReadPlan::All | ReadPlan::Gated(_) => (1, 1),
        // the gate may be open already, so the response may come first
        ReadPlan::BackgroundGated => (0, 1),
        ReadPlan::Frames(0) | ReadPlan::Drop | ReadPlan::Hold => (0, 0),
        ReadPlan::Frames(_) => (1, 1),
        ReadPlan::FramesThenBackground(n) if n > 0 => (1, 1),
        ReadPlan::Background | ReadPlan::FramesThenBackground(_) => {
            if p.post_delay == 0 {
                (0, 0)
            } else {
                (0, 1)
            }
        }
        // the body was asked for, but nobody waited for it
        ReadPlan::PollOnce => (0, 1),
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let cfg = SrvCfg { upgrades: false, ..SrvCfg::gen_neutral(s) };
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    cx.label_if(!io_cfg.write.is_full() || !io_cfg.flush.is_full(), "pending-write");
    let sched = Plan::gen(s, 12);
    let n = s.weighted(&[4, 3, 2, 1]) + 1;
    let rqs: Vec<Rq> = (0..n).map(|i| gen_rq(s, cx, i + 1 == n)).collect();
    let bytes: Vec<u8> = rqs.iter().flat_map(|r| [r.head.clone(), if r.send == Send::Withheld { vec![] } else { r.body.clone() }].concat()).collect();
    let r = refh1::requests(&bytes, &RefCfg::default(), 65534);
    ensure!(r.msgs.len() == n, "harness", "reference finds {} of {n} requests", r.msgs.len());
    let mut plans = vec![];
    for _ in 0..n {
        let mut p = RespPlan::simple();
        p.delay = s.weighted(&[4, 1, 1]);
        p.post_delay = s.weighted(&[4, 1, 1]);
        p.pauses = Plan::gen(s, 4);
        p.read = match s.weighted(&[6, 1, 2, 2, 2, 1, 3, 2, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            2 => ReadPlan::Frames(s.below(3)),
            3 => ReadPlan::Background,
            4 => ReadPlan::Hold,
            5 => ReadPlan::FramesThenBackground(s.below(3)),
            6 => ReadPlan::Gated(s.below(2)),
            7 => ReadPlan::BackgroundGated,
            _ => ReadPlan::PollOnce,
        };
        if s.chance(60) {
            p.body = BodyPlan::gen(s, false);
        }
        plans.push(p);
    }
    cx.describe(|| format!("cfg={} io[{}] {}", cfg.show(), io_cfg.show(), rqs.iter().zip(&plans).map(|(r, p)| format!("[{} body={} {:?}] -> {}", show(&r.head), r.body.len(), r.send, p.show())).collect::<Vec<_>>().join(" || ")));
    let pl = plans.clone();
    let f: PlanFn = Rc::new(move |i, _| pl[i.min(pl.len() - 1)].clone());
    let mut srv = Srv::start(&cfg, &io_cfg, sched, f);
    cx.nontrivial = r.msgs.iter().any(|m| m.expect);

    let parse = |srv: &Srv| -> Result<wire::Stream, Fail> {
        let methods: Vec<Vec<u8>> = srv.calls.borrow().iter().map(|c| c.method.clone().into_bytes()).collect();
        let out = srv.io.output();
        wire::responses(&out, &methods, true).map_err(|e| Fail::new("malformed-output", format!("{e} in {}", show(&out))))
    };
    // how many interim responses lie before response i
    let count = |w: &wire::Stream, i: usize| if i < w.interim.len() { w.interim[i].len() } else if i == w.interim.len() { w.tail_interim.len() } else { 0 };
    let go = |srv: &mut Srv| -> R {
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "keeps waking itself: {}", srv.show_state());
        Ok(())
    };
    for (i, q) in rqs.iter().enumerate() {
        match q.send {
            Send::Together => {
                cx.label("together");
                let b = [&q.head[..], &q.body[..]].concat();
                let segs = gen_cuts(s, &b);
                ensure!(play_some(&mut srv, &segs), "spin", "keeps waking itself: {}", srv.show_state());
            }
            _ => {
                let segs = gen_cuts(s, &q.head);
                ensure!(play_some(&mut srv, &segs), "spin", "keeps waking itself: {}", srv.show_state());
                go(&mut srv)?;
                let mut opened = false;
                for _ in 0..4 {
                    if srv.calls.borrow().len() > i || srv.ended().is_some() {
                        break;
                    }
                    opened = true;
                    srv.gate.open();
                    go(&mut srv)?;
                    srv.gate.close();
                }
                let delivered = srv.calls.borrow().len() > i;
                if delivered {
                    let w = parse(&srv)?;
                    let k = count(&w, i);
                    let c = srv.calls.borrow()[i].clone();
                    let begun = w.msgs.len() > i || w.partial;
                    if !r.msgs[i].expect {
                        ensure!(k == 0, "unasked", "request {i} got {k} interim responses without asking");
                    } else if !c.responded && !begun && w.msgs.len() == i {
                        let waiting = match plans[i].read {
                            ReadPlan::All | ReadPlan::BackgroundGated => true,
                            ReadPlan::Frames(n) | ReadPlan::FramesThenBackground(n) | ReadPlan::Gated(n) => n > 0,
                            _ => false,
                        };
                        if waiting {
                            ensure!(k == 1, "missing", "the service waits for the body of request {i}, but {k} 100 Continue were sent: {}", srv.show_state());
                        } else if plans[i].read == ReadPlan::Gated(0) && !opened {
                            cx.label("before-gate");
                            ensure!(k == 0, "unasked", "nobody reads the body of request {i} yet, but {k} 100 Continue were sent");
                        }
                    }
                }
                match q.send {
                    Send::Waits => cx.label("waits"),
                    Send::Late => {
                        cx.label("late");
                        if s.chance(128) {
                            srv.gate.open();
                            go(&mut srv)?;
                            srv.gate.close();
                        }
                    }
                    _ => {
                        cx.label("withheld");
                        srv.gate.open();
                        go(&mut srv)?;
                    }
                }
                if q.send != Send::Withheld {
                    let segs = gen_cuts(s, &q.body);
                    ensure!(play_some(&mut srv, &segs), "spin", "keeps waking itself: {}", srv.show_state());
                }
            }
        }
    }
    go(&mut srv)?;
    srv.gate.open();
    go(&mut srv)?;
    let before_eof = parse(&srv)?;
    feed_eof(&srv.io.rx);
    go(&mut srv)?;
    let calls = srv.calls.borrow().clone();
    ensure!(calls.len() <= n, "extra-request", "{} requests delivered, {n} sent", calls.len());
    let w = parse(&srv)?;
    ensure!(w.msgs.len() <= calls.len() && w.rest == 0, "malformed-output", "{} responses for {} requests", w.msgs.len(), calls.len());
    cx.label_if(calls.len() > 1, "second-request");
    for (i, c) in calls.iter().enumerate() {
        let m = &r.msgs[i];
        c01::same_request(i, c, m)?;
        let k = count(&w, i);
        let p = &plans[i];
        for x in w.interim.get(i).into_iter().flatten().chain(if i == w.interim.len() { w.tail_interim.iter() } else { [].iter() }) {
            ensure!(x.status == 100 && x.headers.is_empty() && x.version == 11, "malformed-output", "interim response {}", x.show());
        }
        cx.label_if(p.read == ReadPlan::Hold && m.expect, "held");
        cx.label_if(p.read == ReadPlan::PollOnce && m.expect, "poll-once");
        cx.label_if(matches!(p.read, ReadPlan::Background | ReadPlan::BackgroundGated) && m.expect, "background");
        if !m.expect {
            ensure!(k == 0, "unasked", "request {i} got {k} interim responses without asking: {}", show(&srv.io.output()));
        } else {
            let (lo, hi) = due(p);
            // a withheld body may end the exchange before its response
            let begun = w.msgs.len() > i;
            ensure!(k <= hi && (k >= lo || !begun), "wrong-count", "request {i} ({:?}) got {k} 100 Continue, expected {lo}..={hi}: {}", p.read, show(&srv.io.output()));
            cx.label(if k > 0 { "sent" } else { "not-sent" });
        }
        // framing: nothing but this body is read as this body
        ensure!(m.body.starts_with(&c.got.data), "body-bytes", "request {i}: delivered {} is not a prefix of the body", show(&c.got.data));
        if m.end == BodyEnd::Complete {
            let reads = matches!(p.read, ReadPlan::All | ReadPlan::Gated(_)) || (p.read == ReadPlan::BackgroundGated);
            if reads && i < before_eof.msgs.len() {
                // background readers race with the end of the connection
                if p.read != ReadPlan::BackgroundGated {
                    ensure!(c.got.clean() && c.got.data == m.body, "body-bytes", "request {i}: body {} of {} bytes, error {:?}", c.got.data.len(), m.body.len(), c.got.err);
                }
            } else if reads && p.read != ReadPlan::BackgroundGated {
                fail!("no-response", "request {i} was read completely but not answered: {}", srv.show_state());
            }
        } else {
            ensure!(!c.got.ended || m.fr == Fr::None, "false-complete", "request {i}: a body that never came was presented as complete");
        }
    }
    Ok(())
}

fn play_some(srv: &mut Srv, segs: &[Seg]) -> bool {
    for g in segs {
        match g {
            Seg::Bytes(b) => feed(&srv.io.rx, b),
            Seg::Settle => {
                if srv.ex.run() == Stall::Spinning {
                    return false;
                }
            }
            Seg::Steps(n) => {
                srv.ex.run_steps(*n);
            }
            _ => {}
        }
    }
    true
}
