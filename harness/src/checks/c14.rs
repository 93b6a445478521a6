//! Graceful shutdown of an HTTP/1 server connection at every moment.
use crate::body::{BodyPlan, Step};
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd, RefCfg};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::cell::RefCell;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C14",
        run,
        quick: 700_000,
        thorough: 40_000_000,
        max_len: 420,
        rule: "a case is 1-4 valid requests cut into segments, services and response bodies that may wait for a signal, and graceful shutdown requested at a generated point (also before the first byte, twice, and mid-body) of the history, after which input continues; non-trivial when an exchange was in flight at that moment or input follows it",
        must_labels: &["before-input", "idle", "service-running", "request-body-open", "response-body-open", "unwritten-output", "first-head-partial", "next-head-partial", "more-input-after", "twice", "background-body", "pending-write"],
    }
}

#[derive(Clone, Default, Debug)]
struct Snap {
    calls: usize,
    responded: Vec<bool>,
    written: u64,
    read: u64,
    fed: u64,
    body_over: Vec<bool>,
    resp_over: Vec<bool>,
    /// all bytes of the response body were taken (an exact length may end the message there)
    resp_sent: Vec<bool>,
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let cfg = SrvCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 4);
    let st = Style { connect: false, ..Style::clean() };
    let mut bytes = vec![];
    for _ in 0..n {
        h1gen::request(s, st, &mut bytes);
    }
    let mut r = refh1::requests(&bytes, &RefCfg::default(), 65534);
    if matches!(r.tail, refh1::Tail::BadHead(..)) {
        // a chunked HTTP/1.0 request: leave it and what follows out
        bytes.truncate(r.tail_pos);
        if r.msgs.is_empty() {
            bytes = b"POST / HTTP/1.1\r\ncontent-length: 5\r\n\r\nhello".to_vec();
        }
        r = refh1::requests(&bytes, &RefCfg::default(), 65534);
    }
    let (mut segs, at);
    if s.chance(128) {
        // next to a boundary of one of the messages
        let m = &r.msgs[s.below(r.msgs.len())];
        let p = match s.below(4) {
            0 => m.head_end,
            1 => m.pos,
            2 => m.pos.saturating_sub(1 + s.below(8)),
            _ => (m.head_end + s.below(1 + m.pos - m.head_end)).min(m.pos),
        };
        segs = gen_cuts(s, &bytes[..p]);
        at = segs.len();
        segs.push(Seg::Graceful);
        let rest = gen_cuts(s, &bytes[p..]);
        segs.extend(rest);
    } else {
        segs = gen_cuts(s, &bytes);
        at = s.below(segs.len() + 1);
        segs.insert(at, Seg::Graceful);
    }
    match s.weighted(&[4, 4, 1]) {
        0 => segs.insert(at, Seg::Settle),
        1 => segs.insert(at, Seg::Steps(s.range(1, 10))),
        _ => {}
    }
    let gpos = segs.iter().position(|g| matches!(g, Seg::Graceful)).expect("graceful");
    let stop_here = s.chance(96);
    if stop_here {
        // look at the idle case: nothing comes after
        segs.insert(gpos + 1, Seg::Settle);
    }
    if s.chance(32) {
        let k = gpos + 1 + s.below(segs.len() - gpos);
        segs.insert(k, Seg::Graceful);
        cx.label("twice");
    }
    let gate_slot: Rc<RefCell<Option<Gate>>> = Default::default();
    let mut plans = vec![];
    for _ in 0..n {
        let mut p = RespPlan::simple();
        p.delay = s.weighted(&[5, 1, 1]);
        p.post_delay = s.weighted(&[5, 1, 1]);
        p.pauses = Plan::gen(s, 5);
        p.read = match s.weighted(&[6, 2, 2]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Gated(s.range(0, 2)),
            _ => ReadPlan::Background,
        };
        let mut gated_body = None;
        if s.chance(160) {
            p.body = BodyPlan::gen(s, false);
            if s.chance(80) {
                gated_body = Some(s.below(p.body.steps.len() + 1));
            }
        }
        plans.push((p, gated_body));
    }
    cx.describe(|| format!("cfg={} plans=[{}] io[{}] segs={:?}", cfg.show(), plans.iter().map(|(p, g)| format!("{} gate={g:?}", p.show())).collect::<Vec<_>>().join(";"), io_cfg.show(), segs.iter().map(|g| match g { Seg::Bytes(b) => show(b), o => format!("<{o:?}>") }).collect::<Vec<_>>()));

    let (gs, pl) = (gate_slot.clone(), plans.clone());
    let f: PlanFn = Rc::new(move |i, _| {
        let (mut r, g) = pl[i.min(pl.len() - 1)].clone();
        if let Some(k) = g {
            let gate = gs.borrow().clone().expect("gate");
            r.body.steps.insert(k.min(r.body.steps.len()), Step::Gate(gate));
            r.body.honest_end = false;
        }
        r
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, f);
    *gate_slot.borrow_mut() = Some(srv.gate.clone());
    let snap: Rc<RefCell<Option<Snap>>> = Default::default();
    {
        let lens: Vec<usize> = plans.iter().map(|p| p.0.body.len() as usize).collect();
        let (snap, calls, stats, st, rx) = (snap.clone(), srv.calls.clone(), srv.stats.clone(), srv.io.st.clone(), srv.io.rx.clone());
        *srv.ctl.on_take.borrow_mut() = Some(Box::new(move || {
            if let Some(sn) = snap.borrow_mut().as_mut() {
                // asked again: only what may be cut from here on changes
                sn.resp_over = stats.borrow().iter().map(|b| b.borrow().dropped).collect();
                sn.resp_sent = stats.borrow().iter().enumerate().map(|(i, b)| b.borrow().polled_data >= lens[i]).collect();
                return;
            }
            let c = calls.borrow();
            let i = lock(&st);
            *snap.borrow_mut() = Some(Snap {
                calls: c.len(),
                responded: c.iter().map(|c| c.responded).collect(),
                written: i.written,
                read: i.read_total,
                fed: lock(&rx).total_in,
                body_over: c.iter().map(|c| c.got.over()).collect(),
                resp_sent: stats.borrow().iter().enumerate().map(|(i, b)| b.borrow().polled_data >= lens[i]).collect(),
                resp_over: stats.borrow().iter().map(|b| b.borrow().dropped).collect(),
            });
        }));
    }
    let ctl = srv.ctl.clone();
    // up to and including the graceful request
    ensure!(play_no_settle(&mut srv, &ctl, &segs[..=gpos]), "spin", "connection keeps waking itself: {}", srv.show_state());
    if stop_here {
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself: {}", srv.show_state());
        let sn = snap.borrow().clone();
        if srv.ended().is_none() {
            // somebody must still have something to do
            let sn = sn.unwrap_or_default();
            let c = srv.calls.borrow();
            let fed: usize = segs[..gpos].iter().map(|g| if let Seg::Bytes(b) = g { b.len() } else { 0 }).sum();
            let waiting_app = c.iter().any(|c| !c.responded) || srv.stats.borrow().iter().any(|b| !b.borrow().dropped);
            let waiting_body = c.len() <= r.msgs.len() && !c.is_empty() && !c[c.len() - 1].got.over() && fed < r.msgs[c.len() - 1].pos;
            let first_partial = c.is_empty() && sn.read > 0;
            ensure!(waiting_app || waiting_body || first_partial, "not-closed", "graceful shutdown of a connection with nothing in flight did not end it: {}", srv.show_state());
        }
    }
    ensure!(play(&mut srv.ex, &srv.io, Some(&ctl), &segs[gpos + 1..]), "spin", "connection keeps waking itself: {}", srv.show_state());
    srv.gate.open();
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself: {}", srv.show_state());

    let calls = srv.calls.borrow().clone();
    let Some(sn) = snap.borrow().clone() else {
        // the connection was over before the request could be made
        ensure!(srv.ended().is_some(), "harness", "graceful never taken");
        cx.label("already-ended");
        return Ok(());
    };
    // classify
    let k = sn.calls;
    cx.label_if(sn.fed == 0, "before-input");
    let running = sn.responded.iter().any(|x| !x);
    let resp_open = sn.resp_over.iter().any(|x| !x);
    let body_open = sn.body_over.iter().any(|x| !x);
    cx.label_if(running, "service-running");
    cx.label_if(resp_open, "response-body-open");
    cx.label_if(body_open, "request-body-open");
    cx.label_if(!running && !resp_open && !body_open && k > 0, "idle");
    cx.label_if(k == 0 && sn.read > 0 && r.msgs.first().is_some_and(|m| (sn.read as usize) < m.head_end), "first-head-partial");
    cx.label_if(k > 0 && k < r.msgs.len() && sn.read as usize > r.msgs[k - 1].pos && (sn.read as usize) < r.msgs[k].head_end, "next-head-partial");
    cx.label_if((sn.fed as usize) < bytes.len(), "more-input-after");
    cx.label_if(body_open && !running && plans[..k.min(n)].iter().any(|(p, _)| p.read == ReadPlan::Background), "background-body");
    cx.label_if(!io_cfg.write.is_full() || !io_cfg.flush.is_full(), "pending-write");
    cx.nontrivial = running || resp_open || body_open || (sn.fed as usize) < bytes.len();

    // nothing more is taken
    let max = if k == 0 && sn.read > 0 { 1 } else { k };
    ensure!(calls.len() <= max, "taken-after", "{k} requests had been received at graceful shutdown, {} were delivered in the end", calls.len());
    ensure!(calls.len() <= r.msgs.len(), "extra-request", "{} requests delivered, {} sent", calls.len(), r.msgs.len());
    let methods: Vec<Vec<u8>> = calls.iter().map(|c| c.method.clone().into_bytes()).collect();
    let out = srv.io.output();
    let w = match wire::responses(&out, &methods, true) {
        Ok(w) => w,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    // what was received is completed
    ensure!(w.msgs.len() == calls.len() && w.rest == 0 && !w.partial, "lost-response", "{} responses for {} requests in {}", w.msgs.len(), calls.len(), show(&out));
    for (i, c) in calls.iter().enumerate() {
        let m = &r.msgs[i];
        ensure!(m.end == BodyEnd::Complete, "harness", "incomplete request generated");
        // once its response is complete, an upload the service left to a background task may be cut
        let resp_done = i < sn.resp_over.len() && (sn.resp_over[i] || sn.resp_sent[i]);
        if resp_done && plans[i].0.read == ReadPlan::Background && !c.got.ended {
            ensure!(m.body.starts_with(&c.got.data), "lost-request-body", "request {i}: wrong body bytes");
            cx.label("background-cut");
        } else {
        ensure!(c.got.clean() && c.got.data == m.body, "lost-request-body", "request {i}: body {} of {} bytes, ended={} err={:?}", c.got.data.len(), m.body.len(), c.got.ended, c.got.err);
        }
        let x = &w.msgs[i];
        let want = plans[i].0.body.data();
        ensure!(x.complete, "lost-response", "response {i} is incomplete: {}", x.show());
        let bodyless = c.method == "HEAD" || (m.version == 10 && plans[i].0.body.hint != crate::body::Hint::Exact && !plans[i].0.body.exact());
        if !bodyless && x.framing != wire::Framing::None {
            ensure!(x.body == want, "lost-response", "response {i}: body {} of {} bytes", x.body.len(), want.len());
        }
        if i < sn.responded.len() && sn.responded[i] {
            cx.label_if(x.end as u64 > sn.written, "unwritten-output");
        } else {
            // head produced after the request to shut down
            ensure!(!x.persistent(), "no-close", "response {i} was begun after graceful shutdown but does not say the connection closes: {}", x.show());
        }
    }
    // and the connection ends by itself, without error
    let first_partial = k == 0 && sn.read > 0 && calls.is_empty() && r.msgs.is_empty();
    if !first_partial {
        let Some(e) = srv.ended() else { fail!("not-closed", "the connection did not end after graceful shutdown: {}", srv.show_state()) };
        ensure!(e.ok, "error", "graceful shutdown ended with {}", e.text);
        ensure!(srv.io.shutdown(), "not-shutdown", "the transport was not shut down");
    }
    Ok(())
}

/// like play, without running to quiet at the end
fn play_no_settle(srv: &mut Srv, ctl: &Ctl, segs: &[Seg]) -> bool {
    for g in segs {
        match g {
            Seg::Bytes(b) => feed(&srv.io.rx, b),
            Seg::Settle => {
                if srv.ex.run() == Stall::Spinning {
                    return false;
                }
            }
            Seg::Steps(n) => {
                srv.ex.run_steps(*n);
            }
            Seg::Graceful => ctl.graceful(),
            _ => {}
        }
    }
    true
}
