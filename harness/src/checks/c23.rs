//! HTTP/2: graceful shutdown.
use crate::body::Step;
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C23",
        run,
        quick: 600_000,
        thorough: 5_000_000,
        max_len: 500,
        rule: "a case is a hyper HTTP/2 server with 0-6 streams from a raw peer in generated stages and graceful shutdown requested at a generated moment (or never), possibly before or within the handshake; non-trivial when streams are open, requested or arriving around the shutdown",
        must_labels: &["never", "before-bytes", "in-preface", "idle", "service-running", "response-open", "upload-open", "race", "late", "late-pong", "twice", "peer-reset", "after-all"],
    }
}

#[derive(Clone, Debug)]
enum Act {
    Open(bool),
    Data(Vec<u8>, bool),
    Trailers,
    Reset,
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = H2Cfg::gen(s);
    cfg.max_streams = None;
    cfg.adaptive = false;
    if cfg.stream_window.is_some_and(|w| w < 1000) {
        cfg.stream_window = Some(1000);
    }
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let n = s.below(7);
    let my_win = *s.pick(&[65_535u32, 65_535, 1000, 200_000]);
    let never = s.chance(16);
    let mut plans: BTreeMap<String, RespPlan> = BTreeMap::new();
    let mut acts: Vec<VecDeque<Act>> = vec![];
    let mut bodies = vec![];
    let mut gates = vec![];
    for i in 0..n {
        let mut p = RespPlan::simple();
        p.version = http::Version::HTTP_2;
        p.delay = s.weighted(&[3, 1, 1]) * 4;
        p.post_delay = s.weighted(&[3, 1, 1]) * 4;
        p.pauses = Plan::gen(s, 3);
        p.body = super::c20::plain_body(s, 20_000);
        if s.chance(60) {
            let g = Gate::default();
            gates.push(g.clone());
            let at = s.below(p.body.steps.len() + 1);
            p.body.steps.insert(at, Step::Gate(g));
        }
        if s.chance(40) {
            p.body.steps.push(Step::Trailers(super::c19::gen_trailers(s)));
        }
        p.read = match s.weighted(&[4, 2, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Gated(s.below(2)),
            2 => ReadPlan::Background,
            _ => ReadPlan::Drop,
        };
        let body = payload(i as u8, *s.pick(&[0usize, 0, 5, 3000, 20_000]));
        let tr = s.chance(40);
        let mut a = VecDeque::new();
        let at_once = body.is_empty() && !tr && s.chance(200);
        a.push_back(Act::Open(at_once));
        if !at_once {
            let k = s.below(body.len() + 1);
            a.push_back(Act::Data(body[..k].to_vec(), false));
            a.push_back(Act::Data(body[k..].to_vec(), !tr));
            if tr {
                a.push_back(Act::Trailers);
            }
        }
        if s.chance(20) {
            let k = s.range(1, a.len());
            a.truncate(k);
            a.push_back(Act::Reset);
            // (the h2 crate never finishes with a stream it means to reset once its queued data is
            // out, when the peer resets it first while that data has no window)
            if p.read == ReadPlan::Drop {
                p.read = ReadPlan::Background;
            }
        }
        plans.insert(format!("/{i}"), p);
        acts.push(a);
        bodies.push(body);
    }
    let total: usize = acts.iter().map(|a| a.len()).sum();
    // how many actions come first
    let when = if never { usize::MAX } else { s.below(total + 2) };
    let early = if when == 0 && s.chance(128) { Some(s.below(PREFACE.len() + 30)) } else { None };
    if early.is_some() && cfg.stream_window.is_some_and(|w| w < 65_535) {
        // (the h2 crate loses window updates when a window shrinks under open streams)
        cfg.stream_window = Some(65_535);
    }
    let pong_after = if s.chance(80) { Some(s.below(6)) } else { None };
    let twice = s.chance(40);
    let late = s.chance(100);
    cx.describe(|| {
        let l: Vec<String> = (0..n).map(|i| format!("{:?} / {}", acts[i].iter().map(|a| match a { Act::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }), o => format!("{o:?}") }).collect::<Vec<_>>(), plans[&format!("/{i}")].show())).collect();
        format!("{} win={my_win} graceful@{} early={early:?} pong+{pong_after:?} twice={twice} late={late} io[{}] {}", cfg.show(), when as isize, ic.show(), l.join(" || "))
    });
    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 400_000;
    let (io, h) = scripted(&ex.events, &ic);
    let p2 = plans.clone();
    let pf: PlanFn = Rc::new(move |_, parts| p2.get(parts.uri.path()).cloned().unwrap_or_else(RespPlan::simple));
    let sp = h2::serve(&mut ex, &cfg, io, pf);
    let mut peer = Peer::new(false);
    peer.auto_ping = false;
    peer.hello(&[(4, my_win)]);
    peer.give(0, 5_000_000);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {
            format!("calls {:?} end={:?} goaways {:?} frames {}", sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?} responded={}", c.uri, c.got.data.len(), c.got.ended, c.got.err, c.responded)).collect::<Vec<_>>(), sp.end.borrow().as_ref().map(|e| e.text.clone()), peer.goaways, peer.show())
        };
    }
    let mut asked = false;
    if let Some(k) = early {
        cx.label(if k == 0 { "before-bytes" } else { "in-preface" });
        let o = std::mem::take(&mut peer.out);
        let k = k.min(o.len());
        feed(&h.rx, &o[..k]);
        ex.run_steps(s.below(20));
        sp.ctl.graceful();
        asked = true;
        ex.run_steps(s.below(20));
        feed(&h.rx, &o[k..]);
    } else if cfg.stream_window.is_some_and(|w| w < 65_535) {
        // (see above)
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
    }
    let mut sids = vec![0u32; n];
    let mut must = vec![false; n];
    let mut ponged = false;
    let mut seen_at = None;
    let mut step = 0;
    macro_rules! pong {
        () => {
            if !peer.pings.is_empty() && !ponged {
                let at = *seen_at.get_or_insert(step);
                if step >= at + pong_after.unwrap_or(0) {
                    cx.label_if(pong_after.is_some_and(|n| n > 0), "late-pong");
                    ponged = true;
                    let b = peer.pings[0];
                    peer.out.extend(ping(true, b));
                }
            }
        };
    }
    macro_rules! settle {
        () => {
            loop {
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                pong!();
                if peer.out.is_empty() {
                    break;
                }
            }
        };
    }
    loop {
        if step == when && !asked || asked && twice && step == when.saturating_add(2) {
            cx.label_if(asked, "twice");
            {
                let calls = sp.calls.borrow();
                let open: Vec<&PStream> = peer.streams.values().filter(|v| !v.done() && v.my_reset.is_none()).collect();
                let running = calls.iter().any(|c| !c.responded && !c.fut_dropped);
                cx.label_if(running, "service-running");
                cx.label_if(open.iter().any(|v| v.head().is_some()), "response-open");
                cx.label_if(open.iter().any(|v| !v.my_end), "upload-open");
                cx.label_if(open.is_empty(), "idle");
                cx.label_if(step >= total && n > 0, "after-all");
                cx.nontrivial |= !open.is_empty() || step < total;
            }
            sp.ctl.graceful();
            asked = true;
            if s.chance(128) {
                ex.run_steps(s.below(12));
            }
        }
        let live: Vec<usize> = (0..n).filter(|i| !acts[*i].is_empty()).collect();
        if live.is_empty() && (asked || never) {
            break;
        }
        step += 1;
        if let Some(i) = if live.is_empty() { None } else { Some(*s.pick(&live)) } {
            match acts[i].pop_front().unwrap() {
                Act::Open(end) => {
                    sids[i] = peer.open(&super::c20::req_fields("POST", &format!("/{i}"), &[]), end);
                    must[i] = !ponged;
                    cx.label_if(asked && !ponged, "race");
                    cx.label_if(ponged, "late");
                    cx.nontrivial |= asked;
                }
                Act::Data(b, e) => peer.send(sids[i], &b, e),
                Act::Trailers => peer.trailers(sids[i], &fields(&[("x-t", "1")])),
                Act::Reset => {
                    cx.label("peer-reset");
                    if peer.streams[&sids[i]].reset.is_none() {
                        peer.reset(sids[i], 8)
                    }
                }
            }
        }
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => nudge(&mut ex, &h, &mut peer, s.range(1, 25)).map_err(fix)?,
            _ => settle!(),
        }
        pong!();
    }
    settle!();
    step += 10;
    pong!();
    settle!();
    if never {
        cx.label("never");
        sp.gate.open();
        gates.iter().for_each(|g| g.open());
        settle!();
        ensure!(sp.end.borrow().is_none() && peer.goaways.is_empty(), "closed", "nobody asked the connection to end: {}", state!());
    } else {
        // promptly announced, and the connection is there while streams are
        ensure!(!peer.goaways.is_empty(), "not-announced", "no GOAWAY after graceful shutdown: {}", state!());
        let open = (0..n).any(|i| must[i] && !peer.streams[&sids[i]].done() && peer.streams[&sids[i]].my_reset.is_none());
        ensure!(!open || sp.end.borrow().is_none(), "cut", "the connection ended with streams open: {}", state!());
        if late && sp.end.borrow().is_none() && ponged {
            cx.label("late");
            let sid = peer.open(&super::c20::req_fields("GET", "/late", &[]), true);
            settle!();
            ensure!(peer.streams[&sid].heads.is_empty(), "late-served", "a stream opened after the shutdown is served: {}", state!());
        }
        sp.gate.open();
        settle!();
        gates.iter().for_each(|g| g.open());
        settle!();
    }
    let last = peer.goaways.last().map(|g| g.0).unwrap_or(u32::MAX);
    ensure!(peer.goaways.iter().all(|g| g.1 == 0), "error-code", "graceful shutdown announced as an error: {}", state!());
    let calls = sp.calls.borrow();
    for i in 0..n {
        let path = format!("/{i}");
        let st = &peer.streams[&sids[i]];
        let c = calls.iter().find(|c| c.uri.ends_with(&path));
        if !must[i] {
            ensure!(c.is_none() && st.heads.is_empty() && sids[i] > last, "late-served", "stream {i}, opened after the end was announced, was served: {}", state!());
            continue;
        }
        ensure!(sids[i] <= last, "refused", "stream {i}, opened before the end was announced, is said not to be served: {}", state!());
        if st.my_reset.is_some() {
            continue;
        }
        let p = &plans[&path];
        let Some(c) = c else { fail!("lost", "stream {i} was accepted and never served: {}", state!()) };
        ensure!(st.head().is_some() && st.ended && st.data == p.body.data() && st.reset.is_none_or(|c| c == 0), "lost", "response {i}: {} of {} bytes ended={} reset={:?}: {}", st.data.len(), p.body.len(), st.ended, st.reset, state!());
        if p.read != ReadPlan::Drop {
            ensure!(c.got.clean() && c.got.data == bodies[i], "lost", "request body {i}: {} of {} bytes ended={} err={:?}: {}", c.got.data.len(), bodies[i].len(), c.got.ended, c.got.err, state!());
        }
    }
    ensure!(!calls.iter().any(|c| c.uri.ends_with("/late")), "late-served", "a stream opened after the shutdown is served: {}", state!());
    drop(calls);
    if never {
        // still of use
        let sid = peer.open(&super::c20::req_fields("GET", "/late", &[]), true);
        settle!();
        ensure!(peer.streams[&sid].ended, "closed", "the connection serves no more: {}", state!());
        return Ok(());
    }
    match &*sp.end.borrow() {
        None => fail!("not-closed", "the connection did not end: {}", state!()),
        Some(e) => ensure!(e.ok, "error", "graceful shutdown ended with {}: {}", e.text, state!()),
    }
    ensure!(h.shutdown() || h.dropped(), "not-shutdown", "the transport is still open");
    let t = ex.clock.now() + std::time::Duration::from_secs(2);
    ensure!(ex.run_timed(t) == Stall::Quiet, "spin", "no end of activity: {}", state!());
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    Ok(())
}
