//! HTTP/2: what is configured is announced, and limits are kept in both directions.
use crate::cli::{self, Outcome, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg, Opt};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C33",
        run,
        quick: 500_000,
        thorough: 5_000_000,
        max_len: 300,
        rule: "a case is a hyper HTTP/2 server or client built by a generated sequence of builder calls and a scripted peer that reads its SETTINGS and then works at one of the limits (streams, frame size, header list, resets before accepting, errors); non-trivial when an option differs from its default or a limit is reached",
        must_labels: &[
            "server", "client", "defaults", "adaptive", "adaptive-undone", "none-undone", "streams", "streams-over", "streams-default", "streams-none", "frame", "frame-over", "list", "list-over", "pending", "pending-over", "local", "local-over", "local-none",
            "initial", "raised", "lowered", "zero", "slow-peer",
        ],
    }
}

/// What the sequence of calls amounts to.
#[derive(Clone, Debug)]
struct Model {
    stream: u32,
    conn: u32,
    adaptive: bool,
    frame: u32,
    streams: Option<u32>,
    list: u32,
    table: u32,
    connect: bool,
    local: Option<usize>,
    pending: usize,
    initial: usize,
}

fn model(srv: bool, calls: &[Opt]) -> Model {
    let mut m = if srv {
        Model { stream: 1 << 20, conn: 1 << 20, adaptive: false, frame: 16_384, streams: Some(200), list: 16_384, table: 4096, connect: false, local: Some(1024), pending: 20, initial: 0 }
    } else {
        Model { stream: 2 << 20, conn: 5 << 20, adaptive: false, frame: 16_384, streams: None, list: 16_384, table: 4096, connect: false, local: Some(1024), pending: 20, initial: 100 }
    };
    for o in calls {
        match o.clone() {
            Opt::StreamWin(Some(n)) => {
                m.stream = n;
                m.adaptive = false;
            }
            Opt::ConnWin(Some(n)) => {
                m.conn = n;
                m.adaptive = false;
            }
            Opt::Adaptive(n) => {
                m.adaptive = n;
                if n {
                    m.stream = 65_535;
                    m.conn = 65_535;
                }
            }
            Opt::MaxFrame(n) => match n {
                Some(n) => m.frame = n,
                // only on a client does this take back what was set
                None if !srv => m.frame = 16_384,
                None => {}
            },
            Opt::Streams(n) => m.streams = n,
            Opt::List(n) => m.list = n,
            Opt::Table(n) => m.table = n.unwrap_or(4096),
            Opt::Connect => m.connect |= srv,
            Opt::Local(n) => m.local = n,
            Opt::Pending(n) => m.pending = n.unwrap_or(20),
            Opt::Initial(Some(n)) if !srv => m.initial = n,
            _ => {}
        }
    }
    m
}

fn gen_calls(s: &mut Src, focus: usize) -> Vec<Opt> {
    let mut v = vec![];
    let n = s.weighted(&[3, 3, 3, 2, 1, 1]);
    for _ in 0..n {
        v.push(match s.below(13) {
            0 => Opt::StreamWin(if s.chance(40) { None } else { Some(*s.pick(&[0u32, 1, 1000, 65_535, 65_536, 1 << 20, (1 << 31) - 1])) }),
            1 => Opt::ConnWin(if s.chance(40) { None } else { Some(*s.pick(&[65_535u32, 65_536, 100_000, 1 << 20, (1 << 31) - 1])) }),
            2 => Opt::Adaptive(true),
            3 => Opt::Adaptive(false),
            4 => Opt::MaxFrame(if s.chance(60) { None } else { Some(*s.pick(&[16_384u32, 16_385, 20_000, 65_536, (1 << 24) - 1])) }),
            5 => Opt::Streams(if s.chance(60) { None } else { Some(*s.pick(&[0u32, 1, 2, 5, 100, 1000, u32::MAX])) }),
            6 => Opt::List(*s.pick(&[300u32, 1000, 16_384, 20_000, 1 << 20])),
            7 => Opt::Table(if s.chance(60) { None } else { Some(*s.pick(&[0u32, 1, 100, 4096, 65_536])) }),
            8 => Opt::Connect,
            9 => Opt::Local(if s.chance(60) { None } else { Some(*s.pick(&[0usize, 1, 3, 10])) }),
            10 => Opt::Pending(if s.chance(60) { None } else { Some(*s.pick(&[0usize, 1, 3, 10])) }),
            11 => Opt::Interval(None),
            _ => Opt::Initial(if s.chance(60) { None } else { Some(*s.pick(&[1usize, 2, 5])) }),
        });
    }
    if focus != 5 {
        // (refusals count as well)
        v.retain(|o| !matches!(o, Opt::Local(Some(_))));
    }
    // the limit that is looked at has a last word
    let o = match focus {
        1 => Some(Opt::Streams(*s.pick(&[Some(1u32), Some(2), Some(3), Some(7), None, Some(0)]))),
        2 => Some(Opt::MaxFrame(Some(*s.pick(&[16_384u32, 16_385, 20_000, 40_000, 65_536])))),
        3 => Some(Opt::List(*s.pick(&[400u32, 1000, 5000, 16_384, 20_000]))),
        4 => Some(Opt::Pending(*s.pick(&[Some(0usize), Some(1), Some(3), Some(10), None]))),
        5 => Some(Opt::Local(*s.pick(&[Some(0usize), Some(1), Some(3), Some(10), None]))),
        _ => None,
    };
    if let Some(o) = o {
        if s.chance(170) {
            v.push(o);
        }
    }
    v
}

fn announced(peer: &Peer, m: &Model, srv: bool, st: &str) -> R {
    let got = |id: u16, d: u32| peer.raw.get(&id).copied().unwrap_or(d);
    ensure!(peer.settings_seen == 1, "announce", "{} SETTINGS frames at the start: {st}", peer.settings_seen);
    ensure!(got(4, 65_535) == m.stream, "announce", "initial window {} announced, {} configured: {st}", got(4, 65_535), m.stream);
    ensure!(got(5, 16_384) == m.frame, "announce", "frame size {} announced, {} configured: {st}", got(5, 16_384), m.frame);
    ensure!(peer.raw.get(&3).copied() == m.streams, "announce", "{:?} streams announced, {:?} configured: {st}", peer.raw.get(&3), m.streams);
    ensure!(peer.raw.get(&6).copied() == Some(m.list), "announce", "header list of {:?} announced, {} configured: {st}", peer.raw.get(&6), m.list);
    ensure!(got(1, 4096) == m.table, "announce", "header table of {} announced, {} configured: {st}", got(1, 4096), m.table);
    ensure!(got(8, 0) == m.connect as u32, "announce", "extended CONNECT {} announced: {st}", got(8, 0));
    if srv {
        ensure!(got(2, 0) == 0, "announce", "a server announces push: {st}");
    } else {
        ensure!(got(2, 1) == 0, "announce", "a client lets the peer push: {st}");
    }
    let conn = 65_535 + peer.conn_granted;
    // (a small rest is left for a later update)
    let rest = m.conn < 98_303 && (65_535..=m.conn.max(65_535) as u64).contains(&conn);
    ensure!(rest || conn == m.conn as u64, "announce", "connection window {conn}, {} configured: {st}", m.conn);
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let srv = s.chance(140);
    cx.label(if srv { "server" } else { "client" });
    let focus = s.weighted(&[2, 3, 2, 2, 2, 2]);
    if srv {
        server(s, cx, focus)
    } else {
        client(s, cx, focus)
    }
}

fn labels(cx: &mut Cx, m: &Model, calls: &[Opt]) {
    cx.label_if(calls.is_empty(), "defaults");
    cx.nontrivial |= !calls.is_empty();
    cx.label_if(m.adaptive, "adaptive");
    cx.label_if(!m.adaptive && calls.iter().any(|o| matches!(o, Opt::Adaptive(true))), "adaptive-undone");
    cx.label_if(calls.iter().any(|o| matches!(o, Opt::MaxFrame(None) | Opt::Streams(None) | Opt::Table(None))), "none-undone");
}

/// size of a header list as HTTP/2 counts it
fn list_size(f: &Fields) -> usize {
    f.iter().map(|(n, v)| n.len() + v.len() + 32).sum()
}

fn server(s: &mut Src, cx: &mut Cx, focus: usize) -> R {
    let mut calls = gen_calls(s, focus);
    if focus > 1 {
        // (other limits are looked at)
        calls.retain(|o| !matches!(o, Opt::Streams(Some(n)) if *n < 5));
    }
    let m = model(true, &calls);
    labels(cx, &m, &calls);
    let cfg = H2Cfg { calls: calls.clone(), no_date: true, timer: true, ..H2Cfg::default() };
    let mut ex = Exec::new(Plan::gen(s, 6));
    ex.max_polls = 400_000;
    let slow = s.chance(60);
    let ic = if slow { IoCfg { cap: usize::MAX, ..IoCfg::gen_coarse(s) } } else { IoCfg::plain() };
    cx.label_if(slow, "slow-peer");
    let (io, h) = scripted(&ex.events, &ic);
    let gated = focus == 1;
    let pf: PlanFn = Rc::new(move |_, _| {
        let mut p = RespPlan::simple();
        p.version = http::Version::HTTP_2;
        p.read = if gated { ReadPlan::Gated(0) } else { ReadPlan::All };
        p
    });
    let sp = h2::serve(&mut ex, &cfg, io, pf);
    let mut peer = Peer::new(false);
    peer.hello(&[]);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {
            format!("focus {focus} {} {m:?} io[{}] calls {:?} end={:?} goaways {:?} frames {}", cfg.show(), ic.show(), sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?}", c.uri, c.got.data.len(), c.got.ended, c.got.err)).collect::<Vec<_>>(), sp.end.borrow().as_ref().map(|e| e.text.clone()), peer.goaways, peer.show())
        };
    }
    cx.describe(|| format!("server focus {focus} {} io[{}]", cfg.show(), ic.show()));
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    announced(&peer, &m, true, &state!())?;
    let get = |p: &str| super::c20::req_fields("GET", p, &[]);
    let served = |peer: &Peer, sid: u32| peer.streams[&sid].ended && peer.streams[&sid].head().and_then(status) == Some(200);
    match focus {
        1 => {
            // streams: never more at work than announced
            let lim = m.streams.unwrap_or(u32::MAX) as usize;
            let big = lim == 200 && s.chance(30);
            cx.label_if(big, "streams-default");
            cx.label_if(lim == u32::MAX as usize, "streams-none");
            if lim > 10 && !big && lim != u32::MAX as usize {
                return Ok(());
            }
            cx.label("streams");
            cx.nontrivial = true;
            let k = if lim == u32::MAX as usize { s.range(1, 12) } else { lim + s.below(4) };
            let mut over = 0;
            let mut done = 0;
            for round in 0..s.range(1, 3) {
                let mut sids = vec![];
                let before = sp.calls.borrow().len();
                for i in 0..k {
                    let sid = peer.open(&get(&format!("/{round}-{i}")), s.chance(128));
                    sids.push(sid);
                    if s.chance(60) {
                        nudge(&mut ex, &h, &mut peer, 5).map_err(fix)?;
                    }
                }
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                let started = sp.calls.borrow().len() - before;
                ensure!(started == k.min(lim), "streams", "{started} of {k} requests were started, {lim} may be open at once: {}", state!());
                for (i, sid) in sids.iter().enumerate() {
                    let st = &peer.streams[sid];
                    ensure!(st.heads.is_empty(), "harness", "gated response sent");
                    if i < lim {
                        ensure!(st.reset.is_none(), "streams", "request {i} was reset with {:?}: {}", st.reset, state!());
                    } else {
                        over += 1;
                        ensure!(st.reset == Some(7), "refused", "request {i} beyond the limit was not refused: {:?}: {}", st.reset, state!());
                    }
                }
                ensure!(peer.goaways.is_empty() && sp.end.borrow().is_none(), "connection-hit", "a refused stream ended the connection: {}", state!());
                // let them finish
                for (i, sid) in sids.iter().enumerate() {
                    if i < lim && !peer.streams[sid].my_end {
                        peer.send(*sid, b"", true);
                    }
                }
                let cs: Vec<_> = sp.calls.borrow().iter().map(|c| c.gates.clone()).collect();
                for g in cs {
                    open_gates(&g, usize::MAX);
                }
                sp.gate.open();
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                for (i, sid) in sids.iter().enumerate() {
                    if i < lim {
                        done += 1;
                        ensure!(served(&peer, *sid), "healthy-hit", "request {i} within the limit was not served: {}", state!());
                    }
                }
                sp.gate.close();
            }
            let _ = done;
            cx.label_if(over > 0, "streams-over");
        }
        2 => {
            // frame size
            if m.frame > 70_000 {
                return Ok(());
            }
            cx.label("frame");
            let over = s.chance(110);
            cx.label_if(over, "frame-over");
            let n = m.frame as usize + over as usize * *s.pick(&[1usize, 2, 1000]);
            if !over && (m.stream < m.frame || peer.conn_credit < m.frame as i64) {
                return Ok(());
            }
            cx.nontrivial = true;
            let sid = peer.open(&super::c20::req_fields("POST", "/f", &[]), false);
            let b = payload(3, n);
            peer.out.extend(data(sid, &b, true));
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            if over {
                ensure!(peer.goaways.iter().any(|g| g.1 == 6) && sp.end.borrow().as_ref().is_some_and(|e| !e.ok), "frame-over", "a frame of {n} bytes was taken, {} are allowed: {}", m.frame, state!());
                return Ok(());
            }
            let c = sp.calls.borrow();
            ensure!(c.len() == 1 && c[0].got.clean() && c[0].got.data == b, "frame", "a frame of {n} bytes was not taken: {}", state!());
        }
        3 => {
            // header list
            if m.list > 70_000 {
                return Ok(());
            }
            cx.label("list");
            let over = s.chance(110);
            cx.label_if(over, "list-over");
            cx.nontrivial = true;
            let mut f = get("/l");
            let base = list_size(&f) + 35;
            let want = if over { m.list as usize + 110 } else { (m.list as usize).saturating_sub(110) };
            if want < base {
                return Ok(());
            }
            f.push((b"x-l".to_vec(), vec![b'a'; want - base]));
            let enc = encode(&f, 0);
            let other = peer.open(&get("/o"), true);
            let sid = peer.next_sid;
            if enc.len() > m.frame as usize {
                // in pieces
                peer.next_sid += 2;
                peer.headers(sid, &get("/unused"), true);
                let n = headers(sid, &encode(&get("/unused"), 0), true).len();
                let keep = peer.out.len() - n;
                peer.out.truncate(keep);
                let (a, b) = enc.split_at(16_000);
                peer.out.extend(frame(k::HEADERS, 1, sid, a));
                let mut rest = b;
                while !rest.is_empty() {
                    let (x, y) = rest.split_at(rest.len().min(16_000));
                    peer.out.extend(frame(k::CONT, if y.is_empty() { 4 } else { 0 }, sid, x));
                    rest = y;
                }
            } else {
                peer.open(&f, true);
            }
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(served(&peer, other), "healthy-hit", "the other request was not served: {}", state!());
            let c = sp.calls.borrow();
            let seen = c.iter().any(|c| c.uri.ends_with("/l"));
            if over {
                let st = &peer.streams[&sid];
                ensure!(!seen && st.head().and_then(status) == Some(431), "list-over", "a header list of {want} bytes was not answered with 431: {:?} reset={:?}: {}", st.head().and_then(status), st.reset, state!());
            } else {
                ensure!(seen && served(&peer, sid), "list", "a header list of {want} bytes was not taken: {}", state!());
            }
        }
        4 if !slow => {
            // streams that were reset before they could be accepted
            cx.label("pending");
            cx.nontrivial = true;
            if m.streams.is_some_and(|n| n < 50) {
                return Ok(());
            }
            let over = s.chance(128);
            cx.label_if(over, "pending-over");
            let n = if over { m.pending + s.range(1, 5) } else { m.pending.saturating_sub(s.below(3)) };
            for i in 0..n {
                let sid = peer.open(&get(&format!("/p{i}")), true);
                peer.reset(sid, 8);
            }
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            if over {
                ensure!(peer.goaways.iter().any(|g| g.1 == 11) && sp.end.borrow().as_ref().is_some_and(|e| !e.ok), "pending-over", "{n} streams reset before they were accepted, {} are allowed: {}", m.pending, state!());
                return Ok(());
            }
            let sid = peer.open(&get("/o"), true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(served(&peer, sid), "pending", "{n} of {} streams reset before they were accepted, and the connection is gone: {}", m.pending, state!());
        }
        5 => {
            // streams this side has to reset because the peer is at fault
            let lim = m.local.unwrap_or(usize::MAX);
            if lim > 100 && lim != usize::MAX || m.streams == Some(0) {
                return Ok(());
            }
            cx.label("local");
            cx.nontrivial = true;
            cx.label_if(lim == usize::MAX, "local-none");
            let over = lim != usize::MAX && s.chance(128);
            cx.label_if(over, "local-over");
            let n = if over { lim + s.range(1, 4) } else if lim == usize::MAX { s.below(30) } else { lim };
            for i in 0..n {
                let mut f = super::c20::req_fields("POST", &format!("/m{i}"), &[]);
                f.push((b"content-length".to_vec(), b"5".to_vec()));
                peer.open(&f, true);
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
            }
            if over {
                ensure!(peer.goaways.iter().any(|g| g.1 == 11) && sp.end.borrow().as_ref().is_some_and(|e| !e.ok), "local-over", "{n} malformed requests, {lim} are allowed: {}", state!());
                return Ok(());
            }
            let sid = peer.open(&get("/o"), true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(served(&peer, sid), "local", "{n} of {lim} malformed requests, and the connection is gone: {}", state!());
        }
        _ => {
            // data makes an adaptive endpoint measure, others send no pings
            if m.streams == Some(0) || m.stream < 100 {
                return Ok(());
            }
            let sid = peer.open(&super::c20::req_fields("POST", "/a", &[]), false);
            peer.send(sid, &payload(1, 100), false);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            peer.send(sid, b"", true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(peer.pings.is_empty() != m.adaptive, "adaptive", "{} pings with adaptive windows {}: {}", peer.pings.len(), m.adaptive, state!());
            ensure!(served(&peer, sid), "healthy-hit", "the request was not served: {}", state!());
        }
    }
    Ok(())
}

fn client(s: &mut Src, cx: &mut Cx, focus: usize) -> R {
    let calls = gen_calls(s, if focus == 4 { 1 } else { focus });
    let m = model(false, &calls);
    labels(cx, &m, &calls);
    let cfg = H2Cfg { calls: calls.clone(), timer: true, ..H2Cfg::default() };
    let mut ex = Exec::new(Plan::gen(s, 6));
    ex.max_polls = 400_000;
    let slow = s.chance(60);
    let ic = if slow { IoCfg { cap: usize::MAX, ..IoCfg::gen_coarse(s) } } else { IoCfg::plain() };
    cx.label_if(slow, "slow-peer");
    let (io, h) = scripted(&ex.events, &ic);
    let cp = h2::connect(&mut ex, &cfg, io);
    let mut peer = Peer::new(true);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {
            format!("focus {focus} {} {m:?} io[{}] calls {:?} end={:?} goaways {:?} frames {}", cfg.show(), ic.show(), cp.env.calls.borrow().iter().map(|c| format!("{:?} got {} ended={} err={:?}", c.out, c.got.data.len(), c.got.ended, c.got.err)).collect::<Vec<_>>(), cp.env.end.borrow().as_ref().map(|e| e.text.clone()), peer.goaways, peer.show())
        };
    }
    cx.describe(|| format!("client focus {focus} {} io[{}]", cfg.show(), ic.show()));
    let ask = |i: usize| {
        let mut q = ReqPlan::get();
        q.version = http::Version::HTTP_2;
        q.uri = format!("http://a.test/{i}");
        q
    };
    let open = |p: &Peer| p.streams.values().filter(|v| !(v.ended && v.my_end) && v.reset.is_none() && v.my_reset.is_none()).count();
    let ok = |i: usize| matches!(&cp.env.calls.borrow()[i].out, Some(Outcome::Resp(h)) if h.status == 200) && cp.env.calls.borrow()[i].got.clean();
    let find = |peer: &Peer, i: usize| -> Option<u32> {
        let path = format!("/{i}");
        peer.streams.iter().find(|(_, v)| v.heads.first().and_then(|h| field(h, ":path")) == Some(path.as_bytes())).map(|e| *e.0)
    };
    let early = (focus == 1 || focus == 4) && s.chance(128);
    let n = s.range(1, 9);
    if early {
        // what may be opened before the peer has said anything
        cx.label("initial");
        cx.nontrivial = true;
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        cli::concurrent(&mut ex, &cp.env, (0..n).map(ask).collect());
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        ensure!(open(&peer) == n.min(m.initial), "initial", "{} requests were sent before the peer's settings, {} are allowed: {}", open(&peer), m.initial, state!());
    }
    let lim = if focus == 1 || focus == 4 { *s.pick(&[Some(1u32), Some(2), Some(3), Some(5), None, Some(0), Some(200)]) } else { None };
    cx.label_if(lim == Some(0), "zero");
    let list: Vec<(u16, u32)> = lim.iter().map(|n| (3, *n)).collect();
    peer.hello(&list);
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    announced(&peer, &m, false, &state!())?;
    match focus {
        1 | 4 => {
            cx.label("streams");
            cx.nontrivial = true;
            if !early {
                cli::concurrent(&mut ex, &cp.env, (0..n).map(ask).collect());
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
            }
            // (what an endpoint without a limit in the peer's settings goes by)
            let mut cur = lim.map(|n| n as usize).unwrap_or(if early { usize::MAX } else { usize::MAX });
            let mut answered = 0;
            let mut held = if early { n.min(m.initial) } else { 0 };
            let mut round = 0;
            let mut answer: Vec<u32> = vec![];
            while answered < n {
                round += 1;
                ensure!(round < 60, "harness", "no end: {}", state!());
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                let o = open(&peer);
                let left = n - answered;
                // streams opened under an earlier limit stay
                held = held.min(o);
                let max = cur.max(held);
                ensure!(o <= max, "streams-over", "{o} streams are open, the peer allows {cur}: {}", state!());
                cx.label_if(left > cur, "streams-over");
                ensure!(o >= left.min(cur), "starved", "{o} streams are open of {left} left, the peer allows {cur}: {}", state!());
                if o == 0 || s.chance(50) {
                    let c = *s.pick(&[1usize, 2, 4, 8, 0]);
                    let c = if o == 0 { c.max(1) } else { c };
                    cx.label(if c > cur { "raised" } else { "lowered" });
                    held = o;
                    cur = c;
                    peer.settings(&[(3, c as u32)]);
                    continue;
                }
                answer.clear();
                answer.extend(peer.streams.iter().filter(|(_, v)| v.ended && !v.my_end).map(|e| *e.0));
                let sid = *s.pick(&answer);
                let b = payload(1, *s.pick(&[0usize, 10, 2000]));
                peer.headers(sid, &fields(&[(":status", "200")]), b.is_empty() || m.stream < 2000);
                if !b.is_empty() && m.stream >= 2000 {
                    peer.send(sid, &b, true);
                }
                answered += 1;
            }
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!((0..n).all(ok), "lost", "not every request got its answer: {}", state!());
        }
        2 => {
            if m.frame > 70_000 {
                return Ok(());
            }
            cx.label("frame");
            let over = s.chance(110);
            cx.label_if(over, "frame-over");
            let n = m.frame as usize + over as usize * *s.pick(&[1usize, 2, 1000]);
            if !over && (m.stream < m.frame || peer.conn_credit < m.frame as i64) {
                return Ok(());
            }
            cx.nontrivial = true;
            cli::concurrent(&mut ex, &cp.env, vec![ask(0)]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            let Some(sid) = find(&peer, 0) else { fail!("lost", "the request was not sent: {}", state!()) };
            peer.headers(sid, &fields(&[(":status", "200")]), false);
            let b = payload(3, n);
            peer.out.extend(data(sid, &b, true));
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            if over {
                ensure!(peer.goaways.iter().any(|g| g.1 == 6) && !ok(0), "frame-over", "a frame of {n} bytes was taken, {} are allowed: {}", m.frame, state!());
                return Ok(());
            }
            ensure!(ok(0) && cp.env.calls.borrow()[0].got.data == b, "frame", "a frame of {n} bytes was not taken: {}", state!());
        }
        3 => {
            if m.list > 70_000 {
                return Ok(());
            }
            cx.label("list");
            let over = s.chance(110);
            cx.label_if(over, "list-over");
            cx.nontrivial = true;
            cli::concurrent(&mut ex, &cp.env, vec![ask(0), ask(1)]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            let (Some(a), Some(b)) = (find(&peer, 0), find(&peer, 1)) else { fail!("lost", "the requests were not sent: {}", state!()) };
            let mut f = fields(&[(":status", "200")]);
            let base = list_size(&f) + 35;
            let want = if over { m.list as usize + 110 } else { (m.list as usize).saturating_sub(110) };
            if want < base {
                return Ok(());
            }
            f.push((b"x-l".to_vec(), vec![b'a'; want - base]));
            let enc = encode(&f, 0);
            let (mut rest, mut first) = (&enc[..], true);
            while !rest.is_empty() {
                let (x, y) = rest.split_at(rest.len().min(16_000));
                let e = if y.is_empty() { 4 } else { 0 };
                let t = frame(if first { k::HEADERS } else { k::CONT }, e | first as u8, a, x);
                peer.out.extend(t);
                first = false;
                rest = y;
            }
            if let Some(st) = peer.streams.get_mut(&a) {
                st.my_end = true;
            }
            peer.headers(b, &fields(&[(":status", "200")]), true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(ok(1), "healthy-hit", "the other request failed: {}", state!());
            if over {
                ensure!(matches!(&cp.env.calls.borrow()[0].out, Some(Outcome::Err { .. })), "list-over", "a header list of {want} bytes was taken: {}", state!());
            } else {
                ensure!(ok(0), "list", "a header list of {want} bytes was not taken: {}", state!());
            }
        }
        5 => {
            let lim = m.local.unwrap_or(usize::MAX);
            if lim > 100 && lim != usize::MAX {
                return Ok(());
            }
            cx.label("local");
            cx.nontrivial = true;
            cx.label_if(lim == usize::MAX, "local-none");
            let over = lim != usize::MAX && s.chance(128);
            cx.label_if(over, "local-over");
            let n = if over { lim + s.range(1, 4) } else if lim == usize::MAX { s.below(30) } else { lim };
            for i in 0..n {
                cli::concurrent(&mut ex, &cp.env, vec![ask(i)]);
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                let Some(sid) = find(&peer, i) else {
                    ensure!(over, "local", "request {i} of {n} was not sent, {lim} failures are allowed: {}", state!());
                    break;
                };
                peer.headers(sid, &fields(&[(":status", "200"), ("content-length", "5")]), true);
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
            }
            if over {
                ensure!(peer.goaways.iter().any(|g| g.1 == 11), "local-over", "{n} malformed responses, {lim} are allowed: {}", state!());
                return Ok(());
            }
            cli::concurrent(&mut ex, &cp.env, vec![ask(n)]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            if let Some(sid) = find(&peer, n) {
                peer.headers(sid, &fields(&[(":status", "200")]), true);
            }
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(ok(n), "local", "{n} of {lim} malformed responses, and the connection is gone: {}", state!());
        }
        _ => {
            if m.stream < 100 {
                return Ok(());
            }
            cli::concurrent(&mut ex, &cp.env, vec![ask(0)]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            let Some(sid) = find(&peer, 0) else { fail!("lost", "the request was not sent: {}", state!()) };
            peer.headers(sid, &fields(&[(":status", "200")]), false);
            peer.send(sid, &payload(1, 100), false);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            peer.send(sid, b"", true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(peer.pings.is_empty() != m.adaptive, "adaptive", "{} pings with adaptive windows {}: {}", peer.pings.len(), m.adaptive, state!());
            ensure!(ok(0), "healthy-hit", "the request failed: {}", state!());
        }
    }
    Ok(())
}
