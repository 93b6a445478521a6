//! HTTP/2: flow control in both directions.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C21",
        run,
        quick: 40_000,
        thorough: 3_000_000,
        max_len: 500,
        rule: "a case is a hyper HTTP/2 server or client connection against a raw peer with 2-6 streams, generated windows on both sides, readers that stall, stop or go on, and generated granting of window; it is non-trivial when a window was exhausted in some direction (sending stopped while there was more to send)",
        must_labels: &["server", "client", "up-stalled", "down-stalled", "conn-stalled", "exhausted-only", "window-change", "history", "blocked-transport", "gated-down", "peer-reset", "adaptive", "window-grew"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum G {
    Always,
    Exhausted,
    Held,
}

struct St {
    up: Vec<u8>,
    read: ReadPlan,
    down: BodyPlan,
    gate: Option<Gate>,
    /// bytes before the gate
    first: usize,
    max_chunk: usize,
    grant: G,
    reset: bool,
    trailers: bool,
}

fn gen_down(s: &mut Src, big: bool) -> (BodyPlan, Option<Gate>, usize, usize) {
    let mut steps = vec![];
    let mut gate = None;
    let (mut total, mut first, mut max_chunk) = (0, usize::MAX, 0);
    for i in 0..s.weighted(&[1, 4, 3, 2, 1]) {
        if s.chance(30) {
            steps.push(Step::Pending(1));
        }
        if gate.is_none() && s.chance(40) {
            let g = Gate::default();
            gate = Some(g.clone());
            first = total;
            steps.push(Step::Gate(g));
        }
        let n = if big { *s.pick(&[1usize, 100, 5000, 16_384, 40_000, 65_535, 66_000, 150_000]) } else { *s.pick(&[1usize, 100, 5000, 16_384, 20_000]) };
        total += n;
        max_chunk = max_chunk.max(n);
        steps.push(Step::Data(Bytes::from(payload(i as u8, n)), 1));
    }
    if gate.is_none() && s.chance(30) {
        let g = Gate::default();
        gate = Some(g.clone());
        first = total;
        steps.push(Step::Gate(g));
    }
    (BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower]), honest_end: !s.chance(64) }, gate, first, max_chunk)
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(20) {
        return adaptive(s, cx);
    }
    let srv = s.chance(128);
    cx.label(if srv { "server" } else { "client" });
    let sw = *s.pick(&[65_535u32, 65_535, 600, 1000, 5000, 16_384, 65_536, 100_000, 200_000]);
    let cw = *s.pick(&[65_535u32, 65_535, 65_536, 70_000, 131_070, 300_000]);
    let send_buf = *s.pick(&[None, None, Some(1usize), Some(1000), Some(16_384), Some(70_000)]);
    let cfg = H2Cfg {
        stream_window: Some(sw),
        conn_window: Some(cw),
        send_buf,
        max_frame: *s.pick(&[None, None, Some(16_385u32), Some(100_000)]),
        no_date: true,
        ..H2Cfg::default()
    };
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let sched = Plan::gen(s, 8);
    let my_win = *s.pick(&[65_535u32, 65_535, 65_535, 0, 1, 1000, 20_000, 200_000]);
    let my_frame = *s.pick(&[None, None, None, Some(20_000u32), Some(200_000)]);
    let conn_grant = *s.pick(&[G::Always, G::Exhausted, G::Exhausted, G::Held]);
    let extra = *s.pick(&[0u32, 0, 1000, 1_000_000]);
    let n = s.range(2, 6);
    let mut sts: Vec<St> = vec![];
    for i in 0..n {
        let (down, gate, first, max_chunk) = gen_down(s, true);
        let cap = if sw < 5000 { 20_000 } else { 250_000 };
        let up = (*s.pick(&[0usize, 10, 3000, 20_000, 65_535, 70_000, 140_000, 250_000])).min(cap);
        let read = match s.weighted(&[5, 3, 2, 1, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Gated(s.below(3)),
            2 if srv => ReadPlan::BackgroundGated,
            2 => ReadPlan::Gated(0),
            3 => ReadPlan::Drop,
            4 => ReadPlan::Background,
            _ => ReadPlan::PollOnce,
        };
        let read = if !srv && read == ReadPlan::PollOnce { ReadPlan::Frames(1) } else { read };
        let up = if read == ReadPlan::Frames(1) { up.max(1) } else { up };
        let grant = *s.pick(&[G::Always, G::Exhausted, G::Exhausted, G::Held]);
        let reset = s.chance(20);
        sts.push(St { up: payload(100 + i as u8, up), read, down, gate, first, max_chunk, grant, reset, trailers: s.chance(40) });
    }
    let change = if s.chance(50) { Some(*s.pick(&[0u32, 1, 500, 16_384, 65_535, 120_000])) } else { None };
    let block = if s.chance(50) { Some(s.range(100, 30_000)) } else { None };
    // room enough for the limit on what is buffered to matter
    let (my_win, extra, conn_grant) = if block.is_some() && s.chance(128) { (400_000, 2_000_000, G::Always) } else { (my_win, extra, conn_grant) };
    let long = s.chance(40);
    let rounds = if s.chance(100) { s.range(1, 6) } else { 0 };
    cx.describe(|| {
        let l: Vec<String> = sts.iter().map(|t| format!("up={} read={:?} down={} first={} grant={:?}{}", t.up.len(), t.read, t.down.show(), t.first as isize, t.grant, if t.reset { " RESET" } else { "" })).collect();
        format!("{} {} peer win={my_win} frame={my_frame:?} +{extra} conn {conn_grant:?} change={change:?} block={block:?} rounds={rounds} io[{}] {}", if srv { "server" } else { "client" }, cfg.show(), ic.show(), l.join(" || "))
    });

    let mut ex = Exec::new(sched);
    ex.max_polls = 800_000;
    let (io, h) = scripted(&ex.events, &ic);
    let mut peer = Peer::new(!srv);
    peer.grant = Grant::Manual;
    peer.silly = 400;
    let mut list = vec![(4, my_win)];
    if let Some(f) = my_frame {
        list.push((5, f));
    }
    peer.hello(&list);
    peer.give(0, extra);
    let downs: Vec<(BodyPlan, ReadPlan, bool)> = sts.iter().map(|t| (t.down.clone(), t.read.clone(), t.up.len() % 2 == 0)).collect();
    let (sp, cp);
    if srv {
        let d2 = downs.clone();
        let pf: PlanFn = Rc::new(move |_, parts| {
            let mut p = RespPlan::simple();
            p.version = http::Version::HTTP_2;
            if let Some(i) = parts.uri.path()[1..].parse::<usize>().ok().filter(|i| *i < d2.len()) {
                p.body = d2[i].0.clone();
                p.read = d2[i].1.clone();
            } else {
                p.read = match parts.uri.path() {
                    "/drop" => ReadPlan::Drop,
                    "/once" => ReadPlan::Frames(1),
                    _ => ReadPlan::All,
                };
            }
            p
        });
        sp = Some(h2::serve(&mut ex, &cfg, io, pf));
        cp = None;
    } else {
        sp = None;
        cp = Some(h2::connect(&mut ex, &cfg, io));
    }
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {{
            let who = match (&sp, &cp) {
                (Some(sp), _) => format!("calls {:?} end={:?}", sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?} responded={} polled={:?}", c.uri, c.got.data.len(), c.got.ended, c.got.err, c.responded, c.stat.as_ref().map(|b| b.borrow().polled_data))).collect::<Vec<_>>(), sp.end.borrow().as_ref().map(|e| e.text.clone())),
                (_, Some(cp)) => format!("calls {:?} polled {:?} end={:?}", cp.env.calls.borrow().iter().map(|c| c.show()).collect::<Vec<_>>(), cp.env.stats.borrow().iter().map(|b| b.borrow().polled_data).collect::<Vec<_>>(), cp.env.end.borrow().as_ref().map(|e| e.text.clone())),
                _ => String::new(),
            };
            let st: Vec<String> = peer.streams.iter().map(|(k, v)| format!("{k}: room {} credit {} sent {} got {} ended={} reset={:?} my_end={}", v.room, v.credit, v.sent, v.data.len(), v.ended, v.reset, v.my_end)).collect();
            format!("{who} conn room {} credit {} streams {st:?} frames {}", peer.conn_room, peer.conn_credit, peer.show())
        }};
    }
    // (bytes read, body still there)
    let reader = |i: &str| -> Option<(usize, bool)> {
        if let Some(sp) = &sp {
            sp.calls.borrow().iter().find(|c| c.uri.rsplit('/').next() == Some(i)).map(|c| (c.got.data.len(), !c.body_dropped && !c.got.over()))
        } else {
            let c = cp.as_ref().unwrap().env.calls.borrow();
            i.parse::<usize>().ok().and_then(|i| c.get(i).map(|c| (c.got.data.len(), !c.body_dropped && !c.got.over())))
        }
    };
    let polled = |i: usize| -> Option<usize> {
        if let Some(sp) = &sp {
            sp.calls.borrow().iter().find(|c| c.uri.rsplit('/').next() == Some(&i.to_string())).and_then(|c| c.stat.as_ref().map(|b| b.borrow().polled_data))
        } else {
            cp.as_ref().unwrap().env.stats.borrow().get(i).map(|b| b.borrow().polled_data)
        }
    };
    let find = |peer: &Peer, i: usize| -> Option<u32> { peer.streams.iter().filter(|(k, _)| !srv || **k as usize == 2 * i + 1).find(|(_, v)| srv || v.heads.first().and_then(|h| field(h, ":path")) == Some(format!("/{i}").as_bytes())).map(|e| *e.0) };
    let held_max = send_buf.unwrap_or(if srv { 400 * 1024 } else { 1 << 20 });
    // a frame being written, the pipe
    let slack = 20_000 + my_frame.unwrap_or(16_384) as usize + block.unwrap_or(0);
    // what holds at any time
    macro_rules! bounds {
        () => {{
            let mut live = 0i64;
            for i in 0..n {
                let Some(sid) = find(&peer, i) else { continue };
                let st = &peer.streams[&sid];
                let (read, there) = reader(&i.to_string()).unwrap_or((0, true));
                let unread = st.sent as i64 - read as i64;
                if there && st.reset.is_none() && st.my_reset.is_none() {
                    live += unread;
                    // what this peer could make the other side hold
                    ensure!(st.my_end || st.credit + unread <= sw as i64, "stream-overgrant", "stream {i}: {unread} bytes are unread and {} more may be sent, with a window of {sw}: {}", st.credit, state!());
                }
                if let Some(p) = polled(i) {
                    let held = p as i64 - st.data.len() as i64;
                    ensure!(held <= (held_max + 2 * sts[i].max_chunk + slack) as i64, "overheld", "stream {i}: {held} bytes of the body were taken and not sent: {}", state!());
                }
            }
            ensure!(peer.conn_credit + live <= cw as i64, "conn-overgrant", "{live} bytes are unread and {} more may be sent, with a connection window of {cw}: {}", peer.conn_credit, state!());
        }};
    }
    let mut released = false;
    let mut reset_done = vec![false; n];
    macro_rules! grant {
        () => {{
            let mut any = false;
            for i in 0..n {
                let Some(sid) = find(&peer, i) else { continue };
                let st = &peer.streams[&sid];
                if st.done() || st.my_reset.is_some() {
                    continue;
                }
                match sts[i].grant {
                    _ if released && st.room < 100_000 => {
                        let k = 150_000 - st.room;
                        peer.give(sid, k as u32);
                        any = true;
                    }
                    G::Always if st.owed > 0 => {
                        let k = std::mem::take(&mut peer.streams.get_mut(&sid).unwrap().owed);
                        peer.give(sid, k.max(8000));
                        any = true;
                    }
                    G::Exhausted if st.room == 0 && peer.conn_room > 0 && st.owed > 0 => {
                        let k = std::mem::take(&mut peer.streams.get_mut(&sid).unwrap().owed);
                        peer.give(sid, k.max(5000));
                        any = true;
                    }
                    _ => {}
                }
            }
            if released {
                let more: Vec<(u32, i64)> = peer.streams.iter().filter(|(_, v)| !v.done() && v.my_reset.is_none() && v.room < 100_000).map(|(k, v)| (*k, 150_000 - v.room)).collect();
                for (sid, k) in more {
                    peer.give(sid, k as u32);
                    any = true;
                }
            }
            match conn_grant {
                _ if released && peer.conn_room < 200_000 => {
                    let k = 300_000 - peer.conn_room;
                    peer.give(0, k as u32);
                    peer.conn_owed = 0;
                    any = true;
                }
                G::Always if peer.conn_owed > 0 => {
                    let k = std::mem::take(&mut peer.conn_owed);
                    peer.give(0, k);
                    any = true;
                }
                G::Exhausted if peer.conn_room == 0 => {
                    let k = std::mem::take(&mut peer.conn_owed);
                    peer.give(0, k);
                    any = true;
                }
                _ => {}
            }
            any
        }};
    }
    macro_rules! quiet {
        () => {{
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            bounds!();
            // nothing that may be sent waits
            for i in 0..n {
                let Some(sid) = find(&peer, i) else { continue };
                let st = &peer.streams[&sid];
                let closed = sts[i].gate.as_ref().is_some_and(|g| !g.is_open());
                let want = if closed { sts[i].first } else { sts[i].down.len() };
                let started = if srv { st.head().is_some() } else { true };
                if !started || st.done() || st.my_reset.is_some() {
                    continue;
                }
                if st.data.len() < want {
                    ensure!(st.room <= 0 || peer.conn_room <= 0, "starved", "stream {i} sent {} of {want} bytes and has room for {} ({} on the connection): {}", st.data.len(), st.room, peer.conn_room, state!());
                    cx.nontrivial = true;
                    if st.room <= 0 {
                        cx.label("down-stalled");
                    } else {
                        cx.label("conn-stalled");
                    }
                    cx.label_if(sts[i].grant == G::Exhausted || conn_grant == G::Exhausted, "exhausted-only");
                } else if !closed {
                    fail!("unended", "stream {i} sent all {want} bytes and has not ended: {}", state!());
                } else {
                    cx.label("gated-down");
                }
                let p = polled(i).unwrap_or(0);
                ensure!(p <= st.data.len() + 2 * sts[i].max_chunk + if change.is_some() { my_win as usize } else { 0 }, "overheld", "stream {i}: {p} bytes of the body were taken, {} sent, with chunks of at most {}: {}", st.data.len(), sts[i].max_chunk, state!());
            }
            // a reader that reads must not be kept waiting for window
            for i in 0..n {
                let Some(sid) = find(&peer, i) else { continue };
                let st = &peer.streams[&sid];
                if !st.queue.is_empty() {
                    cx.nontrivial = true;
                    cx.label("up-stalled");
                    let (read, there) = reader(&i.to_string()).unwrap_or((0, true));
                    if there && read == st.sent && st.credit <= 0 && matches!(sts[i].read, ReadPlan::All | ReadPlan::Background) {
                        fail!("no-update", "stream {i}: all {read} bytes were read and no window came back: {}", state!());
                    }
                }
            }
        }};
    }
    macro_rules! settle {
        () => {
            loop {
                quiet!();
                if !grant!() {
                    break;
                }
            }
        };
    }
    settle!();
    let tasks = if let Some(cp) = &cp {
        let plans: Vec<ReqPlan> = downs
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let mut q = ReqPlan::get();
                q.method = "POST".into();
                q.uri = format!("http://a.test/{i}");
                q.body = d.0.clone();
                q.read = d.1.clone();
                q.ready = false;
                q.delay = s.below(3);
                q
            })
            .collect();
        cli::concurrent(&mut ex, &cp.env, plans)
    } else {
        vec![]
    };
    // opened or answered, then fed
    let mut todo: Vec<usize> = (0..n).collect();
    let mut at = 0;
    while !todo.is_empty() {
        at += 1;
        ensure!(at < 200, "missing", "not all requests came: {}", state!());
        // a server's streams are numbered in order
        let k = if srv { 0 } else { s.below(todo.len()) };
        let i = todo[k];
        if srv {
            let sid = peer.open(&super::c20::req_fields("POST", &format!("/{i}"), &[]), false);
            let t = &sts[i];
            peer.send(sid, &t.up, !t.trailers);
            if t.trailers {
                peer.trailers(sid, &fields(&[("x-t", "1")]));
            }
            todo.remove(k);
        } else if let Some(sid) = find(&peer, i) {
            let t = &sts[i];
            peer.headers(sid, &fields(&[(":status", "200")]), false);
            peer.send(sid, &t.up, !t.trailers);
            if t.trailers {
                peer.trailers(sid, &fields(&[("x-t", "1")]));
            }
            todo.remove(k);
        } else {
            nudge(&mut ex, &h, &mut peer, 40).map_err(fix)?;
            continue;
        }
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                nudge(&mut ex, &h, &mut peer, s.range(1, 40)).map_err(fix)?;
                bounds!();
                grant!();
            }
            _ => settle!(),
        }
        if let (Some(w), true) = (change, at == 2) {
            cx.label("window-change");
            peer.settings(&[(4, w)]);
        }
        if let (Some(b), true) = (block, at == 3) {
            // the transport takes nothing for a while
            cx.label("blocked-transport");
            let o = std::mem::take(&mut peer.out);
            feed(&h.rx, &o);
            set_cap(&h.tx, b);
            ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity: {}", state!());
            set_cap(&h.tx, usize::MAX);
            // the unread output is part of what is held
            bounds!();
        }
    }
    settle!();
    for i in 0..n {
        if sts[i].reset {
            let sid = find(&peer, i).unwrap();
            if !(peer.streams[&sid].my_end && peer.streams[&sid].done()) && peer.streams[&sid].reset.is_none() {
                cx.label("peer-reset");
                peer.reset(sid, 8);
                reset_done[i] = true;
            }
        }
    }
    settle!();
    if s.chance(128) {
        // the streams that are stalled get room, the connection first or last
        for i in 0..n {
            if let (Some(sid), true) = (find(&peer, i), s.chance(128)) {
                if !peer.streams[&sid].done() && peer.streams[&sid].my_reset.is_none() {
                    let k = *s.pick(&[1u32, 100, 10_000]);
                    peer.give(sid, k);
                }
            }
        }
        settle!();
        if s.chance(128) {
            let k = *s.pick(&[1u32, 100, 10_000]);
            peer.give(0, k);
            settle!();
        }
    }
    // everything goes on
    match (&sp, &cp) {
        (Some(sp), _) => sp.gate.open(),
        (_, Some(cp)) => cp.env.gate.open(),
        _ => {}
    }
    if s.chance(128) {
        settle!();
    }
    for t in &sts {
        if let Some(g) = &t.gate {
            g.open();
        }
    }
    released = true;
    settle!();
    let alive = |peer: &Peer| peer.goaways.is_empty() && match (&sp, &cp) { (Some(sp), _) => sp.end.borrow().is_none(), (_, Some(cp)) => cp.env.end.borrow().is_none(), _ => true };
    ensure!(alive(&peer), "connection-ended", "the connection ended: {}", state!());
    for i in 0..n {
        let sid = find(&peer, i).unwrap();
        let st = &peer.streams[&sid];
        if reset_done[i] {
            continue;
        }
        // who drops the response may cancel the exchange
        if !srv && matches!(sts[i].read, ReadPlan::Drop | ReadPlan::Frames(_)) && st.reset == Some(code::CANCEL) {
            continue;
        }
        ensure!(st.ended && st.data == sts[i].down.data() && st.reset.is_none_or(|c| c == 0 || !srv), "incomplete", "stream {i}: {} of {} bytes came, ended={} reset={:?}: {}", st.data.len(), sts[i].down.len(), st.ended, st.reset, state!());
        if !matches!(sts[i].read, ReadPlan::All | ReadPlan::Gated(_) | ReadPlan::Background | ReadPlan::BackgroundGated) {
            continue;
        }
        let got = match (&sp, &cp) {
            (Some(sp), _) => sp.calls.borrow().iter().find(|c| c.uri.rsplit('/').next() == Some(&i.to_string())).map(|c| c.got.clone()),
            (_, Some(cp)) => cp.env.calls.borrow().get(i).map(|c| c.got.clone()),
            _ => None,
        };
        ensure!(got.as_ref().is_some_and(|g| g.clean() && g.data == sts[i].up), "incomplete", "stream {i}: {:?} of {} bytes arrived: {}", got.map(|g| g.data.len()), sts[i].up.len(), state!());
    }
    for t in &tasks {
        ensure!(ex.is_done(*t), "stuck", "a request task has not finished: {}", state!());
    }
    // a longer history of read, dropped and reset streams, then one that needs all the window
    let mut last = 0;
    for r in 0..=rounds {
        let end = r == rounds;
        let kind = if end { 0 } else { s.below(4) };
        let size = if end { if sw < 5000 { if long && sw == 600 { 400 * 600 } else { 15_000 } } else { 2 * sw.max(cw) as usize } } else { (*s.pick(&[3000usize, 20_000, 50_000, 65_535])).min(sw as usize) };
        let up = payload(r as u8, size);
        cx.label_if(!end, "history");
        let sid;
        if srv {
            let path = match kind {
                1 => "/drop",
                2 => "/once",
                _ => "/all",
            };
            sid = peer.open(&super::c20::req_fields("POST", path, &[]), false);
        } else {
            let cp = cp.as_ref().unwrap();
            let mut q = ReqPlan::get();
            q.uri = format!("http://a.test/{}", n + r);
            q.ready = false;
            q.read = match kind {
                1 => ReadPlan::Drop,
                2 => ReadPlan::Frames(1),
                _ => ReadPlan::All,
            };
            cli::concurrent(&mut ex, &cp.env, vec![q]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            let Some(k) = find(&peer, n + r) else { fail!("missing", "a later request was never sent: {}", state!()) };
            sid = k;
            peer.headers(sid, &fields(&[(":status", "200")]), false);
        }
        peer.send(sid, &up, kind != 3);
        if kind == 3 {
            if s.chance(128) {
                nudge(&mut ex, &h, &mut peer, s.below(60)).map_err(fix)?;
            }
            if peer.streams[&sid].reset.is_none() {
                peer.reset(sid, 8);
            }
        }
        if !end && s.chance(128) {
            nudge(&mut ex, &h, &mut peer, s.below(60)).map_err(fix)?;
        } else {
            settle!();
        }
        last = sid;
    }
    settle!();
    let st = &peer.streams[&last];
    ensure!(st.my_end && st.queue.is_empty() && alive(&peer), "starved-late", "the last body is stuck: {}", state!());
    let got = match (&sp, &cp) {
        (Some(sp), _) => sp.calls.borrow().last().map(|c| c.got.clone()),
        (_, Some(cp)) => cp.env.calls.borrow().last().map(|c| c.got.clone()),
        _ => None,
    };
    ensure!(got.as_ref().is_some_and(|g| g.clean() && g.data.len() == st.sent), "incomplete", "the last body arrived as {:?}: {}", got.map(|g| (g.data.len(), g.ended, g.err)), state!());
    // all that was received is accounted for: h2 gives back half a window at a time
    ensure!(peer.conn_credit * 2 >= cw as i64 - 2, "leak", "only {} of {cw} bytes of connection window are left although nothing is unread: {}", peer.conn_credit, state!());
    if let Some(cp) = &cp {
        let sr = cp.env.sender.borrow_mut().take();
        drop(sr);
    }
    if std::env::var_os("TRACE").is_some() {
        eprintln!("{}", state!());
    }
    feed_eof(&h.rx);
    ensure!(pump(&mut ex, &h, &mut peer).is_ok(), "spin", "no end of activity: {}", state!());
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    Ok(())
}

/// windows that adapt to the bandwidth, and a peer that acknowledges late
fn adaptive(s: &mut Src, cx: &mut Cx) -> R {
    let srv = s.chance(128);
    cx.label("adaptive");
    cx.label(if srv { "server" } else { "client" });
    let cfg = H2Cfg { adaptive: true, timer: true, no_date: true, ..H2Cfg::default() };
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let n = s.range(1, 3);
    let ups: Vec<Vec<u8>> = (0..n).map(|i| payload(100 + i as u8, *s.pick(&[600_000usize, 60_000, 300_000, 1_500_000]))).collect();
    let (pong_lag, ack_lag) = (s.weighted(&[3, 2, 1]), s.weighted(&[3, 2, 1, 1, 1]));
    let rtt = *s.pick(&[30u64, 5, 100, 400]);
    cx.describe(|| format!("{} adaptive pong after {pong_lag}, settings after {ack_lag} rounds of {rtt} ms io[{}] bodies {:?}", if srv { "server" } else { "client" }, ic.show(), ups.iter().map(|u| u.len()).collect::<Vec<_>>()));
    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 800_000;
    let (io, h) = scripted(&ex.events, &ic);
    let mut peer = Peer::new(!srv);
    peer.auto_settings = false;
    peer.auto_ping = false;
    peer.silly = 400;
    peer.hello(&[]);
    let (sp, cp);
    if srv {
        let pf: PlanFn = Rc::new(move |_, _| {
            let mut p = RespPlan::simple();
            p.version = http::Version::HTTP_2;
            p
        });
        sp = Some(h2::serve(&mut ex, &cfg, io, pf));
        cp = None;
    } else {
        sp = None;
        let c = h2::connect(&mut ex, &cfg, io);
        let plans = (0..n)
            .map(|i| {
                let mut q = ReqPlan::get();
                q.uri = format!("http://a.test/{i}");
                q.ready = false;
                q
            })
            .collect();
        cli::concurrent(&mut ex, &c.env, plans);
        cp = Some(c);
    }
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {{
            let who = match (&sp, &cp) {
                (Some(sp), _) => format!("calls {:?} end={:?}", sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?}", c.uri, c.got.data.len(), c.got.ended, c.got.err)).collect::<Vec<_>>(), sp.end.borrow().as_ref().map(|e| e.text.clone())),
                (_, Some(cp)) => format!("calls {:?} end={:?}", cp.env.calls.borrow().iter().map(|c| c.show()).collect::<Vec<_>>(), cp.env.end.borrow().as_ref().map(|e| e.text.clone())),
                _ => String::new(),
            };
            format!("{who} window {} conn {} held settings {} pings {} frames {}", peer.their_window, peer.conn_credit, peer.held_settings.len(), peer.pings.len(), peer.show())
        }};
    }
    let mut fed = 0;
    let mut feeds: Vec<(u32, usize, usize)> = vec![];
    let rate = *s.pick(&[70_000usize, 20_000, 200_000]);
    if srv {
        for (i, u) in ups.iter().enumerate() {
            let sid = peer.open(&super::c20::req_fields("POST", &format!("/{i}"), &[]), false);
            let _ = u;
            feeds.push((sid, i, 0usize));
            fed += 1;
        }
    }
    let (mut pong_in, mut ack_in) = (pong_lag, ack_lag);
    let mut window = 0;
    let mut updates = 0;
    for round in 0.. {
        ensure!(round < 3000, "slow", "the bodies do not arrive: {}", state!());
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        if !srv {
            let open: Vec<u32> = peer.streams.iter().filter(|(k, v)| !v.heads.is_empty() && !feeds.iter().any(|f| f.0 == **k)).map(|e| *e.0).collect();
            for sid in open {
                let i: usize = std::str::from_utf8(&field(&peer.streams[&sid].heads[0], ":path").unwrap()[1..]).unwrap().parse().unwrap();
                peer.headers(sid, &fields(&[(":status", "200")]), false);
                feeds.push((sid, i, 0));
                fed += 1;
            }
        }
        let end = if let Some(p) = &sp { p.end.borrow().is_some() } else { cp.as_ref().unwrap().env.end.borrow().is_some() };
        ensure!(!end && peer.goaways.is_empty(), "closed", "the connection ended: {}", state!());
        if peer.their_window != window {
            // (the first is the configured one)
            updates += (window != 0) as usize;
            ensure!(peer.their_window >= window || window == 0, "shrunk", "the window shrank from {window}: {}", state!());
            ensure!(peer.their_window <= 16 << 20, "overgrown", "the window grew beyond its limit: {}", state!());
            window = peer.their_window;
        }
        let all = if let Some(p) = &sp { p.calls.borrow().iter().filter(|c| c.got.over()).count() } else { cp.as_ref().unwrap().env.calls.borrow().iter().filter(|c| c.got.over()).count() };
        if all == n && fed == n {
            break;
        }
        let t = ex.clock.now() + std::time::Duration::from_millis(rtt);
        ex.clock.advance_to(t);
        if !peer.pings.is_empty() {
            if pong_in == 0 {
                let b = peer.pings.remove(0);
                peer.out.extend(ping(true, b));
                pong_in = pong_lag;
            } else {
                pong_in -= 1;
            }
        }
        if !peer.held_settings.is_empty() {
            cx.nontrivial = true;
            if ack_in == 0 {
                peer.take_settings().map_err(fix)?;
                ack_in = ack_lag;
            } else {
                ack_in -= 1;
            }
        }
        for (sid, i, at) in feeds.iter_mut() {
            let u = &ups[*i];
            if *at < u.len() && peer.streams[sid].queue.is_empty() {
                let k = rate.min(u.len() - *at);
                peer.send(*sid, &u[*at..*at + k], *at + k == u.len());
                *at += k;
            }
        }
        peer.pump_queues();
    }
    cx.label_if(updates > 0, "window-grew");
    for (i, u) in ups.iter().enumerate() {
        let g = if let Some(p) = &sp {
            p.calls.borrow().iter().find(|c| c.uri.ends_with(&format!("/{i}"))).map(|c| c.got.clone())
        } else {
            Some(cp.as_ref().unwrap().env.calls.borrow()[i].got.clone())
        };
        ensure!(g.as_ref().is_some_and(|g| g.ended && g.data == *u), "lost", "body {i} did not arrive: {}", state!());
    }
    Ok(())
}
