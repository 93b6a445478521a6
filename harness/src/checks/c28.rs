//! Size hints and end flags of received bodies.
use super::c29::{render, settle, Wire, P};
use crate::body::*;
use crate::cli::{self, CCall, ReqPlan};
use crate::engine::*;
use crate::ensure;
use crate::h2::{self, H2Cfg};
use crate::h2peer::field;
use crate::h2ref;
use crate::h2wire::*;
use crate::refh1::{BodyEnd, Fr, RefMsg};
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use super::c20::{plain_body, req_fields};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C28",
        run,
        quick: 900_000,
        thorough: 30_000_000,
        max_len: 400,
        rule: "a case is a connection in one of four settings (HTTP/1 or HTTP/2, hyper as server or client) receiving 1-5 messages of any framing, cut into segments, some broken or cut short; hints are noted before and after every poll, pending ones included; non-trivial when some received body was read to its end or error",
        must_labels: &["h1-server", "h1-client", "h2-server", "h2-client", "exact", "chunked", "to-close", "none", "broken", "declared", "undeclared", "ends-with-head", "trailers", "head-request", "h2-cut", "h2-reset", "empty-data"],
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.weighted(&[3, 3, 2, 2]) {
        0 => {
            cx.label("h1-server");
            super::c01::drive(s, cx, Some(server_msg), false)
        }
        1 => {
            cx.label("h1-client");
            super::c02::drive(s, cx, Some(client_msg), false)
        }
        2 => two(s, cx, true),
        _ => two(s, cx, false),
    }
}

fn server_msg(i: usize, c: &Call, m: &RefMsg, cx: &mut Cx) -> R {
    h1(i, &c.got, m, cx).map_err(|e| Fail::new(&e.sig, format!("{} in {} {}", e.msg, c.method, c.uri)))
}
fn client_msg(i: usize, c: &CCall, m: &RefMsg, cx: &mut Cx) -> R {
    if m.upgrade {
        return Ok(());
    }
    h1(i, &c.got, m, cx)
}
fn common(i: usize, g: &Got) -> R {
    if let Err(e) = g.hint_check() {
        crate::fail!("hints", "body {i}: {e}");
    }
    ensure!(g.after.is_none(), "after-end", "body {i}: polled after its end ({:?}) it gave {:?}", g.err, g.after);
    Ok(())
}
fn h1(i: usize, g: &Got, m: &RefMsg, cx: &mut Cx) -> R {
    if !g.over() {
        return Ok(());
    }
    cx.nontrivial = true;
    cx.label_if(m.end != BodyEnd::Complete, "broken");
    cx.label_if(!g.trailers.is_empty(), "trailers");
    common(i, g)?;
    match m.fr {
        Fr::Length(n) => {
            cx.label("exact");
            if let Err(e) = g.exact_check(n) {
                crate::fail!("declared", "body {i}: {e}");
            }
            // everything has come
            for h in &g.hints {
                ensure!(h.4 == (h.0 == n), "end-flag", "body {i}: end flag {} after {} of {n} bytes", h.4, h.0);
            }
        }
        Fr::None => {
            cx.label("none");
            for h in &g.hints {
                ensure!(h.2 == 0 && h.3 == Some(0) && h.4, "none", "message {i} has no body, the hint is {}..{:?}, end flag {}", h.2, h.3, h.4);
            }
        }
        Fr::Chunked => cx.label("chunked"),
        Fr::Close => cx.label("to-close"),
    }
    Ok(())
}

struct Want {
    body: Vec<u8>,
    declared: bool,
    head_end: bool,
    head_req: bool,
    status: u16,
}

fn two(s: &mut Src, cx: &mut Cx, server: bool) -> R {
    cx.label(if server { "h2-server" } else { "h2-client" });
    let mut cfg = H2Cfg::gen(s);
    cfg.table = None;
    cfg.adaptive = false;
    cfg.initial_streams = None;
    cfg.max_streams = None;
    if cfg.stream_window.is_some_and(|w| w < 65_535) {
        cfg.stream_window = Some(65_535);
    }
    let ic = IoCfg::gen_coarse(s);
    let n = s.range(1, 4);
    let mut plans: BTreeMap<String, RespPlan> = BTreeMap::new();
    let mut reqs = vec![];
    let mut pieces: Vec<VecDeque<P>> = vec![];
    let mut want: Vec<Want> = vec![];
    for i in 0..n {
        let path = format!("/{i}");
        let mut q = VecDeque::new();
        let mut body = payload(i as u8, *s.pick(&[10usize, 0, 0, 1, 300, 5000, 9000]));
        let mut tail = s.chance(60);
        let mut declared = s.chance(128);
        let len = body.len();
        let read = if s.chance(128) { ReadPlan::All } else { ReadPlan::Background };
        let pauses = Plan::gen(s, 3);
        let mut status = 0;
        let mut head_req = false;
        let mut f;
        if server {
            let mut p = RespPlan::simple();
            p.version = http::Version::HTTP_2;
            p.delay = s.weighted(&[3, 1, 1]);
            p.pauses = pauses;
            p.body = plain_body(s, 3000);
            p.read = read;
            plans.insert(path.clone(), p);
            let method = *s.pick(&["POST", "POST", "GET", "HEAD", "PUT", "DELETE"]);
            f = req_fields(method, &path, &[]);
        } else {
            let mut p = ReqPlan::get();
            p.method = s.pick(&["GET", "HEAD", "POST", "HEAD"]).to_string();
            if p.method == "POST" {
                p.body = plain_body(s, 3000);
            }
            p.version = http::Version::HTTP_2;
            p.uri = format!("http://a.test{path}");
            p.pauses = pauses;
            p.read = read;
            head_req = p.method == "HEAD";
            status = *s.pick(&[200u16, 200, 404, 204, 304]);
            if s.chance(30) {
                q.push_back(P::Head(fields(&[(":status", "103")]), false));
            }
            f = fields(&[(":status", &status.to_string())]);
            reqs.push(p);
        }
        cx.label_if(head_req, "head-request");
        // (whether a declared length may differ from what comes)
        let none = head_req || matches!(status, 204 | 304);
        if none {
            body.clear();
            tail = false;
        }
        if status == 204 {
            declared = false;
        }
        if declared {
            f.push((b"content-length".to_vec(), len.to_string().into_bytes()));
        }
        cx.label(if declared { "declared" } else { "undeclared" });
        let now = body.is_empty() && !tail && (s.chance(160) || status == 304);
        cx.label_if(now, "ends-with-head");
        q.push_back(P::Head(f, now));
        let stop = s.chance(40);
        if !now {
            let mut at = 0;
            while at < body.len() {
                let k = (*s.pick(&[1usize, 100, 4000, 9000])).min(body.len() - at).max(body.len() / 10);
                let k = k.min(body.len() - at);
                at += k;
                let last = at == body.len() && !tail && s.chance(160);
                q.push_back(P::Data(body[at - k..at].to_vec(), last));
            }
            if tail {
                cx.label("trailers");
                q.push_back(P::Tail(fields(&[("x-t", "1")])));
            } else if !matches!(q.back(), Some(P::Data(_, true))) {
                cx.label("empty-data");
                q.push_back(P::Data(vec![], true));
            }
            if stop {
                // the end never comes: a reset, or nothing (an empty piece stands for the reset)
                q.pop_back();
            }
        }
        want.push(Want { body, declared, head_end: now, head_req, status });
        pieces.push(q);
    }
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|i| {
                let a: Vec<String> = pieces[i]
                    .iter()
                    .map(|a| match a {
                        P::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }),
                        P::Head(f, e) => format!("head[{}]{}", f.iter().map(|e| format!("{}={}", String::from_utf8_lossy(&e.0), String::from_utf8_lossy(&e.1))).collect::<Vec<_>>().join(";"), if *e { "E" } else { "" }),
                        P::Tail(f) => format!("tail{}", f.len()),
                    })
                    .collect();
                format!("{} / {}", a.join(","), if server { plans[&format!("/{i}")].show() } else { reqs[i].show() })
            })
            .collect();
        format!("{} {} io[{}] {}", if server { "server" } else { "client" }, cfg.show(), ic.show(), l.join(" || "))
    });
    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 200_000;
    let mut ic = ic;
    ic.cap = usize::MAX;
    let (io, h) = scripted(&ex.events, &ic);
    let mut w = Wire::new(!server);
    let mut srv = None;
    let mut cp = None;
    if server {
        let p2 = plans.clone();
        let pf: PlanFn = Rc::new(move |_, parts| p2.get(parts.uri.path()).cloned().unwrap_or_else(RespPlan::simple));
        srv = Some(h2::serve(&mut ex, &cfg, io, pf));
    } else {
        let c = h2::connect(&mut ex, &cfg, io);
        cli::concurrent(&mut ex, &c.env, reqs.clone());
        cp = Some(c);
    }
    let mut hello = vec![];
    if server {
        hello.extend_from_slice(PREFACE);
    }
    hello.extend(settings(&[(4, 1 << 24)]));
    hello.extend(window(0, 1 << 28));
    w.put(&h, &hello);
    let mut sids = vec![0u32; n];
    let learn = |w: &Wire, sids: &mut Vec<u32>| {
        let r = h2ref::read(&w.out, true);
        for (sid, st) in &r.streams {
            if let Some(p) = st.heads.first().and_then(|f| field(f, ":path")) {
                if let Some(i) = std::str::from_utf8(&p[1..]).ok().and_then(|x| x.parse::<usize>().ok()) {
                    if i < sids.len() {
                        sids[i] = *sid;
                    }
                }
            }
        }
    };
    let mut next = 1;
    let mut stopped = false;
    loop {
        let live: Vec<usize> = (0..n).filter(|i| !pieces[*i].is_empty()).collect();
        if live.is_empty() || stopped {
            break;
        }
        match s.weighted(&[3, 2, 2]) {
            0 => {}
            1 => {
                ex.run_steps(s.range(1, 20));
                w.take(&h);
            }
            _ => settle(&mut ex, &h, &mut w)?,
        }
        let i = *s.pick(&live);
        if sids[i] == 0 {
            if server {
                sids[i] = next;
                next += 2;
            } else {
                settle(&mut ex, &h, &mut w)?;
                learn(&w, &mut sids);
                if sids[i] == 0 {
                    // (not this property's affair)
                    return Ok(());
                }
            }
        }
        let started = !matches!(pieces[i].front(), Some(P::Head(..)));
        if started && s.chance(10) {
            cx.label("h2-reset");
            // NO_ERROR is taken for an end, which a declared length would contradict
            let code = if want[i].declared { 2 } else { *s.pick(&[0u32, 2, 8]) };
            w.put(&h, &rst(sids[i], code));
            pieces[i].clear();
            continue;
        }
        let p = pieces[i].pop_front().unwrap();
        let mut b = render(s, cx, sids[i], &p, true);
        if s.chance(4) {
            cx.label("h2-cut");
            // (h2 may take a header block cut inside for a shorter one)
            b.truncate(if matches!(p, P::Data(..)) { s.below(b.len() + 1) } else { 0 });
            stopped = true;
        }
        w.put(&h, &b);
    }
    settle(&mut ex, &h, &mut w)?;
    if s.chance(128) {
        feed_err(&h.rx, std::io::ErrorKind::ConnectionReset);
    } else {
        feed_eof(&h.rx);
    }
    ex.run();
    w.take(&h);
    ex.run();
    let sent = h2ref::read(&w.sent, server);
    if sent.hole {
        // (a header block cut inside may be taken for a shorter one: h2)
        return Ok(());
    }
    let mut l: Vec<(usize, Got)> = vec![];
    if let Some(p) = &srv {
        for c in p.calls.borrow().iter() {
            if let Some(i) = c.uri.rsplit('/').next().and_then(|x| x.parse::<usize>().ok()) {
                l.push((i, c.got.clone()));
            }
        }
    } else if let Some(p) = &cp {
        for (i, c) in p.env.calls.borrow().iter().enumerate() {
            if c.resp().is_some() {
                l.push((i, c.got.clone()));
            }
        }
    }
    for (i, g) in l {
        if !g.over() || i >= n {
            continue;
        }
        let x = &want[i];
        cx.nontrivial = true;
        cx.label_if(g.err.is_some(), "broken");
        // (a reset takes the remaining data with it)
        let whole = sent.streams.get(&sids[i]).is_some_and(|s| s.ended && s.rst.is_none());
        let label = || format!("HTTP/2 {} {i} (head_req={} status={} declared={} ends-with-head={}): hints {:?}, got {} bytes ended={} err={:?} whole={whole}", if server { "request" } else { "response" }, x.head_req, x.status, x.declared, x.head_end, g.hints, g.data.len(), g.ended, g.err);
        common(i, &g).map_err(|e| Fail::new(&e.sig, format!("{}: {}", e.msg, label())))?;
        if x.head_req || x.head_end {
            for h in &g.hints {
                ensure!(h.2 == 0 && h.3 == Some(0), "none", "no body can come, the hint is {}..{:?}: {}", h.2, h.3, label());
                ensure!(!x.head_end || h.4, "none", "nothing can come, but no end is reported: {}", label());
            }
        } else if x.declared && x.status != 304 {
            if let Err(e) = g.exact_check(x.body.len() as u64) {
                crate::fail!("declared", "{e}: {}", label());
            }
        }
    }
    Ok(())
}
