//! Interim responses: each to the callback of its own request, the final response untouched.
use crate::body::{BodyPlan, Hint, Step};
use crate::checks::c02;
use crate::cli::{self, *};
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::refh1::{self, BodyEnd, Fr, RefCfg, RespOut};
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::{gen_cuts, grouped, header_list, play, ReadPlan};
use crate::{ensure, fail};
use bytes::Bytes;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C27",
        run,
        quick: 600_000,
        thorough: 20_000_000,
        max_len: 500,
        rule: "a case is 1-5 requests, with and without callbacks, one after another on an HTTP/1 connection or at the same time on an HTTP/2 one, each answered by 0-8 (at times 150) interim responses with their own fields and then a final response, in any cuts, before, during and after the upload; non-trivial when an interim response comes",
        must_labels: &["h1", "h2", "callback", "no-callback", "many", "reused", "101-final", "during-upload", "waits-for-interim", "close-field", "length-field", "eof-after-interim", "cancelled", "interleaved", "interim-end-stream", "trailers"],
    }
}

const FIELDS: &[(&str, &[u8])] = &[
    ("link", b"</a>; rel=preload"),
    ("link", b"</b>"),
    ("content-length", b"5"),
    ("x-a", b""),
    ("connection", b"close"),
    ("transfer-encoding", b"chunked"),
    ("connection", b"keep-alive"),
    ("upgrade", b"x"),
    ("set-cookie", b"a=1"),
    ("x-a", b"\xff"),
];

type Interim = (u16, Vec<(String, Vec<u8>)>);

fn interims(s: &mut Src, cx: &mut Cx, http2: bool) -> Vec<Interim> {
    let n = match s.weighted(&[3, 4, 3, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 3),
        3 => s.range(4, 8),
        _ if s.chance(40) => {
            cx.label("many");
            150
        }
        _ => 2,
    };
    let mut v = vec![];
    for i in 0..n {
        let code = *s.pick(&[100u16, 103, 102, 103, 199, 104, 150]);
        let mut f = vec![];
        if n < 20 || i % 16 == 0 {
            for _ in 0..s.below(4) {
                let (k, val) = *s.pick(FIELDS);
                if http2 && matches!(k, "connection" | "transfer-encoding" | "upgrade" | "content-length") {
                    continue;
                }
                cx.label_if(k == "connection", "close-field");
                cx.label_if(k == "content-length", "length-field");
                f.push((k.to_string(), val.to_vec()));
            }
        }
        f.push(("x-n".into(), i.to_string().into_bytes()));
        v.push((code, f));
    }
    cx.nontrivial |= n > 0;
    v
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(140) {
        h1(s, cx)
    } else {
        h2_case(s, cx)
    }
}

fn logged(c: &CCall) -> Vec<(u16, http::Version, Vec<(String, Vec<u8>)>)> {
    c.interim.lock().unwrap().clone()
}

fn h1(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("h1");
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let k = s.range(1, 4);
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 0, 12, 40]);
    let mut plans = vec![];
    let mut resps: Vec<Vec<u8>> = vec![];
    let mut gates = vec![];
    for i in 0..k {
        let mut p = c02::small_request(s);
        p.interim = s.chance(170);
        p.read = if s.chance(200) { ReadPlan::All } else { ReadPlan::Background };
        let mut b = vec![];
        let list = interims(s, cx, false);
        let mut g = None;
        if s.chance(70) && p.method != "CONNECT" {
            // the upload goes on for a while, or until the interim response comes
            let gate = Gate::default();
            p.method = s.pick(&["POST", "PUT"]).to_string();
            let waits = p.interim && !list.is_empty() && s.chance(160);
            p.body = BodyPlan { steps: vec![Step::Data(Bytes::from(payload(7, 40)), 1), Step::Gate(gate.clone()), Step::Data(Bytes::from(payload(9, 40)), 1)], hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: true };
            if waits {
                cx.label("waits-for-interim");
                p.headers.push(("expect".into(), b"100-continue".to_vec()));
                p.interim_gate = Some(gate.clone());
            } else {
                g = Some(gate);
            }
            cx.label_if(!list.is_empty(), "during-upload");
        }
        gates.push(g);
        for (code, f) in &list {
            b.extend_from_slice(format!("HTTP/1.{} {code}{}", if s.chance(20) { 0 } else { 1 }, s.pick(&[" Continue", "", " ", " Early Hints"])).as_bytes());
            b.extend_from_slice(if st.weird > 0 && s.chance(30) { b"\n" } else { b"\r\n" });
            for (n, v) in f {
                h1gen::header(s, st, &mut b, n.as_bytes(), v);
            }
            b.extend_from_slice(if st.weird > 0 && s.chance(30) { b"\n" } else { b"\r\n" });
        }
        if i + 1 == k && s.chance(24) {
            cx.label("eof-after-interim");
        } else if s.chance(14) {
            cx.label("101-final");
            b.extend_from_slice(b"HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\nHTTP/1.1 103 E\r\n\r\n");
        } else {
            h1gen::response(s, st, &mut b, &p.method);
        }
        plans.push(p);
        resps.push(b);
    }
    let scripts: Vec<_> = resps.iter().map(|b| gen_cuts(s, b)).collect();
    let open_at: Vec<bool> = (0..k).map(|_| s.chance(128)).collect();
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&resps).map(|(p, r)| format!("{} callback={} {} -> {}", p.method, p.interim, p.body.show(), show(r))).collect();
        format!("io[{}] {}", io_cfg.show(), v.join(" || "))
    });
    let methods: Vec<Vec<u8>> = plans.iter().map(|p| p.method.clone().into_bytes()).collect();
    let callback: Vec<bool> = plans.iter().map(|p| p.interim).collect();
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    sequence(&mut cli.ex, &cli.env, plans);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning before input: {}", cli.show_state());
    let mut stream: Vec<u8> = vec![];
    let mut starts = vec![];
    for (i, sc) in scripts.iter().enumerate() {
        if !cli.env.calls.borrow()[i].sent || cli.ended().is_some() {
            break;
        }
        starts.push(stream.len());
        if let Some(g) = gates[i].as_ref().filter(|_| open_at[i]) {
            g.open();
            cli.ex.run();
        }
        stream.extend_from_slice(&resps[i]);
        ensure!(play(&mut cli.ex, &cli.io, None, sc), "spin", "spinning after response {i}: {}", cli.show_state());
        if let Some(g) = &gates[i] {
            g.open();
            ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning after upload {i}: {}", cli.show_state());
        }
    }
    feed_eof(&cli.io.rx);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning after end of input: {}", cli.show_state());
    ensure!(cli.ended().is_some(), "hang", "connection did not end after end of input: {}", cli.show_state());

    let calls = cli.env.calls.borrow();
    for (i, c) in calls.iter().enumerate() {
        let got = logged(c);
        let Some(&pos) = starts.get(i) else {
            ensure!(got.is_empty(), "misdirected", "request {i} was not answered, but its callback got {got:?}");
            continue;
        };
        ensure!(c.out.is_some(), "no-outcome", "request {i} has no outcome after the connection ended; {}", cli.show_state());
        let end = starts.get(i + 1).copied().unwrap_or(stream.len());
        let out = refh1::response(&stream[..end], pos, &methods[i], &RefCfg::default(), i + 1 == starts.len());
        let (fin, list) = match &out {
            RespOut::Final(m, l) => (Some(m), l),
            RespOut::Partial(l) => (None, l),
            // the generator may pair a method with an unusable response
            RespOut::Bad(_, _, l) => (None, l),
        };
        if i > 0 {
            cx.label("reused");
        }
        if callback[i] {
            cx.label("callback");
            ensure!(got.len() == list.len(), "callback-count", "request {i}: {} interim responses came, the callback was called {} times: {got:?}", list.len(), got.len());
            for (j, (g, m)) in got.iter().zip(list).enumerate() {
                let v = if m.version == 11 { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
                ensure!(g.0 == m.status && g.1 == v, "callback-status", "request {i}: interim {j} is {:?} {}, the callback got {:?} {}", v, m.status, g.1, g.0);
                ensure!(grouped(&g.2) == grouped(&m.headers), "callback-fields", "request {i}: interim {j} has {:?}, the callback got {:?}", grouped(&m.headers), grouped(&g.2));
            }
        } else {
            cx.label("no-callback");
            ensure!(got.is_empty(), "misdirected", "request {i} has no callback, {got:?} was logged for it");
        }
        match fin {
            Some(m) => {
                c02::same_response(i, c, m)?;
                cx.label_if(!m.trailers.is_empty(), "trailers");
                let over = !m.ka || m.upgrade || m.end != BodyEnd::Complete || m.fr == Fr::Close;
                if !over && m.pos < end {
                    // bytes nobody asked for: C10 judges those
                    return Ok(());
                }
                if !over && calls.get(i + 1).is_some() {
                    ensure!(starts.len() > i + 1, "not-reused", "request {} was not sent although response {i} left the connection reusable; {}", i + 1, cli.show_state());
                }
                if over {
                    ensure!(starts.len() <= i + 1, "harness", "request {} was sent on a connection to be given up", i + 1);
                }
            }
            None => {
                ensure!(c.resp().is_none(), "interim-final", "request {i}: {} although no final response came", c.show());
            }
        }
    }
    Ok(())
}

/// What the peer does on one stream, step by step
#[derive(Debug, Clone)]
enum Do {
    Interim(Interim),
    Head(u16, bool),
    Data(Vec<u8>, bool),
    Trailers,
    /// an interim response that ends the stream
    BadInterim,
    OpenUpload,
}

fn h2_case(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("h2");
    let n = s.range(1, 5);
    let mut plans = vec![];
    let mut scripts: Vec<Vec<Do>> = vec![];
    let mut want: Vec<(u16, Vec<u8>, bool)> = vec![];
    let mut gates = vec![];
    let mut bad: Vec<bool> = vec![];
    let mut cancels = vec![];
    for i in 0..n {
        let mut q = ReqPlan::get();
        q.method = s.pick(&["GET", "POST", "HEAD", "PUT", "DELETE"]).to_string();
        q.uri = format!("http://a.test/{i}");
        q.ready = false;
        q.interim = s.chance(150);
        cx.label(if q.interim { "callback" } else { "no-callback" });
        let mut gate = None;
        if matches!(q.method.as_str(), "POST" | "PUT") {
            let g = Gate::default();
            let mut steps = vec![Step::Data(Bytes::from(payload(7, 40)), 1)];
            if s.chance(128) {
                steps.push(Step::Gate(g.clone()));
                steps.push(Step::Data(Bytes::from(payload(9, 40)), 1));
                gate = Some(g);
            }
            q.body = BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: true };
        }
        let list = interims(s, cx, true);
        let mut sc: Vec<Do> = list.into_iter().map(Do::Interim).collect();
        cx.label_if(gate.is_some() && !sc.is_empty(), "during-upload");
        let mut is_bad = false;
        let (mut body, mut tr) = (vec![], false);
        let code = *s.pick(&[200u16, 204, 404, 304, 200, 500]);
        if s.chance(10) {
            cx.label("interim-end-stream");
            sc.push(Do::BadInterim);
            is_bad = true;
        } else {
            let bodyless = q.method == "HEAD" || code == 204 || code == 304;
            let frames = if bodyless { 0 } else { s.below(4) };
            tr = !bodyless && s.chance(60);
            sc.push(Do::Head(code, frames == 0 && !tr));
            for f in 0..frames {
                let d = payload(i as u8, s.range(1, 40));
                body.extend_from_slice(&d);
                sc.push(Do::Data(d, f + 1 == frames && !tr));
            }
            if tr {
                cx.label("trailers");
                sc.push(Do::Trailers);
            }
        }
        if gate.is_some() {
            let at = s.below(sc.len() + 1);
            sc.insert(at, Do::OpenUpload);
        }
        let cancel = if s.chance(20) {
            cx.label("cancelled");
            let g = Gate::default();
            q.cancel_gate = Some(g.clone());
            Some((g, s.below(sc.len())))
        } else {
            None
        };
        cancels.push(cancel);
        gates.push(gate);
        want.push((code, body, tr));
        bad.push(is_bad);
        plans.push(q);
        scripts.push(sc);
    }
    let ic = if s.chance(80) { IoCfg { cap: usize::MAX, ..IoCfg::gen_coarse(s) } } else { IoCfg::plain() };
    let sched = Plan::gen(s, 6);
    cx.describe(|| {
        let l: Vec<String> = plans.iter().zip(&scripts).map(|(q, d)| format!("{} callback={} body={} -> {:?}", q.method, q.interim, q.body.show(), d)).collect();
        format!("h2 io[{}] {}", ic.show(), l.join(" || "))
    });
    let mut ex = Exec::new(sched);
    let (io, h) = scripted(&ex.events, &ic);
    let mut peer = Peer::new(true);
    peer.huff = s.u8();
    peer.hello(&[]);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    let cp = h2::connect(&mut ex, &H2Cfg::default(), io);
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    // which stream is which request
    let callback: Vec<bool> = plans.iter().map(|q| q.interim).collect();
    cli::concurrent(&mut ex, &cp.env, plans);
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    let mut sids = vec![0u32; n];
    for (sid, st) in &peer.streams {
        let path = st.head().and_then(|f| field(f, ":path")).unwrap_or(b"").to_vec();
        if let Some(i) = path.get(1).map(|c| (*c - b'0') as usize) {
            sids[i] = *sid;
        }
    }
    ensure!(sids.iter().all(|x| *x != 0), "missing", "not every request was sent: {}", peer.show());
    let mut left: Vec<std::collections::VecDeque<Do>> = scripts.iter().map(|v| v.iter().cloned().collect()).collect();
    let mut at = vec![0usize; n];
    let mut sent: Vec<Vec<Interim>> = vec![vec![]; n];
    let mut last = usize::MAX;
    let mut step = 0;
    while left.iter().any(|l| !l.is_empty()) {
        let open: Vec<usize> = (0..n).filter(|i| !left[*i].is_empty()).collect();
        let i = *s.pick(&open);
        cx.label_if(last != usize::MAX && last != i && !sent[i].is_empty(), "interleaved");
        last = i;
        step += 1;
        if let Some((g, k)) = &cancels[i] {
            if at[i] == *k {
                g.open();
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
            }
        }
        at[i] += 1;
        let sid = sids[i];
        match left[i].pop_front().unwrap() {
            Do::Interim((code, f)) => {
                let mut l: Fields = vec![(b":status".to_vec(), code.to_string().into_bytes())];
                l.extend(f.iter().map(|(n, v)| (n.clone().into_bytes(), v.clone())));
                peer.headers(sid, &l, false);
                sent[i].push((code, f));
            }
            Do::BadInterim => peer.headers(sid, &vec![(b":status".to_vec(), b"103".to_vec())], true),
            Do::Head(code, end) => {
                let l: Fields = vec![(b":status".to_vec(), code.to_string().into_bytes()), (b"x-i".to_vec(), i.to_string().into_bytes())];
                peer.headers(sid, &l, end);
            }
            Do::Data(d, end) => peer.send(sid, &d, end),
            Do::Trailers => peer.trailers(sid, &vec![(b"x-t".to_vec(), i.to_string().into_bytes())]),
            Do::OpenUpload => gates[i].as_ref().unwrap().open(),
        }
        if step < 40 && s.chance(160) {
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
        }
    }
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    ensure!(cp.env.end.borrow().is_none(), "ended", "the connection ended: {:?} {}", cp.env.end.borrow(), peer.show());
    let calls = cp.env.calls.borrow();
    for (i, c) in calls.iter().enumerate() {
        // HTTP/2 interim responses may be withheld from the callback, but never go elsewhere
        let got = logged(c);
        ensure!(callback[i] || got.is_empty(), "misdirected", "request {i} has no callback, {got:?} was logged for it");
        let mut rest = sent[i].iter();
        for g in &got {
            let found = rest.any(|w| w.0 == g.0 && grouped(&w.1) == grouped(&g.2));
            ensure!(found, "misdirected", "request {i}: its callback got {g:?}, which was not sent to it");
        }
        if c.cancelled {
            continue;
        }
        let Some(o) = &c.out else { fail!("no-outcome", "request {i} has no outcome: {} {}", c.show(), peer.show()) };
        if bad[i] {
            ensure!(matches!(o, Outcome::Err { .. }), "interim-final", "request {i}: {} although the stream ended with an interim response", c.show());
            continue;
        }
        let Some(r) = c.resp() else { fail!("no-response", "request {i}: {} {}", c.show(), peer.show()) };
        let (code, body, tr) = &want[i];
        ensure!(r.status == *code, "status", "request {i}: status {} instead of {code}", r.status);
        let own = vec![("x-i".to_string(), i.to_string().into_bytes())];
        ensure!(r.headers == own, "headers", "request {i}: fields {:?}", r.headers);
        let g = &c.got;
        ensure!(g.err.is_none() && g.ended, "body-error", "request {i}: body ended={} err={:?}", g.ended, g.err);
        ensure!(g.data == *body, "body-bytes", "request {i}: body {:?}, sent {:?}", show(&g.data), show(body));
        let t: Vec<(String, Vec<u8>)> = g.trailers.iter().flat_map(header_list).collect();
        let wt = if *tr { vec![("x-t".to_string(), i.to_string().into_bytes())] } else { vec![] };
        ensure!(t == wt, "trailers", "request {i}: trailers {t:?}, sent {wt:?}");
    }
    Ok(())
}
