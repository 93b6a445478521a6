//! hyper HTTP/2 client against hyper HTTP/2 server: messages intact, everything completes.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, Outcome, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue, Version};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C19",
        run,
        quick: 450_000,
        thorough: 5_000_000,
        max_len: 900,
        rule: "a case is 1-7 concurrent exchanges between a hyper HTTP/2 client and server with generated windows, frame sizes, send buffers, stream limits, transport schedules and capacities; bodies are plain, ping-pong, echoed, abandoned by the server, with trailers either way; non-trivial when at least two streams are open together or the windows or transport are restricted",
        must_labels: &["plain", "ping-pong", "echo", "abandon", "concurrent", "trailers-up", "trailers-down", "small-window", "adaptive", "late-request", "tiny-cap", "many-headers", "head", "no-content", "refusable", "refused", "client-stops"],
    }
}

pub fn gen_headers(s: &mut Src) -> Vec<(String, Vec<u8>)> {
    const NAMES: &[&str] = &["x-a", "x-b", "accept", "cookie", "x-long", "user-agent", "set-cookie", "etag", "x-bin", "authorization", "content-type", "te-x", "priority"];
    let n = s.weighted(&[3, 3, 2, 1]);
    let n = if n == 3 { s.range(3, 14) } else { n };
    let mut out = vec![];
    for _ in 0..n {
        let name = s.pick(NAMES).to_string();
        let v = match s.weighted(&[4, 1, 2, 1]) {
            0 => {
                let m = s.below(20);
                (0..m).map(|_| b'a' + (s.u8() % 26)).collect::<Vec<u8>>()
            }
            1 => vec![],
            2 => {
                let m = s.range(1, 12);
                (0..m).map(|_| *s.pick(&[0x80u8, 0xff, b' ', b'\t', b'~', b'"', b',', b':', b';', b'='])).collect::<Vec<u8>>().iter().map(|c| *c).collect()
            }
            _ => vec![b'v'; *s.pick(&[100usize, 300, 1000, 126, 127, 128])],
        };
        // surrounding blanks are not part of a value
        let v: Vec<u8> = String::from_utf8_lossy(&[]).bytes().chain(trim(&v).iter().copied()).collect();
        out.push((name, v));
    }
    out
}
fn trim(v: &[u8]) -> &[u8] {
    let ws = |c: &u8| *c == b' ' || *c == b'\t';
    let a = v.iter().position(|c| !ws(c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !ws(c)).map(|i| i + 1).unwrap_or(a);
    &v[a..b]
}
pub fn gen_trailers(s: &mut Src) -> HeaderMap {
    let mut m = HeaderMap::new();
    for _ in 0..s.range(1, 4) {
        let n = *s.pick(&["x-t", "x-sum", "grpc-status", "x-u"]);
        let v = *s.pick(&["0", "", "abc", "a b"]);
        m.append(HeaderName::from_static(n), HeaderValue::from_static(v));
    }
    m
}
pub fn minus(l: &[(String, Vec<u8>)], names: &[&str]) -> Vec<(String, Vec<u8>)> {
    l.iter().filter(|h| !names.contains(&h.0.as_str())).cloned().collect()
}
pub fn same_trailers(got: &[HeaderMap], want: Option<&HeaderMap>) -> bool {
    match want {
        None => got.is_empty(),
        Some(w) => got.len() == 1 && got[0] == *w,
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let scfg = H2Cfg::gen(s);
    let mut ccfg = H2Cfg::gen(s);
    let mk = |s: &mut Src| {
        let mut c = IoCfg::gen(s);
        c.cap = match s.weighted(&[5, 2, 2]) {
            0 => usize::MAX,
            1 => s.range(200, 400),
            _ => s.range(400, 20_000),
        };
        c
    };
    let (mut ic, mut is) = (mk(s), mk(s));
    // the h2 crate doesn't read while it cannot write an acknowledgement, so two full directions
    // can block each other for good
    if ic.cap != usize::MAX && is.cap != usize::MAX {
        *(if s.chance(128) { &mut ic.cap } else { &mut is.cap }) = usize::MAX;
    }
    let sched = Plan::gen(s, 10);
    cx.label_if(ic.cap <= 400 || is.cap <= 400, "tiny-cap");
    cx.label_if(scfg.adaptive || ccfg.adaptive, "adaptive");
    let win = [scfg.stream_window, ccfg.stream_window].iter().flatten().copied().min().unwrap_or(1 << 20);
    cx.label_if(win <= 1000, "small-window");
    let slow = |c: &IoCfg| c.cap <= 400 || [&c.read, &c.write, &c.flush].iter().any(|o| o.style_name() == "bytewise");
    let n = s.weighted(&[3, 3, 3, 2, 2, 1, 1]) + 1;
    let mut lim = if slow(&ic) || slow(&is) { 300 } else if win <= 1000 { 2000 } else { usize::MAX };
    // the h2 crate ends a connection on which some 100 small DATA frames are queued
    let unit = [scfg.send_buf, ccfg.send_buf].iter().flatten().copied().min().unwrap_or(1 << 20).min(win as usize);
    if unit < 256 {
        lim = lim.min((80 * unit / n).max(3));
    }
    // a server may refuse what a client opens before it knows the limit
    let limit = scfg.max_streams.unwrap_or(200) as usize;
    let refusable = n > limit && s.chance(50);
    if !refusable && n > limit {
        ccfg.initial_streams = Some(limit.min(ccfg.initial_streams.unwrap_or(100)));
    }
    let refusable = ccfg.initial_streams.unwrap_or(100) > limit && n > limit;
    cx.label_if(refusable, "refusable");
    let body = |s: &mut Src, cx: &mut Cx, l: &'static str| {
        let mut b = BodyPlan::gen(s, lim == usize::MAX);
        for st in b.steps.iter_mut() {
            if let Step::Data(d, _) = st {
                d.truncate(lim)
            }
        }
        if s.chance(60) {
            cx.label(l);
            b.steps.push(Step::Trailers(gen_trailers(s)));
        }
        b
    };
    let sz = |s: &mut Src| (*s.pick(&[1usize, 7, 300, 9000, 17_000])).min(lim);
    let mut reqs: Vec<ReqPlan> = vec![];
    let mut resps: BTreeMap<String, RespPlan> = BTreeMap::new();
    let mut abandoned = vec![];
    let mut reads_off = vec![];
    for i in 0..n {
        let mut q = ReqPlan::get();
        let mut p = RespPlan::simple();
        let path = format!("/{i}?q={i}");
        q.uri = format!("{}://{}{}", s.pick(&["http", "https"]), s.pick(&["a.test", "b.test:81"]), path);
        q.version = *s.pick(&[Version::HTTP_2, Version::HTTP_11]);
        q.method = s.pick(&["POST", "PUT", "X-M"]).to_string();
        q.headers = gen_headers(s);
        p.headers = gen_headers(s);
        cx.label_if(q.headers.len() > 3, "many-headers");
        p.status = *s.pick(&[200u16, 200, 404, 500, 201, 299, 999]);
        p.version = Version::HTTP_2;
        q.pauses = Plan::gen(s, 4);
        p.pauses = Plan::gen(s, 4);
        p.delay = s.weighted(&[3, 1, 1]);
        p.post_delay = s.weighted(&[3, 1, 1]);
        q.delay = s.weighted(&[4, 1, 1, 1]) * 4;
        cx.label_if(q.delay > 0, "late-request");
        q.try_send = s.chance(64);
        q.ready = s.chance(160);
        match s.weighted(&[6, 4, 3, 2]) {
            0 => {
                cx.label("plain");
                q.body = body(s, cx, "trailers-up");
                p.body = body(s, cx, "trailers-down");
                p.read = match s.weighted(&[4, 2, 2]) {
                    0 => ReadPlan::All,
                    1 => ReadPlan::Background,
                    _ => ReadPlan::FramesThenBackground(s.below(3)),
                };
                match s.weighted(&[6, 2, 1, 1]) {
                    0 => {}
                    1 => {
                        q.method = "GET".into();
                        q.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                    }
                    2 => {
                        cx.label("head");
                        q.method = "HEAD".into();
                        q.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                        p.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                    }
                    _ => {
                        cx.label("no-content");
                        p.status = *s.pick(&[204u16, 304]);
                        p.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                    }
                }
                match s.weighted(&[6, 1, 1]) {
                    0 => {}
                    1 => q.read = ReadPlan::Background,
                    _ => {
                        cx.label("client-stops");
                        q.read = if s.chance(128) { ReadPlan::Drop } else { ReadPlan::Frames(s.below(3)) };
                        reads_off.push(i);
                    }
                }
            }
            1 => {
                cx.label("ping-pong");
                cx.nontrivial = true;
                let (mut qs, mut ps) = (vec![], vec![]);
                let (mut qn, mut pn) = (0usize, 0usize);
                p.read = ReadPlan::Background;
                let rounds = s.range(1, 4);
                for kx in 0..rounds {
                    let (a, b) = (sz(s), sz(s));
                    if kx == 0 && s.chance(100) {
                        let g = Gate::default();
                        ps.push(Step::Data(Bytes::from(payload(pn as u8 ^ i as u8, b)), 1));
                        pn += b;
                        q.reply_gates.push((pn, g.clone()));
                        qs.push(Step::Gate(g));
                        qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x55 ^ i as u8, a)), 1));
                        qn += a;
                    } else {
                        qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x55 ^ i as u8, a)), s.range(1, 3)));
                        qn += a;
                        let g = Gate::default();
                        p.req_gates.push((qn, g.clone()));
                        ps.push(Step::Gate(g));
                        ps.push(Step::Data(Bytes::from(payload(pn as u8 ^ i as u8, b)), s.range(1, 3)));
                        pn += b;
                        if kx + 1 < rounds || s.chance(100) {
                            let g = Gate::default();
                            q.reply_gates.push((pn, g.clone()));
                            qs.push(Step::Gate(g));
                        }
                    }
                }
                let h = |s: &mut Src| *s.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower]);
                q.body = BodyPlan { steps: qs, hint: h(s), honest_end: s.chance(128) };
                p.body = BodyPlan { steps: ps, hint: h(s), honest_end: s.chance(128) };
            }
            2 => {
                cx.label("echo");
                cx.nontrivial = true;
                p.stream_echo = true;
                p.body.hint = *s.pick(&[Hint::Exact, Hint::Unknown]);
                p.body.honest_end = !s.chance(64);
                let (mut qs, mut qn) = (vec![], 0);
                for _ in 0..s.range(1, 5) {
                    let a = sz(s);
                    qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x33 ^ i as u8, a)), s.range(1, 2)));
                    qn += a;
                    let g = Gate::default();
                    q.reply_gates.push((qn, g.clone()));
                    qs.push(Step::Gate(g));
                }
                if s.chance(60) {
                    qs.push(Step::Trailers(gen_trailers(s)));
                }
                q.body = BodyPlan { steps: qs, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: s.chance(128) };
            }
            _ => {
                cx.label("abandon");
                q.body = body(s, cx, "trailers-up");
                p.body = body(s, cx, "trailers-down");
                p.read = match s.below(3) {
                    0 => ReadPlan::Drop,
                    1 => ReadPlan::Frames(s.below(3)),
                    _ => ReadPlan::PollOnce,
                };
                abandoned.push(i);
            }
        }
        resps.insert(path, p);
        reqs.push(q);
    }
    // the h2 crate also refuses a stream while a reset of an earlier one is still queued, and ends
    // the connection when trailers arrive on a refused stream
    let refusable = refusable || (n > limit && !(abandoned.is_empty() && reads_off.is_empty()));
    if refusable {
        for q in reqs.iter_mut() {
            q.body.steps.retain(|s| !matches!(s, Step::Trailers(_)));
        }
    }
    cx.label_if(n > 1, "concurrent");
    cx.nontrivial |= n > 1 || win < 65_535 || !ic.is_plain() || !is.is_plain();
    cx.describe(|| format!("srv[{}] cli[{}] c[{}] s[{}] {}", scfg.show(), ccfg.show(), ic.show(), is.show(), reqs.iter().zip(resps.values()).map(|(q, p)| format!("{} -> {}", q.show(), p.show())).collect::<Vec<_>>().join(" || ")));

    let mut ex = Exec::new(sched);
    let total: usize = reqs.iter().zip(resps.values()).map(|(q, p)| q.body.len() * if p.stream_echo { 2 } else { 1 } + p.body.len() + 6000).sum();
    ex.max_polls = 60_000 + 60 * total as u64;
    let tr = std::env::var("TRACE").is_ok();
    let ((cio, ch), (sio, sh)) = duplex(&ex.events, &ic, &is);
    let r2 = resps.clone();
    let pf: PlanFn = Rc::new(move |_, parts| r2[parts.uri.path_and_query().unwrap().as_str()].clone());
    let (sp, cp);
    if s.chance(128) {
        sp = h2::serve(&mut ex, &scfg, sio, pf);
        cp = h2::connect(&mut ex, &ccfg, cio);
    } else {
        cp = h2::connect(&mut ex, &ccfg, cio);
        sp = h2::serve(&mut ex, &scfg, sio, pf);
    }
    // the h2 crate can lose a window update when a stream's window shrinks below what was already
    // sent on it, so a server with a small window only gets requests once its settings are known
    let settled = scfg.stream_window.is_some_and(|w| w < 65_535) || s.chance(40);
    if settled {
        ex.run();
    }
    let tasks = cli::concurrent(&mut ex, &cp.env, reqs.clone());
    if tr {
        lock(&ch.tx).record = Some(vec![]);
        lock(&sh.tx).record = Some(vec![]);
    }
    let state = |cp: &cli::CliPart, sp: &SrvPart| {
        let c: Vec<String> = cp.env.calls.borrow().iter().map(|c| c.show()).collect();
        let v: Vec<String> = sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?} responded={}", c.uri, c.got.data.len(), c.got.ended, c.got.err, c.responded)).collect();
        if tr {
            let mut b = lock(&ch.tx).record.clone().unwrap();
            b.drain(..24);
            let v: Vec<String> = crate::h2wire::take_frames(&mut b).iter().map(|f| f.show()).collect();
            println!("C->S {v:?}");
            let mut b = lock(&sh.tx).record.clone().unwrap();
            let v: Vec<String> = crate::h2wire::take_frames(&mut b).iter().map(|f| f.show()).collect();
            println!("S->C {v:?}");
        }
        format!("client {c:?} end={:?}; server {v:?} end={:?}; in flight c->s {} s->c {}", cp.env.end.borrow(), sp.end.borrow(), lock(&ch.tx).buf.len(), lock(&sh.tx).buf.len())
    };
    // time passes in small steps so that round trips have a length
    for _ in 0..200 {
        ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity after {} polls: {}", ex.polls, state(&cp, &sp));
        if tasks.iter().all(|t| ex.is_done(*t)) || ex.clock.next_deadline().is_none() {
            break;
        }
        let t = ex.clock.now() + std::time::Duration::from_millis(7);
        ex.clock.advance_to(t);
    }
    {
        let cc = cp.env.calls.borrow();
        let sc = sp.calls.borrow();
        let mut delivered = 0;
        for i in 0..n {
            let (c, q) = (&cc[i], &reqs[i]);
            let path = format!("/{i}?q={i}");
            let p = &resps[&path];
            let svc: Vec<&Call> = sc.iter().filter(|v| v.uri.ends_with(&path)).collect();
            match &c.out {
                Some(Outcome::Resp(r)) => {
                    ensure!(r.status == p.status, "wrong-response", "request {i}: status {} instead of {}", r.status, p.status);
                    ensure!(r.version == Version::HTTP_2, "wrong-response", "request {i}: version {:?}", r.version);
                    let auto = if p.headers.iter().any(|h| h.0 == "date") { vec!["content-length"] } else { vec!["content-length", "date"] };
                    let (got, want) = (grouped(&minus(&r.headers, &auto)), grouped(&p.headers));
                    ensure!(got == want, "wrong-headers", "response {i} has {got:?} instead of {want:?}");
                }
                Some(o) => {
                    // refused before the limit was known
                    let ok = refusable && svc.is_empty();
                    ensure!(ok, "failed", "request {i} failed: {o:?}: {}", state(&cp, &sp));
                    cx.label("refused");
                    continue;
                }
                None => fail!("stuck", "request {i} never resolved: {}", state(&cp, &sp)),
            }
            ensure!(svc.len() == 1, "wrong-request", "request {i} reached the service {} times", svc.len());
            delivered += 1;
            let v = svc[0];
            ensure!(v.method == q.method && v.version == Some(Version::HTTP_2), "wrong-request", "request {i} is {} {:?}", v.method, v.version);
            ensure!(v.uri == q.uri, "wrong-request", "request {i} is for {} instead of {}", v.uri, q.uri);
            let (got, want) = (grouped(&minus(&v.headers, &["content-length"])), grouped(&q.headers));
            ensure!(got == want, "wrong-headers", "request {i} has {got:?} instead of {want:?}");
            if let Err(e) = c.got.hint_check().and_then(|_| v.got.hint_check()) {
                fail!("hint", "exchange {i}: {e}");
            }
            let trailers = |b: &BodyPlan| b.steps.iter().find_map(|s| if let Step::Trailers(t) = s { Some(t.clone()) } else { None });
            let (want, wt) = if p.stream_echo { (q.body.data(), trailers(&q.body)) } else { (p.body.data(), trailers(&p.body)) };
            if reads_off.contains(&i) {
                ensure!(c.got.err.is_none() && want.starts_with(&c.got.data), "wrong-body", "response body {i}: {} bytes err={:?}", c.got.data.len(), c.got.err);
                // the rest of this exchange is up to the server's reaction to the reset
                ensure!(v.got.data.len() <= q.body.len() && q.body.data().starts_with(&v.got.data), "wrong-body", "request body {i}: {} bytes", v.got.data.len());
                continue;
            }
            ensure!(c.got.over(), "stuck", "response body {i} never ended after {} bytes: {}", c.got.data.len(), state(&cp, &sp));
            ensure!(c.got.clean() && c.got.data == want && same_trailers(&c.got.trailers, wt.as_ref()), "wrong-body", "response body {i}: {} of {} bytes, ended={} err={:?} trailers={:?}: {}", c.got.data.len(), want.len(), c.got.ended, c.got.err, c.got.trailers, state(&cp, &sp));
            let want = q.body.data();
            if abandoned.contains(&i) {
                ensure!(v.got.err.is_none() && want.starts_with(&v.got.data), "wrong-body", "request body {i}: {} bytes err={:?}", v.got.data.len(), v.got.err);
            } else if p.stream_echo {
                ensure!(v.got.err.is_none() && v.got.data == want, "wrong-body", "request body {i}: {} of {} bytes err={:?}", v.got.data.len(), want.len(), v.got.err);
            } else {
                ensure!(v.got.over(), "stuck", "request body {i} never ended at the service: {}", state(&cp, &sp));
                ensure!(v.got.clean() && v.got.data == want && same_trailers(&v.got.trailers, trailers(&q.body).as_ref()), "wrong-body", "request body {i}: {} of {} bytes err={:?} trailers={:?}", v.got.data.len(), want.len(), v.got.err, v.got.trailers);
            }
        }
        ensure!(sc.len() == delivered, "wrong-request", "the service saw {} requests, {delivered} were answered: {}", sc.len(), state(&cp, &sp));
    }
    for t in tasks {
        ensure!(ex.is_done(t), "stuck", "a client task has not finished: {}", state(&cp, &sp));
    }
    let s2 = cp.env.sender.borrow_mut().take();
    drop(s2);
    let t = ex.clock.now() + std::time::Duration::from_secs(3);
    ensure!(ex.run_timed(t) == Stall::Quiet, "spin", "no end of activity: {}", state(&cp, &sp));
    let (ce, se) = (cp.env.end.borrow().clone(), sp.end.borrow().clone());
    match (ce, se) {
        // the server may still have had an acknowledgement to write
        (Some(c), Some(v)) => ensure!(c.ok && (v.ok || v.text.contains("BrokenPipe")), "bad-end", "the connections ended with {} / {}", c.text, v.text),
        _ => fail!("stuck", "the connections outlive the last sender: {}", state(&cp, &sp)),
    }
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state(&cp, &sp));
    Ok(())
}
