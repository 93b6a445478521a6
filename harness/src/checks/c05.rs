//! Responses a service returns against an independent reader of the bytes written.
use crate::dates;
use crate::engine::*;
use crate::respgen::{self, Err3, ReqFacts, RespOpts};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C05",
        run,
        quick: 1_200_000,
        thorough: 25_000_000,
        max_len: 420,
        rule: "a case is 1-3 requests (method, version, connection options) on one server connection, each answered with a generated response (status, version, fields, framing fields, reason, body steps and size hint); the bytes written are read back by an independent reader; non-trivial when a response has a body, user framing fields, is body-less by rule or must be refused",
        must_labels: &["chunked", "length", "close", "bodyless", "user-framing", "refused", "http10", "head", "connect", "short-body", "excess-body", "second-response"],
    }
}

pub fn gen_req(s: &mut Src, out: &mut Vec<u8>) -> ReqFacts {
    let m = *s.pick(&["GET", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS"]);
    let v11 = !s.chance(64);
    let t = if m == "CONNECT" { "h:1" } else { "/" };
    out.extend_from_slice(format!("{m} {t} HTTP/1.{}\r\n", v11 as u8).as_bytes());
    match s.weighted(&[6, 2, 1]) {
        0 => {}
        1 => out.extend_from_slice(b"Connection: keep-alive\r\n"),
        _ => out.extend_from_slice(b"Connection: close\r\n"),
    }
    let te = s.chance(60);
    if te {
        out.extend_from_slice(b"TE: trailers\r\n");
    }
    if m == "POST" || m == "PUT" {
        match s.weighted(&[2, 2, 1]) {
            1 => out.extend_from_slice(b"Content-Length: 5\r\n\r\nhello"),
            2 if v11 => out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"),
            _ => out.extend_from_slice(b"\r\n"),
        }
    } else {
        out.extend_from_slice(b"\r\n");
    }
    ReqFacts { method: m.as_bytes().to_vec(), v11, te_trailers: te }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.keep_alive = !s.chance(24);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 3);
    let mut reqs = vec![];
    let mut facts = vec![];
    let mut plans = vec![];
    for _ in 0..n {
        let mut b = vec![];
        let f = gen_req(s, &mut b);
        let o = RespOpts { big: true, framing_headers: true, connection: true, odd_status: true };
        let mut p = respgen::gen_resp(s, &f, o);
        p.delay = s.weighted(&[6, 1, 1]);
        p.read = match s.weighted(&[4, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            _ => ReadPlan::Background,
        };
        reqs.push(b);
        facts.push(f);
        plans.push(p);
    }
    let pipelined = s.chance(128);
    cx.describe(|| {
        let v: Vec<String> = reqs.iter().zip(&plans).map(|(r, p)| format!("{} -> {}", show(r), p.show())).collect();
        format!("ka={} pipelined={pipelined} io[{}] {}", cfg.keep_alive, io_cfg.show(), v.join(" || "))
    });
    let ps = plans.clone();
    let pf: PlanFn = Rc::new(move |i, _| ps[i.min(ps.len() - 1)].clone());
    // real time passes before and within the connection
    let slow = dates::rare(s, 250);
    let mut since = vec![];
    if slow {
        cx.label("time-passes");
        dates::age();
    }
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    for (i, r) in reqs.iter().enumerate() {
        if slow {
            since.push(if i > 0 && !pipelined { dates::wait() } else { std::time::SystemTime::now() });
        }
        feed(&srv.io.rx, r);
        if !pipelined {
            ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        }
    }
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    feed_eof(&srv.io.rx);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning after end of input: {}", srv.show_state());
    ensure!(srv.ended().is_some(), "hang", "connection did not end: {}", srv.show_state());
    let ncalls = srv.calls.borrow().len();
    let out = srv.io.output();
    let methods: Vec<Vec<u8>> = facts.iter().map(|f| f.method.clone()).collect();
    let st = match wire::responses(&out, &methods, srv.io.shutdown()) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    let early = srv.ended().map(|e| !e.ok).unwrap_or(false);
    ensure!(!st.partial || early, "malformed-output", "output ends inside a head: {}", show(&out));
    ensure!(st.msgs.len() <= ncalls, "extra-response", "{} responses for {} requests served: {}", st.msgs.len(), ncalls, show(&out));
    ensure!(st.interim.iter().all(|v| v.is_empty()) && st.tail_interim.is_empty(), "interim", "interim response written although none was due: {}", show(&out));
    let end = srv.ended().unwrap();
    // a body that fails ends the connection at once, even if earlier responses are not flushed yet
    let cut = (0..ncalls).any(|i| {
        let e = respgen::expect(&plans[i], &facts[i]);
        e.err != Err3::Must && !e.complete
    });
    ensure!(!cut || !end.ok, "silent", "a response fell short of its declared length but the connection reported success");
    for i in 0..ncalls {
        let (p, f) = (&plans[i], &facts[i]);
        let e = respgen::expect(p, f);
        cx.label_if(!f.v11, "http10");
        cx.label_if(f.method == b"HEAD", "head");
        cx.label_if(f.method == b"CONNECT", "connect");
        let uf = p.headers.iter().any(|(n, _)| n == "content-length" || n == "transfer-encoding");
        cx.label_if(uf, "user-framing");
        cx.nontrivial |= uf || e.bodyless || !e.body.is_empty() || e.err != Err3::No;
        let m = st.msgs.get(i);
        if i > 0 && m.is_some() {
            cx.label("second-response");
        }
        match (&e.err, m) {
            // cut off before its head was flushed
            (Err3::No | Err3::May, None) if cut => {}
            (Err3::Must, None) | (Err3::May, None) => {
                cx.label("refused");
                ensure!(!end.ok && end.kinds.contains("user"), "silent", "response {i} was dropped but the connection reported {:?}", end);
                ensure!(ncalls == i + 1, "continued", "connection went on after refusing response {i}");
                break;
            }
            (Err3::Must, Some(m)) => {
                cx.label("refused");
                ensure!(e.interim && m.status == 500 && m.complete && m.body.is_empty(), "not-refused", "response {i} ({}) cannot be sent, but {} was written", p.show(), m.show());
                ensure!(!end.ok && end.kinds.contains("user"), "silent", "response {i} was replaced but the connection reported {:?}", end);
                ensure!(ncalls == i + 1 && st.msgs.len() == i + 1 && st.rest == 0, "continued", "output goes on after refusing response {i}");
                break;
            }
            (_, None) => fail!("missing-response", "request {i} was served but no response was written; {}", srv.show_state()),
            (_, Some(m)) => {
                respgen::check(i, p, f, &cfg, &e, m)?;
                if slow && cfg.date && !p.headers.iter().any(|h| h.0.eq_ignore_ascii_case("date")) {
                    let d = m.headers.iter().find(|h| h.0.eq_ignore_ascii_case(b"date")).map(|h| h.1.clone()).unwrap_or_default();
                    ensure!(dates::current(&d, since[i]), "date", "response {i}: date {:?} is not the current time", show(&d));
                }
                if e.err == Err3::No {
                    respgen::check_body(i, &e, m, cut)?;
                    cx.label_if(!e.complete, "short-body");
                    cx.label_if(!e.bodyless && p.body.len() > e.body.len(), "excess-body");
                }
                match m.framing {
                    wire::Framing::None => cx.label("bodyless"),
                    wire::Framing::Length(_) => cx.label("length"),
                    wire::Framing::Chunked => cx.label("chunked"),
                    wire::Framing::Close => cx.label("close"),
                }
                if e.upgrade || !m.complete {
                    ensure!(ncalls == i + 1 || cut, "continued", "connection went on after response {i} ({})", m.show());
                    // nothing but the head of a tunnel response, nothing after a broken one
                    ensure!(st.rest == 0, "excess", "bytes after response {i}: {}", show(&out[m.end..]));
                }
            }
        }
    }
    ensure!(st.rest == 0, "excess", "bytes after the last response: {}", show(&out[out.len() - st.rest..]));
    Ok(())
}
