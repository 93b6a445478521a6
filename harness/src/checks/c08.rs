//! Connection reuse against what the messages of both sides declare.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::refh1::wants_ka;
use crate::respgen::members;
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire::{self, Framing};
use crate::{ensure, fail};
use bytes::Bytes;
use http::Version;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C08",
        run,
        quick: 2_500_000,
        thorough: 20_000_000,
        max_len: 320,
        rule: "a case is 2-4 exchanges offered to one server or client connection, with generated versions, Connection field lines on both messages, framing, reuse configuration and transport behaviour; whether each next exchange takes place and how the connection ends is compared with what both messages declare; non-trivial when some message carries a Connection field, is HTTP/1.0 or close-delimited",
        must_labels: &["server", "client", "reused", "closed-request", "closed-response", "closed-10", "keep-alive-10", "close-delimited", "disabled", "pipelined", "response-10-to-11", "obs-text", "trailers"],
    }
}

type H = Vec<(Vec<u8>, Vec<u8>)>;

/// Connection field lines; often none
fn gen_conn(s: &mut Src, cx: &mut Cx, some: u32) -> Vec<Vec<u8>> {
    if !s.chance(some) {
        return vec![];
    }
    let n = s.weighted(&[0, 6, 3, 1]);
    let v: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            s.pick(&[
                &b"close"[..],
                b"keep-alive",
                b"Keep-Alive",
                b"CLOSE",
                b"x-a",
                b"keep-alive, x-a",
                b"x-a,close",
                b"close , keep-alive",
                b"keep-alive,\tclose",
                b"",
                b"closed",
                b"close2, keepalive",
                b"\xe9, close",
                b"keep-alive, \xff",
                b", ,close,",
            ])
            .to_vec()
        })
        .collect();
    cx.label_if(v.iter().any(|x| x.iter().any(|b| *b >= 0x80)), "obs-text");
    v
}
fn trailers() -> Step {
    let mut t = http::HeaderMap::new();
    t.insert("x-sum", http::HeaderValue::from_static("1"));
    Step::Trailers(t)
}
fn as_h(v: &[Vec<u8>]) -> H {
    v.iter().map(|x| (b"connection".to_vec(), x.clone())).collect()
}
fn has(v: &[Vec<u8>], t: &[u8]) -> bool {
    members(v).iter().any(|m| m == t)
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(128) {
        client(s, cx)
    } else {
        server(s, cx)
    }
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("server");
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.keep_alive = !s.chance(28);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(2, 4);
    let some = *s.pick(&[40u32, 100, 180]);
    let mut reqs = vec![];
    let mut plans: Vec<RespPlan> = vec![];
    let mut rka = vec![];
    let mut v11s = vec![];
    let mut heads = vec![];
    for i in 0..n {
        let v11 = !s.chance(60);
        let c = if !v11 && s.chance(150) { vec![b"keep-alive".to_vec()] } else { gen_conn(s, cx, some) };
        let head = s.chance(24);
        let post = !head && s.chance(60);
        let mut b = format!("{} /{i} HTTP/1.{}\r\n", if head { "HEAD" } else if post { "POST" } else { "GET" }, v11 as u8).into_bytes();
        for l in &c {
            b.extend_from_slice(b"Connection: ");
            b.extend_from_slice(l);
            b.extend_from_slice(b"\r\n");
        }
        if s.chance(80) {
            b.extend_from_slice(b"TE: trailers\r\n");
        }
        if post {
            b.extend_from_slice(if v11 && s.chance(128) { &b"Transfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n0\r\n\r\n"[..] } else { b"Content-Length: 2\r\n\r\nhi" });
        } else {
            b.extend_from_slice(b"\r\n");
        }
        rka.push(wants_ka(if v11 { 11 } else { 10 }, &as_h(&c)));
        v11s.push(v11);
        heads.push(head);
        cx.nontrivial |= !v11 || !c.is_empty();
        reqs.push(b);
        let mut p = RespPlan::simple();
        p.version = if s.chance(40) { Version::HTTP_10 } else { Version::HTTP_11 };
        for l in gen_conn(s, cx, some / 2) {
            p.headers.push(("connection".into(), l));
        }
        if s.chance(30) {
            p.headers.push(("x-a".into(), b"1".to_vec()));
        }
        p.status = *s.pick(&[200, 200, 200, 204, 304, 404, 500]);
        p.delay = s.weighted(&[4, 1, 1]);
        p.body = match s.weighted(&[3, 2, 3]) {
            0 => BodyPlan { steps: vec![Step::Data(Bytes::from_static(b"ok"), 1)], hint: Hint::Exact, honest_end: true },
            1 => BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true },
            _ => {
                let mut b = BodyPlan::gen(s, false);
                b.hint = Hint::Unknown;
                if s.chance(80) {
                    p.headers.push(("trailer".into(), b"x-sum".to_vec()));
                    b.steps.push(trailers());
                    cx.label("trailers");
                }
                b
            }
        };
        plans.push(p);
    }
    let pipelined = s.chance(128);
    cx.label_if(pipelined, "pipelined");
    cx.describe(|| {
        let v: Vec<String> = reqs.iter().zip(&plans).map(|(r, p)| format!("{} -> {}", show(r), p.show())).collect();
        format!("server ka={} pipelined={pipelined} io[{}] {}", cfg.keep_alive, io_cfg.show(), v.join(" || "))
    });
    let ps = plans.clone();
    let pf: PlanFn = Rc::new(move |i, _| ps[i.min(ps.len() - 1)].clone());
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    if pipelined {
        for r in &reqs {
            feed(&srv.io.rx, r);
        }
    } else {
        for r in &reqs {
            feed(&srv.io.rx, r);
            ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        }
    }
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    // model: exchange i takes place iff all before it permit it
    let mut served = n;
    let mut last_says = false;
    for i in 0..n {
        let conn: Vec<Vec<u8>> = plans[i].headers.iter().filter(|h| h.0 == "connection").map(|h| h.1.clone()).collect();
        let (close, keep) = (has(&conn, b"close"), has(&conn, b"keep-alive"));
        let out11 = v11s[i] && plans[i].version == Version::HTTP_11;
        let bodyless = heads[i] || matches!(plans[i].status, 204 | 304);
        let unknown = !plans[i].body.ends_at_once() && !plans[i].body.exact();
        let close_delimited = !out11 && unknown && !bodyless;
        let user10 = plans[i].version == Version::HTTP_10;
        // HTTP/1.0 in the response is agreed only if it says so
        let resp_ok = !close && !close_delimited && (!user10 || keep);
        cx.label_if(user10 && v11s[i], "response-10-to-11");
        cx.label_if(close_delimited, "close-delimited");
        if !(cfg.keep_alive && rka[i] && resp_ok) {
            served = i + 1;
            last_says = out11;
            cx.label_if(!cfg.keep_alive, "disabled");
            cx.label_if(!rka[i] && v11s[i], "closed-request");
            cx.label_if(!rka[i] && !v11s[i], "closed-10");
            cx.label_if(rka[i] && close, "closed-response");
            break;
        }
        cx.label_if(!v11s[i], "keep-alive-10");
        cx.label_if(i > 0, "reused");
    }
    let calls = srv.calls.borrow().len();
    let out = srv.io.output();
    if calls > served {
        fail!("served-after-close", "{calls} requests were served, but exchange {} was the last one permitted: {}", served - 1, srv.show_state());
    }
    ensure!(calls == served, "not-reused", "only {calls} of {served} requests were served: {}", srv.show_state());
    let closed = served < n || {
        // the last one offered may itself be final
        let i = n - 1;
        let conn: Vec<Vec<u8>> = plans[i].headers.iter().filter(|h| h.0 == "connection").map(|h| h.1.clone()).collect();
        let out11 = v11s[i] && plans[i].version == Version::HTTP_11;
        let bodyless = heads[i] || matches!(plans[i].status, 204 | 304);
        let unknown = !plans[i].body.ends_at_once() && !plans[i].body.exact();
        !cfg.keep_alive || !rka[i] || has(&conn, b"close") || (!out11 && unknown && !bodyless) || (plans[i].version == Version::HTTP_10 && !has(&conn, b"keep-alive"))
    };
    let methods: Vec<Vec<u8>> = heads.iter().map(|h| if *h { b"HEAD".to_vec() } else { b"GET".to_vec() }).collect();
    let st = match wire::responses(&out, &methods, srv.io.shutdown()) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    ensure!(st.msgs.len() == served && st.rest == 0 && !st.partial, "responses", "{} responses for {served} exchanges: {}", st.msgs.len(), show(&out));
    for (i, m) in st.msgs.iter().enumerate() {
        ensure!(m.complete, "responses", "response {i} is incomplete: {}", srv.show_state());
        if i + 1 < served {
            ensure!(m.persistent(), "declared", "response {i} says the connection ends, but request {} was served: {}", i + 1, show(&out[m.start..m.head_end]));
        }
    }
    if closed {
        let m = &st.msgs[served - 1];
        if m.version == 11 {
            ensure!(m.conn_token("close"), "undeclared", "the connection was closed after response {}, which does not say close: {}", served - 1, show(&out[m.start..m.head_end]));
        } else if m.framing != Framing::Close && !plans[served - 1].headers.iter().any(|h| h.0 == "connection") {
            ensure!(!m.persistent(), "undeclared", "the connection was closed after response {}, which says keep-alive: {}", served - 1, show(&out[m.start..m.head_end]));
        }
        let _ = last_says;
        ensure!(srv.io.shutdown(), "not-shut-down", "transport was not shut down after the last response: {}", srv.show_state());
        ensure!(!lock(&srv.io.st).write_after_shutdown, "order", "bytes were written after shutdown");
        let e = srv.ended();
        ensure!(e.as_ref().map(|e| e.ok).unwrap_or(false), "end", "connection ended as {e:?}: {}", srv.show_state());
        // nothing fed now is looked at
        feed(&srv.io.rx, b"GET /late HTTP/1.1\r\n\r\n");
        srv.ex.run();
        ensure!(srv.calls.borrow().len() == served, "served-after-close", "a request was served after the connection was closed");
    } else {
        ensure!(srv.ended().is_none(), "closed-early", "connection ended although both sides agreed to keep it: {}", srv.show_state());
        feed_eof(&srv.io.rx);
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        ensure!(srv.ended().map(|e| e.ok).unwrap_or(false) && srv.io.shutdown(), "end", "idle connection did not end cleanly: {}", srv.show_state());
    }
    Ok(())
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("client");
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(2, 4);
    let some = *s.pick(&[40u32, 100, 180]);
    struct X {
        req: ReqPlan,
        conn: Vec<Vec<u8>>,
        resp: Vec<u8>,
        v11: bool,
        rconn: Vec<Vec<u8>>,
        close_delimited: bool,
    }
    let xs: Vec<X> = (0..n)
        .map(|_| {
            let mut req = ReqPlan::get();
            let head = s.chance(24);
            if head {
                req.method = "HEAD".into();
            } else if s.chance(60) {
                req.method = "POST".into();
                req.body = BodyPlan::gen(s, false);
                if s.chance(60) {
                    req.body.hint = Hint::Unknown;
                    req.headers.push(("trailer".into(), b"x-sum".to_vec()));
                    req.body.steps.push(trailers());
                    cx.label("trailers");
                }
            }
            let conn = gen_conn(s, cx, some / 2);
            for l in &conn {
                req.headers.push(("connection".into(), l.clone()));
            }
            req.ready = true;
            let v11 = !s.chance(60);
            let rconn = if !v11 && s.chance(150) { vec![b"keep-alive".to_vec()] } else { gen_conn(s, cx, some) };
            let status = *s.pick(&[200, 200, 200, 204, 304, 404]);
            let mut resp = format!("HTTP/1.{} {status} X\r\n", v11 as u8).into_bytes();
            for l in &rconn {
                resp.extend_from_slice(b"Connection: ");
                resp.extend_from_slice(l);
                resp.extend_from_slice(b"\r\n");
            }
            let bodyless = head || matches!(status, 204 | 304);
            let mut close_delimited = false;
            if bodyless {
                resp.extend_from_slice(if s.chance(60) { &b"Content-Length: 5\r\n\r\n"[..] } else { b"\r\n" });
            } else {
                match s.weighted(&[4, 2, 1]) {
                    1 if v11 => resp.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n0\r\n\r\n"),
                    2 => {
                        resp.extend_from_slice(b"\r\nhello");
                        close_delimited = true;
                    }
                    _ => resp.extend_from_slice(b"Content-Length: 2\r\n\r\nhi"),
                }
            }
            X { req, conn, resp, v11, rconn, close_delimited }
        })
        .collect();
    cx.nontrivial |= xs.iter().any(|x| !x.conn.is_empty() || !x.rconn.is_empty() || !x.v11 || x.close_delimited);
    cx.describe(|| {
        let v: Vec<String> = xs.iter().map(|x| format!("{} -> {}", x.req.show(), show(&x.resp))).collect();
        format!("client io[{}] {}", io_cfg.show(), v.join(" || "))
    });
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    cli.ex.run();
    let mut pos = 0;
    for (i, x) in xs.iter().enumerate() {
        ensure!(cli.ready_now() == Some(true), "not-reused", "connection is not ready for request {i} although every message so far permits it: {}", cli.show_state());
        cli.send(&x.req);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let out = cli.io.output();
        let m = match wire::request(&out, pos) {
            Ok(wire::P::Msg(m)) => m,
            Ok(_) => fail!("not-sent", "request {i} was not written: {}", cli.show_state()),
            Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
        };
        ensure!(m.complete && m.end == out.len(), "not-sent", "request {i} is incomplete: {}", cli.show_state());
        pos = m.end;
        feed(&cli.io.rx, &x.resp);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let uclose = has(&x.conn, b"close");
        // the request itself must not ask for more than the user wanted
        ensure!(m.conn_token("close") == uclose, "declared", "request {i} says close={} on the wire, user said {uclose}", m.conn_token("close"));
        if m.version == 10 && !uclose {
            ensure!(m.conn_token("keep-alive"), "declared", "request {i} written as HTTP/1.0 does not ask for keep-alive");
        }
        let ok = !uclose && !x.close_delimited && wants_ka(if x.v11 { 11 } else { 10 }, &as_h(&x.rconn));
        if x.close_delimited {
            cx.label("close-delimited");
            ensure!(cli.ready_now() == Some(false), "reused", "ready for another request inside a close-delimited body");
            feed_eof(&cli.io.rx);
            ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        }
        {
            let c = cli.env.calls.borrow();
            ensure!(c[i].resp().is_some() && c[i].got.clean(), "response", "request {i} did not get its response: {}", cli.show_state());
        }
        if ok {
            cx.label_if(i > 0, "reused");
            cx.label_if(!x.v11, "keep-alive-10");
            ensure!(cli.ended().is_none(), "closed-early", "connection ended although both sides agreed to keep it: {}", cli.show_state());
            continue;
        }
        cx.label_if(uclose, "closed-request");
        cx.label_if(has(&x.rconn, b"close"), "closed-response");
        cx.label_if(!x.v11 && !uclose, "closed-10");
        ensure!(cli.io.shutdown(), "not-shut-down", "transport was not shut down after the last response: {}", cli.show_state());
        ensure!(cli.ended().map(|e| e.ok).unwrap_or(false), "end", "connection ended as {:?}", cli.ended());
        ensure!(cli.closed_now() == Some(true), "reused", "sender does not report the connection closed");
        // a further request gets an error and leaves no trace
        let mut p = ReqPlan::get();
        p.try_send = s.chance(128);
        let (k, _) = cli.send(&p);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let c = cli.env.calls.borrow();
        match &c[k].out {
            Some(Outcome::Err { returned, .. }) => ensure!(!p.try_send || *returned, "reused", "a request on the closed connection was not handed back"),
            o => fail!("reused", "a request on the closed connection resolved as {o:?}"),
        }
        ensure!(cli.io.output().len() == pos, "reused", "bytes were written after the last exchange");
        return Ok(());
    }
    cli.drop_sender();
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    ensure!(cli.ended().map(|e| e.ok).unwrap_or(false) && cli.io.shutdown(), "end", "idle connection did not end cleanly: {}", cli.show_state());
    Ok(())
}
