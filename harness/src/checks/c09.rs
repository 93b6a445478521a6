//! Pipelined requests against services of every timing.
use crate::body::{BodyPlan, Hint, Step};
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::respgen::{self, ReqFacts};
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use bytes::Bytes;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C09",
        run,
        quick: 400_000,
        thorough: 15_000_000,
        max_len: 520,
        rule: "a case is 2-6 tagged requests with and without bodies sent back to back (in generated pieces) to a server whose service answers with generated delays, body reading and response streaming, over a transport with generated readiness and capacity; every response and every request body carries its own tag; non-trivial when at least two requests were served",
        must_labels: &["drop-unread", "hold", "background", "partial-read", "read-all", "all-served", "closed-unread", "drained-unread", "slow-output", "streamed", "half-close"],
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = SrvCfg::gen_neutral(s);
    let slow = s.chance(64);
    let cap = if slow { *s.pick(&[1usize, 7, 100, 1000]) } else { usize::MAX };
    let mut io_cfg = IoCfg { cap, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 16);
    let n = s.range(2, 6);
    let mut stream = vec![];
    let mut facts = vec![];
    let mut bodies: Vec<Vec<u8>> = vec![];
    let mut framed = vec![];
    let mut plans: Vec<RespPlan> = vec![];
    let st = Style::clean();
    for i in 0..n {
        let m = *s.pick(&["GET", "POST", "POST", "HEAD", "PUT"]);
        let size = if s.chance(24) { s.range(3000, 20000) } else { s.below(60) };
        let body: Vec<u8> = match s.weighted(&[3, 4, 2]) {
            0 => vec![],
            1 => payload(i as u8 + 40, size),
            // a body that looks like a request
            _ => format!("GET /evil{i} HTTP/1.1\r\n\r\n").repeat(s.range(1, 3)).into_bytes(),
        };
        stream.extend_from_slice(format!("{m} /{i} HTTP/1.1\r\nx-req: {i}\r\n").as_bytes());
        if body.is_empty() && s.chance(170) {
            stream.extend_from_slice(b"\r\n");
            framed.push(false);
        } else if s.chance(110) {
            framed.push(true);
            stream.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            h1gen::chunk_encode(s, st, &body, &[], &mut stream);
        } else {
            framed.push(!body.is_empty());
            stream.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            stream.extend_from_slice(&body);
        }
        bodies.push(body);
        facts.push(ReqFacts { method: m.as_bytes().to_vec(), v11: true, te_trailers: false });
        let mut p = RespPlan::simple();
        p.delay = s.weighted(&[5, 2, 2, 1]);
        p.post_delay = s.weighted(&[5, 1, 1]);
        p.pauses = Plan::gen(s, 5);
        p.read = match s.weighted(&[4, 1, 1, 2, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            2 => ReadPlan::Frames(s.range(1, 2)),
            3 => ReadPlan::Background,
            4 => ReadPlan::Hold,
            _ => ReadPlan::FramesThenBackground(1),
        };
        p.status = *s.pick(&[200, 200, 200, 204, 404]);
        p.headers.push(("x-i".into(), i.to_string().into_bytes()));
        // tagged body
        let len = if s.chance(20) { s.range(2000, 30000) } else { s.below(80) };
        let d = payload(i as u8 + 1, len);
        let mut steps = vec![];
        let mut rest = &d[..];
        while !rest.is_empty() {
            let k = 1 + s.below(rest.len());
            if s.chance(80) {
                steps.push(Step::Pending(s.range(1, 3)));
            }
            steps.push(Step::Data(Bytes::copy_from_slice(&rest[..k]), 1));
            rest = &rest[k..];
        }
        p.body = BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: !s.chance(64) };
        cx.label_if(p.body.steps.len() > 2, "streamed");
        plans.push(p);
    }
    let total: usize = plans.iter().map(|p| p.body.len()).sum();
    let cap = cap.max(total / 300);
    io_cfg.cap = cap;
    let early_eof = s.chance(30);
    if early_eof {
        cfg.half_close = true;
        cx.label("half-close");
    }
    let cuts = gen_cuts(s, &stream);
    cx.describe(|| {
        let v: Vec<String> = plans.iter().map(|p| p.show()).collect();
        format!("{} io[{}] cap={cap} segs={} eof={early_eof} {} -> {}", cfg.show(), io_cfg.show(), cuts.len(), show(&stream), v.join(" || "))
    });
    let ps = plans.clone();
    let pf: PlanFn = Rc::new(move |i, _| ps[i.min(ps.len() - 1)].clone());
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    ensure!(play(&mut srv.ex, &srv.io, None, &cuts), "spin", "spinning: {}", srv.show_state());
    if early_eof {
        feed_eof(&srv.io.rx);
    }
    let mut out = vec![];
    loop {
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        let d = drain(&srv.io.tx);
        if d.is_empty() {
            break;
        }
        cx.label_if(slow, "slow-output");
        out.extend_from_slice(&d);
    }
    let before_eof = srv.ended();
    feed_eof(&srv.io.rx);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    out.extend_from_slice(&drain(&srv.io.tx));
    let calls = srv.calls.borrow();
    cx.nontrivial |= calls.len() >= 2;
    let methods: Vec<Vec<u8>> = facts.iter().map(|f| f.method.clone()).collect();
    let w = match wire::responses(&out, &methods, srv.io.shutdown()) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    ensure!(calls.len() <= n, "extra-call", "{} requests were delivered, {n} were sent: {}", calls.len(), srv.show_state());
    let mut gave_up = false;
    for (i, c) in calls.iter().enumerate() {
        ensure!(!c.overlap, "overlap", "request {i} was delivered before an earlier one was answered");
        // what a body-less response was given as body does not matter, nor when a body all of
        // whose declared bytes were taken is dropped
        let open = c.open_bodies.iter().find(|(k, taken, ended)| {
            let b = &plans[*k].body;
            facts[*k].method != b"HEAD" && plans[*k].status != 204 && (*taken < b.len() || (!b.exact() && !*ended))
        });
        ensure!(open.is_none(), "overlap", "request {i} was delivered while the response body of {open:?} was still being taken");
        ensure!(c.uri == format!("/{i}") && c.method.as_bytes() == &facts[i].method[..], "order", "call {i} is {} {}", c.method, c.uri);
        ensure!(!gave_up, "served-after-leak", "request {i} was delivered after an unfinished request");
        let b = &bodies[i];
        ensure!(b.starts_with(&c.got.data), "body-bytes", "request {i} got body bytes that are not its own: {:?}, sent {:?}", show(&c.got.data), show(b));
        let full = matches!(plans[i].read, ReadPlan::All | ReadPlan::Background | ReadPlan::FramesThenBackground(_));
        if full {
            ensure!(c.got.clean() && &c.got.data == b, "body", "request {i}: body not delivered: {} of {} bytes, ended={} err={:?}", c.got.data.len(), b.len(), c.got.ended, c.got.err);
        } else if i + 1 == calls.len() && i + 1 < n {
            // an unread body may end the connection
            gave_up = framed[i];
        }
        match plans[i].read {
            ReadPlan::All => cx.label("read-all"),
            ReadPlan::Drop => cx.label("drop-unread"),
            ReadPlan::Frames(_) => cx.label("partial-read"),
            ReadPlan::Hold => cx.label("hold"),
            _ => cx.label("background"),
        }
        cx.label_if(!full && !b.is_empty() && i + 1 < calls.len(), "drained-unread");
    }
    ensure!(w.msgs.len() == calls.len() && !w.partial && w.rest == 0, "one-each", "{} responses for {} requests: {}", w.msgs.len(), calls.len(), show(&out));
    ensure!(w.interim.iter().all(|v| v.is_empty()) && w.tail_interim.is_empty(), "interim", "unexpected interim responses");
    for (i, m) in w.msgs.iter().enumerate() {
        let e = respgen::expect(&plans[i], &facts[i]);
        respgen::check(i, &plans[i], &facts[i], &cfg, &e, m)?;
        respgen::check_body(i, &e, m, false)?;
        ensure!(m.all("x-i") == vec![i.to_string().as_bytes()], "order", "response {i} on the wire carries tag {:?}", m.all("x-i"));
    }
    if calls.len() < n {
        ensure!(gave_up, "not-served", "only {} of {n} requests were served: {}", calls.len(), srv.show_state());
        cx.label("closed-unread");
        ensure!(before_eof.as_ref().map(|e| e.ok).unwrap_or(false) && srv.io.shutdown(), "end", "connection was given up but ended as {before_eof:?}");
    } else {
        cx.label("all-served");
        let e = srv.ended();
        ensure!(e.as_ref().map(|e| e.ok).unwrap_or(false), "end", "connection ended as {e:?}");
        ensure!(srv.io.shutdown(), "end", "transport was not shut down");
    }
    Ok(())
}
