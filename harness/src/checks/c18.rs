//! Progress of hyper client against hyper server over a wake-driven world.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, Cli, CliCfg, Outcome, ReqPlan};
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C18",
        run,
        quick: 300_000,
        thorough: 25_000_000,
        max_len: 500,
        rule: "a case is 1-5 exchanges between a hyper client and a hyper server over a transport with its own readiness schedule, capacity and staging; bodies are plain, ping-pong (each side's next piece waits for the other side's last one), echoed as they arrive, or wait for 100 Continue; non-trivial when the two sides' bodies depend on each other or the transport is not always ready",
        must_labels: &["plain", "ping-pong", "echo", "expect", "background", "second-exchange", "tiny-cap", "staged", "wild", "head", "early-response", "chunked", "client-background", "close"],
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mut scfg = SrvCfg::gen_neutral(s);
    scfg.timer = false;
    let ccfg = CliCfg::gen_neutral(s);
    let mk = |s: &mut Src| {
        let mut c = IoCfg::gen(s);
        c.cap = match s.weighted(&[4, 2, 2]) {
            0 => usize::MAX,
            1 => s.range(1, 30),
            _ => s.range(30, 20_000),
        };
        c
    };
    let (ic, is) = (mk(s), mk(s));
    cx.label_if(ic.cap <= 30 || is.cap <= 30, "tiny-cap");
    cx.label_if(ic.buffered || is.buffered, "staged");
    cx.nontrivial = !ic.is_plain() || !is.is_plain();
    let sched = Plan::gen(s, 10);
    let slow = |c: &IoCfg| c.cap <= 200 || [&c.read, &c.write, &c.flush].iter().any(|o| o.style_name() == "bytewise");
    let big = !slow(&ic) && !slow(&is);
    let body = |s: &mut Src| {
        let mut b = BodyPlan::gen(s, big);
        if !big {
            for st in b.steps.iter_mut() {
                if let Step::Data(d, _) = st {
                    d.truncate(300)
                }
            }
        }
        b
    };
    let sz = |s: &mut Src| if big { *s.pick(&[1usize, 7, 300, 9000, 17000]) } else { *s.pick(&[1usize, 7, 40, 300]) };
    let n = s.weighted(&[4, 4, 2, 1, 1]) + 1;
    let mut reqs = vec![];
    let mut resps = vec![];
    // exchanges from here on may fail for reasons of their own making
    let mut wild_from = usize::MAX;
    let mut close_from = usize::MAX;
    for i in 0..n {
        let mut q = ReqPlan::get();
        let mut p = RespPlan::simple();
        q.uri = format!("/{i}");
        q.method = "POST".into();
        q.pauses = Plan::gen(s, 4);
        p.pauses = Plan::gen(s, 4);
        p.delay = s.weighted(&[3, 1, 1]);
        p.post_delay = s.weighted(&[3, 1, 1]);
        q.try_send = s.chance(64);
        if s.chance(16) {
            cx.label("close");
            let h = ("connection".to_string(), b"close".to_vec());
            if s.chance(128) { q.headers.push(h) } else { p.headers.push(h) }
            close_from = close_from.min(i + 1);
        }
        match s.weighted(&[5, 4, 3, 2, 1]) {
            0 => {
                cx.label("plain");
                q.body = body(s);
                p.body = body(s);
                p.read = match s.weighted(&[4, 2, 2]) {
                    0 => ReadPlan::All,
                    1 => ReadPlan::Background,
                    _ => ReadPlan::FramesThenBackground(s.below(3)),
                };
                match s.weighted(&[6, 2, 1]) {
                    0 => {}
                    1 => {
                        q.method = "GET".into();
                        q.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                    }
                    _ => {
                        cx.label("head");
                        q.method = "HEAD".into();
                        q.body = BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true };
                    }
                }
                if s.chance(50) {
                    cx.label("client-background");
                    q.read = ReadPlan::Background;
                }
                cx.label_if(p.read != ReadPlan::All, "background");
            }
            1 => {
                cx.label("ping-pong");
                cx.nontrivial = true;
                let rounds = s.range(1, 4);
                let (mut qs, mut ps) = (vec![], vec![]);
                let (mut qn, mut pn) = (0usize, 0usize);
                p.read = ReadPlan::Background;
                for k in 0..rounds {
                    let (a, b) = (sz(s), sz(s));
                    let server_first = k == 0 && s.chance(100);
                    if server_first {
                        cx.label("early-response");
                        let g = Gate::default();
                        ps.push(Step::Data(Bytes::from(payload(pn as u8, b)), 1));
                        pn += b;
                        q.reply_gates.push((pn, g.clone()));
                        qs.push(Step::Gate(g));
                        qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x55, a)), 1));
                        qn += a;
                    } else {
                        qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x55, a)), s.range(1, 3)));
                        qn += a;
                        let g = Gate::default();
                        p.req_gates.push((qn, g.clone()));
                        ps.push(Step::Gate(g));
                        if s.chance(40) {
                            ps.push(Step::Pending(1));
                        }
                        ps.push(Step::Data(Bytes::from(payload(pn as u8, b)), s.range(1, 3)));
                        pn += b;
                        if k + 1 < rounds || s.chance(100) {
                            let g = Gate::default();
                            q.reply_gates.push((pn, g.clone()));
                            qs.push(Step::Gate(g));
                        }
                    }
                }
                let h = |s: &mut Src| *s.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower]);
                q.body = BodyPlan { steps: qs, hint: h(s), honest_end: s.chance(128) };
                p.body = BodyPlan { steps: ps, hint: h(s), honest_end: s.chance(128) };
            }
            2 => {
                cx.label("echo");
                cx.nontrivial = true;
                p.stream_echo = true;
                p.body.hint = *s.pick(&[Hint::Exact, Hint::Unknown]);
                p.body.honest_end = !s.chance(64);
                let (mut qs, mut qn) = (vec![], 0);
                if s.chance(100) {
                    // not before the response began
                    cx.label("early-response");
                    let g = Gate::default();
                    q.reply_gates.push((0, g.clone()));
                    qs.push(Step::Gate(g));
                }
                for _ in 0..s.range(1, 5) {
                    let a = sz(s);
                    qs.push(Step::Data(Bytes::from(payload(qn as u8 ^ 0x33, a)), s.range(1, 2)));
                    qn += a;
                    let g = Gate::default();
                    q.reply_gates.push((qn, g.clone()));
                    qs.push(Step::Gate(g));
                }
                q.body = BodyPlan { steps: qs, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: s.chance(128) };
            }
            3 => {
                cx.label("expect");
                cx.nontrivial = true;
                q.headers.push(("expect".into(), b"100-continue".to_vec()));
                q.interim = true;
                let g = Gate::default();
                q.interim_gate = Some(g.clone());
                q.reply_gates.push((0, g.clone()));
                let mut b = body(s);
                b.steps.insert(0, Step::Gate(g));
                q.body = b;
                p.body = body(s);
                p.read = match s.weighted(&[4, 2, 1]) {
                    0 => ReadPlan::All,
                    1 => ReadPlan::Background,
                    _ => ReadPlan::FramesThenBackground(s.below(3)),
                };
            }
            _ => {
                cx.label("wild");
                wild_from = wild_from.min(i);
                q.body = body(s);
                p.body = body(s);
                // one side stops reading; if both do, nobody is left to make room
                if s.chance(128) {
                    p.read = match s.below(3) {
                        0 => ReadPlan::Drop,
                        1 => ReadPlan::Frames(s.below(3)),
                        _ => ReadPlan::PollOnce,
                    };
                } else {
                    q.read = match s.below(2) {
                        0 => ReadPlan::Drop,
                        _ => ReadPlan::Frames(s.below(3)),
                    };
                }
            }
        }
        cx.label_if(q.body.hint != Hint::Exact, "chunked");
        reqs.push(q);
        resps.push(p);
    }
    cx.label_if(n > 1, "second-exchange");
    cx.describe(|| format!("srv={} cli={} c[{}] s[{}] {}", scfg.show(), ccfg.show(), ic.show(), is.show(), reqs.iter().zip(&resps).map(|(q, p)| format!("{} -> {}", q.show(), p.show())).collect::<Vec<_>>().join(" || ")));

    let mut ex = Exec::new(sched);
    let total: usize = reqs.iter().zip(&resps).map(|(q, p)| q.body.len() * if p.stream_echo { 2 } else { 1 } + p.body.len() + 600).sum();
    ex.max_polls = 20_000 + 16 * total as u64;
    let ((cio, ch), (sio, sh)) = duplex(&ex.events, &ic, &is);
    let r2 = resps.clone();
    let first_server = s.chance(128);
    let (sp, cp);
    let pf: PlanFn = Rc::new(move |i, _| r2[i.min(r2.len() - 1)].clone());
    if first_server {
        sp = Srv::start_on(&mut ex, &scfg, sio, pf);
        cp = Cli::start_on(&mut ex, &ccfg, cio);
    } else {
        cp = Cli::start_on(&mut ex, &ccfg, cio);
        sp = Srv::start_on(&mut ex, &scfg, sio, pf);
    }
    let client_task = cli::sequence(&mut ex, &cp.env, reqs.clone());
    let state = |cp: &cli::CliPart, sp: &SrvPart| {
        let c: Vec<String> = cp.env.calls.borrow().iter().map(|c| c.show()).collect();
        let v: Vec<String> = sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?} responded={}", c.uri, c.got.data.len(), c.got.ended, c.got.err, c.responded)).collect();
        let (a, b) = (lock(&ch.tx), lock(&sh.tx));
        format!("client {c:?} end={:?}; server {v:?} end={:?}; in flight c->s {} s->c {}", cp.env.end.borrow(), sp.end.borrow(), show(&a.buf.iter().copied().collect::<Vec<_>>()), show(&b.buf.iter().copied().collect::<Vec<_>>()))
    };
    ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity after {} polls: {}", ex.polls, state(&cp, &sp));
    for (h, who) in [(&ch, "client"), (&sh, "server")] {
        let st = lock(&h.st);
        ensure!(st.dropped || st.shutdown || (!st.dirty && st.stage.is_empty()), "unflushed", "the {who} left written bytes unflushed: {}", state(&cp, &sp));
    }
    let limit = wild_from.min(close_from).min(n);
    {
        let cc = cp.env.calls.borrow();
        let sc = sp.calls.borrow();
        for i in 0..n {
            let c = &cc[i];
            if i >= limit {
                // whatever became of it, somebody was told
                if i < wild_from {
                    ensure!(c.out.is_some(), "stuck", "request {i} never resolved: {}", state(&cp, &sp));
                }
                continue;
            }
            match &c.out {
                Some(Outcome::Resp(r)) => ensure!(r.status == 200, "wrong-response", "request {i}: status {}", r.status),
                Some(o) => fail!("failed", "request {i} failed: {o:?}: {}", state(&cp, &sp)),
                None => fail!("stuck", "request {i} never resolved: {}", state(&cp, &sp)),
            }
            ensure!(c.got.over(), "stuck", "response body {i} never ended after {} bytes: {}", c.got.data.len(), state(&cp, &sp));
            let want = if reqs[i].method == "HEAD" {
                vec![]
            } else if resps[i].stream_echo {
                reqs[i].body.data()
            } else {
                resps[i].body.data()
            };
            // the last exchange of a connection that closes may still be uploading in the background
            ensure!(c.got.clean() && c.got.data == want, "wrong-body", "response body {i}: {} of {} bytes, ended={} err={:?}: {}", c.got.data.len(), want.len(), c.got.ended, c.got.err, state(&cp, &sp));
            ensure!(i < sc.len(), "stuck", "request {i} never delivered");
            let v = &sc[i];
            let bg_close = i + 1 == close_from && (resps[i].read != ReadPlan::All || resps[i].stream_echo);
            ensure!(v.uri == reqs[i].uri, "wrong-request", "request {i} is {}", v.uri);
            if resps[i].stream_echo {
                // a forwarded body of known length may be let go of once its bytes are through
                ensure!(v.got.err.is_none() && v.got.data == reqs[i].body.data(), "wrong-body", "request body {i}: {} of {} bytes err={:?}", v.got.data.len(), reqs[i].body.len(), v.got.err);
            } else if !bg_close {
                ensure!(v.got.over(), "stuck", "request body {i} never ended at the service: {}", state(&cp, &sp));
                ensure!(v.got.clean() && v.got.data == reqs[i].body.data(), "wrong-body", "request body {i}: {} of {} bytes err={:?}", v.got.data.len(), reqs[i].body.len(), v.got.err);
            }
        }
    }
    if wild_from < n {
        // nothing more is asked: everything must come to an end by itself
        let s2 = cp.env.sender.borrow_mut().take();
        drop(s2);
        ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity: {}", state(&cp, &sp));
        ensure!(cp.env.end.borrow().is_some() && sp.end.borrow().is_some(), "stuck", "a connection outlives its last exchange: {}", state(&cp, &sp));
        ensure!(cp.env.calls.borrow().iter().all(|c| c.out.is_some()), "stuck", "a request never resolved: {}", state(&cp, &sp));
        return Ok(());
    }
    ensure!(ex.is_done(client_task), "stuck", "the client has not finished: {}", state(&cp, &sp));
    let s2 = cp.env.sender.borrow_mut().take();
    drop(s2);
    ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity: {}", state(&cp, &sp));
    let (ce, se) = (cp.env.end.borrow().clone(), sp.end.borrow().clone());
    match (ce, se) {
        (Some(c), Some(v)) => {
            if close_from == usize::MAX {
                ensure!(c.ok && v.ok, "bad-end", "the connections ended with {} / {}", c.text, v.text);
            }
        }
        _ => fail!("stuck", "the connections outlive the last sender: {}", state(&cp, &sp)),
    }
    Ok(())
}
