//! Outgoing HTTP/1 bodies that fail.
use crate::body::{gen_size, BodyPlan, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire::{self, Framing};
use crate::{ensure, fail};
use bytes::Bytes;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C30",
        run,
        quick: 900_000,
        thorough: 20_000_000,
        max_len: 420,
        rule: "a case is 1-3 messages sent by a hyper HTTP/1 server or client whose bodies may fail (an error, or fewer bytes than declared) at any frame, in every framing, over generated transports; non-trivial when a body fails before its message is complete",
        must_labels: &[
            "server", "client", "error", "short", "length", "chunked", "close", "user-length", "at-once", "after-some", "after-all", "bodyless", "first", "later", "pipelined", "queued", "early-response", "partial-response",
            "no-response", "not-broken", "trailers", "upload-going-on", "blocked",
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fails {
    No,
    Err,
    Short,
}
struct Out {
    plan: BodyPlan,
    /// declared by the user where the hint says nothing
    user_cl: Option<usize>,
    /// bytes handed over before the failure
    before: Vec<u8>,
    fails: Fails,
}
impl Out {
    fn declared(&self) -> Option<usize> {
        self.user_cl.or((self.plan.hint == Hint::Exact).then(|| self.plan.len()))
    }
}

fn gen_body(s: &mut Src, cx: &mut Cx, fail: bool) -> Out {
    let tag = s.u8();
    let mut steps = vec![];
    let mut before = vec![];
    let pending = |s: &mut Src, steps: &mut Vec<Step>| {
        if s.chance(60) {
            steps.push(Step::Pending(s.range(1, 3)));
        }
    };
    let nf = s.range(if fail { 0 } else { 1 }, 4);
    for i in 0..nf {
        pending(s, &mut steps);
        let n = if s.chance(20) { 0 } else { gen_size(s, true).max(1) };
        let d = payload(tag.wrapping_add(i as u8), n);
        before.extend_from_slice(&d);
        steps.push(Step::Data(Bytes::from(d), if s.chance(60) { s.range(2, 5) } else { 1 }));
    }
    pending(s, &mut steps);
    let hint = *s.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower]);
    let mut honest_end = !s.chance(64);
    let mut fails = Fails::No;
    let mut user_cl = None;
    let missing = if s.chance(60) { 0 } else { *s.pick(&[1usize, 5, 1000, 70000]) };
    if fail {
        if s.chance(128) {
            fails = Fails::Err;
            steps.push(Step::Err);
        } else {
            fails = Fails::Short;
            if steps.is_empty() {
                honest_end = false;
            }
            steps.push(Step::Cut);
        }
        if hint == Hint::Exact && missing > 0 {
            steps.push(Step::Data(Bytes::from(payload(1, missing)), 1));
        }
    }
    if hint != Hint::Exact && s.chance(100) {
        cx.label("user-length");
        user_cl = Some(before.len() + if fail { missing } else { 0 });
    }
    if hint != Hint::Exact && user_cl.is_none() && fails != Fails::Err && s.chance(80) {
        // goes nowhere unless announced, but must not end the message wrongly either
        let mut t = http::HeaderMap::new();
        t.insert("x-t", "1".parse().unwrap());
        let at = if fails == Fails::Short { steps.len() - 1 } else { steps.len() };
        steps.insert(at, Step::Trailers(t));
        cx.label("trailers");
    }
    Out { plan: BodyPlan { steps, hint, honest_end }, user_cl, before, fails }
}

/// the message cannot be completed
fn broken(o: &Out, f: &Framing) -> bool {
    match (o.fails, f) {
        (Fails::No, _) | (_, Framing::None) => false,
        (_, Framing::Length(n)) => (o.before.len() as u64) < *n,
        // (after trailers nothing more is asked for)
        (Fails::Err, _) => true,
        (Fails::Short, _) => false,
    }
}
fn label(cx: &mut Cx, o: &Out, f: &Framing, i: usize) {
    if o.fails == Fails::No {
        return;
    }
    cx.label(if o.fails == Fails::Err { "error" } else { "short" });
    match f {
        Framing::None => cx.label("bodyless"),
        Framing::Length(_) => cx.label("length"),
        Framing::Chunked => cx.label("chunked"),
        Framing::Close => cx.label("close"),
    }
    if !broken(o, f) {
        cx.label(if o.declared() == Some(o.before.len()) { "after-all" } else { "not-broken" });
        return;
    }
    cx.nontrivial = true;
    cx.label(if o.before.is_empty() { "at-once" } else { "after-some" });
    cx.label(if i == 0 { "first" } else { "later" });
}
fn judge(i: usize, o: &Out, f: &Framing, m: &wire::Msg) -> R {
    if broken(o, f) {
        ensure!(*f == Framing::Close || !m.complete, "false-complete", "message {i} failed after {} bytes, but a complete message is on the wire: {}", o.before.len(), m.show());
        ensure!(o.before.starts_with(&m.body), "body-bytes", "message {i}: {} bytes on the wire are no prefix of its body ({} bytes): {}", m.body.len(), o.before.len(), m.show());
    } else if *f != Framing::None {
        ensure!(m.complete || *f == Framing::Close, "incomplete", "message {i} was fine but is not complete on the wire: {}", m.show());
        ensure!(m.body == o.before, "body-bytes", "message {i}: {} bytes on the wire, not the {} of its body: {}", m.body.len(), o.before.len(), m.show());
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(128) {
        server(s, cx)
    } else {
        client(s, cx)
    }
}
fn gen_io(s: &mut Src, cx: &mut Cx) -> IoCfg {
    let cap = if s.chance(90) {
        cx.label("blocked");
        *s.pick(&[1000usize, 100, 20_000])
    } else {
        usize::MAX
    };
    IoCfg { cap, ..IoCfg::gen_coarse(s) }
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("server");
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.keep_alive = true;
    let io_cfg = gen_io(s, cx);
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 3);
    let bad = s.below(n + 1);
    let mut reqs: Vec<Vec<u8>> = vec![];
    let mut methods: Vec<Vec<u8>> = vec![];
    let mut outs = vec![];
    let mut frs = vec![];
    let mut plans = vec![];
    let mut cut_upload = false;
    for i in 0..n {
        let o = gen_body(s, cx, i == bad);
        let m = *s.pick(&["GET", "POST", "GET", "HEAD"]);
        let v10 = s.chance(40);
        let mut r = format!("{m} /{i} HTTP/1.{}\r\n{}", if v10 { 0 } else { 1 }, if v10 { "connection: keep-alive\r\n" } else { "" }).into_bytes();
        let mut p = RespPlan::simple();
        if m == "POST" {
            if i + 1 == n && s.chance(80) {
                cx.label("upload-going-on");
                cut_upload = true;
                r.extend_from_slice(b"content-length: 50\r\n\r\nhello");
                p.read = ReadPlan::Background;
            } else {
                r.extend_from_slice(b"content-length: 5\r\n\r\nhello");
                p.read = s.pick(&[ReadPlan::All, ReadPlan::Background, ReadPlan::Drop]).clone();
            }
        } else {
            r.extend_from_slice(b"\r\n");
        }
        p.status = *s.pick(&[200u16, 200, 404, 204, 304]);
        p.delay = s.weighted(&[6, 1, 1]);
        if let Some(n) = o.user_cl {
            p.headers.push(("content-length".into(), n.to_string().into_bytes()));
        }
        p.body = o.plan.clone();
        let bodyless = m == "HEAD" || p.status == 204 || p.status == 304;
        let f = if bodyless || o.plan.ends_at_once() {
            Framing::None
        } else if let Some(n) = o.declared() {
            Framing::Length(n as u64)
        } else if v10 {
            Framing::Close
        } else {
            Framing::Chunked
        };
        label(cx, &o, &f, i);
        reqs.push(r);
        methods.push(m.as_bytes().to_vec());
        outs.push(o);
        frs.push(f);
        plans.push(p);
    }
    let pipelined = s.chance(128);
    cx.label_if(pipelined && n > 1, "pipelined");
    cx.describe(|| {
        let v: Vec<String> = reqs.iter().zip(&plans).map(|(r, p)| format!("{} -> {}", show(r), p.show())).collect();
        format!("server pipelined={pipelined} io[{}] {}", io_cfg.show(), v.join(" || "))
    });
    let ps = plans.clone();
    let pf: PlanFn = Rc::new(move |i, _| ps[i.min(ps.len() - 1)].clone());
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    let mut out = vec![];
    for i in 0..n {
        feed(&srv.io.rx, &reqs[i]);
        if !pipelined || i + 1 == n {
            flow(&mut srv.ex, &srv.io, &mut out)?;
        }
    }
    let first_broken = (0..n).find(|i| broken(&outs[*i], &frs[*i]));
    // a message without end ends the connection, too
    let last = (0..n).find(|i| Some(*i) == first_broken || frs[*i] == Framing::Close);
    let ncalls = srv.calls.borrow().len();
    let ended = srv.ended();
    if let Some(b) = first_broken.filter(|b| Some(*b) == last) {
        let Some(e) = &ended else { fail!("silent", "message {b} failed, but the connection goes on: {}", srv.show_state()) };
        let kind = if outs[b].fails == Fails::Err { "user" } else { "body_write_aborted" };
        ensure!(!e.ok && e.kinds.contains(kind), "silent", "message {b} failed, but the connection ended with {:?} ({:?})", e, outs[b].fails);
        ensure!(srv.io.shutdown() || srv.io.dropped(), "silent", "message {b} failed, but the transport stays open");
    }
    let st = match wire::responses(&out, &methods, true) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    if let Some(l) = last {
        ensure!(ncalls == l + 1, "continued", "{ncalls} requests were served, the connection had to end with number {}", l + 1);
        ensure!(st.msgs.len() <= l + 1, "continued", "{} messages on the wire, the last is number {}", st.msgs.len(), l + 1);
    } else {
        ensure!(ncalls == n && st.msgs.len() == n, "missing", "{n} requests, {ncalls} served, {} responses: {}", st.msgs.len(), srv.show_state());
    }
    ensure!(st.rest == 0 && (!st.partial || first_broken.is_some()), "excess", "{} bytes after the last message, partial={}: {}", st.rest, st.partial, show(&out));
    for (i, m) in st.msgs.iter().enumerate() {
        if first_broken.is_some() && Some(i) != first_broken && !m.complete {
            // an earlier response that was not flushed when the connection failed
            ensure!(outs[i].before.starts_with(&m.body), "body-bytes", "message {i}: {}", m.show());
            ensure!(i + 1 == st.msgs.len(), "continued", "message {i} is cut, and another follows");
            continue;
        }
        judge(i, &outs[i], &frs[i], m)?;
    }
    if first_broken.is_none() && last.is_none() {
        feed_eof(&srv.io.rx);
        flow(&mut srv.ex, &srv.io, &mut out)?;
        let Some(e) = srv.ended() else { fail!("hang", "connection did not end: {}", srv.show_state()) };
        ensure!(e.ok || cut_upload, "failed", "nothing failed, but the connection ended with {e:?}");
    }
    Ok(())
}

fn flow(ex: &mut Exec, io: &IoHandle, out: &mut Vec<u8>) -> R {
    loop {
        ensure!(ex.run() == Stall::Quiet, "spin", "spinning");
        let d = drain(&io.tx);
        if d.is_empty() {
            return Ok(());
        }
        out.extend_from_slice(&d);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    No,
    Early,
    Partial,
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("client");
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = gen_io(s, cx);
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 3);
    let bad = s.below(n + 1);
    let mut outs = vec![];
    let mut frs = vec![];
    let mut plans = vec![];
    for i in 0..n {
        let mut o = gen_body(s, cx, i == bad);
        let mut p = ReqPlan::get();
        p.method = s.pick(&["POST", "PUT"]).to_string();
        p.uri = format!("/{i}");
        p.try_send = s.chance(64);
        if let Some(n) = o.user_cl {
            p.headers.push(("content-length".into(), n.to_string().into_bytes()));
        }
        if s.chance(128) {
            // held until the response has begun
            o.plan.steps.insert(0, Step::Pending(s.range(1, 4)));
        }
        p.body = o.plan.clone();
        let f = if o.plan.ends_at_once() {
            Framing::None
        } else if let Some(n) = o.declared() {
            Framing::Length(n as u64)
        } else {
            Framing::Chunked
        };
        label(cx, &o, &f, i);
        outs.push(o);
        frs.push(f);
        plans.push(p);
    }
    let reply: Vec<Reply> = (0..n).map(|_| *s.pick(&[Reply::No, Reply::Early, Reply::Partial])).collect();
    let lead: Vec<usize> = (0..n).map(|_| s.below(30)).collect();
    let queue = s.chance(100);
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&reply).map(|(p, r)| format!("{} ({r:?})", p.show())).collect();
        format!("client queue={queue} io[{}] {}", io_cfg.show(), v.join(" || "))
    });
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    let mut out = vec![];
    flow(&mut cli.ex, &cli.io, &mut out)?;
    let mut broke = None;
    let mut got_all = vec![false; n];
    for i in 0..n {
        if cli.env.calls.borrow().len() <= i {
            if cli.ready_now() != Some(true) {
                fail!("not-reusable", "the connection cannot be used for message {i}: {}", cli.show_state());
            }
            cli.send(&plans[i]);
        }
        if queue && i + 1 < n && broken(&outs[i], &frs[i]) && reply[i] == Reply::No {
            // another request waits behind this one
            cx.label("queued");
            cli.send(&plans[i + 1]);
        }
        let early = reply[i] != Reply::No;
        if early {
            for _ in 0..lead[i] {
                cli.ex.step();
            }
            let r: &[u8] = if reply[i] == Reply::Early { b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nhi" } else { b"HTTP/1.1 200 OK\r\ncontent-length: 20\r\n\r\nhi" };
            // (a response may only come once its request has begun)
            if cli.ended().is_none() && started(&cli, &out, i) {
                feed(&cli.io.rx, r);
                got_all[i] = true;
                cx.label(if reply[i] == Reply::Early { "early-response" } else { "partial-response" });
            }
        } else {
            cx.label("no-response");
        }
        flow(&mut cli.ex, &cli.io, &mut out)?;
        if broken(&outs[i], &frs[i]) {
            broke = Some(i);
            break;
        }
        // all is well: complete the exchange
        if !got_all[i] {
            feed(&cli.io.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nhi");
        } else if reply[i] == Reply::Partial {
            feed(&cli.io.rx, &[b'x'; 18]);
        }
        flow(&mut cli.ex, &cli.io, &mut out)?;
        let c = cli.env.calls.borrow();
        ensure!(c[i].resp().is_some() && c[i].got.clean(), "response", "request {i} did not get its response: {}; {}", c[i].show(), cli.show_state());
    }
    let (msgs, partial) = match wire::requests(&out) {
        Ok(x) => x,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    for (i, m) in msgs.iter().enumerate() {
        ensure!(i < n, "excess", "{} messages on the wire", msgs.len());
        judge(i, &outs[i], &frs[i], m)?;
    }
    let Some(b) = broke else {
        ensure!(msgs.len() == n && !partial, "missing", "{n} requests, {} on the wire", msgs.len());
        return Ok(());
    };
    ensure!(msgs.len() <= b + 1, "continued", "{} messages on the wire, number {} failed", msgs.len(), b + 1);
    if let Some(m) = msgs.get(b) {
        ensure!(m.end == out.len(), "excess", "{} bytes after the failed message", out.len() - m.end);
    }
    let Some(e) = cli.ended() else { fail!("silent", "message {b} failed, but the connection goes on: {}", cli.show_state()) };
    ensure!(cli.io.shutdown() || cli.io.dropped(), "silent", "message {b} failed, but the transport stays open");
    ensure!(cli.closed_now() == Some(true), "silent", "message {b} failed, but the sender is not closed");
    let c = cli.env.calls.borrow();
    // the failure is reported where the user can see it
    let mut seen = vec![];
    if !e.ok {
        seen.push(e.kinds.clone());
    }
    match &c[b].out {
        Some(Outcome::Err { kinds, returned, .. }) => {
            seen.push(kinds.clone());
            ensure!(!returned, "handed-back", "request {b} was handed back after it had begun");
            let kind = if outs[b].fails == Fails::Err { "user" } else { "body_write_aborted" };
            ensure!(kinds.contains(kind), "kind", "request {b}: {kinds} instead of {kind}");
        }
        Some(Outcome::Resp(_)) => {
            ensure!(reply[b] != Reply::No && got_all[b], "response", "request {b} got a response nobody sent");
            if reply[b] == Reply::Partial {
                ensure!(!c[b].got.ended, "false-complete", "request {b}: its response body was cut, but it ended: {:?}", c[b].got);
                ensure!(c[b].got.err.is_some(), "stuck", "request {b}: its response body never ends");
                seen.push("body".into());
            }
        }
        _ => fail!("no-outcome", "request {b} has no outcome: {}", cli.show_state()),
    }
    if let Some(q) = c.get(b + 1) {
        match &q.out {
            Some(Outcome::Err { .. }) => seen.push("queued".into()),
            _ => fail!("no-outcome", "the request queued behind has no error: {}", q.show()),
        }
    }
    ensure!(!seen.is_empty(), "silent", "message {b} failed, but nobody was told: {}", cli.show_state());
    Ok(())
}

/// has the head of request `i` gone out completely?
fn started(cli: &Cli, out: &[u8], i: usize) -> bool {
    let mut all = out.to_vec();
    all.extend_from_slice(&cli.io.output());
    matches!(wire::requests(&all), Ok((m, _)) if m.len() > i)
}
