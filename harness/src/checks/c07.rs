//! Trailers: received intact, sent only where they are allowed.
use crate::body::{BodyPlan, Got, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd};
use crate::reqgen;
use crate::respgen::{self, ReqFacts};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire::{self, Framing, Msg};
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C07",
        run,
        quick: 1_200_000,
        thorough: 20_000_000,
        max_len: 380,
        rule: "a case either feeds a chunked request or response with a generated (sometimes mutated) trailer section to a server or client and compares what the application reads with a reference decoder, or attaches trailers to 1-2 outgoing responses or requests with generated Trailer and TE fields and reads the wire back; non-trivial when there are trailers",
        must_labels: &["recv-server", "recv-client", "recv-trailers", "recv-malformed", "send-server", "send-client", "sent", "withheld-forbidden", "withheld-unannounced", "withheld-te", "withheld-framing"],
    }
}

const NAMES: &[&str] = &["x-t", "x-sum", "etag", "server-timing", "x-t", "grpc-status", "a"];
const FORBIDDEN: &[&str] = &["authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type", "host", "max-forwards", "set-cookie", "trailer", "transfer-encoding", "te"];
const VALUES: &[&[u8]] = &[b"0", b"", b"a b, c", b"\xe9\xff", b"tab\tx", b"chunked", b"v1", b"v2"];

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(4) {
        0 => send_server(s, cx),
        1 => send_client(s, cx),
        2 => recv(s, cx, true),
        _ => recv(s, cx, false),
    }
}

// ------------------------------------------------------------------ receiving

fn section(s: &mut Src) -> Vec<u8> {
    let mut t = vec![];
    let n = s.weighted(&[2, 6, 5, 4, 2, 1]);
    let n = if n == 5 { s.range(5, 40) } else { n };
    for _ in 0..n {
        let name = if s.chance(40) { s.pick(FORBIDDEN).to_string() } else { s.pick(NAMES).to_string() };
        let name = match s.weighted(&[4, 2, 1]) {
            0 => name,
            1 => name.to_ascii_uppercase(),
            _ => {
                let mut b = name.into_bytes();
                b[0] = b[0].to_ascii_uppercase();
                String::from_utf8(b).unwrap()
            }
        };
        t.extend_from_slice(name.as_bytes());
        t.push(b':');
        t.extend_from_slice(s.pick(&[&b" "[..], b"", b"  ", b"\t"]));
        t.extend_from_slice(s.pick(VALUES));
        t.extend_from_slice(s.pick(&[&b""[..], b"", b"", b" "]));
        t.extend_from_slice(b"\r\n");
    }
    t.extend_from_slice(b"\r\n");
    t
}

fn recv(s: &mut Src, cx: &mut Cx, server: bool) -> R {
    cx.label(if server { "recv-server" } else { "recv-client" });
    let st = Style::normal();
    let mut st2 = st;
    st2.weird = 0;
    let n = h1gen::body_size(s) % 3000;
    let data = crate::src::payload(s.u8(), n);
    let mut ch = vec![];
    h1gen::chunk_encode(s, st2, &data, &[], &mut ch);
    // replace the empty trailer section
    ch.truncate(ch.len() - 2);
    let body_len = ch.len();
    let mut t = section(s);
    if s.chance(90) {
        match s.weighted(&[3, 2]) {
            0 => h1gen::mutate(s, &mut t),
            _ => {
                let k = s.below(t.len());
                let ins: &[u8] = s.pick(&[&b"\n"[..], b"\r", b"\0", b" ", b":", b"\r\n", b" x\r\n", b"bad name: v\r\n", b": v\r\n", b"novalue\r\n", b"\x7f"]);
                t.splice(k..k, ins.iter().copied());
            }
        }
    }
    ch.extend_from_slice(&t);
    let mut want = vec![];
    let mut wt = vec![];
    let (end, used) = refh1::chunked(&ch, 0, 100, &mut want, &mut wt);
    let mut bytes = if server { b"POST /t HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec() };
    let head = bytes.len();
    bytes.extend_from_slice(&ch[..if end == BodyEnd::Complete { used } else { ch.len() }]);
    let follow = server && end == BodyEnd::Complete && s.chance(128);
    if follow {
        bytes.extend_from_slice(b"GET /n HTTP/1.1\r\n\r\n");
    }
    cx.nontrivial |= t.len() > 2;
    cx.label_if(end == BodyEnd::Complete && !wt.is_empty(), "recv-trailers");
    cx.label_if(matches!(end, BodyEnd::Malformed(_)), "recv-malformed");
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 10);
    let cuts = gen_cuts(s, &bytes);
    let pauses = Plan::gen(s, 5);
    cx.describe(|| format!("receive server={server} segs={} io[{}] trailers at {} of {}", cuts.len(), io_cfg.show(), head + body_len, show(&bytes)));
    let got: Got;
    if server {
        let cfg = SrvCfg::gen_neutral(s);
        let mut plan = RespPlan::simple();
        plan.read = if s.chance(64) { ReadPlan::Background } else { ReadPlan::All };
        plan.pauses = pauses;
        let pf: PlanFn = Rc::new(move |_, _| plan.clone());
        let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
        ensure!(play(&mut srv.ex, &srv.io, None, &cuts), "spin", "spinning: {}", srv.show_state());
        feed_eof(&srv.io.rx);
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        let c = srv.calls.borrow();
        ensure!(!c.is_empty(), "lost", "request was not delivered: {}", srv.show_state());
        ensure!(c.len() == 1 + follow as usize, "following", "{} requests delivered, follow={follow}: {}", c.len(), srv.show_state());
        got = c[0].got.clone();
    } else {
        let cfg = CliCfg::gen_neutral(s);
        let mut cli = Cli::start(&cfg, &io_cfg, sched);
        cli.ex.run();
        let mut p = ReqPlan::get();
        p.pauses = pauses;
        cli.send(&p);
        cli.ex.run();
        ensure!(play(&mut cli.ex, &cli.io, None, &cuts), "spin", "spinning: {}", cli.show_state());
        feed_eof(&cli.io.rx);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let c = cli.env.calls.borrow();
        ensure!(c[0].resp().is_some(), "lost", "no response: {}", cli.show_state());
        got = c[0].got.clone();
    }
    ensure!(got.over(), "body-stuck", "body did not end ({end:?})");
    ensure!(got.order_ok && got.trailers.len() <= 1, "twice", "trailers {} times, order ok: {}", got.trailers.len(), got.order_ok);
    if end == BodyEnd::Complete {
        ensure!(got.ended && got.err.is_none(), "refused", "well-formed trailers gave an error: {:?}", got.err);
        ensure!(got.data == want, "body", "{} bytes delivered, {} sent", got.data.len(), want.len());
        let t: Vec<(String, Vec<u8>)> = got.trailers.iter().flat_map(header_list).collect();
        ensure!(grouped(&t) == grouped(&wt), "trailers", "delivered {:?}, sent {:?}", t, wt);
        ensure!(got.trailers.len() == !wt.is_empty() as usize, "trailers", "{} trailer frames for {} fields", got.trailers.len(), wt.len());
    } else {
        ensure!(!got.ended && got.err.is_some(), "accepted", "{end:?} trailer section was accepted: {:?}", got.trailers);
        ensure!(got.trailers.is_empty(), "accepted", "trailers of a broken section were delivered: {:?}", got.trailers);
        ensure!(want.starts_with(&got.data), "body", "delivered data is not a prefix");
    }
    Ok(())
}

// ------------------------------------------------------------------ sending

type Fields = Vec<(String, Vec<u8>)>;
fn gen_trailers(s: &mut Src) -> Fields {
    let n = s.weighted(&[1, 6, 4, 3, 1]);
    let n = if n == 4 { s.range(4, 30) } else { n };
    (0..n)
        .map(|_| {
            let name = if s.chance(64) { s.pick(FORBIDDEN).to_string() } else { s.pick(NAMES).to_string() };
            (name, s.pick(VALUES).to_vec())
        })
        .collect()
}
/// Trailer field lines and the names they announce
fn announce(s: &mut Src, t: &Fields) -> (Fields, Vec<String>) {
    let mut names: Vec<String> = vec![];
    for (n, _) in t {
        if !names.contains(n) && !s.chance(50) {
            names.push(n.clone());
        }
    }
    if s.chance(40) {
        names.push(s.pick(NAMES).to_string());
    }
    let mut lines = vec![];
    let mut cur = String::new();
    for n in &names {
        if !cur.is_empty() {
            if s.chance(60) {
                lines.push(("trailer".to_string(), std::mem::take(&mut cur).into_bytes()));
            } else {
                cur.push_str(*s.pick(&[", ", ",", " ,  ", ",,"]));
            }
        }
        cur.push_str(&if s.chance(64) { n.to_ascii_uppercase() } else { n.clone() });
    }
    if !cur.is_empty() || s.chance(20) {
        lines.push(("trailer".to_string(), cur.into_bytes()));
    }
    (lines, names)
}
fn body(s: &mut Src, t: &Fields) -> BodyPlan {
    let mut b = BodyPlan::gen(s, false);
    if !s.chance(60) {
        b.hint = *s.pick(&[Hint::Unknown, Hint::Lower]);
    }
    b.steps.push(Step::Trailers(header_map(t)));
    b
}
struct Why {
    want: Fields,
    te: bool,
    framing: bool,
    announced: Vec<String>,
}
fn expected(t: &Fields, announced: &[String], te: bool, framing: bool) -> Why {
    let want = if te && framing { t.iter().filter(|(n, _)| announced.contains(n) && !FORBIDDEN.contains(&n.as_str())).cloned().collect() } else { vec![] };
    Why { want, te, framing, announced: announced.to_vec() }
}
fn judge(i: usize, cx: &mut Cx, t: &Fields, w: &Why, m: &Msg) -> R {
    let got: Fields = m.trailers.iter().map(|(n, v)| (String::from_utf8_lossy(n).to_ascii_lowercase(), v.clone())).collect();
    let trim: Fields = w.want.iter().map(|(n, v)| (n.clone(), wire::trim(v).to_vec())).collect();
    ensure!(grouped(&got) == grouped(&trim), "sent-trailers", "message {i}: trailers on the wire {got:?}, expected {trim:?} (attached {t:?}, announced {:?}, te={}, chunked={})", w.announced, w.te, w.framing);
    cx.nontrivial |= !t.is_empty();
    cx.label_if(!got.is_empty(), "sent");
    if w.framing && w.te {
        cx.label_if(t.iter().any(|(n, _)| w.announced.contains(n) && FORBIDDEN.contains(&n.as_str())), "withheld-forbidden");
        cx.label_if(t.iter().any(|(n, _)| !w.announced.contains(n)), "withheld-unannounced");
    }
    cx.label_if(!w.framing && !t.is_empty(), "withheld-framing");
    cx.label_if(w.framing && !w.te && !t.is_empty(), "withheld-te");
    Ok(())
}

fn send_server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("send-server");
    let cfg = SrvCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 2);
    let mut stream = vec![];
    let mut facts: Vec<ReqFacts> = vec![];
    let mut plans = vec![];
    let mut trs = vec![];
    for _ in 0..n {
        let m = *s.pick(&["GET", "GET", "GET", "HEAD", "POST"]);
        let v11 = !s.chance(24);
        let (te, lines): (bool, &[&str]) = *s.pick(&[
            (true, &["TE: trailers\r\n"][..]),
            (true, &["TE: trailers\r\n"][..]),
            (true, &["te: Trailers\r\n"][..]),
            (true, &["TE: gzip;q=0.5, trailers\r\n"][..]),
            (true, &["TE: deflate\r\n", "TE: trailers\r\n"][..]),
            (false, &[][..]),
            (false, &["TE: deflate\r\n"][..]),
            (false, &["TE: \r\n"][..]),
            (false, &["TE: notrailers, trailers2\r\n"][..]),
        ]);
        stream.extend_from_slice(format!("{m} / HTTP/1.{}\r\n", v11 as u8).as_bytes());
        for l in lines {
            stream.extend_from_slice(l.as_bytes());
        }
        if !v11 {
            stream.extend_from_slice(b"Connection: keep-alive\r\n");
        }
        if m == "POST" {
            stream.extend_from_slice(b"Content-Length: 3\r\n\r\nabc");
        } else {
            stream.extend_from_slice(b"\r\n");
        }
        facts.push(ReqFacts { method: m.as_bytes().to_vec(), v11, te_trailers: te });
        let t = gen_trailers(s);
        let (lines, names) = announce(s, &t);
        let mut p = RespPlan::simple();
        p.body = body(s, &t);
        if s.chance(20) {
            p.status = *s.pick(&[204, 304]);
        }
        if s.chance(30) {
            p.headers.push(("transfer-encoding".into(), b"chunked".to_vec()));
        } else if s.chance(30) && !p.body.exact() {
            // too long or right, never too short
            p.headers.push(("content-length".into(), (p.body.len() / if s.chance(60) { 2 } else { 1 }).to_string().into_bytes()));
        }
        p.headers.extend(lines);
        if s.chance(60) {
            p.headers.push(("x-a".into(), b"1".to_vec()));
        }
        p.delay = s.weighted(&[4, 1, 1]);
        plans.push(p);
        trs.push((t, names));
    }
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&trs).map(|(p, t)| format!("{} trailers={:?}", p.show(), t.0)).collect();
        format!("server sends: {} -> {} io[{}]", show(&stream), v.join(" || "), io_cfg.show())
    });
    let ps = plans.clone();
    let pf: PlanFn = Rc::new(move |i, _| ps[i.min(ps.len() - 1)].clone());
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    feed(&srv.io.rx, &stream);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    feed_eof(&srv.io.rx);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    let out = srv.io.output();
    let methods: Vec<Vec<u8>> = facts.iter().map(|f| f.method.clone()).collect();
    let st = match wire::responses(&out, &methods, srv.io.shutdown()) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    let calls = srv.calls.borrow().len();
    ensure!(calls >= 1 && st.msgs.len() == calls && st.rest == 0 && !st.partial, "responses", "{} requests, {} responses: {}", calls, st.msgs.len(), show(&out));
    for i in 0..calls {
        let e = respgen::expect(&plans[i], &facts[i]);
        respgen::check(i, &plans[i], &facts[i], &cfg, &e, &st.msgs[i])?;
        respgen::check_body(i, &e, &st.msgs[i], false)?;
        let (t, names) = &trs[i];
        let w = expected(t, names, facts[i].te_trailers, e.framing == Framing::Chunked);
        judge(i, cx, t, &w, &st.msgs[i])?;
        if e.framing == Framing::Close {
            return Ok(());
        }
    }
    ensure!(calls == n || facts.iter().any(|f| !f.v11), "responses", "only {calls} of {n} requests were served");
    Ok(())
}

fn send_client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("send-client");
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 2);
    let mut plans = vec![];
    let mut trs = vec![];
    for _ in 0..n {
        let mut p = ReqPlan::get();
        p.method = s.pick(&["POST", "PUT", "GET", "X"]).to_string();
        let t = gen_trailers(s);
        let (lines, names) = announce(s, &t);
        p.body = body(s, &t);
        if s.chance(60) {
            p.headers.push(("transfer-encoding".into(), b"chunked".to_vec()));
        } else if s.chance(30) {
            p.headers.push(("content-length".into(), p.body.len().to_string().into_bytes()));
        }
        p.headers.extend(lines);
        if s.chance(20) {
            p.version = http::Version::HTTP_10;
        }
        plans.push(p);
        trs.push((t, names));
    }
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&trs).map(|(p, t)| format!("{} trailers={:?}", p.show(), t.0)).collect();
        format!("client sends: {} io[{}]", v.join(" || "), io_cfg.show())
    });
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    cli.ex.run();
    let mut pos = 0;
    for i in 0..n {
        cli.send(&plans[i]);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let out = cli.io.output();
        let m = match wire::request(&out, pos) {
            Ok(wire::P::Msg(m)) => m,
            Ok(_) => fail!("missing-request", "request {i} was not written: {}", cli.show_state()),
            Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
        };
        let e = reqgen::expect(&plans[i], false);
        reqgen::check(i, &plans[i], &e, &m, &cfg)?;
        reqgen::check_body(i, &e, &m)?;
        let (t, names) = &trs[i];
        let w = expected(t, names, true, e.framing == Framing::Chunked);
        judge(i, cx, t, &w, &m)?;
        ensure!(m.end == out.len(), "excess", "bytes after request {i}: {}", show(&out[m.end..]));
        pos = m.end;
        feed(&cli.io.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n");
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let c = cli.env.calls.borrow();
        ensure!(c[i].resp().is_some() && c[i].got.clean(), "response", "request {i} did not get its response: {}", c[i].show());
    }
    Ok(())
}
