//! Server request framing against the reference reader.
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd, Fr, RefCfg, Tail};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C01",
        run,
        quick: 900_000,
        thorough: 60_000_000,
        max_len: 400,
        rule: "a case is 1-5 generated requests (valid, ambiguous or broken framing, optional byte edits) cut into segments; non-trivial when the reference reader finds at least one request and the stream has a body, a second message or a framing error",
        must_labels: &["bad-head", "malformed-body", "truncated-body", "pipelined", "chunked", "length", "te+cl", "trailers", "closed-early"],
    }
}

pub struct Input {
    pub bytes: Vec<u8>,
    pub labels: Vec<&'static str>,
    pub mutated: bool,
}
pub fn gen_input(s: &mut Src, max: usize) -> Input {
    let n = s.range(1, max);
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 0, 12, 40]);
    let mut bytes = vec![];
    let mut labels = vec![];
    for _ in 0..n {
        labels.push(h1gen::request(s, st, &mut bytes));
    }
    let mutated = s.chance(56);
    if mutated {
        h1gen::mutate(s, &mut bytes);
    }
    if s.chance(40) {
        let k = s.below(bytes.len() + 1);
        bytes.truncate(k);
    }
    Input { bytes, labels, mutated }
}

/// Compare one delivered request with the reference message.
pub fn same_request(i: usize, c: &Call, m: &refh1::RefMsg) -> R {
    ensure!(c.method.as_bytes() == &m.method[..], "method", "request {i}: method {:?}, reader says {:?}", c.method, show(&m.method));
    let uri = http::Uri::try_from(&m.target[..]).map(|u| u.to_string()).unwrap_or_default();
    ensure!(c.uri == uri, "target", "request {i}: target {:?}, reader says {:?}", c.uri, uri);
    let v = if m.version == 11 { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
    ensure!(c.version == Some(v), "version", "request {i}: version {:?}, reader says {:?}", c.version, v);
    let (a, b) = (grouped(&c.headers), grouped(&m.headers));
    ensure!(a == b, "headers", "request {i}: header fields {:?}, reader says {:?}", a, b);
    Ok(())
}
pub fn same_body(i: usize, c: &Call, m: &refh1::RefMsg) -> R {
    let g = &c.got;
    match m.end {
        BodyEnd::Complete => {
            ensure!(g.err.is_none(), "body-error", "request {i}: complete body reported error {:?}", g.err);
            ensure!(g.ended, "body-stuck", "request {i}: complete body never ended ({} of {} bytes)", g.data.len(), m.body.len());
            ensure!(g.data == m.body, "body-bytes", "request {i}: body {:?}, reader says {:?}", show(&g.data), show(&m.body));
            let t: Vec<(String, Vec<u8>)> = g.trailers.iter().flat_map(header_list).collect();
            ensure!(g.trailers.len() <= 1 && g.order_ok, "trailers", "request {i}: {} trailer frames, order ok {}", g.trailers.len(), g.order_ok);
            ensure!(grouped(&t) == grouped(&m.trailers), "trailers", "request {i}: trailers {:?}, reader says {:?}", t, m.trailers);
        }
        _ => {
            ensure!(!g.ended, "false-complete", "request {i}: {:?} body was presented as complete with {} bytes", m.end, g.data.len());
            ensure!(g.err.is_some(), "body-stuck", "request {i}: {:?} body never reported an error", m.end);
            ensure!(m.body.starts_with(&g.data), "body-bytes", "request {i}: delivered {:?} is not a prefix of {:?}", show(&g.data), show(&m.body));
            ensure!(g.trailers.is_empty(), "trailers", "request {i}: trailers on a broken body");
        }
    }
    Ok(())
}

pub fn label_ref(cx: &mut Cx, r: &refh1::RefStream) {
    cx.label_if(r.msgs.len() > 1, "pipelined");
    for m in &r.msgs {
        match m.fr {
            Fr::Chunked => cx.label("chunked"),
            Fr::Length(_) => cx.label("length"),
            _ => {}
        }
        cx.label_if(!m.trailers.is_empty(), "trailers");
        cx.label_if(matches!(m.end, BodyEnd::Malformed(_)), "malformed-body");
        cx.label_if(m.end == BodyEnd::Truncated, "truncated-body");
        let te = m.raw.iter().any(|(n, _)| n.eq_ignore_ascii_case(b"transfer-encoding"));
        let cl = m.raw.iter().any(|(n, _)| n.eq_ignore_ascii_case(b"content-length"));
        cx.label_if(te && cl, "te+cl");
        cx.label_if(m.version == 10, "http10");
    }
    match r.tail {
        Tail::BadHead(..) => cx.label("bad-head"),
        Tail::PartialHead => cx.label("partial-head"),
        Tail::Stopped => cx.label("closed-early"),
        Tail::Idle => cx.label("idle-end"),
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    drive(s, cx, None, false)
}
/// `judge`: what to check instead; `lenient`: with leniency options, and what they are for
pub fn drive(s: &mut Src, cx: &mut Cx, judge: Option<fn(usize, &Call, &refh1::RefMsg, &mut Cx) -> R>, lenient: bool) -> R {
    let mut cfg = SrvCfg::gen_neutral(s);
    let mut rc = RefCfg::default();
    if lenient {
        cfg.multi_space = s.chance(128);
        cfg.ignore_invalid = s.chance(128);
        rc.multi_space = cfg.multi_space;
        rc.ignore_invalid = cfg.ignore_invalid;
    }
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let delay = s.weighted(&[6, 1, 1]);
    let pauses = Plan::gen(s, 6);
    let mut inp = gen_input(s, if lenient { 3 } else { 5 });
    if lenient {
        h1gen::spice(s, cx, &mut inp.bytes, false);
    }
    let r = refh1::requests(&inp.bytes, &rc, 65534);
    label_ref(cx, &r);
    cx.nontrivial = !r.msgs.is_empty() && (r.msgs.len() > 1 || r.msgs.iter().any(|m| m.fr != Fr::None) || matches!(r.tail, Tail::BadHead(..)));
    let segs = gen_cuts(s, &inp.bytes);
    cx.describe(|| format!("{:?} mutated={} segs={} io[{}] lenient={lenient}/{}/{} stream={}", inp.labels, inp.mutated, segs.len(), io_cfg.show(), cfg.multi_space, cfg.ignore_invalid, show(&inp.bytes)));

    let plans: PlanFn = Rc::new(move |_, p| {
        let mut r = RespPlan::simple();
        r.delay = delay;
        r.pauses = pauses.clone();
        if p.method == http::Method::CONNECT {
            r.status = 405;
        }
        r
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, plans);
    ensure!(play(&mut srv.ex, &srv.io, None, &segs), "spin", "connection keeps waking itself: {}", srv.show_state());
    feed_eof(&srv.io.rx);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself after end of input: {}", srv.show_state());

    let calls = srv.calls.borrow();
    if let Some(j) = judge {
        for (i, (c, m)) in calls.iter().zip(&r.msgs).enumerate() {
            if same_request(i, c, m).is_ok() && same_body(i, c, m).is_ok() {
                j(i, c, m, cx)?;
            }
        }
        return Ok(());
    }
    for (i, c) in calls.iter().enumerate() {
        let Some(m) = r.msgs.get(i) else {
            fail!("extra-request", "request {i} {} {} delivered, but the reader finds only {} ({:?})", c.method, c.uri, r.msgs.len(), r.tail);
        };
        same_request(i, c, m)?;
        same_body(i, c, m)?;
    }
    ensure!(calls.len() == r.msgs.len(), "missing-request", "{} requests delivered, reader finds {} ({:?}); {}", calls.len(), r.msgs.len(), r.tail, srv.show_state());
    drop(calls);
    ensure!(srv.ended().is_some(), "hang", "connection did not end after end of input: {}", srv.show_state());
    Ok(())
}
