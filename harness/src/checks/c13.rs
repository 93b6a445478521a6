//! Arbitrary input: no crash, no spin, clean refusal, well-formed output.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, Bad, BodyEnd, RefCfg, RespOut, Tail};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::io::ErrorKind;
use std::rc::Rc;
use std::time::Duration;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C13",
        run,
        quick: 600_000,
        thorough: 60_000_000,
        max_len: 420,
        rule: "a case is a byte stream (generated, mutated, dictionary-built or random) given to a server or client connection under arbitrary options, with optional read/write/flush/shutdown faults at chosen byte offsets; non-trivial when the stream is not a plain sequence of valid messages or a fault is injected",
        must_labels: &["server", "client", "random", "mutated", "dictionary", "preface", "write-fault", "read-fault", "refused", "refused-after-exchange", "431", "414", "client-parse-error", "service-error", "h09", "graceful"],
    }
}

const DICT: &[&[u8]] = &[
    b"GET / HTTP/1.1\r\n", b"POST /x HTTP/1.1\r\n", b"GET / HTTP/1.0\r\n", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.0 200\r\n", b"HTTP/1.1 204 No Content\r\n", b"HTTP/1.1 101 S\r\n", b"HTTP/2.0 200 OK\r\n",
    b"\r\n", b"\r\n\r\n", b"\n", b"\r", b" ", b"\t", b":", b"0\r\n\r\n", b"5\r\nhello\r\n", b"ffffffffffffffff\r\n", b"10000000000000000\r\n", b"fffffffffffffff\r\n", b"-1\r\n", b"+5\r\n", b"5 ;a=b\r\n", b"5;\"\n", b"0\r\nx: y\r\n\r\n",
    b"host: a\r\n", b"content-length: 5\r\n", b"content-length: 0\r\n", b"content-length: 18446744073709551615\r\n", b"content-length: 18446744073709551616\r\n", b"content-length: 18446744073709551613\r\n", b"content-length: 5, 5\r\n", b"content-length:\r\n", b"transfer-encoding: chunked\r\n", b"transfer-encoding: gzip\r\n",
    b"transfer-encoding: chunked, gzip\r\n", b"transfer-encoding: \xff\r\n", b"connection: close\r\n", b"connection: keep-alive\r\n", b"connection: upgrade\r\nupgrade: x\r\n", b"expect: 100-continue\r\n", b"te: trailers\r\n", b" folded\r\n", b"x : y\r\n", b"no-colon\r\n", b": v\r\n", b"x: \x00\r\n", b"x: \x7f\r\n", b"\xff: y\r\n",
    b"CONNECT a:1 HTTP/1.1\r\n", b"GET * HTTP/1.1\r\n", b"GET http://[::1 HTTP/1.1\r\n", b"GET /\xff HTTP/1.1\r\n", b"GET  /  HTTP/1.1\r\n", b"G\xc3T / HTTP/1.1\r\n", b"GET / HTTP/2.0\r\n", b"GET / HTTP/1.\r\n", b"GET /\r\n", b"HEAD / HTTP/1.1\r\n\r\n",
];

fn piece(s: &mut Src, cx: &mut Cx, out: &mut Vec<u8>, client: bool) -> bool {
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 12, 40]);
    match s.weighted(&[6, 4, 4, 1, 1, 1]) {
        0 => {
            if client {
                h1gen::response(s, st, out, "GET");
            } else {
                h1gen::request(s, st, out);
            }
            st.weird > 0
        }
        1 => {
            let mut v = vec![];
            if client {
                h1gen::response(s, st, &mut v, "GET");
            } else {
                h1gen::request(s, st, &mut v);
            }
            h1gen::mutate(s, &mut v);
            out.extend(v);
            cx.label("mutated");
            true
        }
        2 => {
            for _ in 0..s.range(1, 10) {
                out.extend_from_slice(s.pick(DICT));
            }
            cx.label("dictionary");
            true
        }
        3 => {
            let n = s.range(1, 40);
            out.extend(s.bytes(n));
            cx.label("random");
            true
        }
        4 => {
            let p = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
            let n = if s.chance(64) { s.below(p.len()) } else { p.len() };
            out.extend_from_slice(&p[..n]);
            cx.label("preface");
            true
        }
        _ => {
            // something long
            let c = *s.pick(b"aA0 :\r\n;,");
            let n = *s.pick(&[200usize, 4000, 9000, 66000]);
            match s.below(4) {
                0 => {
                    out.extend_from_slice(b"GET /");
                    out.extend(std::iter::repeat_n(b'a', n));
                    out.extend_from_slice(b" HTTP/1.1\r\n\r\n");
                }
                1 => {
                    if client {
                        out.extend_from_slice(b"HTTP/1.1 200 OK\r\n");
                    } else {
                        out.extend_from_slice(b"GET / HTTP/1.1\r\n");
                    }
                    for i in 0..n / 40 {
                        out.extend_from_slice(format!("h{i}: v\r\n").as_bytes());
                    }
                    out.extend_from_slice(b"\r\n");
                }
                _ => out.extend(std::iter::repeat_n(c, n)),
            }
            true
        }
    }
}

fn stream(s: &mut Src, cx: &mut Cx, client: bool) -> Vec<u8> {
    let n = s.range(1, 4);
    let mut out = vec![];
    for _ in 0..n {
        cx.nontrivial |= piece(s, cx, &mut out, client);
    }
    out
}

const KINDS: &[ErrorKind] = &[ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::WouldBlock];

struct Faults {
    write: bool,
    read: Option<ErrorKind>,
}
fn faults(s: &mut Src, cx: &mut Cx, io: &IoHandle) -> Faults {
    let mut f = Faults { write: false, read: None };
    if s.chance(70) {
        let mut st = lock(&io.st);
        let at = s.below(400) as u64;
        let k = *s.pick(&KINDS[..5]);
        match s.below(4) {
            0 => st.write_err_at = Some((at, k)),
            1 => st.write_zero_at = Some(at),
            2 => st.flush_err_after = Some((at, k)),
            _ => st.shutdown_err = Some(k),
        }
        f.write = true;
        cx.label("write-fault");
        cx.nontrivial = true;
    }
    if s.chance(60) {
        f.read = Some(*s.pick(KINDS));
        cx.label("read-fault");
        cx.nontrivial = true;
    }
    f
}
fn end_input(io: &IoHandle, f: &Faults) {
    match f.read {
        Some(k) => feed_err(&io.rx, k),
        None => feed_eof(&io.rx),
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(104) {
        client(s, cx)
    } else {
        server(s, cx)
    }
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("server");
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.keep_alive = !s.chance(24);
    cfg.multi_space = s.chance(48);
    cfg.ignore_invalid = s.chance(48);
    if s.chance(40) {
        cfg.max_headers = Some(*s.pick(&[0usize, 1, 3, 99, 101, 300]));
    }
    if s.chance(64) {
        cfg.timer = true;
        cfg.header_timeout = *s.pick(&[None, Some(None), Some(Some(Duration::from_secs(1)))]);
    }
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let mut plans = vec![];
    let mut tame = true;
    for _ in 0..3 {
        let mut r = RespPlan::simple();
        r.delay = s.weighted(&[6, 1, 1]);
        r.pauses = Plan::gen(s, 4);
        r.read = match s.weighted(&[8, 1, 1, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            2 => ReadPlan::Frames(s.range(0, 2)),
            3 => ReadPlan::Background,
            _ => ReadPlan::Hold,
        };
        tame &= r.read == ReadPlan::All;
        match s.weighted(&[6, 2, 1, 1]) {
            0 => {}
            1 => r.body = BodyPlan::gen(s, false),
            2 => {
                r.svc_err = true;
                tame = false;
                cx.label("service-error");
            }
            _ => {
                let mut b = BodyPlan::gen(s, false);
                b.steps.push(Step::Err);
                b.hint = Hint::Unknown;
                b.honest_end = false;
                r.body = b;
                tame = false;
            }
        }
        plans.push(r);
    }
    let bytes = stream(s, cx, false);
    let mut segs = gen_cuts(s, &bytes);
    if s.chance(20) {
        let k = s.below(segs.len() + 1);
        segs.insert(k, Seg::Graceful);
        cx.label("graceful");
        tame = false;
    }
    let plans2 = plans.clone();
    let f: PlanFn = Rc::new(move |i, p| {
        let mut r = plans2[i.min(2)].clone();
        if p.method == http::Method::CONNECT {
            r.status = 405;
        }
        r
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, f);
    let flt = faults(s, cx, &srv.io);
    cx.describe(|| format!("server cfg={} plans=[{}] write-fault={} read-fault={:?} io[{}] segs={} stream={}", cfg.show(), plans.iter().map(|p| p.show()).collect::<Vec<_>>().join(";"), flt.write, flt.read, io_cfg.show(), segs.len(), show(&bytes)));
    let sg = srv.ctl.clone();
    ensure!(play(&mut srv.ex, &srv.io, Some(&sg), &segs), "spin", "connection keeps waking itself: {}", srv.show_state());
    end_input(&srv.io, &flt);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself after end of input: {}", srv.show_state());
    let Some(end) = srv.ended() else { fail!("hang", "connection did not end after end of input: {}", srv.show_state()) };

    // what was written is a prefix of well-formed messages
    let out = srv.io.output();
    let calls = srv.calls.borrow();
    let methods: Vec<Vec<u8>> = calls.iter().map(|c| c.method.clone().into_bytes()).collect();
    let w = match wire::responses(&out, &methods, true) {
        Ok(w) => w,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    let n = calls.len();
    ensure!(w.rest == 0, "malformed-output", "{} bytes after the last response in {}", w.rest, show(&out));
    ensure!(w.msgs.len() <= n + 1, "extra-response", "{} responses for {n} requests: {}", w.msgs.len(), show(&out));
    for (i, m) in w.msgs.iter().enumerate() {
        let last = i + 1 == w.msgs.len();
        ensure!(last || m.complete, "malformed-output", "response {i} is incomplete but another follows");
    }
    for (i, v) in w.interim.iter().enumerate() {
        for m in v {
            let exp = calls.get(i).is_some_and(|c| c.headers.iter().any(|(n, v)| n == "expect" && v.eq_ignore_ascii_case(b"100-continue")));
            ensure!(m.status == 100 && exp, "extra-response", "unexpected interim {} before response {i}", m.status);
        }
    }
    let all_complete = w.msgs.iter().all(|m| m.complete);
    if w.msgs.len() == n + 1 {
        let m = &w.msgs[n];
        cx.label("refused");
        cx.label_if(n > 0, "refused-after-exchange");
        cx.label_if(m.status == 431, "431");
        cx.label_if(m.status == 414, "414");
        ensure!([400, 414, 431].contains(&m.status), "refusal", "response without a request: {}", m.show());
        ensure!(!m.persistent(), "refusal", "refusal does not say the connection closes: {}", m.show());
        ensure!(m.body.is_empty() && (m.complete || flt.write), "refusal", "refusal with a body: {}", m.show());
        if !flt.write {
            ensure!(end.kinds.contains("parse"), "refusal", "refused, but the connection result is {:?}", end);
            ensure!(srv.io.shutdown(), "refusal", "refused, but the transport was not shut down");
        }
    }
    // a connection that reports a parse error while it owed nothing must have refused
    let refused = w.msgs.len() == n + 1;
    let h2 = end.kinds.contains("version_h2");
    if h2 {
        ensure!(bytes.windows(24).any(|x| x == b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), "refusal", "HTTP/2 reported without a preface");
    }
    // against the reference
    let fixed_cfg = RefCfg { max_headers: cfg.max_headers.unwrap_or(100), max_trailers: cfg.max_headers.unwrap_or(100), multi_space: cfg.multi_space, ..RefCfg::default() };
    if tame && !cfg.ignore_invalid && cfg.keep_alive && !flt.write && bytes.len() < 8000 {
        let r = refh1::requests(&bytes, &fixed_cfg, 65534);
        ensure!(n <= r.msgs.len(), "extra-request", "{n} requests delivered, the reader finds {} ({:?})", r.msgs.len(), r.tail);
        if let Tail::BadHead(k, true) = r.tail {
            let clean = r.msgs.iter().all(|m| m.end == BodyEnd::Complete && m.version == 11);
            if clean && !h2 && n == r.msgs.len() && all_complete {
                ensure!(refused, "refusal", "bad head ({k:?}) was not refused: {} ({:?})", show(&out), end);
                let want: &[u16] = match k {
                    Bad::Syntax => &[400],
                    Bad::TooLarge => &[431],
                    Bad::UriTooLong => &[414],
                };
                // several limits may be exceeded at once
                ensure!(want.contains(&w.msgs[n].status) || cfg.max_headers.is_some(), "refusal", "bad head ({k:?}) was refused with {}", w.msgs[n].status);
            }
        }
    }
    for c in calls.iter() {
        ensure!(!c.responded || c.read_done || c.body_dropped || c.got.over(), "hang", "a request body reader is stuck after the connection ended: {} {}", c.method, c.uri);
    }
    Ok(())
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("client");
    let mut cfg = CliCfg::gen_neutral(s);
    cfg.ignore_invalid = s.chance(48);
    cfg.spaces_after_name = s.chance(48);
    cfg.obs_fold = s.chance(48);
    cfg.h09 = s.chance(40);
    if s.chance(40) {
        cfg.max_headers = Some(*s.pick(&[0usize, 1, 3, 99, 101, 300]));
    }
    cx.label_if(cfg.h09, "h09");
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    let flt = faults(s, cx, &cli.io);
    let n = s.range(1, 3);
    let mut desc = vec![];
    let mut all = vec![];
    let mut plans = vec![];
    for i in 0..n {
        let mut p = ReqPlan::get();
        p.uri = format!("/{i}");
        match s.weighted(&[5, 2, 1, 1]) {
            0 => {}
            1 => {
                p.method = "POST".into();
                p.body = BodyPlan::gen(s, false);
            }
            2 => p.method = "HEAD".into(),
            _ => {
                p.method = "CONNECT".into();
                p.uri = "a:1".into();
            }
        }
        p.read = match s.weighted(&[6, 1, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            _ => ReadPlan::Background,
        };
        p.pauses = Plan::gen(s, 4);
        p.try_send = s.chance(64);
        p.interim = s.chance(64);
        let st = stream(s, cx, true);
        desc.push(format!("{} <- {}", p.show(), show(&st)));
        let segs = gen_cuts(s, &st);
        cli.send(&p);
        plans.push(p);
        if s.chance(200) {
            ensure!(cli.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself: {}", cli.show_state());
        }
        ensure!(play(&mut cli.ex, &cli.io, None, &segs), "spin", "connection keeps waking itself: {}", cli.show_state());
        all.push(st);
    }
    cx.describe(|| format!("client cfg={} write-fault={} read-fault={:?} io[{}] {}", cfg.show(), flt.write, flt.read, io_cfg.show(), desc.join(" | ")));
    end_input(&cli.io, &flt);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "connection keeps waking itself after end of input: {}", cli.show_state());
    ensure!(cli.ended().is_some(), "hang", "connection did not end after end of input: {}", cli.show_state());
    let out = cli.io.output();
    let (reqs, _) = match wire::requests(&out) {
        Ok(r) => r,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    ensure!(reqs.len() <= n, "malformed-output", "{} requests written, {n} submitted", reqs.len());
    let calls = cli.env.calls.borrow();
    for (i, c) in calls.iter().enumerate() {
        ensure!(c.out.is_some(), "hang", "request {i} has no outcome after the connection ended");
        if c.resp().is_some() {
            ensure!(c.read_done || c.got.over(), "hang", "response body reader {i} is stuck after the connection ended");
        }
        if let Some(Outcome::Err { kinds, .. }) = &c.out {
            cx.label_if(kinds.contains("parse"), "client-parse-error");
        }
    }
    // what cannot be a response is not handed out as one
    if !cfg.ignore_invalid && !cfg.h09 {
        let rc = RefCfg { max_headers: cfg.max_headers.unwrap_or(100), spaces_after_name: cfg.spaces_after_name, obs_fold: cfg.obs_fold, ..RefCfg::default() };
        let m = plans[0].method.as_bytes();
        let first = &all[0];
        if let RespOut::Bad(k, true, _) = refh1::response(first, 0, m, &rc, true) {
            if n == 1 && first.len() < 8000 {
                match &calls[0].out {
                    Some(Outcome::Resp(r)) => fail!("refusal", "text that is no response ({k:?}) was handed out as {}", r.status),
                    Some(Outcome::Err { kinds, .. }) if !flt.write => ensure!(kinds.contains("parse") || kinds.contains("canceled"), "refusal", "bad response head reported as {kinds}"),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}
