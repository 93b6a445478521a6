//! Client response framing against the reference reader.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd, Fr, RefCfg, RespOut};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::{gen_cuts, grouped, header_list, play, ReadPlan};
use crate::{ensure, fail};
use bytes::Bytes;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C02",
        run,
        quick: 900_000,
        thorough: 40_000_000,
        max_len: 420,
        rule: "a case is 1-4 requests on one client connection, each answered by a generated response (interim heads, valid, ambiguous or broken framing, optional byte edits) cut into segments, then end of input or a read error; non-trivial when a response with a body, an interim head, a reuse or a framing error is involved",
        must_labels: &["chunked", "length", "close-delimited", "bodyless", "bad", "malformed-body", "truncated-body", "reused", "interim", "upgrade", "leftover", "trailers"],
    }
}

pub fn small_request(s: &mut Src) -> ReqPlan {
    let mut p = ReqPlan::get();
    p.method = s.pick(&["GET", "GET", "POST", "HEAD", "PUT", "CONNECT", "DELETE", "OPTIONS"]).to_string();
    if p.method == "CONNECT" {
        p.uri = "example.com:443".into();
    }
    if p.method == "POST" || p.method == "PUT" {
        let n = *s.pick(&[0usize, 1, 5, 300]);
        if n > 0 {
            let hint = *s.pick(&[Hint::Exact, Hint::Unknown]);
            p.body = BodyPlan { steps: vec![Step::Data(Bytes::from(vec![b'r'; n]), 1)], hint, honest_end: true };
        }
    }
    p.interim = s.chance(60);
    p.try_send = s.chance(60);
    p.read = match s.weighted(&[4, 2]) {
        0 => ReadPlan::All,
        _ => ReadPlan::Background,
    };
    p.pauses = Plan::gen(s, 4);
    p
}

pub fn same_response(i: usize, c: &CCall, m: &refh1::RefMsg) -> R {
    let r = match &c.out {
        Some(Outcome::Resp(r)) => r,
        _ => fail!("no-response", "request {i}: {} but the reader finds status {}", c.show(), m.status),
    };
    ensure!(r.status == m.status, "status", "request {i}: status {} but the reader finds {}", r.status, m.status);
    let v = match m.version {
        11 => http::Version::HTTP_11,
        10 => http::Version::HTTP_10,
        _ => http::Version::HTTP_09,
    };
    ensure!(r.version == v, "version", "request {i}: version {:?}, reader says {:?}", r.version, v);
    let (a, b) = (grouped(&r.headers), grouped(&m.headers));
    ensure!(a == b, "headers", "request {i}: header fields {a:?}, reader says {b:?}");
    let g = &c.got;
    match m.end {
        BodyEnd::Complete => {
            ensure!(g.err.is_none(), "body-error", "request {i}: complete body reported {:?}", g.err);
            ensure!(g.ended, "body-stuck", "request {i}: complete body never ended ({} of {} bytes)", g.data.len(), m.body.len());
            ensure!(g.data == m.body, "body-bytes", "request {i}: body {:?}, reader says {:?}", show(&g.data), show(&m.body));
            let t: Vec<(String, Vec<u8>)> = g.trailers.iter().flat_map(header_list).collect();
            ensure!(g.trailers.len() <= 1 && g.order_ok, "trailers", "request {i}: {} trailer frames, order ok {}", g.trailers.len(), g.order_ok);
            ensure!(grouped(&t) == grouped(&m.trailers), "trailers", "request {i}: trailers {t:?}, reader says {:?}", m.trailers);
        }
        _ => {
            ensure!(!g.ended, "false-complete", "request {i}: {:?} body presented as complete with {} bytes", m.end, g.data.len());
            ensure!(g.err.is_some(), "body-stuck", "request {i}: {:?} body never reported an error", m.end);
            ensure!(m.body.starts_with(&g.data), "body-bytes", "request {i}: delivered {:?} is not a prefix of {:?}", show(&g.data), show(&m.body));
            ensure!(g.trailers.is_empty(), "trailers", "request {i}: trailers on a broken body");
        }
    }
    Ok(())
}

fn label(cx: &mut Cx, m: &refh1::RefMsg) {
    match m.fr {
        Fr::Chunked => cx.label("chunked"),
        Fr::Length(_) => cx.label("length"),
        Fr::Close => cx.label("close-delimited"),
        Fr::None => cx.label("bodyless"),
    }
    cx.label_if(m.upgrade, "upgrade");
    cx.label_if(!m.trailers.is_empty(), "trailers");
    cx.label_if(matches!(m.end, BodyEnd::Malformed(_)), "malformed-body");
    cx.label_if(m.end == BodyEnd::Truncated, "truncated-body");
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    drive(s, cx, None, false)
}
/// `judge`: what to check instead; `lenient`: with leniency options, and what they are for
pub fn drive(s: &mut Src, cx: &mut Cx, judge: Option<fn(usize, &CCall, &refh1::RefMsg, &mut Cx) -> R>, lenient: bool) -> R {
    let mut cfg = CliCfg::gen_neutral(s);
    let mut rc = RefCfg::default();
    if lenient {
        cfg.spaces_after_name = s.chance(100);
        cfg.obs_fold = s.chance(100);
        cfg.ignore_invalid = s.chance(100);
        cfg.h09 = s.chance(60);
        rc.spaces_after_name = cfg.spaces_after_name;
        rc.obs_fold = cfg.obs_fold;
        rc.ignore_invalid = cfg.ignore_invalid;
        rc.h09 = cfg.h09;
    }
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let k = s.range(1, 4);
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 0, 12, 40]);
    let eof = !s.chance(48);
    let mut plans = vec![];
    let mut resps: Vec<Vec<u8>> = vec![];
    for _ in 0..k {
        let p = small_request(s);
        let mut b = vec![];
        for _ in 0..s.weighted(&[8, 2, 1]) {
            h1gen::interim(s, st, &mut b);
        }
        if s.chance(10) {
            b.extend_from_slice(b"HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\nraw");
        } else {
            h1gen::response(s, st, &mut b, &p.method);
        }
        if lenient {
            h1gen::spice(s, cx, &mut b, true);
        }
        if s.chance(40) {
            h1gen::mutate(s, &mut b);
        }
        if s.chance(24) {
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
        if s.chance(8) {
            b.extend_from_slice(*s.pick(&[&b"x"[..], b"\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nextra"]));
        }
        plans.push(p);
        resps.push(b);
    }
    let scripts: Vec<_> = resps.iter().map(|b| gen_cuts(s, b)).collect();
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&resps).map(|(p, r)| format!("{} -> {}", p.method, show(r))).collect();
        format!("io[{}] eof={eof} lenient={lenient}/{}/{}/{}/{} {}", io_cfg.show(), cfg.spaces_after_name, cfg.obs_fold, cfg.ignore_invalid, cfg.h09, v.join(" || "))
    });
    let methods: Vec<Vec<u8>> = plans.iter().map(|p| p.method.clone().into_bytes()).collect();
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    sequence(&mut cli.ex, &cli.env, plans);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning before input: {}", cli.show_state());
    let mut stream: Vec<u8> = vec![];
    // stream length when request i had certainly been handed over and nothing more was fed
    let mut fed_before: Vec<usize> = vec![];
    for (i, sc) in scripts.iter().enumerate() {
        if !cli.env.calls.borrow()[i].sent || cli.ended().is_some() {
            break;
        }
        fed_before.push(stream.len());
        stream.extend_from_slice(&resps[i]);
        ensure!(play(&mut cli.ex, &cli.io, None, sc), "spin", "spinning after response {i}: {}", cli.show_state());
    }
    if eof {
        feed_eof(&cli.io.rx);
    } else {
        feed_err(&cli.io.rx, std::io::ErrorKind::ConnectionReset);
    }
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning after end of input: {}", cli.show_state());
    ensure!(cli.ended().is_some(), "hang", "connection did not end after end of input: {}", cli.show_state());

    let calls = cli.env.calls.borrow();
    let mut pos = 0usize;
    let mut alive = true;
    for (i, c) in calls.iter().enumerate() {
        if judge.is_some() && c.resp().is_none() {
            return Ok(());
        }
        ensure!(c.out.is_some(), "no-outcome", "request {i} has no outcome after the connection ended; {}", cli.show_state());
        if !alive && judge.is_some() {
            return Ok(());
        }
        if !alive {
            ensure!(c.resp().is_none(), "extra-response", "request {i}: got {} although the connection had to be given up before", c.show());
            continue;
        }
        // bytes after the end of the previous message, which may have arrived before or after this
        // request was written: they answer it or they are an error, but nothing else
        let leftover = match fed_before.get(i) {
            Some(f) => pos < *f,
            None => pos < stream.len(),
        };
        if i >= fed_before.len() && !leftover {
            if judge.is_some() {
                return Ok(());
            }
            ensure!(c.resp().is_none(), "extra-response", "request {i}: got {} with no response bytes for it", c.show());
            alive = false;
            continue;
        }
        if leftover {
            cx.label("leftover");
            if c.resp().is_none() {
                alive = false;
                continue;
            }
        }
        if i > 0 {
            cx.label("reused");
            cx.nontrivial = true;
        }
        match refh1::response(&stream, pos, &methods[i], &RefCfg { h09: rc.h09 && i == 0, ..rc.clone() }, eof) {
            RespOut::Final(m, interim) => {
                cx.label_if(!interim.is_empty(), "interim");
                cx.nontrivial |= m.fr != Fr::None || !interim.is_empty();
                label(cx, &m);
                if let Some(j) = judge {
                    if same_response(i, c, &m).is_ok() {
                        j(i, c, &m, cx)?;
                    }
                } else {
                    same_response(i, c, &m)?;
                }
                pos = m.pos;
                if !m.ka || m.upgrade || m.end != BodyEnd::Complete || m.fr == Fr::Close {
                    alive = false;
                } else if calls.get(i + 1).is_some() && i + 1 >= fed_before.len() {
                    // could have been reused: fine unless nothing stood in the way
                    let clean = pos == stream.len();
                    ensure!(!clean || judge.is_some(), "not-reused", "request {} was not sent although response {i} left the connection reusable; {}", i + 1, cli.show_state());
                }
            }
            RespOut::Partial(_) | RespOut::Bad(..) => {
                cx.label("bad");
                cx.nontrivial = true;
                ensure!(c.resp().is_none() || judge.is_some(), "false-response", "request {i}: got {} but the reader finds no valid response in {:?}", c.show(), show(&stream[pos.min(stream.len())..]));
                alive = false;
            }
        }
    }
    Ok(())
}
