//! Truncation: end of input, read errors and dropped connections at every position of a message.
use crate::checks::{c01, c02};
use crate::cli::*;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, BodyEnd, Fr, RefCfg, RespOut, Tail};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C04",
        run,
        quick: 700_000,
        thorough: 30_000_000,
        max_len: 420,
        rule: "a case sends a generated request stream to a server, or a generated response to a client (or, for HTTP/2, several exchanges to either), cuts it at a generated position and ends it by end of input, a read error or dropping the connection, while the body is read in the foreground or by another task; non-trivial when the cut falls inside a message (head, fixed-length body, chunked body or trailers, close-delimited body)",
        must_labels: &["server", "client", "end-eof", "end-error", "end-drop", "cut-length", "cut-chunked", "cut-head", "close-delimited", "complete", "h2", "partial", "whole"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    Error,
    Drop,
}
fn gen_end(s: &mut Src, cx: &mut Cx) -> End {
    let e = *s.pick(&[End::Eof, End::Eof, End::Error, End::Drop]);
    cx.label(match e {
        End::Eof => "end-eof",
        End::Error => "end-error",
        End::Drop => "end-drop",
    });
    e
}
fn style(s: &mut Src) -> Style {
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 0, 0, 10]);
    st
}
fn label_cut(cx: &mut Cx, m: &refh1::RefMsg) {
    match (&m.end, &m.fr) {
        (BodyEnd::Truncated, Fr::Length(_)) => cx.label("cut-length"),
        (BodyEnd::Truncated, Fr::Chunked) => cx.label("cut-chunked"),
        (BodyEnd::Complete, _) => cx.label("complete"),
        _ => {}
    }
    cx.nontrivial |= m.end == BodyEnd::Truncated;
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("server");
    let cfg = SrvCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let st = style(s);
    let mut bytes = vec![];
    for _ in 0..s.range(1, 2) {
        h1gen::request(s, st, &mut bytes);
    }
    let cut = match s.weighted(&[6, 2, 1]) {
        0 => s.below(bytes.len() + 1),
        // near the end: the last chunk, the terminator, the trailers
        1 => bytes.len() - s.below(bytes.len().min(12) + 1),
        _ => bytes.len(),
    };
    bytes.truncate(cut);
    let end = gen_end(s, cx);
    let read = match s.weighted(&[3, 3, 1]) {
        0 => ReadPlan::All,
        1 => ReadPlan::Background,
        _ => ReadPlan::FramesThenBackground(1),
    };
    let pauses = Plan::gen(s, 6);
    let delay = s.weighted(&[6, 1, 1]);
    let settle = s.chance(170);
    let r = refh1::requests(&bytes, &RefCfg::default(), 65534);
    for m in &r.msgs {
        label_cut(cx, m);
    }
    cx.label_if(r.tail == Tail::PartialHead, "cut-head");
    cx.nontrivial |= r.tail == Tail::PartialHead;
    let cuts = gen_cuts(s, &bytes);
    cx.describe(|| format!("server read={read:?} end={end:?} settle={settle} segs={} io[{}] stream={}", cuts.len(), io_cfg.show(), show(&bytes)));
    let rd = read.clone();
    let plans: PlanFn = Rc::new(move |_, p| {
        let mut r = RespPlan::simple();
        r.read = rd.clone();
        r.pauses = pauses.clone();
        r.delay = delay;
        if p.method == http::Method::CONNECT {
            r.status = 405;
        }
        r
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, plans);
    ensure!(play(&mut srv.ex, &srv.io, None, &cuts[..cuts.len().saturating_sub(1)]), "spin", "spinning: {}", srv.show_state());
    if let Some(Seg::Bytes(b)) = cuts.last() {
        feed(&srv.io.rx, b);
    }
    if settle {
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    } else {
        srv.ex.run_steps(s.below(10));
    }
    let consumed = lock(&srv.io.st).read_total as usize;
    match end {
        End::Eof => feed_eof(&srv.io.rx),
        End::Error => feed_err(&srv.io.rx, std::io::ErrorKind::ConnectionReset),
        End::Drop => srv.ex.kill(srv.conn),
    }
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning after the end: {}", srv.show_state());
    let calls = srv.calls.borrow();
    for (i, c) in calls.iter().enumerate() {
        let Some(m) = r.msgs.get(i) else {
            fail!("false-request", "request {i} {} {} was delivered, but its head never arrived completely ({:?})", c.method, c.uri, r.tail);
        };
        c01::same_request(i, c, m)?;
        let g = &c.got;
        ensure!(m.body.starts_with(&g.data), "body-bytes", "request {i}: delivered {:?} is not a prefix of {:?}", show(&g.data), show(&m.body));
        let alone = read == ReadPlan::Background && c.responded;
        if alone {
            ensure!(g.over(), "body-stuck", "request {i}: reader still waits for its body after {end:?}: got {} of {} bytes", g.data.len(), m.body.len());
        }
        if m.end == BodyEnd::Complete {
            let arrived = end != End::Drop || consumed >= m.pos;
            let certain = settle && (end != End::Drop || (alone && srv.ex.events.len() == 0 && g.ended));
            if g.over() && arrived && certain && end != End::Drop {
                c01::same_body(i, c, m)?;
            }
            if g.ended {
                ensure!(g.data == m.body, "false-complete", "request {i}: body presented as complete with {} of {} bytes", g.data.len(), m.body.len());
                let t: Vec<(String, Vec<u8>)> = g.trailers.iter().flat_map(header_list).collect();
                ensure!(grouped(&t) == grouped(&m.trailers), "false-complete", "request {i}: body presented as complete without its trailers: {t:?} / {:?}", m.trailers);
            }
        } else {
            ensure!(!g.ended, "false-complete", "request {i}: {:?} body was presented as complete with {} bytes (end={end:?})", m.end, g.data.len());
            ensure!(g.trailers.is_empty(), "false-complete", "request {i}: trailers of an incomplete body were delivered");
            if g.over() {
                ensure!(g.err.is_some(), "false-complete", "request {i}: no error");
            }
        }
        // a body that said it ended at the start must be empty
        ensure!(!c.end_at_start || m.body.is_empty(), "false-complete", "request {i}: reported as ended at once");
    }
    if end == End::Eof && settle {
        ensure!(calls.len() == r.msgs.len(), "missing-request", "{} requests delivered, {} arrived completely or with a complete head ({:?})", calls.len(), r.msgs.len(), r.tail);
    }
    if end != End::Drop {
        let e = srv.ended();
        ensure!(e.is_some(), "hang", "connection did not end: {}", srv.show_state());
        // an unfinished head is reported, not swallowed
        let partial = r.tail == Tail::PartialHead && calls.len() == r.msgs.len();
        if partial && r.msgs.iter().all(|m| m.end == BodyEnd::Complete) {
            ensure!(!e.as_ref().unwrap().ok, "false-clean", "input ended inside a request head and the connection reported success; {}", srv.show_state());
        }
    }
    Ok(())
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("client");
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let st = style(s);
    let mut p = c02::small_request(s);
    p.read = if s.chance(128) { ReadPlan::All } else { ReadPlan::FramesThenBackground(1) };
    if p.method == "CONNECT" {
        p.method = "GET".into();
        p.uri = "/".into();
    }
    let mut bytes = vec![];
    for _ in 0..s.weighted(&[8, 1]) {
        h1gen::interim(s, st, &mut bytes);
    }
    h1gen::response(s, st, &mut bytes, &p.method);
    let cut = match s.weighted(&[6, 2, 1]) {
        0 => s.below(bytes.len() + 1),
        1 => bytes.len() - s.below(bytes.len().min(12) + 1),
        _ => bytes.len(),
    };
    bytes.truncate(cut);
    let end = gen_end(s, cx);
    let settle = s.chance(170);
    let cuts = gen_cuts(s, &bytes);
    cx.describe(|| format!("client {} end={end:?} settle={settle} segs={} io[{}] stream={}", p.show(), cuts.len(), io_cfg.show(), show(&bytes)));
    let method = p.method.clone().into_bytes();
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    let (idx, _) = cli.send(&p);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    ensure!(play(&mut cli.ex, &cli.io, None, &cuts[..cuts.len().saturating_sub(1)]), "spin", "spinning: {}", cli.show_state());
    if let Some(Seg::Bytes(b)) = cuts.last() {
        feed(&cli.io.rx, b);
    }
    if settle {
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    } else {
        cli.ex.run_steps(s.below(10));
    }
    match end {
        End::Eof => feed_eof(&cli.io.rx),
        End::Error => feed_err(&cli.io.rx, std::io::ErrorKind::ConnectionReset),
        End::Drop => cli.ex.kill(cli.conn),
    }
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning after the end: {}", cli.show_state());
    let calls = cli.env.calls.borrow();
    let c = &calls[idx];
    ensure!(c.out.is_some(), "no-outcome", "request has no outcome after {end:?}: {}", cli.show_state());
    let g = &c.got;
    match refh1::response(&bytes, 0, &method, &RefCfg::default(), end == End::Eof) {
        RespOut::Final(m, _) => {
            cx.label_if(m.fr == Fr::Close, "close-delimited");
            label_cut(cx, &m);
            if end == End::Eof && (settle || c.resp().is_some()) {
                c02::same_response(idx, c, &m)?;
                return Ok(());
            }
            if settle && !(end == End::Drop) && m.fr != Fr::Close {
                c02::same_response(idx, c, &m)?;
            }
            if c.resp().is_some() {
                ensure!(g.over(), "body-stuck", "reader still waits for the body after {end:?}: {}", cli.show_state());
                ensure!(m.body.starts_with(&g.data), "body-bytes", "delivered {:?} is not a prefix of {:?}", show(&g.data), show(&m.body));
                if g.ended {
                    ensure!(m.end == BodyEnd::Complete && m.fr != Fr::Close, "false-complete", "{:?} body ({:?}) presented as complete after {end:?} with {} bytes", m.end, m.fr, g.data.len());
                    ensure!(g.data == m.body, "false-complete", "body presented as complete with {} of {} bytes", g.data.len(), m.body.len());
                    let t: Vec<(String, Vec<u8>)> = g.trailers.iter().flat_map(header_list).collect();
                    ensure!(grouped(&t) == grouped(&m.trailers), "false-complete", "complete body without its trailers: {t:?} / {:?}", m.trailers);
                }
            }
        }
        RespOut::Partial(_) | RespOut::Bad(..) => {
            cx.label("cut-head");
            cx.nontrivial = true;
            ensure!(c.resp().is_none(), "false-response", "got {} from an unfinished head", c.show());
        }
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.weighted(&[118, 138, 40]) {
        0 => client(s, cx),
        1 => server(s, cx),
        _ => {
            cx.label("h2");
            super::c29::session(s, cx, true)
        }
    }
}
