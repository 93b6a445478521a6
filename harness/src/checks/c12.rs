//! Back-pressure: what a stalled reader or a stalled transport lets a connection buffer.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::*;
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use bytes::Bytes;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C12",
        run,
        quick: 45_000,
        thorough: 1_500_000,
        max_len: 160,
        rule: "a case stalls one side (an application that takes none or a few frames of an incoming body, a service that does not answer while more requests are pipelined, a transport that accepts a limited number of bytes while a body or many responses are written), offers several times the buffer size, measures how much the connection took, then resumes and compares everything delivered; every case offers more than the bound",
        must_labels: &["in-server", "in-client", "out-server", "out-client", "pipelined-service", "pipelined-output", "chunked", "length", "tiny-frames", "big-frames", "default-buffer", "flatten", "queue"],
    }
}

fn gen_max(s: &mut Src, cx: &mut Cx) -> Option<usize> {
    if s.chance(6) {
        cx.label("default-buffer");
        return None;
    }
    Some(*s.pick(&[8192usize, 8192, 8193, 12000, 16384, 30000]))
}
const DEFAULT: usize = 8192 + 4096 * 100;

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    match s.below(6) {
        0 => incoming(s, cx, false),
        1 => incoming(s, cx, true),
        2 => outgoing(s, cx, false),
        3 => outgoing(s, cx, true),
        4 => pipelined_service(s, cx),
        _ => pipelined_output(s, cx),
    }
}

fn incoming(s: &mut Src, cx: &mut Cx, client: bool) -> R {
    cx.label(if client { "in-client" } else { "in-server" });
    let max_buf = gen_max(s, cx);
    let m = max_buf.unwrap_or(DEFAULT);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen_coarse(s) };
    let sched = Plan::gen(s, 8);
    let total = m * s.range(5, 9);
    let data = payload(9, total);
    let chunked = s.chance(128);
    cx.label(if chunked { "chunked" } else { "length" });
    let frames = *s.pick(&[0usize, 1, 2, 5, 20]);
    let c = if chunked { *s.pick(&[50usize, 1000, 8192, 20000, 100_000]) } else { total };
    cx.label(if c < 1000 { "tiny-frames" } else { "big-frames" });
    let mut msg: Vec<u8> = if client { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"POST / HTTP/1.1\r\n".to_vec() };
    let mut head_len = 0;
    let mut over = 0;
    if chunked {
        msg.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
        head_len = msg.len();
        for p in data.chunks(c) {
            let h = format!("{:x}\r\n", p.len());
            over = h.len() + 2;
            msg.extend_from_slice(h.as_bytes());
            msg.extend_from_slice(p);
            msg.extend_from_slice(b"\r\n");
        }
        msg.extend_from_slice(b"0\r\n\r\n");
    } else {
        msg.extend_from_slice(format!("content-length: {total}\r\n\r\n").as_bytes());
        head_len = head_len.max(msg.len());
        msg.extend_from_slice(&data);
    }
    cx.describe(|| format!("incoming client={client} max_buf={max_buf:?} body of {total} bytes chunks of {c} (chunked={chunked}), app takes {frames} frames, io[{}]", io_cfg.show()));
    let judge = |taken: usize, read: u64| -> R {
        let chunks = if chunked { taken.div_ceil(c) } else { 0 };
        let bound = head_len + taken + chunks * over + 3 * m + 1024;
        ensure!(read <= bound as u64, "read-ahead", "{read} bytes were read although the application took {taken} bytes only (bound {bound}, {} on offer)", msg.len());
        Ok(())
    };
    if client {
        let mut cfg = CliCfg::plain();
        cfg.max_buf = max_buf;
        let mut cli = Cli::start(&cfg, &io_cfg, sched);
        let mut p = ReqPlan::get();
        p.read = ReadPlan::Gated(frames);
        cli.send(&p);
        cli.ex.run();
        feed(&cli.io.rx, &msg);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let taken = cli.env.calls.borrow()[0].got.data.len();
        let read = lock(&cli.io.st).read_total;
        judge(taken, read)?;
        cli.env.gate.open();
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let c = cli.env.calls.borrow();
        ensure!(c[0].got.clean() && c[0].got.data == data, "resume", "after resuming, {} of {total} bytes arrived, ended={} err={:?}", c[0].got.data.len(), c[0].got.ended, c[0].got.err);
    } else {
        let mut cfg = SrvCfg::plain();
        cfg.max_buf = max_buf;
        let pf: PlanFn = Rc::new(move |_, _| RespPlan { read: ReadPlan::Gated(frames), ..RespPlan::simple() });
        let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
        feed(&srv.io.rx, &msg);
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        let taken = srv.calls.borrow().first().map(|c| c.got.data.len()).unwrap_or(0);
        let read = lock(&srv.io.st).read_total;
        judge(taken, read)?;
        srv.gate.open();
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        let c = srv.calls.borrow();
        ensure!(c.len() == 1 && c[0].got.clean() && c[0].got.data == data, "resume", "after resuming, {:?} of {total} bytes arrived", c.first().map(|c| c.got.data.len()));
        ensure!(srv.io.output().ends_with(b"ok"), "resume", "no response after resuming: {}", srv.show_state());
    }
    Ok(())
}

fn outgoing(s: &mut Src, cx: &mut Cx, client: bool) -> R {
    cx.label(if client { "out-client" } else { "out-server" });
    let max_buf = gen_max(s, cx);
    let m = max_buf.unwrap_or(DEFAULT);
    let cap = *s.pick(&[1usize, 0, 100, 5000, 20000]);
    let io_cfg = IoCfg { cap, ..IoCfg::gen_coarse(s) };
    let writev = *s.pick(&[None, Some(false), Some(true)]);
    cx.label(if writev == Some(false) || (writev.is_none() && !io_cfg.vectored) { "flatten" } else { "queue" });
    let sched = Plan::gen(s, 8);
    let frame = *s.pick(&[1000usize, 20, 100, 8192, 9000, 30000, 100_000]);
    cx.label(if frame < 1000 { "tiny-frames" } else { "big-frames" });
    let total = if frame < 1000 { 4 * m.min(30000) } else { (5 * m).max(5 * frame) };
    let n = total.div_ceil(frame);
    if frame < 1000 && max_buf.is_none() {
        // thousands of frames say nothing more about a large buffer
        return Ok(());
    }
    let steps: Vec<Step> = (0..n).map(|i| Step::Data(Bytes::from(payload(i as u8, frame)), if i % 7 == 3 { 3 } else { 1 })).collect();
    let plan = BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: s.chance(128) };
    cx.label(if plan.hint == Hint::Exact { "length" } else { "chunked" });
    let data = plan.data();
    cx.describe(|| format!("outgoing client={client} max_buf={max_buf:?} writev={writev:?} {n} frames of {frame} hint={:?}, transport takes {cap}, io[{}]", plan.hint, io_cfg.show()));
    let bound = cap + m + 2 * frame + 2048 + io_cfg.buffered as usize * cap;
    let judge = |polled: usize| -> R {
        ensure!(polled <= bound, "pulled-ahead", "{polled} bytes were pulled from the body although the transport accepted {cap} (bound {bound}, {} on offer)", n * frame);
        Ok(())
    };
    let mut got = vec![];
    if client {
        let mut cfg = CliCfg::plain();
        cfg.max_buf = max_buf;
        cfg.writev = writev;
        let mut cli = Cli::start(&cfg, &io_cfg, sched);
        let mut p = ReqPlan::get();
        p.method = "POST".into();
        p.body = plan;
        cli.send(&p);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        judge(cli.env.stats.borrow()[0].borrow().polled_data)?;
        let mut rounds = 0;
        let step = *s.pick(&[usize::MAX, 70000, 30000]);
        loop {
            let d = drain(&cli.io.tx);
            set_cap(&cli.io.tx, if rounds == 0 { cap.max(1) } else { step });
            got.extend_from_slice(&d);
            ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
            if d.is_empty() && rounds > 1 {
                break;
            }
            rounds += 1;
        }
        match wire::request(&got, 0) {
            Ok(wire::P::Msg(m)) => ensure!(m.complete && m.body == data, "resume", "after resuming, {} of {} bytes were written (complete={})", m.body.len(), data.len(), m.complete),
            _ => fail!("resume", "no request was written: {}", show(&got)),
        }
    } else {
        let mut cfg = SrvCfg::plain();
        cfg.max_buf = max_buf;
        cfg.writev = writev;
        let pf: PlanFn = Rc::new(move |_, _| RespPlan { body: plan.clone(), ..RespPlan::simple() });
        let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
        feed(&srv.io.rx, b"GET / HTTP/1.1\r\n\r\n");
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        judge(srv.stats.borrow()[0].borrow().polled_data)?;
        let mut rounds = 0;
        let step = *s.pick(&[usize::MAX, 70000, 30000]);
        loop {
            let d = drain(&srv.io.tx);
            set_cap(&srv.io.tx, if rounds == 0 { cap.max(1) } else { step });
            got.extend_from_slice(&d);
            ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
            if d.is_empty() && rounds > 1 {
                break;
            }
            rounds += 1;
        }
        match wire::response(&got, 0, b"GET", false) {
            Ok(wire::P::Msg(m)) => ensure!(m.complete && m.body == data, "resume", "after resuming, {} of {} bytes were written (complete={})", m.body.len(), data.len(), m.complete),
            _ => fail!("resume", "no response was written: {}", show(&got)),
        }
    }
    Ok(())
}

fn many(n: usize, pad: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        v.extend_from_slice(format!("GET /{i} HTTP/1.1\r\nx-p: {}\r\n\r\n", "p".repeat(pad)).as_bytes());
    }
    v
}

fn pipelined_service(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("pipelined-service");
    let max_buf = Some(*s.pick(&[8192usize, 8193, 12000]));
    let m = max_buf.unwrap_or(DEFAULT);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen_coarse(s) };
    let sched = Plan::gen(s, 8);
    let pad = *s.pick(&[10usize, 200, 1000]);
    let n = 5 * m / (pad + 30);
    let stall_at = *s.pick(&[0usize, 0, 3, 20]).min(&(n - 1));
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.max_buf = max_buf;
    cfg.max_headers = None;
    let msg = many(n, pad);
    cx.describe(|| format!("{n} pipelined requests of about {} bytes, the service stalls at request {stall_at}, {} io[{}]", msg.len() / n, cfg.show(), io_cfg.show()));
    let pf: PlanFn = Rc::new(move |i, _| {
        let mut p = RespPlan::simple();
        if i == stall_at {
            p.read = ReadPlan::Gated(1);
        }
        p
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    feed(&srv.io.rx, &msg);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    ensure!(srv.calls.borrow().len() == stall_at + 1, "calls", "{} requests were delivered while request {stall_at} is being served", srv.calls.borrow().len());
    let read = lock(&srv.io.st).read_total as usize;
    let per = msg.len().div_ceil(n) + 2;
    let bound = (stall_at + 1) * per + 3 * m;
    ensure!(read <= bound, "read-ahead", "{read} bytes of requests were read ahead (bound {bound}, {} on offer)", msg.len());
    srv.gate.open();
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    ensure!(srv.calls.borrow().len() == n, "resume", "{} of {n} requests were served after resuming", srv.calls.borrow().len());
    let out = srv.io.output();
    let st = match wire::responses(&out, &vec![b"GET".to_vec(); n], false) {
        Ok(x) => x,
        Err(e) => fail!("malformed-output", "{e}"),
    };
    ensure!(st.msgs.len() == n && st.msgs.iter().all(|m| m.complete && m.body == b"ok"), "resume", "{} of {n} responses", st.msgs.len());
    Ok(())
}

fn pipelined_output(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("pipelined-output");
    let max_buf = Some(*s.pick(&[8192usize, 8193, 12000]));
    let m = max_buf.unwrap_or(DEFAULT);
    let cap = *s.pick(&[0usize, 1, 100, 3000]);
    let io_cfg = IoCfg { cap, ..IoCfg::gen_coarse(s) };
    let sched = Plan::gen(s, 8);
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.max_buf = max_buf;
    cfg.max_headers = None;
    cx.label(if cfg.writev == Some(false) || !io_cfg.vectored || cfg.pipeline_flush { "flatten" } else { "queue" });
    let blen = *s.pick(&[2usize, 0, 300, 5000]);
    let hlen = *s.pick(&[0usize, 200, 2000]);
    let per = 60 + blen + hlen;
    let n = (6 * m / per).max(8);
    let msg = many(n, 1);
    cx.describe(|| format!("{n} pipelined requests answered with {blen} bytes and a header of {hlen}, transport takes {cap}, {} io[{}]", cfg.show(), io_cfg.show()));
    let pf: PlanFn = Rc::new(move |_, _| {
        let mut p = RespPlan::simple();
        p.body = BodyPlan { steps: if blen > 0 { vec![Step::Data(Bytes::from(payload(3, blen)), 1)] } else { vec![] }, hint: Hint::Exact, honest_end: true };
        if hlen > 0 {
            p.headers.push(("x-big".into(), vec![b'h'; hlen]));
        }
        p
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    feed(&srv.io.rx, &msg);
    ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
    let calls = srv.calls.borrow().len();
    let bound = (cap + m + io_cfg.buffered as usize * cap) / (36 + blen + hlen) + 4;
    ensure!(calls <= bound, "pulled-ahead", "{calls} requests were served although the transport accepted {cap} bytes (bound {bound} of {n})");
    let read = lock(&srv.io.st).read_total as usize;
    let rb = calls * (msg.len().div_ceil(n) + 2) + 3 * m;
    ensure!(read <= rb, "read-ahead", "{read} bytes of requests were read ahead (bound {rb}, {} on offer)", msg.len());
    let mut got = vec![];
    let mut rounds = 0;
    let step = *s.pick(&[usize::MAX, 30000, 4000]);
    loop {
        let d = drain(&srv.io.tx);
        set_cap(&srv.io.tx, if rounds == 0 { cap.max(1) } else { step });
        got.extend_from_slice(&d);
        ensure!(srv.ex.run() == Stall::Quiet, "spin", "spinning: {}", srv.show_state());
        if d.is_empty() && rounds > 1 {
            break;
        }
        rounds += 1;
    }
    ensure!(srv.calls.borrow().len() == n, "resume", "{} of {n} requests were served after resuming", srv.calls.borrow().len());
    let st = match wire::responses(&got, &vec![b"GET".to_vec(); n], false) {
        Ok(x) => x,
        Err(e) => fail!("malformed-output", "{e}"),
    };
    ensure!(st.msgs.len() == n && st.msgs.iter().all(|m| m.complete && m.body == payload(3, blen)), "resume", "{} of {n} responses", st.msgs.len());
    Ok(())
}
