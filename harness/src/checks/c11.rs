//! Size limits of heads, targets, trailers and chunk extensions, at and around their values.
use crate::body::BodyPlan;
use crate::cli::*;
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C11",
        run,
        quick: 160_000,
        thorough: 4_000_000,
        max_len: 200,
        rule: "a case sends one message that lies at, just below, just above or well above one limit (header count, head size, target length, trailer count, trailer size, chunk extensions in total over many chunks), behind 0-2 ordinary messages, in generated segments, to a server or a client with generated limits; non-trivial when the size is within 3 of the limit or beyond it",
        must_labels: &["server", "client", "count-ok", "count-over", "head-ok", "head-over", "target-ok", "target-over", "trailer-count-ok", "trailer-count-over", "trailer-size-ok", "trailer-size-over", "ext-ok", "ext-over", "default-count", "default-buffer", "after-others", "exact-buffer"],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Count,
    Head,
    Target,
    TrCount,
    TrSize,
    Ext,
}

/// pieces of sizes that matter for buffers
fn blocks(s: &mut Src, b: &[u8]) -> Vec<Seg> {
    if b.len() < 4000 && s.chance(128) {
        return gen_cuts(s, b);
    }
    let mut v = vec![];
    let w = *s.pick(&[usize::MAX, 8192, 8191, 8193, 4096, 16384, 1000, 30000]);
    let mut i = 0;
    while i < b.len() {
        let n = if s.chance(40) { 1 + s.below(50) } else { w.saturating_sub(s.below(3)) }.min(b.len() - i);
        v.push(Seg::Bytes(b[i..i + n].to_vec()));
        i += n;
        match s.weighted(&[2, 4, 2]) {
            0 => {}
            1 => v.push(Seg::Settle),
            _ => v.push(Seg::Steps(s.range(1, 4))),
        }
    }
    v
}
fn around(s: &mut Src) -> isize {
    *s.pick(&[0isize, 1, -1, 2, -2, 3])
}
/// header lines of about the given total size, and their number
fn filler(s: &mut Src, total: usize) -> Vec<u8> {
    // at most 60 lines so the count limit is not met
    let mut out = vec![];
    let n = if total < 300 { 1 } else { 1 + s.below(40.min(total / 16)) };
    for k in 0..n {
        let left = total - out.len();
        let lines_left = n - k;
        let line = if lines_left == 1 { left } else { (left / lines_left).max(12) };
        let name = format!("x-f{k:02}: ");
        let vlen = line.saturating_sub(name.len() + 2);
        out.extend_from_slice(name.as_bytes());
        out.extend(std::iter::repeat_n(b'v', vlen));
        out.extend_from_slice(b"\r\n");
    }
    out
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let client = s.chance(110);
    cx.label(if client { "client" } else { "server" });
    let kind = *s.pick(if client { &[Kind::Count, Kind::Head, Kind::TrCount, Kind::TrSize, Kind::Ext][..] } else { &[Kind::Count, Kind::Head, Kind::Target, Kind::TrCount, Kind::TrSize, Kind::Ext][..] });
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 8);
    let mut max_headers: Option<usize> = None;
    let mut max_buf: Option<usize> = None;
    let mut exact: Option<usize> = None;
    let mut lead = 0;
    let d = around(s);
    let first: Vec<u8> = if client { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"POST /t HTTP/1.1\r\n".to_vec() };
    let body = payload(7, 5 + s.below(40));
    let mut msg = first.clone();
    // what the message is expected to do
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Want {
        Ok,
        HeadTooLarge,
        UriTooLong,
        BodyErr,
    }
    let want;
    match kind {
        Kind::Count => {
            let n = *s.pick(&[100usize, 1, 3, 20, 99, 101, 140, 300, 2]);
            max_headers = if n == 100 && s.chance(160) { None } else { Some(n) };
            cx.label_if(max_headers.is_none(), "default-count");
            let have = (n as isize + if s.chance(30) { 40 } else { d }).max(1) as usize;
            // one of them is the framing
            for k in 0..have - 1 {
                // some names repeat
                msg.extend_from_slice(format!("x-{}: {k}\r\n", if s.chance(60) { 0 } else { k }).as_bytes());
            }
            msg.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            msg.extend_from_slice(&body);
            want = if have <= n { Want::Ok } else { Want::HeadTooLarge };
            cx.label(if have <= n { "count-ok" } else { "count-over" });
            cx.nontrivial = have + 3 >= n;
        }
        Kind::Head => {
            let m = match s.weighted(&[8, 1, 3]) {
                1 => {
                    cx.label("default-buffer");
                    8192 + 4096 * 100
                }
                2 if client => {
                    let n = *s.pick(&[200usize, 1000, 8192, 20000]);
                    exact = Some(n);
                    cx.label("exact-buffer");
                    n
                }
                _ => {
                    let n = *s.pick(&[8192usize, 8192, 8193, 10000, 16384, 20000, 30000, 50000]);
                    max_buf = Some(n);
                    n
                }
            };
            let total = match s.weighted(&[6, 1, 1]) {
                0 => (m as isize + d) as usize,
                1 => m / 2,
                _ => m + 1 + s.below(m),
            };
            let cl = format!("content-length: {}\r\n\r\n", body.len());
            let fill = filler(s, total - msg.len() - cl.len());
            msg.extend_from_slice(&fill);
            msg.extend_from_slice(cl.as_bytes());
            let len = msg.len();
            if len.abs_diff(total) > 30 {
                fail!("harness", "built a head of {len} bytes instead of {total}");
            }
            msg.extend_from_slice(&body);
            want = if len <= m { Want::Ok } else { Want::HeadTooLarge };
            cx.label(if len <= m { "head-ok" } else { "head-over" });
            cx.nontrivial = len + 3 >= m;
        }
        Kind::Target => {
            let m = 65534isize;
            let len = (m + if s.chance(40) { 5000 } else if s.chance(30) { -40000 } else { d }) as usize;
            msg = b"POST /".to_vec();
            msg.extend(std::iter::repeat_n(b'u', len - 1));
            msg.extend_from_slice(b" HTTP/1.1\r\n");
            msg.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            msg.extend_from_slice(&body);
            want = if len as isize <= m { Want::Ok } else { Want::UriTooLong };
            cx.label(if want == Want::Ok { "target-ok" } else { "target-over" });
            cx.nontrivial = len as isize + 3 >= m;
        }
        Kind::TrCount => {
            let n = *s.pick(&[100usize, 3, 20, 99, 140, 300]);
            max_headers = if n == 100 && s.chance(160) { None } else { Some(n) };
            cx.label_if(max_headers.is_none(), "default-count");
            let have = (n as isize + if s.chance(30) { 40 } else { d }).max(1) as usize;
            msg.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            msg.extend_from_slice(format!("{:x}\r\n", body.len()).as_bytes());
            msg.extend_from_slice(&body);
            msg.extend_from_slice(b"\r\n0\r\n");
            for k in 0..have {
                msg.extend_from_slice(format!("t-{k}: {k}\r\n").as_bytes());
            }
            msg.extend_from_slice(b"\r\n");
            want = if have <= n { Want::Ok } else { Want::BodyErr };
            cx.label(if have <= n { "trailer-count-ok" } else { "trailer-count-over" });
            cx.nontrivial = have + 3 >= n;
        }
        Kind::TrSize => {
            let m = 16384usize;
            let over = s.chance(128);
            let near = s.chance(128);
            let total = if over { m + 1 + (if near { s.below(300) } else { s.below(20000) }) } else { m - 200 - (if near { s.below(100) } else { s.below(15000) }) };
            msg.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            msg.extend_from_slice(format!("{:x}\r\n", body.len()).as_bytes());
            msg.extend_from_slice(&body);
            msg.extend_from_slice(b"\r\n0\r\n");
            let f = filler(s, total);
            msg.extend_from_slice(&f);
            msg.extend_from_slice(b"\r\n");
            want = if over { Want::BodyErr } else { Want::Ok };
            cx.label(if over { "trailer-size-over" } else { "trailer-size-ok" });
            cx.nontrivial = true;
        }
        Kind::Ext => {
            let m = 16384usize;
            let over = s.chance(128);
            let near = s.chance(128);
            let total = if over { m + 450 + (if near { s.below(300) } else { s.below(20000) }) } else { m - 450 - (if near { s.below(100) } else { s.below(15000) }) };
            msg.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            let chunks = *s.pick(&[1usize, 2, 3, 10, 40, 200]);
            let mut left = total;
            let mut sent = 0;
            let mut data = payload(7, chunks);
            data.truncate(chunks);
            for k in 0..=chunks {
                // the last one carries no data
                let e = if k == chunks { left } else { left / (chunks + 1 - k) };
                left -= e;
                if k < chunks {
                    msg.push(b'1');
                } else {
                    msg.push(b'0');
                }
                if e > 0 {
                    msg.push(b';');
                    msg.extend(std::iter::repeat_n(b'e', e - 1));
                }
                msg.extend_from_slice(b"\r\n");
                if k < chunks {
                    msg.push(data[k]);
                    sent += 1;
                    msg.extend_from_slice(b"\r\n");
                }
            }
            msg.extend_from_slice(b"\r\n");
            let _ = sent;
            want = if over { Want::BodyErr } else { Want::Ok };
            cx.label(if over { "ext-over" } else { "ext-ok" });
            cx.nontrivial = true;
            return finish(s, cx, client, kind, io_cfg, sched, max_headers, max_buf, exact, lead, msg, data, want as u8);
        }
    }
    lead = s.weighted(&[4, 2, 1]);
    finish(s, cx, client, kind, io_cfg, sched, max_headers, max_buf, exact, lead, msg, body, want as u8)
}

#[allow(clippy::too_many_arguments)]
fn finish(s: &mut Src, cx: &mut Cx, client: bool, kind: Kind, io_cfg: IoCfg, sched: Plan, max_headers: Option<usize>, max_buf: Option<usize>, exact: Option<usize>, lead: usize, msg: Vec<u8>, body: Vec<u8>, want: u8) -> R {
    // 0 fine, 1 head too large, 2 target too long, 3 body error
    cx.label_if(lead > 0, "after-others");
    // nothing else may be over the limits
    let lead = if matches!(max_headers, Some(n) if n < 2) || exact.is_some() { 0 } else { lead };
    cx.describe(|| {
        format!(
            "{} {kind:?} want={want} max_headers={max_headers:?} max_buf={max_buf:?} exact={exact:?} lead={lead} io[{}] message of {} bytes: {}",
            if client { "client" } else { "server" },
            io_cfg.show(),
            msg.len(),
            show(&msg[..msg.len().min(200)])
        )
    });
    if client {
        let mut cfg = CliCfg::plain();
        cfg.max_headers = max_headers;
        cfg.max_buf = max_buf;
        cfg.read_exact = exact;
        let mut cli = Cli::start(&cfg, &io_cfg, sched);
        for i in 0..lead {
            let (k, _) = cli.send(&ReqPlan::get());
            cli.ex.run();
            feed(&cli.io.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\nabc");
            ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
            ensure!(cli.env.calls.borrow()[k].got.clean(), "lead", "ordinary response {i} was not delivered: {}", cli.show_state());
        }
        let (k, _) = cli.send(&ReqPlan::get());
        cli.ex.run();
        let segs = blocks(s, &msg);
        ensure!(play(&mut cli.ex, &cli.io, None, &segs), "spin", "spinning: {}", cli.show_state());
        {
            let calls = cli.env.calls.borrow();
            let c = &calls[k];
            match want {
                0 => {
                    ensure!(c.resp().is_some(), "refused", "message within the limits was not accepted: {}", c.show());
                    ensure!(c.got.clean() && c.got.data == body, "refused", "body of a message within the limits was not delivered: {:?}", c.got.err);
                }
                1 => match &c.out {
                    Some(Outcome::Err { kinds, text, .. }) => ensure!(kinds.contains("too_large"), "kind", "refused with {text} instead of a too-large error"),
                    o => fail!("accepted", "a head beyond the limit led to {o:?}"),
                },
                _ => {
                    ensure!(c.resp().is_some(), "refused", "head within the limits was not accepted: {}", c.show());
                    ensure!(c.got.err.is_some(), "accepted", "a body beyond the limit ended={} with {} bytes and {} trailers", c.got.ended, c.got.data.len(), c.got.trailers.len());
                    ensure!(body.starts_with(&c.got.data), "body", "wrong body bytes");
                }
            }
        }
        if want == 0 {
            ensure!(cli.ready_now() == Some(true), "refused", "connection cannot be reused after a message within the limits: {}", cli.show_state());
            let (k2, _) = cli.send(&ReqPlan::get());
            cli.ex.run();
            feed(&cli.io.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\nabc");
            if exact.map(|n| n < 60).unwrap_or(false) {
                return Ok(());
            }
            if max_headers == Some(0) {
                return Ok(());
            }
            cli.ex.run();
            ensure!(cli.env.calls.borrow()[k2].got.clean(), "lead", "the next response was not delivered: {}", cli.show_state());
        } else {
            ensure!(cli.ready_now() != Some(true), "reused", "the connection is kept after a message beyond the limits");
            ensure!(cli.ended().is_some(), "open", "connection still open after a message beyond the limits: {}", cli.show_state());
        }
        return Ok(());
    }
    let mut cfg = SrvCfg::plain();
    cfg.max_headers = max_headers;
    cfg.max_buf = max_buf;
    let pf: PlanFn = Rc::new(|_, _| {
        let mut p = RespPlan::simple();
        p.body = BodyPlan { steps: vec![], hint: crate::body::Hint::Exact, honest_end: true };
        p
    });
    let mut srv = Srv::start(&cfg, &io_cfg, sched, pf);
    let mut all = vec![];
    for i in 0..lead {
        all.extend_from_slice(format!("POST /lead{i} HTTP/1.1\r\ncontent-length: 3\r\n\r\nabc").as_bytes());
    }
    if s.chance(128) {
        feed(&srv.io.rx, &all);
        srv.ex.run();
        all.clear();
    }
    all.extend_from_slice(&msg);
    if want == 0 {
        all.extend_from_slice(b"GET /next HTTP/1.1\r\n\r\n");
    }
    let segs = blocks(s, &all);
    ensure!(play(&mut srv.ex, &srv.io, None, &segs), "spin", "spinning: {}", srv.show_state());
    let calls = srv.calls.borrow();
    let out = srv.io.output();
    let methods: Vec<Vec<u8>> = (0..10).map(|_| b"GET".to_vec()).collect();
    let st = match wire::responses(&out, &methods, srv.io.shutdown()) {
        Ok(s) => s,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    match want {
        0 => {
            ensure!(calls.len() == lead + 2, "refused", "message within the limits was not accepted: {}", srv.show_state());
            let c = &calls[lead];
            ensure!(c.got.clean() && c.got.data == body, "refused", "body of a message within the limits was not delivered: {:?}", c.got.err);
            ensure!(st.msgs.len() == lead + 2 && st.msgs.iter().all(|m| m.status == 200), "refused", "wrong responses: {}", show(&out));
        }
        1 | 2 => {
            ensure!(calls.len() == lead, "accepted", "a head beyond the limit reached the service: {}", srv.show_state());
            let code = if want == 1 { 431 } else { 414 };
            ensure!(st.msgs.len() == lead + 1, "answer", "{} responses: {}", st.msgs.len(), show(&out));
            let m = &st.msgs[lead];
            ensure!(m.status == code && m.complete && st.rest == 0, "answer", "expected a single {code}, got {}", m.show());
            ensure!(srv.io.shutdown(), "open", "transport was not closed after the refusal: {}", srv.show_state());
            let e = srv.ended();
            ensure!(e.as_ref().map(|e| !e.ok && e.kinds.contains("too_large")).unwrap_or(false), "kind", "connection ended as {e:?}");
        }
        _ => {
            ensure!(calls.len() == lead + 1, "refused", "head within the limits was not accepted: {}", srv.show_state());
            let c = &calls[lead];
            ensure!(c.got.err.is_some(), "accepted", "a body beyond the limit ended={} with {} bytes and {} trailers", c.got.ended, c.got.data.len(), c.got.trailers.len());
            ensure!(body.starts_with(&c.got.data), "body", "wrong body bytes");
            drop(calls);
            feed(&srv.io.rx, b"GET /next HTTP/1.1\r\n\r\n");
            srv.ex.run();
            ensure!(srv.calls.borrow().len() == lead + 1, "reused", "a request was served after a body beyond the limits");
        }
    }
    Ok(())
}
