//! Client requests: one outcome each, never another request's response, hand-back only when unsent.
use crate::body::BodyPlan;
use crate::cli::*;
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use std::io::ErrorKind;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C10",
        run,
        quick: 900_000,
        thorough: 20_000_000,
        max_len: 420,
        rule: "a case is a history of 4-24 steps on one client connection: submitting requests (also while one is outstanding), dropping response futures, the peer answering, answering early, partially, twice or out of the blue, ending or failing, write faults, dropping the sender or the connection, and letting the tasks run for a few polls; responses carry the identity of the request they answer; non-trivial when a fault, a cancellation, a surplus response or overlapping submission occurs",
        must_labels: &["answered", "cancelled", "surplus", "partial", "peer-eof", "peer-error", "write-fault", "conn-dropped", "sender-dropped", "overlapping", "handed-back", "early", "reused"],
    }
}

struct Sent {
    plan: ReqPlan,
    idx: usize,
    task: usize,
    cancelled: bool,
    /// bytes hyper had read when the request was submitted
    read_at_submit: u64,
    conn_alive: bool,
}
struct Fed {
    start: u64,
    /// request it answers, if any
    of: Option<usize>,
    body: Vec<u8>,
    complete: bool,
    status: u16,
    close: bool,
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let strict_write = io_cfg.write.is_full() && io_cfg.flush.is_full();
    let sched = Plan::gen(s, 12);
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    lock(&cli.io.st).marks = Some(vec![]);
    let mut log: Vec<String> = vec![];
    let mut sent: Vec<Sent> = vec![];
    let mut fed: Vec<Fed> = vec![];
    let mut fed_bytes = 0u64;
    let mut rest: Option<(usize, Vec<u8>)> = None; // what is missing of the last response
    let mut faults = false;
    let mut killed = false;
    let mut eof = false;
    let mut surplus = false;
    let mut answered = 0usize; // requests on the wire the peer answered
    let steps = s.range(4, 32);
    let calm = s.chance(140);
    let overlap = *s.pick(&[20u32, 120]);
    let mut conn_gone = false;
    // the peer speaks HTTP/1.1; one response per request, marked with its target
    for _ in 0..steps {
        match s.weighted(if calm { &[7, 0, 9, 2, 4, 0, 0, 0, 0, 0, 12] } else { &[8, 2, 9, 4, 2, 1, 1, 1, 1, 1, 12] }) {
            0 => {
                let k = sent.len();
                if k >= 8 {
                    continue;
                }
                if cli.ready_now() != Some(true) && !s.chance(overlap) {
                    cli.ex.run_steps(2);
                    continue;
                }
                let mut p = ReqPlan::get();
                p.uri = format!("/{k}");
                p.headers = vec![("x-req".into(), k.to_string().into_bytes())];
                if s.chance(100) {
                    p.method = "POST".into();
                    p.body = BodyPlan::gen(s, false);
                } else if s.chance(24) {
                    p.method = "HEAD".into();
                }
                p.try_send = s.chance(150);
                p.read = match s.weighted(&[6, 1, 1, 1]) {
                    0 => ReadPlan::All,
                    1 => ReadPlan::Drop,
                    2 => ReadPlan::Frames(s.range(0, 2)),
                    _ => ReadPlan::Background,
                };
                p.pauses = Plan::gen(s, 4);
                let outstanding = sent.iter().any(|x| !x.cancelled && cli.env.calls.borrow()[x.idx].out.is_none());
                cx.label_if(outstanding, "overlapping");
                cx.nontrivial |= outstanding;
                let read_at_submit = lock(&cli.io.st).read_total;
                let conn_alive = cli.ended().is_none() && !conn_gone;
                log.push(format!("submit {k} {}{}", if p.try_send { "try " } else { "" }, p.show()));
                let (idx, task) = cli.send(&p);
                sent.push(Sent { plan: p, idx, task, cancelled: false, read_at_submit, conn_alive });
            }
            1 => {
                let live: Vec<usize> = (0..sent.len()).filter(|i| !sent[*i].cancelled && cli.env.calls.borrow()[sent[*i].idx].out.is_none()).collect();
                if live.is_empty() {
                    continue;
                }
                let k = *s.pick(&live);
                log.push(format!("cancel {k}"));
                cli.ex.kill(sent[k].task);
                sent[k].cancelled = true;
                cx.label("cancelled");
                cx.nontrivial = true;
            }
            2 | 3 if rest.is_some() => {
                let (f, b) = rest.take().expect("rest");
                if eof {
                    continue;
                }
                log.push("finish response".into());
                feed(&cli.io.rx, &b);
                fed_bytes += b.len() as u64;
                fed[f].complete = true;
            }
            2 => {
                if eof {
                    continue;
                }
                // the oldest unanswered request whose head is on the wire
                let out = cli.io.output();
                let (reqs, _) = match wire::requests(&out) {
                    Ok(r) => r,
                    Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
                };
                if reqs.len() <= answered {
                    continue;
                }
                let m = &reqs[answered];
                answered += 1;
                let k: usize = match std::str::from_utf8(&m.target[1..]).ok().and_then(|t| t.parse().ok()) {
                    Some(k) if k < sent.len() => k,
                    _ => fail!("malformed-output", "unknown request {} on the wire", m.show()),
                };
                cx.label_if(!m.complete, "early");
                let close = s.chance(20);
                let f = feed_response(s, cx, &mut log, &mut cli, &mut fed, &mut fed_bytes, Some(k), m.method == b"HEAD", close, &mut rest);
                let _ = f;
                if rest.is_none() && s.chance(16) {
                    log.push("and another".into());
                    feed_response(s, cx, &mut log, &mut cli, &mut fed, &mut fed_bytes, None, false, false, &mut rest);
                    surplus = true;
                    cx.label("surplus");
                    cx.nontrivial = true;
                }
            }
            3 => {
                if eof || s.chance(160) {
                    continue;
                }
                log.push("unasked".into());
                feed_response(s, cx, &mut log, &mut cli, &mut fed, &mut fed_bytes, None, false, false, &mut rest);
                surplus = true;
                cx.label("surplus");
                cx.nontrivial = true;
            }
            4 => {
                log.push("quiet".into());
                ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
            }
            5 if !eof => {
                log.push("peer eof".into());
                feed_eof(&cli.io.rx);
                eof = true;
                faults = true;
                cx.label("peer-eof");
                cx.nontrivial = true;
            }
            6 if !eof => {
                log.push("peer error".into());
                feed_err(&cli.io.rx, *s.pick(&[ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::Other]));
                eof = true;
                faults = true;
                cx.label("peer-error");
                cx.nontrivial = true;
            }
            7 => {
                let n = s.range(0, 80) as u64;
                log.push(format!("writes fail after {n} more bytes"));
                let mut st = lock(&cli.io.st);
                st.write_err_at = Some((st.written + n, ErrorKind::BrokenPipe));
                faults = true;
                cx.label("write-fault");
                cx.nontrivial = true;
            }
            8 => {
                if !s.chance(128) {
                    continue;
                }
                log.push("drop connection".into());
                cli.ex.kill(cli.conn);
                killed = true;
                conn_gone = true;
                cx.label("conn-dropped");
                cx.nontrivial = true;
            }
            9 => {
                log.push("drop sender".into());
                cli.drop_sender();
                cx.label("sender-dropped");
            }
            _ => {
                let n = s.range(1, 6);
                log.push(format!("run {n}"));
                cli.ex.run_steps(n);
            }
        }
    }
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    cx.describe(|| format!("{} io[{}] {}", cfg.show(), io_cfg.show(), log.join("; ")));
    // every request answered in full and not disturbed by anything has its response by now
    let any_cancel = sent.iter().any(|x| x.cancelled);
    let plain_reads = sent.iter().all(|x| matches!(x.plan.read, ReadPlan::All | ReadPlan::Background));
    if !faults && !killed && !surplus && !any_cancel && plain_reads {
        for f in fed.iter().filter(|f| f.complete) {
            let k = f.of.expect("of");
            let c = cli.env.calls.borrow();
            ensure!(c[sent[k].idx].out.is_some(), "stuck", "request {k} was answered in full but has no outcome: {}", cli.show_state());
        }
    }
    // now everything ends
    if !eof {
        feed_eof(&cli.io.rx);
    }
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    let before_kill: Vec<bool> = sent.iter().map(|x| cli.env.calls.borrow()[x.idx].out.is_some()).collect();
    let ended = cli.ended().is_some();
    cli.ex.kill(cli.conn);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());

    let out = cli.io.output();
    let (reqs, partial) = match wire::requests(&out) {
        Ok(r) => r,
        Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
    };
    let mut on_wire: Vec<Option<usize>> = vec![None; sent.len()];
    for (i, m) in reqs.iter().enumerate() {
        let k: usize = std::str::from_utf8(&m.target[1..]).ok().and_then(|t| t.parse().ok()).unwrap_or(usize::MAX);
        ensure!(k < sent.len(), "malformed-output", "unknown request on the wire: {}", m.show());
        ensure!(on_wire[k].is_none(), "sent-twice", "request {k} was written twice: {}", show(&out));
        on_wire[k] = Some(i);
        if i > 0 {
            cx.label("reused");
            let prev: usize = std::str::from_utf8(&reqs[i - 1].target[1..]).ok().and_then(|t| t.parse().ok()).unwrap_or(0);
            ensure!(prev < k, "order", "request {k} was written after request {prev}");
        }
    }
    let marks = lock(&cli.io.st).marks.clone().unwrap_or_default();
    let calls = cli.env.calls.borrow();
    let mut desync = false;
    let mut returned_ids = vec![];
    for (k, x) in sent.iter().enumerate() {
        let c = &calls[x.idx];
        if x.cancelled {
            // dropped before it was resolved: nothing to say about the outcome
            continue;
        }
        let o = match &c.out {
            Some(o) => o,
            None => fail!("no-outcome", "request {k} never resolved although the connection is gone: {}", cli.show_state()),
        };
        ensure!(before_kill[k] || !ended, "late-outcome", "request {k} was still unresolved after the connection task had finished");
        if let Some(m) = &c.mangled {
            fail!("mangled", "request {k} was handed back changed: {m}");
        }
        match o {
            Outcome::Resp(r) => {
                cx.label("answered");
                let w = match on_wire[k] {
                    Some(w) => w,
                    None => {
                        ensure!(surplus, "own-response", "request {k} got a response but was never written");
                        continue;
                    }
                };
                let seq: usize = match r.headers.iter().find(|h| h.0 == "x-seq").and_then(|h| std::str::from_utf8(&h.1).ok()?.parse().ok()) {
                    Some(q) if q < fed.len() => q,
                    _ => fail!("own-response", "request {k} got a response nobody sent: {r:?}"),
                };
                let f = &fed[seq];
                ensure!(f.status == r.status, "own-response", "response {seq} arrived with status {}", r.status);
                if f.of != Some(k) {
                    ensure!(surplus, "own-response", "request {k} got the response to {:?}: {}", f.of, cli.show_state());
                    desync = true;
                }
                let at = reqs[w].start as u64;
                let read = marks.iter().find(|m| m.0 <= at && at < m.0 + m.1).map(|m| m.2).unwrap_or(0);
                if desync && strict_write {
                    ensure!(f.start >= read, "stale-response", "request {k} got response {seq}, which had begun to arrive before the request was written: {}", log.join("; "));
                }
                ensure!(f.start >= x.read_at_submit, "stale-response", "request {k} got response {seq}, which had begun to arrive before the request was submitted: {}", log.join("; "));
                ensure!(f.body.starts_with(&c.got.data), "body", "request {k}: body bytes are not those of its response");
                if c.got.clean() {
                    ensure!(c.got.data == f.body || x.plan.method == "HEAD", "body", "request {k}: body ended after {} of {} bytes", c.got.data.len(), f.body.len());
                }
                if c.got.err.is_some() {
                    ensure!(!f.complete || any_cancel || faults || killed || surplus || !plain_reads || desync, "body", "request {k}: complete response ended with {:?}", c.got.err);
                }
            }
            Outcome::Err { kinds, text, returned } => {
                if *returned {
                    cx.label("handed-back");
                    returned_ids.push(k);
                    ensure!(on_wire[k].is_none(), "retry-sent", "request {k} was handed back ({text}) but is on the wire: {}", show(&out));
                }
                if kinds.contains("canceled") {
                    ensure!(on_wire[k].is_none(), "retry-sent", "request {k} was reported as not sent ({text}) but is on the wire: {}", show(&out));
                    ensure!(*returned || !x.plan.try_send, "not-returned", "request {k} was reported as not sent ({text}) but not handed back");
                    if !*returned {
                        returned_ids.push(k);
                    }
                }
                if !faults && !killed && !surplus && !any_cancel && plain_reads && x.conn_alive {
                    // only the final end of input, a close, or a busy sender can be the reason
                    let full = fed.iter().any(|f| f.of == Some(k) && f.complete);
                    ensure!(!full || kinds.contains("canceled"), "own-response", "request {k} was answered in full but resolved as {text}: {}", log.join("; "));
                }
            }
            Outcome::NotReady(_) => {}
        }
    }
    // bytes of a request cut short must belong to one that was not handed back
    let last_end = reqs.last().map(|m| m.end).unwrap_or(0);
    if partial && last_end < out.len() && reqs.last().map(|m| m.complete).unwrap_or(true) {
        let owner = (0..sent.len()).any(|k| on_wire[k].is_none() && !returned_ids.contains(&k) && calls[sent[k].idx].sent);
        ensure!(owner, "retry-sent", "the start of a request is on the wire, but every request not seen whole was handed back: {}", show(&out));
    }
    let _ = fed.iter().filter(|f| f.close).count();
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn feed_response(s: &mut Src, cx: &mut Cx, log: &mut Vec<String>, cli: &mut Cli, fed: &mut Vec<Fed>, fed_bytes: &mut u64, of: Option<usize>, head: bool, close: bool, rest: &mut Option<(usize, Vec<u8>)>) {
    let seq = fed.len();
    let status = *s.pick(&[200u16, 200, 404, 500, 204, 304]);
    let bodyless = head || matches!(status, 204 | 304);
    let mut body = if bodyless { vec![] } else { payload(seq as u8, s.below(30)) };
    let mut b = format!("HTTP/1.1 {status} X\r\nx-seq: {seq}\r\n").into_bytes();
    if close {
        b.extend_from_slice(b"Connection: close\r\n");
    }
    if bodyless {
        b.extend_from_slice(if status == 200 || status >= 400 { b"Content-Length: 0\r\n\r\n" } else { b"\r\n" });
        body = vec![];
    } else if s.chance(100) {
        b.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        for c in body.chunks(7) {
            b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            b.extend_from_slice(c);
            b.extend_from_slice(b"\r\n");
        }
        b.extend_from_slice(b"0\r\n\r\n");
    } else {
        b.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
        b.extend_from_slice(&body);
    }
    let start = *fed_bytes;
    let cut = if s.chance(70) { s.below(b.len()) } else { b.len() };
    log.push(format!("respond #{seq} to {of:?} {status} body={} bytes{}{}", body.len(), if close { " close" } else { "" }, if cut < b.len() { format!(" (first {cut} of {})", b.len()) } else { String::new() }));
    if cut < b.len() {
        cx.label("partial");
        cx.nontrivial = true;
        *rest = Some((seq, b[cut..].to_vec()));
    }
    feed(&cli.io.rx, &b[..cut]);
    *fed_bytes += cut as u64;
    fed.push(Fed { start, of, body, complete: cut == b.len(), status, close });
}
