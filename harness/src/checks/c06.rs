//! Requests a user sends against an independent reader of the bytes written.
use crate::cli::*;
use crate::engine::*;
use crate::reqgen::{self, ReqOpts};
use crate::sim::*;
use crate::src::{show, Src};
use crate::wire::{self, Framing};
use crate::{ensure, fail};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C06",
        run,
        quick: 800_000,
        thorough: 25_000_000,
        max_len: 420,
        rule: "a case is 1-3 requests (method, target form, version, fields, framing fields, body steps and size hint) sent one after another on one client connection to a peer speaking HTTP/1.1 or keep-alive HTTP/1.0; the bytes written are read back by an independent reader; non-trivial when a request has a body or user framing fields or follows another one",
        must_labels: &["chunked", "length", "no-body", "user-framing", "bad-user-length", "http10", "http2-version", "peer10", "connect", "short-body", "excess-body", "second-request", "dropped-body"],
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let cfg = CliCfg::gen_neutral(s);
    let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 12);
    let n = s.range(1, 3);
    let o = ReqOpts { big: true, framing_headers: true, connection: true, connect: true };
    let plans: Vec<ReqPlan> = (0..n)
        .map(|_| {
            let mut p = reqgen::gen_req(s, o);
            p.try_send = s.chance(64);
            p
        })
        .collect();
    let peer10: Vec<bool> = (0..n).map(|_| s.chance(48)).collect();
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&peer10).map(|(p, t)| format!("{}{}", p.show(), if *t { " (answered as 1.0)" } else { "" })).collect();
        format!("io[{}] {}", io_cfg.show(), v.join(" || "))
    });
    let mut cli = Cli::start(&cfg, &io_cfg, sched);
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
    let mut known10 = false;
    let mut pos = 0;
    for i in 0..n {
        let p = &plans[i];
        if cli.ready_now() != Some(true) {
            // not reusable; judged by another check
            break;
        }
        cli.send(p);
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let e = reqgen::expect(p, known10);
        cx.label_if(!e.v11, "http10");
        cx.label_if(known10, "peer10");
        cx.label_if(p.version == http::Version::HTTP_2, "http2-version");
        cx.label_if(p.method == "CONNECT", "connect");
        cx.label_if(i > 0, "second-request");
        cx.label_if(e.dropped && p.body.len() > 0, "dropped-body");
        let uf = p.headers.iter().any(|(n, _)| n == "content-length" || n == "transfer-encoding");
        let bad = p.headers.iter().any(|(n, v)| n == "content-length" && (v.is_empty() || v.iter().any(|b| !b.is_ascii_digit()) || v.len() > 19));
        cx.label_if(uf, "user-framing");
        cx.label_if(bad, "bad-user-length");
        cx.nontrivial |= uf || i > 0 || !e.body.is_empty();
        let out = cli.io.output();
        let early = cli.ended().is_some();
        let m = match wire::request(&out, pos) {
            Ok(wire::P::Msg(m)) => m,
            // a body that falls short may end the connection before the head is flushed
            Ok(_) if !e.complete && early => {
                check_short(&cli, i)?;
                break;
            }
            Ok(_) => fail!("missing-request", "request {i} was sent but not (fully) written: {}", cli.show_state()),
            Err(t) => fail!("malformed-output", "{t} in {}", show(&out[pos..])),
        };
        reqgen::check(i, p, &e, &m, &cfg)?;
        reqgen::check_body(i, &e, &m)?;
        match m.framing {
            Framing::Chunked => cx.label("chunked"),
            Framing::Length(_) => cx.label("length"),
            _ => cx.label("no-body"),
        }
        cx.label_if(e.complete && p.body.len() > e.body.len() && !e.dropped, "excess-body");
        ensure!(m.end == out.len(), "excess", "bytes after request {i}: {}", show(&out[m.end..]));
        if !e.complete {
            cx.label("short-body");
            check_short(&cli, i)?;
            break;
        }
        pos = m.end;
        ensure!(cli.ended().is_none(), "ended", "connection ended before the response: {}", cli.show_state());
        let connect = p.method == "CONNECT";
        let r = match (peer10[i], connect) {
            (false, false) => "HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n",
            (false, true) => "HTTP/1.1 405 No\r\ncontent-length: 0\r\n\r\n",
            (true, false) => "HTTP/1.0 200 OK\r\nconnection: keep-alive\r\ncontent-length: 0\r\n\r\n",
            (true, true) => "HTTP/1.0 405 No\r\nconnection: keep-alive\r\ncontent-length: 0\r\n\r\n",
        };
        known10 |= peer10[i];
        if !peer10[i] {
            // hyper takes the version of the last response
            known10 = false;
        }
        feed(&cli.io.rx, r.as_bytes());
        ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning: {}", cli.show_state());
        let c = cli.env.calls.borrow();
        ensure!(c[i].resp().is_some() && c[i].got.clean(), "response", "request {i} did not get its response: {}", c[i].show());
    }
    cli.drop_sender();
    ensure!(cli.ex.run() == Stall::Quiet, "spin", "spinning at the end: {}", cli.show_state());
    let out = cli.io.output();
    if let Err(t) = wire::requests(&out) {
        fail!("malformed-output", "{t} in {}", show(&out));
    }
    Ok(())
}

/// a body shorter than its declared length: an error for the caller, nothing more on the connection
fn check_short(cli: &Cli, i: usize) -> R {
    let c = cli.env.calls.borrow();
    ensure!(matches!(c[i].out, Some(Outcome::Err { .. })), "silent", "request {i} fell short of its declared length, but the caller sees {}", c[i].show());
    ensure!(cli.closed_now() == Some(true), "silent", "connection stays open after request {i} fell short of its declared length");
    ensure!(cli.io.shutdown() || cli.io.dropped(), "silent", "transport stays open after request {i} fell short of its declared length");
    Ok(())
}
