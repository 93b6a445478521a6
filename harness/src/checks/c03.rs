//! Same bytes, same service, same configuration: the same messages and output however the transport behaves.
use crate::body::{BodyPlan, Hint, Step};
use crate::checks::{c01, c02};
use crate::cli::*;
use crate::engine::*;
use crate::h1gen::{self, Style};
use crate::refh1::{self, RefCfg, Tail};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::ensure;
use http::{HeaderMap, HeaderValue};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C03",
        run,
        quick: 400_000,
        thorough: 20_000_000,
        max_len: 520,
        rule: "a case runs one generated byte stream, service plan and configuration twice: once over a perfect transport in one piece, once over a generated transport (cuts, partial and unready reads/writes/flushes, small output capacity, vectored or not) and compares messages, output bytes and result; non-trivial when the second run really differed in segmentation, readiness or write acceptance and at least one message was exchanged",
        must_labels: &["server", "client", "partial-writes", "output-stalls", "writev-differs", "big-body", "resp-trailers"],
    }
}

/// A response body plus headers that are legal for any request
pub fn gen_resp(s: &mut Src, cx: &mut Cx) -> RespPlan {
    let mut r = RespPlan::simple();
    r.delay = s.weighted(&[5, 1, 1]);
    r.post_delay = s.weighted(&[5, 1, 1]);
    r.status = *s.pick(&[200u16, 200, 200, 204, 304, 404, 500, 206]);
    r.body = BodyPlan::gen(s, true);
    if r.body.len() > 16384 {
        cx.label("big-body");
    }
    if s.chance(40) {
        r.headers.push(("x-resp".into(), b"v".to_vec()));
        r.headers.push(("x-resp".into(), b"w, \xe9".to_vec()));
    }
    if s.chance(24) {
        r.headers.push(("connection".into(), b"close".to_vec()));
    }
    if s.chance(40) {
        let mut t = HeaderMap::new();
        t.append("x-sum", HeaderValue::from_static("abc"));
        r.body.steps.push(Step::Trailers(t));
        r.body.hint = Hint::Unknown;
        r.headers.push(("trailer".into(), b"x-sum".to_vec()));
        cx.label("resp-trailers");
    }
    r.read = if s.chance(60) { ReadPlan::Background } else { ReadPlan::All };
    r.pauses = Plan::gen(s, 4);
    r
}

fn summary(c: &Call) -> String {
    format!(
        "{} {} {:?} {:?} body={} trailers={:?} ended={} err={:?}",
        c.method,
        c.uri,
        c.version,
        grouped(&c.headers),
        show(&c.got.data),
        c.got.trailers.iter().map(|t| grouped(&header_list(t))).collect::<Vec<_>>(),
        c.got.ended,
        c.got.err,
    )
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("server");
    let mut cfg = SrvCfg::gen_neutral(s);
    cfg.date = false;
    let io2 = IoCfg::gen(s);
    let sched = Plan::gen(s, 12);
    let nplans = s.range(1, 3);
    let mut rp: Vec<RespPlan> = (0..nplans).map(|_| gen_resp(s, cx)).collect();
    // bytes whose meaning is settled: an unterminated broken head may or may not be noticed before the end
    let inp = c01::gen_input(s, 4);
    let r = refh1::requests(&inp.bytes, &RefCfg::default(), 65534);
    c01::label_ref(cx, &r);
    // whether an unterminated broken head is noticed before the end of input depends on how it arrives
    let loose = matches!(r.tail, Tail::BadHead(_, false) | Tail::PartialHead);
    cx.label_if(loose, "unterminated-head");
    if inp.bytes.to_ascii_lowercase().windows(12).any(|w| w == b"100-continue") {
        // whether the interim response comes before or instead of a response that does not wait is a race
        for p in rp.iter_mut() {
            p.read = ReadPlan::All;
        }
    }
    let cuts = gen_cuts(s, &inp.bytes);
    let mut cfg2 = cfg.clone();
    if s.chance(128) {
        cfg2.writev = *s.pick(&[None, Some(true), Some(false)]);
        cx.label_if(cfg2.writev != cfg.writev, "writev-differs");
    }
    cx.label_if(!io2.write.is_full() && !r.msgs.is_empty(), "partial-writes");
    cx.label_if(io2.cap != usize::MAX && !r.msgs.is_empty(), "output-stalls");
    cx.nontrivial = !r.msgs.is_empty() && (cuts.len() > 1 || !io2.is_plain());
    cx.describe(|| format!("server io[{}] segs={} plans={} stream={}", io2.show(), cuts.len(), rp.iter().map(|r| r.show()).collect::<Vec<_>>().join(","), show(&inp.bytes)));

    let go = |cfg: &SrvCfg, io: &IoCfg, segs: &[Seg], sched: Plan| -> Result<(Vec<String>, Vec<u8>, Option<ConnEnd>, bool), Fail> {
        let rp = rp.clone();
        let plans: PlanFn = Rc::new(move |i, p| {
            let mut r = rp[i % rp.len()].clone();
            if p.method == http::Method::CONNECT {
                r.status = 405;
            }
            r
        });
        let mut srv = Srv::start(cfg, io, sched, plans);
        let mut out = vec![];
        // the peer keeps taking output
        let settle = |srv: &mut Srv, out: &mut Vec<u8>| -> bool {
            loop {
                if srv.ex.run() == Stall::Spinning {
                    return false;
                }
                let d = drain(&srv.io.tx);
                if d.is_empty() {
                    return true;
                }
                out.extend_from_slice(&d);
            }
        };
        for g in segs {
            match g {
                Seg::Bytes(b) => feed(&srv.io.rx, b),
                Seg::Settle => ensure!(settle(&mut srv, &mut out), "spin", "spinning: {}", srv.show_state()),
                Seg::Steps(n) => {
                    srv.ex.run_steps(*n);
                }
                _ => {}
            }
        }
        ensure!(settle(&mut srv, &mut out), "spin", "spinning: {}", srv.show_state());
        feed_eof(&srv.io.rx);
        ensure!(settle(&mut srv, &mut out), "spin", "spinning after end of input: {}", srv.show_state());
        let calls: Vec<String> = srv.calls.borrow().iter().map(summary).collect();
        let e = srv.ended();
        let sh = srv.io.shutdown();
        Ok((calls, out, e, sh))
    };
    let mut a = go(&cfg, &IoCfg::plain(), &[Seg::Bytes(inp.bytes.clone())], Plan::none())?;
    let mut b = go(&cfg2, &io2, &cuts, sched)?;
    if loose {
        for o in [&mut a.1, &mut b.1] {
            let l = o.to_ascii_lowercase();
            if let Some(p) = l.windows(7).rposition(|w| w == b"http/1.") {
                if [&b" 400 bad"[..], b" 414 uri", b" 431 req"].iter().any(|x| l[p + 8..].starts_with(x)) {
                    o.truncate(p);
                }
            }
        }
    }
    for i in 0..a.0.len().max(b.0.len()) {
        ensure!(a.0.get(i) == b.0.get(i), "requests", "request {i} differs:\n  whole: {:?}\n  cut:   {:?}", a.0.get(i), b.0.get(i));
    }
    ensure!(a.1 == b.1, "output", "output differs (results {:?} / {:?}, calls {:?} / {:?}) at byte {}:\n  whole: {}\n  cut:   {}", a.2, b.2, a.0, b.0, a.1.iter().zip(&b.1).take_while(|(x, y)| x == y).count(), show(&a.1), show(&b.1));
    let k = |e: &Option<ConnEnd>| e.as_ref().map(|e| (e.ok, e.kinds.clone()));
    ensure!(loose || k(&a.2) == k(&b.2), "result", "connection result differs: whole {:?} cut {:?}", a.2, b.2);
    ensure!(loose || a.3 == b.3, "shutdown", "transport shutdown differs: whole {} cut {}", a.3, b.3);
    Ok(())
}

fn csummary(c: &CCall) -> String {
    match &c.out {
        Some(Outcome::Resp(r)) => format!(
            "{} {:?} {:?} {:?} body={} trailers={:?} ended={} err={:?}",
            r.status,
            r.version,
            r.reason.as_ref().map(|r| show(r)),
            grouped(&r.headers),
            show(&c.got.data),
            c.got.trailers.iter().map(|t| grouped(&header_list(t))).collect::<Vec<_>>(),
            c.got.ended,
            c.got.err,
        ),
        Some(Outcome::Err { .. }) => "error".into(),
        Some(Outcome::NotReady(_)) => "error".into(),
        None => "pending".into(),
    }
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("client");
    let cfg = CliCfg::gen_neutral(s);
    let mut cfg2 = cfg.clone();
    let io2 = IoCfg::gen(s);
    let sched = Plan::gen(s, 12);
    let k = s.range(1, 3);
    let mut st = Style::normal();
    st.weird = *s.pick(&[0u32, 0, 12, 30]);
    let mut plans = vec![];
    let mut resps = vec![];
    let mut good = true;
    for _ in 0..k {
        let mut p = c02::small_request(s);
        if s.chance(60) {
            p.method = "POST".into();
            p.uri = "/up".into();
            p.body = BodyPlan::gen(s, true);
        }
        p.read = ReadPlan::All;
        let mut b = vec![];
        for _ in 0..s.weighted(&[8, 2]) {
            h1gen::interim(s, st, &mut b);
        }
        h1gen::response(s, st, &mut b, &p.method);
        if s.chance(24) {
            h1gen::mutate(s, &mut b);
        }
        plans.push(p);
        resps.push(b);
    }
    let cuts: Vec<_> = resps.iter().map(|b| gen_cuts(s, b)).collect();
    if s.chance(128) {
        cfg2.writev = *s.pick(&[None, Some(true), Some(false)]);
        cx.label_if(cfg2.writev != cfg.writev, "writev-differs");
    }
    // a response with bytes beyond its end is a race with the next request: not comparable
    let mut comparable = vec![];
    for (p, b) in plans.iter().zip(&resps) {
        match refh1::response(b, 0, p.method.as_bytes(), &RefCfg::default(), true) {
            refh1::RespOut::Final(m, _) if m.pos == b.len() => comparable.push(true),
            refh1::RespOut::Partial(_) | refh1::RespOut::Bad(_, true, _) => comparable.push(true),
            _ => {
                comparable.push(false);
                good = false;
            }
        }
    }
    if !good {
        cx.label("skipped-leftover");
        return Ok(());
    }
    cx.label_if(!io2.write.is_full(), "partial-writes");
    cx.label_if(io2.cap != usize::MAX, "output-stalls");
    cx.nontrivial = cuts.iter().any(|c| c.len() > 1) || !io2.is_plain();
    cx.describe(|| {
        let v: Vec<String> = plans.iter().zip(&resps).map(|(p, r)| format!("{} -> {}", p.show(), show(r))).collect();
        format!("client io[{}] {}", io2.show(), v.join(" || "))
    });
    let go = |cfg: &CliCfg, io: &IoCfg, cuts: Option<&Vec<Vec<Seg>>>, sched: Plan| -> Result<(Vec<String>, Vec<u8>, Option<bool>), Fail> {
        let mut cli = Cli::start(cfg, io, sched);
        sequence(&mut cli.ex, &cli.env, plans.clone());
        let mut out = vec![];
        let settle = |cli: &mut Cli, out: &mut Vec<u8>| -> bool {
            loop {
                if cli.ex.run() == Stall::Spinning {
                    return false;
                }
                let d = drain(&cli.io.tx);
                if d.is_empty() {
                    return true;
                }
                out.extend_from_slice(&d);
            }
        };
        ensure!(settle(&mut cli, &mut out), "spin", "spinning: {}", cli.show_state());
        for (i, b) in resps.iter().enumerate() {
            if !cli.env.calls.borrow()[i].sent || cli.ended().is_some() {
                break;
            }
            match cuts {
                None => feed(&cli.io.rx, b),
                Some(c) => {
                    for g in &c[i] {
                        match g {
                            Seg::Bytes(b) => feed(&cli.io.rx, b),
                            Seg::Settle => ensure!(settle(&mut cli, &mut out), "spin", "spinning: {}", cli.show_state()),
                            Seg::Steps(n) => {
                                cli.ex.run_steps(*n);
                            }
                            _ => {}
                        }
                    }
                }
            }
            ensure!(settle(&mut cli, &mut out), "spin", "spinning: {}", cli.show_state());
        }
        feed_eof(&cli.io.rx);
        ensure!(settle(&mut cli, &mut out), "spin", "spinning: {}", cli.show_state());
        let v: Vec<String> = cli.env.calls.borrow().iter().map(csummary).collect();
        let e = cli.ended().map(|e| e.ok);
        Ok((v, out, e))
    };
    let a = go(&cfg, &IoCfg::plain(), None, Plan::none())?;
    let b = go(&cfg2, &io2, Some(&cuts), sched)?;
    for i in 0..a.0.len() {
        ensure!(a.0[i] == b.0[i], "responses", "outcome {i} differs:\n  whole: {}\n  cut:   {}", a.0[i], b.0[i]);
    }
    ensure!(a.1 == b.1, "output", "output differs:\n  whole: {}\n  cut:   {}", show(&a.1), show(&b.1));
    ensure!(a.2 == b.2, "result", "connection result differs: whole {:?} cut {:?}", a.2, b.2);
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(90) {
        client(s, cx)
    } else {
        server(s, cx)
    }
}
