//! Upgrades: exact hand-over of the byte stream, on both roles, automatic and manual.
use crate::body::{BodyPlan, PlanBody};
use crate::cli::{now, CliCfg};
use crate::engine::*;
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::wire;
use crate::{ensure, fail};
use bytes::Bytes;
use http::{HeaderValue, Method, Request, Response, StatusCode};
use http_body::Body;
use hyper::body::Incoming;
use hyper::rt::{Read, ReadBuf, Write};
use hyper::upgrade::{OnUpgrade, Upgraded};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C15",
        run,
        quick: 450_000,
        thorough: 30_000_000,
        max_len: 420,
        rule: "a case upgrades one connection (101 or CONNECT; server, client, or hyper on both ends; automatic, downcast, manual without_shutdown, or declined) with tunnel bytes cut anywhere around the message head, generated read and write sizes and transport schedules; non-trivial when tunnel bytes follow the head or the upgrade is declined, dropped or interrupted",
        must_labels: &["server", "client", "both", "connect", "101", "auto", "manual", "downcast", "wrong-downcast", "declined", "plain-connection", "head+bytes", "interrupted", "earlier-exchange", "interim", "with-body", "pending-write", "abandoned"],
    }
}

#[derive(Default, Debug)]
struct Tun {
    /// None: still waiting
    up: Option<Result<(), String>>,
    read: Vec<u8>,
    eof: bool,
    read_err: Option<String>,
    written: usize,
    flushed: bool,
    write_err: Option<String>,
    lost: bool,
}
#[derive(Clone, Debug)]
struct TunPlan {
    reads: Vec<usize>,
    writes: Vec<Vec<u8>>,
    vectored: bool,
    flush_each: bool,
    shutdown: bool,
    /// 0: use it as it is, 1: downcast, 2: a wrong downcast first
    cast: usize,
    wait: usize,
    drop_it: bool,
}
fn tun_plan(s: &mut Src, tag: u8) -> TunPlan {
    let nr = s.range(1, 4);
    let nw = s.weighted(&[1, 3, 2, 1]);
    TunPlan {
        reads: (0..nr).map(|_| *s.pick(&[1usize, 2, 3, 7, 64, 1000, 8192, 20000])).collect(),
        writes: (0..nw)
            .map(|i| {
                let n = *s.pick(&[0usize, 1, 5, 60, 500, 9000]);
                payload(tag.wrapping_add(i as u8), n)
            })
            .collect(),
        vectored: s.chance(100),
        flush_each: s.chance(100),
        shutdown: s.chance(128),
        cast: s.weighted(&[4, 2, 1]),
        wait: s.weighted(&[4, 1, 1]),
        drop_it: s.chance(16),
    }
}

struct Other;
impl Read for Other {
    fn poll_read(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: hyper::rt::ReadBufCursor<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Pending
    }
}
impl Write for Other {
    fn poll_write(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Pending
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Pending
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Pending
    }
}

fn run_tunnel<U: Read + Write + Unpin + 'static>(sp: &Spawner, u: U, pre: Bytes, p: TunPlan, t: Rc<RefCell<Tun>>) {
    let u = Rc::new(RefCell::new(u));
    t.borrow_mut().read.extend_from_slice(&pre);
    let (u1, t1, p1) = (u.clone(), t.clone(), p.clone());
    sp.spawn(async move {
        let mut i = 0;
        loop {
            let n = p1.reads[i % p1.reads.len()];
            i += 1;
            let mut v = vec![0u8; n];
            let r = std::future::poll_fn(|cx| {
                let mut b = ReadBuf::new(&mut v);
                match Pin::new(&mut *u1.borrow_mut()).poll_read(cx, b.unfilled()) {
                    std::task::Poll::Ready(Ok(())) => std::task::Poll::Ready(Ok(b.filled().len())),
                    std::task::Poll::Ready(Err(e)) => std::task::Poll::Ready(Err(e)),
                    std::task::Poll::Pending => std::task::Poll::Pending,
                }
            })
            .await;
            match r {
                Ok(0) => {
                    t1.borrow_mut().eof = true;
                    break;
                }
                Ok(k) => t1.borrow_mut().read.extend_from_slice(&v[..k]),
                Err(e) => {
                    t1.borrow_mut().read_err = Some(e.to_string());
                    break;
                }
            }
        }
    });
    sp.spawn(async move {
        let flush = |u: Rc<RefCell<U>>| std::future::poll_fn(move |cx| Pin::new(&mut *u.borrow_mut()).poll_flush(cx));
        for w in &p.writes {
            let mut w = &w[..];
            while !w.is_empty() {
                let r = std::future::poll_fn(|cx| {
                    let mut g = u.borrow_mut();
                    if p.vectored {
                        let k = w.len() / 2;
                        let bufs = [std::io::IoSlice::new(&w[..k]), std::io::IoSlice::new(&w[k..])];
                        Pin::new(&mut *g).poll_write_vectored(cx, &bufs)
                    } else {
                        Pin::new(&mut *g).poll_write(cx, w)
                    }
                })
                .await;
                match r {
                    Ok(0) => {
                        t.borrow_mut().write_err = Some("wrote 0".into());
                        return;
                    }
                    Ok(k) => {
                        t.borrow_mut().written += k;
                        w = &w[k..];
                    }
                    Err(e) => {
                        t.borrow_mut().write_err = Some(e.to_string());
                        return;
                    }
                }
            }
            if p.flush_each {
                if let Err(e) = flush(u.clone()).await {
                    t.borrow_mut().write_err = Some(e.to_string());
                    return;
                }
            }
        }
        let r = flush(u.clone()).await;
        if let Err(e) = r {
            t.borrow_mut().write_err = Some(e.to_string());
            return;
        }
        t.borrow_mut().flushed = true;
        if p.shutdown {
            let u2 = u.clone();
            if let Err(e) = std::future::poll_fn(move |cx| Pin::new(&mut *u2.borrow_mut()).poll_shutdown(cx)).await {
                t.borrow_mut().write_err = Some(e.to_string());
            }
        }
    });
}

fn await_upgrade(sp: &Spawner, ev: &Events, on: OnUpgrade, p: TunPlan, t: Rc<RefCell<Tun>>) {
    let (sp2, ev) = (sp.clone(), ev.clone());
    sp.spawn(async move {
        if p.wait > 0 {
            delay(&ev, p.wait * 3).await;
        }
        match on.await {
            Err(e) => t.borrow_mut().up = Some(Err(format!("{e:?}"))),
            Ok(u) => {
                t.borrow_mut().up = Some(Ok(()));
                if p.drop_it {
                    t.borrow_mut().lost = true;
                    return;
                }
                start_upgraded(&sp2, u, p, t)
            }
        }
    });
}
fn start_upgraded(sp: &Spawner, u: Upgraded, p: TunPlan, t: Rc<RefCell<Tun>>) {
    match p.cast {
        0 => run_tunnel(sp, u, Bytes::new(), p, t),
        1 => match u.downcast::<SimIo>() {
            Ok(x) => run_tunnel(sp, x.io, x.read_buf, p, t),
            Err(_) => t.borrow_mut().read_err = Some("downcast to the real type failed".into()),
        },
        _ => match u.downcast::<Other>() {
            Ok(_) => t.borrow_mut().read_err = Some("downcast to a wrong type worked".into()),
            Err(u) => run_tunnel(sp, u, Bytes::new(), p, t),
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Auto,
    Manual,
    /// an ordinary connection future, which cannot upgrade
    Plain,
}

#[derive(Clone, Debug)]
struct Ups {
    connect: bool,
    status: u16,
    with_body: usize,
    earlier: usize,
    delay: usize,
    upgrades: bool,
    keep_handle: bool,
}

struct SrvSide {
    conn: usize,
    tun: Rc<RefCell<Tun>>,
    end: Rc<RefCell<Option<ConnEnd>>>,
    seen: Rc<RefCell<Vec<(String, Vec<u8>)>>>,
}
/// A server that answers `earlier` requests plainly, then the upgrade request as planned, then plainly again.
fn start_server(ex: &mut Exec, cfg: &SrvCfg, io: SimIo, how: How, u: &Ups, p: &TunPlan) -> SrvSide {
    let tun: Rc<RefCell<Tun>> = Default::default();
    let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
    let seen: Rc<RefCell<Vec<(String, Vec<u8>)>>> = Default::default();
    let (sp, ev, clock) = (ex.spawner.clone(), ex.events.clone(), ex.clock.clone());
    let (t2, s2, u2, p2, sp2, ev2) = (tun.clone(), seen.clone(), u.clone(), p.clone(), sp.clone(), ev.clone());
    let svc = hyper::service::service_fn(move |mut r: Request<Incoming>| {
        let idx = s2.borrow().len();
        s2.borrow_mut().push((r.method().to_string(), vec![]));
        let (t2, s2, u2, p2, sp2, ev) = (t2.clone(), s2.clone(), u2.clone(), p2.clone(), sp2.clone(), ev2.clone());
        async move {
            if idx == u2.earlier {
                let on = hyper::upgrade::on(&mut r);
                if u2.keep_handle {
                    await_upgrade(&sp2, &ev, on, p2, t2);
                }
            }
            let mut b = r.into_body();
            while let Some(Ok(f)) = std::future::poll_fn(|cx| Pin::new(&mut b).poll_frame(cx)).await {
                if let Ok(d) = f.into_data() {
                    s2.borrow_mut()[idx].1.extend_from_slice(&d);
                }
            }
            drop(b);
            let mut resp;
            if idx == u2.earlier {
                if u2.delay > 0 {
                    delay(&ev, u2.delay).await;
                }
                resp = Response::new(if u2.upgrades { PlanBody::empty(&ev) } else { PlanBody::full(&ev, "no") });
                *resp.status_mut() = StatusCode::from_u16(u2.status).expect("status");
                if u2.status == 101 {
                    resp.headers_mut().insert("upgrade", HeaderValue::from_static("x"));
                    resp.headers_mut().insert("connection", HeaderValue::from_static("upgrade"));
                }
            } else {
                resp = Response::new(PlanBody::full(&ev, "plain"));
            }
            Ok::<_, SvcErr>(resp)
        }
    });
    let c = cfg.builder(&ex.clock).serve_connection(io, svc);
    let e2 = end.clone();
    let conn = match how {
        How::Auto => ex.spawn(async move {
            let r = c.with_upgrades().await;
            *e2.borrow_mut() = Some(conn_end(r, clock.now()));
        }),
        How::Plain => ex.spawn(async move {
            let r = c.await;
            *e2.borrow_mut() = Some(conn_end(r, clock.now()));
        }),
        How::Manual => {
            let (t3, p3, upg) = (tun.clone(), p.clone(), u.upgrades);
            ex.spawn(async move {
                match c.without_shutdown().await {
                    Ok(x) => {
                        if upg {
                            run_tunnel(&sp, x.io, x.read_buf, p3, t3);
                        }
                        *e2.borrow_mut() = Some(conn_end(Ok(()), clock.now()));
                    }
                    Err(e) => *e2.borrow_mut() = Some(conn_end(Err(e), clock.now())),
                }
            })
        }
    };
    SrvSide { conn, tun, end, seen }
}

struct CliSide {
    conn: usize,
    tun: Rc<RefCell<Tun>>,
    end: Rc<RefCell<Option<ConnEnd>>>,
    /// status or error of every request
    got: Rc<RefCell<Vec<Result<u16, String>>>>,
}
fn start_client(ex: &mut Exec, cfg: &CliCfg, io: SimIo, how: How, u: &Ups, p: &TunPlan, later: bool) -> CliSide {
    let tun: Rc<RefCell<Tun>> = Default::default();
    let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
    let got: Rc<RefCell<Vec<Result<u16, String>>>> = Default::default();
    let (mut sr, c) = now(cfg.builder().handshake::<_, PlanBody>(io)).expect("immediate").expect("handshake");
    let (sp, ev, clock) = (ex.spawner.clone(), ex.events.clone(), ex.clock.clone());
    let e2 = end.clone();
    let conn = match how {
        How::Auto => ex.spawn(async move {
            let r = c.with_upgrades().await;
            *e2.borrow_mut() = Some(conn_end(r, clock.now()));
        }),
        How::Plain => ex.spawn(async move {
            let r = c.await;
            *e2.borrow_mut() = Some(conn_end(r, clock.now()));
        }),
        How::Manual => {
            let (t3, p3, sp, upg) = (tun.clone(), p.clone(), sp.clone(), u.upgrades);
            ex.spawn(async move {
                match c.without_shutdown().await {
                    Ok(x) => {
                        if upg {
                            run_tunnel(&sp, x.io, x.read_buf, p3, t3);
                        }
                        *e2.borrow_mut() = Some(conn_end(Ok(()), clock.now()));
                    }
                    Err(e) => *e2.borrow_mut() = Some(conn_end(Err(e), clock.now())),
                }
            })
        }
    };
    let (u, p, t2, g2) = (u.clone(), p.clone(), tun.clone(), got.clone());
    ex.spawn(async move {
        let total = u.earlier + 1 + later as usize;
        for i in 0..total {
            if sr.ready().await.is_err() {
                g2.borrow_mut().push(Err("not ready".into()));
                continue;
            }
            let mut r = Request::new(if i == u.earlier && u.with_body > 0 { PlanBody::full(&ev, payload(9, u.with_body)) } else { PlanBody::empty(&ev) });
            if i == u.earlier {
                if u.connect {
                    *r.method_mut() = Method::CONNECT;
                    *r.uri_mut() = "host:1".parse().expect("uri");
                } else {
                    if u.with_body > 0 {
                        *r.method_mut() = Method::POST;
                    }
                    r.headers_mut().insert("connection", HeaderValue::from_static("upgrade"));
                    r.headers_mut().insert("upgrade", HeaderValue::from_static("x"));
                }
            }
            match sr.send_request(r).await {
                Err(e) => g2.borrow_mut().push(Err(format!("{e:?}"))),
                Ok(mut r) => {
                    g2.borrow_mut().push(Ok(r.status().as_u16()));
                    if i == u.earlier {
                        let on = hyper::upgrade::on(&mut r);
                        if u.keep_handle {
                            await_upgrade(&sp, &ev, on, p.clone(), t2.clone());
                        }
                    }
                    let mut b = r.into_body();
                    while let Some(Ok(_)) = std::future::poll_fn(|cx| Pin::new(&mut b).poll_frame(cx)).await {}
                }
            }
        }
        std::future::pending::<()>().await;
        drop(sr);
    });
    CliSide { conn, tun, end, got }
}

fn judge(who: &str, t: &Tun, p: &TunPlan, how: How, u: &Ups, input: &[u8], end: &Option<ConnEnd>) -> R {
    let eof = true;
    if u.keep_handle {
        match (&t.up, u.upgrades, how) {
            (None, _, _) => fail!("waiting", "{who}: the upgrade handle never resolved"),
            (Some(Ok(())), true, How::Auto) | (Some(Err(_)), true, How::Manual | How::Plain) | (Some(Err(_)), false, _) => {}
            (Some(x), _, _) => fail!("outcome", "{who}: upgrade handle gave {x:?} (upgraded on the wire: {}, {how:?}), connection result {end:?}", u.upgrades),
        }
    }
    let used = u.upgrades && (how == How::Manual || (how == How::Auto && u.keep_handle && !p.drop_it));
    if !used {
        return Ok(());
    }
    ensure!(t.read_err.is_none(), "stream", "{who}: reading the upgraded stream failed: {:?}", t.read_err);
    ensure!(t.read == input, "read-bytes", "{who}: {} bytes read from the upgraded stream, {} were sent: {} / {}", t.read.len(), input.len(), show(&t.read), show(input));
    ensure!(!eof || t.eof, "stream", "{who}: end of the stream was not seen");
    let want: usize = p.writes.iter().map(|w| w.len()).sum();
    ensure!(t.write_err.is_none() && t.written == want && t.flushed, "stream", "{who}: {} of {want} bytes written, flushed={} error {:?}", t.written, t.flushed, t.write_err);
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Cx) -> R {
    let mode = s.below(3);
    let connect = s.chance(100);
    let upgrades = !s.chance(56);
    let mut u = Ups {
        connect,
        status: match (connect, upgrades) {
            (true, true) => *s.pick(&[200u16, 200, 204, 299]),
            (true, false) => *s.pick(&[400u16, 407, 302]),
            (false, true) => 101,
            (false, false) => *s.pick(&[200u16, 426, 500]),
        },
        with_body: if !connect && s.chance(40) { s.range(1, 300) } else { 0 },
        earlier: s.weighted(&[4, 2, 1]),
        delay: s.weighted(&[4, 1, 1]) * 2,
        upgrades,
        keep_handle: !s.chance(20),
    };
    let how = |s: &mut Src| match s.weighted(&[6, 3, 1]) {
        0 => How::Auto,
        1 => How::Manual,
        _ => How::Plain,
    };
    let sched = Plan::gen(s, 12);
    let mut ex = Exec::new(sched);
    cx.label(if connect { "connect" } else { "101" });
    cx.label_if(!upgrades, "declined");
    cx.label_if(u.earlier > 0, "earlier-exchange");
    cx.label_if(u.with_body > 0, "with-body");
    cx.label_if(!u.keep_handle, "abandoned");
    let interrupt = if s.chance(40) { Some(s.range(0, 40)) } else { None };
    cx.label_if(interrupt.is_some(), "interrupted");
    let label_how = |cx: &mut Cx, h: How, p: &TunPlan| {
        cx.label(match h {
            How::Auto => "auto",
            How::Manual => "manual",
            How::Plain => "plain-connection",
        });
        cx.label_if(h == How::Auto && p.cast == 1, "downcast");
        cx.label_if(h == How::Auto && p.cast == 2, "wrong-downcast");
    };
    match mode {
        0 => {
            cx.label("server");
            let h = how(s);
            let p = tun_plan(s, 7);
            label_how(cx, h, &p);
            let cfg = SrvCfg { upgrades: true, ..SrvCfg::gen_neutral(s) };
            let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
            cx.label_if(!io_cfg.write.is_full() || !io_cfg.flush.is_full(), "pending-write");
            let (io, hd) = scripted(&ex.events, &io_cfg);
            let mut b = vec![];
            for _ in 0..u.earlier {
                b.extend_from_slice(b"GET /e HTTP/1.1\r\nhost: a\r\n\r\n");
            }
            let up_at = b.len();
            if connect {
                b.extend_from_slice(b"CONNECT a:1 HTTP/1.1\r\nhost: a\r\n\r\n");
            } else if u.with_body > 0 {
                b.extend_from_slice(format!("POST /u HTTP/1.1\r\nconnection: upgrade\r\nupgrade: x\r\ncontent-length: {}\r\n\r\n", u.with_body).as_bytes());
                b.extend(payload(9, u.with_body));
            } else {
                b.extend_from_slice(b"GET /u HTTP/1.1\r\nconnection: upgrade\r\nupgrade: x\r\n\r\n");
            }
            let head_end = b.len();
            let tail = if upgrades {
                let n = *s.pick(&[0usize, 1, 4, 50, 700, 9000, 40000]);
                payload(33, n)
            } else if s.chance(128) {
                b"GET /after HTTP/1.1\r\nhost: a\r\n\r\n".to_vec()
            } else {
                vec![]
            };
            b.extend_from_slice(&tail);
            let segs = gen_cuts(s, &b);
            let together = segs.iter().scan(0, |at, g| { if let Seg::Bytes(x) = g { let a = *at; *at += x.len(); Some((a, *at)) } else { Some((*at, *at)) } }).any(|(a, e)| a < head_end && e > head_end);
            cx.label_if(together, "head+bytes");
            cx.nontrivial = !tail.is_empty() || !upgrades || interrupt.is_some() || p.drop_it || !u.keep_handle;
            cx.describe(|| format!("server {h:?} {u:?} tun={:?} r={:?} w={:?} interrupt={interrupt:?} io[{}] segs={:?}", p.cast, p.reads, p.writes.iter().map(|w| w.len()).collect::<Vec<_>>(), io_cfg.show(), segs.iter().map(|g| match g { Seg::Bytes(b) => show(b), o => format!("<{o:?}>") }).collect::<Vec<_>>()));
            let side = start_server(&mut ex, &cfg, io, h, &u, &p);
            if let Some(k) = interrupt {
                for g in &segs {
                    if let Seg::Bytes(b) = g {
                        feed(&hd.rx, b)
                    }
                }
                ex.run_steps(k);
                ex.kill(side.conn);
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
                feed_eof(&hd.rx);
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
                let t = side.tun.borrow();
                let started = side.seen.borrow().len() > u.earlier;
                ensure!(t.up.is_some() || !started || !u.keep_handle, "waiting", "the upgrade handle never resolved after the connection was dropped");
                if let (Some(Ok(())), false) = (&t.up, p.drop_it) {
                    ensure!(t.read == tail && t.eof, "read-bytes", "{} bytes read from the upgraded stream, {} were sent", t.read.len(), tail.len());
                }
                return Ok(());
            }
            ensure!(play(&mut ex, &hd, None, &segs), "spin", "keeps waking itself");
            feed_eof(&hd.rx);
            ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
            let t = side.tun.borrow();
            let Some(end) = side.end.borrow().clone() else { fail!("hang", "the connection future did not finish: {}", show(&hd.output())) };
            ensure!(end.ok, "error", "the connection ended with {}", end.text);
            judge("server", &t, &p, h, &u, &tail, &Some(end.clone()))?;
            let seen = side.seen.borrow();
            let n_after = (!upgrades && !tail.is_empty()) as usize;
            ensure!(seen.len() == u.earlier + 1 + n_after, "requests", "{} requests reached the service", seen.len());
            ensure!(seen[u.earlier].1 == payload(9, u.with_body), "requests", "upgrade request body {}", show(&seen[u.earlier].1));
            // the wire
            let out = hd.output();
            let methods: Vec<Vec<u8>> = seen.iter().map(|m| m.0.clone().into_bytes()).collect();
            let w = match wire::responses(&out, &methods, true) {
                Ok(w) => w,
                Err(e) => fail!("malformed-output", "{e} in {}", show(&out)),
            };
            if h == How::Plain && upgrades {
                return Ok(());
            }
            ensure!(w.msgs.len() == seen.len() && w.msgs.iter().all(|m| m.complete), "lost-response", "{} responses for {} requests: {}", w.msgs.len(), seen.len(), show(&out));
            ensure!(w.msgs[u.earlier].status == u.status, "malformed-output", "upgrade response {}", w.msgs[u.earlier].show());
            let used = upgrades && (h == How::Manual || (u.keep_handle && !p.drop_it));
            let want: Vec<u8> = if used { p.writes.concat() } else { vec![] };
            ensure!(out[out.len() - w.rest..] == want[..], "written-bytes", "{} bytes follow the head, {} were written: {}", w.rest, want.len(), show(&out));
            if used {
                ensure!(hd.shutdown() == p.shutdown, "shutdown", "transport shut down: {}, by the tunnel: {}", hd.shutdown(), p.shutdown);
            }
            let _ = up_at;
        }
        1 => {
            cx.label("client");
            let h = how(s);
            let p = tun_plan(s, 7);
            label_how(cx, h, &p);
            let cfg = CliCfg::gen_neutral(s);
            let io_cfg = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
            cx.label_if(!io_cfg.write.is_full() || !io_cfg.flush.is_full(), "pending-write");
            let (io, hd) = scripted(&ex.events, &io_cfg);
            let later = !upgrades && s.chance(128);
            let mut b = vec![];
            for _ in 0..s.weighted(&[5, 1, 1]) {
                b.extend_from_slice(s.pick(&[&b"HTTP/1.1 100 Continue\r\n\r\n"[..], b"HTTP/1.1 103 Early Hints\r\nlink: x\r\n\r\n"]));
                cx.label("interim");
            }
            b.extend_from_slice(format!("HTTP/1.1 {} X\r\n", u.status).as_bytes());
            if u.status == 101 {
                b.extend_from_slice(b"connection: upgrade\r\nupgrade: x\r\n");
            } else if upgrades {
                // must be ignored
                b.extend_from_slice(s.pick(&[&b""[..], b"", b"content-length: 5\r\n", b"transfer-encoding: chunked\r\n"]));
            } else {
                b.extend_from_slice(b"content-length: 2\r\n");
            }
            b.extend_from_slice(b"\r\n");
            let head_end = b.len();
            let tail = if upgrades {
                let n = *s.pick(&[0usize, 1, 4, 50, 700, 9000, 40000]);
                payload(33, n)
            } else {
                b"no".to_vec()
            };
            b.extend_from_slice(&tail);
            let segs = gen_cuts(s, &b);
            let together = segs.iter().scan(0, |at, g| { if let Seg::Bytes(x) = g { let a = *at; *at += x.len(); Some((a, *at)) } else { Some((*at, *at)) } }).any(|(a, e)| a < head_end && e > head_end);
            cx.label_if(together, "head+bytes");
            cx.nontrivial = !tail.is_empty() || !upgrades || interrupt.is_some() || p.drop_it || !u.keep_handle;
            cx.describe(|| format!("client {h:?} {u:?} tun={:?} r={:?} w={:?} interrupt={interrupt:?} io[{}] segs={:?}", p.cast, p.reads, p.writes.iter().map(|w| w.len()).collect::<Vec<_>>(), io_cfg.show(), segs.iter().map(|g| match g { Seg::Bytes(b) => show(b), o => format!("<{o:?}>") }).collect::<Vec<_>>()));
            let side = start_client(&mut ex, &cfg, io, h, &u, &p, later);
            for _ in 0..u.earlier {
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
                feed(&hd.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 1\r\n\r\nz");
            }
            ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
            if let Some(k) = interrupt {
                for g in &segs {
                    if let Seg::Bytes(b) = g {
                        feed(&hd.rx, b)
                    }
                }
                ex.run_steps(k);
                ex.kill(side.conn);
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
                feed_eof(&hd.rx);
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
                let t = side.tun.borrow();
                let started = matches!(side.got.borrow().get(u.earlier), Some(Ok(_)));
                ensure!(t.up.is_some() || !started || !u.keep_handle, "waiting", "the upgrade handle never resolved after the connection was dropped");
                if let (Some(Ok(())), false) = (&t.up, p.drop_it) {
                    ensure!(t.read == tail && t.eof, "read-bytes", "{} bytes read from the upgraded stream, {} were sent", t.read.len(), tail.len());
                }
                return Ok(());
            }
            ensure!(play(&mut ex, &hd, None, &segs), "spin", "keeps waking itself");
            if later {
                feed(&hd.rx, b"HTTP/1.1 200 OK\r\ncontent-length: 1\r\n\r\nz");
                ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
            }
            feed_eof(&hd.rx);
            ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
            let got = side.got.borrow();
            ensure!(got.len() > u.earlier && got[u.earlier] == Ok(u.status), "response", "upgrade request got {:?}", got);
            ensure!(!later || got.get(u.earlier + 1) == Some(&Ok(200)), "response", "request after a declined upgrade got {:?}", got);
            let t = side.tun.borrow();
            let Some(end) = side.end.borrow().clone() else { fail!("hang", "the connection future did not finish") };
            ensure!(end.ok, "error", "the connection ended with {}", end.text);
            judge("client", &t, &p, h, &u, &tail, &Some(end.clone()))?;
            let out = hd.output();
            let n_req = u.earlier + 1 + later as usize;
            let mut pos = 0;
            for i in 0..n_req {
                match wire::request(&out, pos) {
                    Ok(wire::P::Msg(m)) if m.complete => {
                        if i == u.earlier {
                            ensure!(m.body == payload(9, u.with_body), "malformed-output", "upgrade request body {}", m.show());
                        }
                        pos = m.end
                    }
                    _ => fail!("malformed-output", "request {i} is not whole on the wire: {}", show(&out)),
                }
            }
            let used = upgrades && (h == How::Manual || (h == How::Auto && u.keep_handle && !p.drop_it));
            let want: Vec<u8> = if used { p.writes.concat() } else { vec![] };
            ensure!(out[pos..] == want[..], "written-bytes", "{} bytes follow the request, {} were written", out.len() - pos, want.len());
            if used {
                ensure!(hd.shutdown() == p.shutdown, "shutdown", "transport shut down: {}, by the tunnel: {}", hd.shutdown(), p.shutdown);
            }
        }
        _ => {
            cx.label("both");
            u.keep_handle = true;
            let (hs, hc) = (if s.chance(80) { How::Manual } else { How::Auto }, if s.chance(80) { How::Manual } else { How::Auto });
            let (mut ps, mut pc) = (tun_plan(s, 7), tun_plan(s, 90));
            ps.drop_it = false;
            pc.drop_it = false;
            // both sides end their direction, so that both readers finish
            ps.shutdown = true;
            pc.shutdown = true;
            label_how(cx, hs, &ps);
            label_how(cx, hc, &pc);
            let (a, b) = (IoCfg::gen_coarse(s), IoCfg::gen_coarse(s));
            cx.label_if(!a.write.is_full() || !b.write.is_full(), "pending-write");
            let ((ci, _ch), (si, _sh)) = duplex(&ex.events, &a, &b);
            let (ccfg, mut scfg) = (CliCfg::gen_neutral(s), SrvCfg::gen_neutral(s));
            if pc.writes.iter().all(|w| w.is_empty()) {
                // a peer that only closes may do so while the 101 is still being flushed,
                // which is an abort unless half-closing is allowed
                scfg.half_close = true;
            }
            let later = !upgrades;
            cx.nontrivial = true;
            cx.describe(|| format!("both {hs:?}/{hc:?} {u:?} srv r={:?} w={:?} cli r={:?} w={:?} io[{}] io[{}]", ps.reads, ps.writes.iter().map(|w| w.len()).collect::<Vec<_>>(), pc.reads, pc.writes.iter().map(|w| w.len()).collect::<Vec<_>>(), a.show(), b.show()));
            let c = start_client(&mut ex, &ccfg, ci, hc, &u, &pc, later);
            let sv = start_server(&mut ex, &scfg, si, hs, &u, &ps);
            ensure!(ex.run() == Stall::Quiet, "spin", "keeps waking itself");
            let got = c.got.borrow();
            ensure!(got.len() == u.earlier + 1 + later as usize && got[u.earlier] == Ok(u.status) && got.iter().all(|g| g.is_ok()), "response", "requests got {:?}", got);
            if upgrades {
                judge("server", &sv.tun.borrow(), &ps, hs, &u, &pc.writes.concat(), &sv.end.borrow())?;
                judge("client", &c.tun.borrow(), &pc, hc, &u, &ps.writes.concat(), &c.end.borrow())?;
                ensure!(sv.end.borrow().as_ref().is_some_and(|e| e.ok) && c.end.borrow().as_ref().is_some_and(|e| e.ok), "hang", "connection futures: {:?} {:?}", sv.end.borrow(), c.end.borrow());
            } else {
                ensure!(sv.seen.borrow().len() == got.len(), "requests", "{} requests at the service", sv.seen.borrow().len());
            }
        }
    }
    let _ = BodyPlan::len;
    Ok(())
}
