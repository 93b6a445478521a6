//! HTTP/2: CONNECT tunnels.
use crate::body::PlanBody;
use crate::cli::Sender;
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use http::{HeaderValue, Method, Request, Response, StatusCode};
use http_body::Body;
use hyper::body::Incoming;
use hyper::rt::{Read, ReadBuf, Write};
use hyper::upgrade::{OnUpgrade, Upgraded};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C25",
        run,
        quick: 200_000,
        thorough: 5_000_000,
        max_len: 600,
        rule: "a case is a hyper HTTP/2 server or client against a raw peer, or hyper on both ends, with 1-3 CONNECT streams (accepted, declined, or broken) next to plain exchanges; both ends of each tunnel read, write, shut down, drop or reset at generated moments with generated windows; non-trivial when at least one tunnel is open and bytes pass or it ends in some way",
        must_labels: &[
            "server", "client", "both", "accepted", "declined", "bad-length", "extended", "not-extended", "shutdown", "drop-after", "drop-early", "drop-now", "held-reader", "no-window", "peer-end", "peer-reset", "peer-reset-quiet", "peer-cut",
            "plain", "2xx", "graceful", "senders-dropped", "early-data", "empty-frame", "big", "interim",
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Fin {
    /// shut down after the writes, read to the end
    Shutdown,
    /// drop it after the writes
    Drop,
    /// drop it once that many bytes were read
    DropAt(usize),
    /// drop it at once
    Now,
    /// drop it once the other side's end was read
    Hold,
}
#[derive(Clone, Debug)]
struct TunPlan {
    reads: Vec<usize>,
    hold_at: Option<usize>,
    writes: Vec<Vec<u8>>,
    vectored: bool,
    flush_each: bool,
    fin: Fin,
    pauses: Vec<usize>,
}
fn tun_plan(s: &mut Src, cx: &mut Cx, tag: u8) -> TunPlan {
    let nr = s.range(1, 3);
    let nw = s.weighted(&[2, 3, 3, 2, 1, 0, 0, 1, 0, 1]);
    let fin = match s.weighted(&[5, 2, 1, 1, 2]) {
        0 => {
            cx.label("shutdown");
            Fin::Shutdown
        }
        1 => {
            cx.label("drop-after");
            Fin::Drop
        }
        2 => {
            cx.label("drop-early");
            Fin::DropAt(*s.pick(&[1usize, 10, 1000]))
        }
        3 => {
            cx.label("drop-now");
            Fin::Now
        }
        _ => Fin::Hold,
    };
    TunPlan {
        reads: (0..nr).map(|_| *s.pick(&[20_000usize, 1, 7, 100, 1000, 8192])).collect(),
        hold_at: if s.chance(50) {
            cx.label("held-reader");
            Some(*s.pick(&[0usize, 1, 500, 30_000]))
        } else {
            None
        },
        writes: (0..nw)
            .map(|i| {
                let n = *s.pick(&[5usize, 1, 60, 500, 9000, 16_384, 70_000]);
                cx.label_if(n > 65_535, "big");
                payload(tag.wrapping_add(i as u8), n)
            })
            .collect(),
        vectored: s.chance(80),
        flush_each: s.chance(80),
        fin,
        pauses: (0..2).map(|_| s.weighted(&[4, 1, 1]) * 3).collect(),
    }
}
impl TunPlan {
    fn all(&self) -> Vec<u8> {
        self.writes.concat()
    }
    /// smallest read that would make reading much data slow
    fn coarse(&mut self, n: usize) {
        if n > 3000 {
            self.reads.iter_mut().for_each(|r| *r = (*r).max(n / 150));
        }
    }
}

#[derive(Default, Debug)]
struct Tun {
    up: Option<Result<(), String>>,
    read: Vec<u8>,
    eof: bool,
    read_err: Option<String>,
    accepted: usize,
    writes_done: bool,
    write_err: Option<String>,
    shut: Option<Result<(), String>>,
    dropped: bool,
    rdone: bool,
    wdone: bool,
    wakers: Vec<std::task::Waker>,
}
impl Tun {
    fn show(&self) -> String {
        format!("{{up={:?} read={} eof={} rerr={:?} accepted={} wdone={}/{} werr={:?} shut={:?} dropped={} rdone={}}}", self.up, self.read.len(), self.eof, self.read_err, self.accepted, self.writes_done, self.wdone, self.write_err, self.shut, self.dropped, self.rdone)
    }
}

fn tunnel(sp: &Spawner, ev: &Events, u: Upgraded, p: TunPlan, t: Rc<RefCell<Tun>>, gate: Gate) {
    let u: Rc<RefCell<Option<Upgraded>>> = Rc::new(RefCell::new(Some(u)));
    let drop_it = |u: &Rc<RefCell<Option<Upgraded>>>, t: &Rc<RefCell<Tun>>| {
        let x = u.borrow_mut().take();
        t.borrow_mut().dropped = true;
        drop(x);
        t.borrow_mut().wakers.drain(..).for_each(|w| w.wake());
    };
    if p.fin == Fin::Now {
        drop_it(&u, &t);
        t.borrow_mut().rdone = true;
        t.borrow_mut().wdone = true;
        return;
    }
    let (u1, t1, p1) = (u.clone(), t.clone(), p.clone());
    sp.spawn(async move {
        let mut i = 0;
        loop {
            let have = t1.borrow().read.len();
            if p1.fin == Fin::DropAt(have) || matches!(p1.fin, Fin::DropAt(k) if have >= k) {
                drop_it(&u1, &t1);
                break;
            }
            if p1.hold_at.is_some_and(|k| have >= k) {
                gate.wait().await;
            }
            let n = p1.reads[i % p1.reads.len()];
            i += 1;
            let mut v = vec![0u8; n];
            let r = std::future::poll_fn(|cx| {
                burn();
                t1.borrow_mut().wakers.push(cx.waker().clone());
                let mut g = u1.borrow_mut();
                let Some(x) = g.as_mut() else { return Poll::Ready(None) };
                let mut b = ReadBuf::new(&mut v);
                match Pin::new(x).poll_read(cx, b.unfilled()) {
                    Poll::Ready(Ok(())) => Poll::Ready(Some(Ok(b.filled().len()))),
                    Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await;
            match r {
                None => break,
                Some(Ok(0)) => {
                    t1.borrow_mut().eof = true;
                    break;
                }
                Some(Ok(k)) => t1.borrow_mut().read.extend_from_slice(&v[..k]),
                Some(Err(e)) => {
                    t1.borrow_mut().read_err = Some(e.to_string());
                    break;
                }
            }
        }
        t1.borrow_mut().rdone = true;
        let w = t1.borrow().wdone;
        if w || p1.fin == Fin::Hold && t1.borrow().writes_done {
            drop_it(&u1, &t1);
        }
    });
    let ev = ev.clone();
    sp.spawn(async move {
        let body = async {
            for (i, w) in p.writes.iter().enumerate() {
                let d = p.pauses[i % p.pauses.len()];
                if d > 0 {
                    delay(&ev, d).await;
                }
                let mut w = &w[..];
                while !w.is_empty() {
                    let r = std::future::poll_fn(|cx| {
                        burn();
                        t.borrow_mut().wakers.push(cx.waker().clone());
                        let mut g = u.borrow_mut();
                        let Some(x) = g.as_mut() else { return Poll::Ready(None) };
                        let r = if p.vectored {
                            let k = w.len() / 2;
                            let bufs = [std::io::IoSlice::new(&w[..k]), std::io::IoSlice::new(&w[k..])];
                            Pin::new(x).poll_write_vectored(cx, &bufs)
                        } else {
                            Pin::new(x).poll_write(cx, w)
                        };
                        r.map(Some)
                    })
                    .await;
                    match r {
                        None => return,
                        Some(Ok(0)) => {
                            t.borrow_mut().write_err = Some("wrote 0".into());
                            return;
                        }
                        Some(Ok(k)) => {
                            t.borrow_mut().accepted += k;
                            w = &w[k..];
                        }
                        Some(Err(e)) => {
                            t.borrow_mut().write_err = Some(e.to_string());
                            return;
                        }
                    }
                }
                if p.flush_each {
                    let r = std::future::poll_fn(|cx| match u.borrow_mut().as_mut() {
                        None => Poll::Ready(Ok(())),
                        Some(x) => Pin::new(x).poll_flush(cx),
                    })
                    .await;
                    if let Err(e) = r {
                        t.borrow_mut().write_err = Some(e.to_string());
                        return;
                    }
                }
            }
            t.borrow_mut().writes_done = true;
            match p.fin {
                Fin::Drop => drop_it(&u, &t),
                Fin::Shutdown => {
                    let r = std::future::poll_fn(|cx| match u.borrow_mut().as_mut() {
                        None => Poll::Ready(Ok(())),
                        Some(x) => Pin::new(x).poll_shutdown(cx),
                    })
                    .await;
                    t.borrow_mut().shut = Some(r.map_err(|e| e.to_string()));
                }
                _ => {}
            }
        };
        body.await;
        t.borrow_mut().wdone = true;
        let r = t.borrow().rdone;
        if r && !matches!(p.fin, Fin::DropAt(_)) {
            drop_it(&u, &t);
        }
    });
}

fn await_upgrade(sp: &Spawner, ev: &Events, on: OnUpgrade, p: TunPlan, t: Rc<RefCell<Tun>>, gate: Gate) {
    let (sp2, ev) = (sp.clone(), ev.clone());
    sp.spawn(async move {
        match on.await {
            Err(e) => t.borrow_mut().up = Some(Err(format!("{e:?}"))),
            Ok(u) => {
                t.borrow_mut().up = Some(Ok(()));
                tunnel(&sp2, &ev, u, p, t, gate)
            }
        }
    });
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// answered with this status
    Accept(u16),
    Decline(u16),
    /// a 2xx with a non-zero content-length
    BadLen,
}
#[derive(Clone, Debug)]
struct Spec {
    kind: Kind,
    protocol: Option<&'static str>,
    delay: usize,
    body: usize,
}
impl Spec {
    fn gen(s: &mut Src, cx: &mut Cx) -> Spec {
        let kind = match s.weighted(&[8, 2, 1]) {
            0 => {
                let st = *s.pick(&[200u16, 200, 200, 201, 204, 299]);
                cx.label("accepted");
                cx.label_if(st != 200, "2xx");
                Kind::Accept(st)
            }
            1 => {
                cx.label("declined");
                Kind::Decline(*s.pick(&[404u16, 302, 407, 502]))
            }
            _ => {
                cx.label("bad-length");
                Kind::BadLen
            }
        };
        Spec { kind, protocol: None, delay: s.weighted(&[3, 1, 1]) * 2, body: *s.pick(&[0usize, 5, 20_000]) }
    }
    fn open(&self) -> bool {
        matches!(self.kind, Kind::Accept(_))
    }
}

type Seen = Rc<RefCell<Vec<(String, Option<String>)>>>;

/// Serves tunnels `t0.test:1`, ... by their specifications, and echoes everything else.
fn tunnel_server(ex: &mut Exec, cfg: &H2Cfg, io: SimIo, specs: Vec<Spec>, plans: Vec<TunPlan>, tuns: Vec<Rc<RefCell<Tun>>>, gate: Gate) -> (usize, Rc<RefCell<Option<ConnEnd>>>, Rc<Ctl>, Seen) {
    let seen: Seen = Default::default();
    let (sp, ev, s2) = (ex.spawner.clone(), ex.events.clone(), seen.clone());
    let svc = hyper::service::service_fn(move |mut r: Request<Incoming>| {
        let (sp, ev, s2, gate) = (sp.clone(), ev.clone(), s2.clone(), gate.clone());
        let (specs, plans, tuns) = (specs.clone(), plans.clone(), tuns.clone());
        async move {
            s2.borrow_mut().push((format!("{} {}", r.method(), r.uri()), r.extensions().get::<hyper::ext::Protocol>().map(|p| p.as_str().to_string())));
            if r.method() != Method::CONNECT {
                let b = crate::srv::collect(r.into_body()).await;
                return match b {
                    Some(b) => Ok(Response::new(PlanBody::full(&ev, b))),
                    None => Err(SvcErr),
                };
            }
            let host = r.uri().host().unwrap_or("").to_string();
            let k: usize = host[1..2].parse().expect("tunnel number");
            let spec = &specs[k];
            let on = hyper::upgrade::on(&mut r);
            await_upgrade(&sp, &ev, on, plans[k].clone(), tuns[k].clone(), gate);
            if spec.delay > 0 {
                delay(&ev, spec.delay).await;
            }
            let mut resp = match spec.kind {
                Kind::Accept(st) => {
                    let mut r = Response::new(PlanBody::empty(&ev));
                    *r.status_mut() = StatusCode::from_u16(st).expect("status");
                    if spec.body > 0 {
                        r.headers_mut().insert("content-length", HeaderValue::from_static("0"));
                    }
                    r
                }
                Kind::Decline(st) => {
                    let mut r = Response::new(PlanBody::full(&ev, payload(k as u8, spec.body)));
                    *r.status_mut() = StatusCode::from_u16(st).expect("status");
                    r
                }
                Kind::BadLen => {
                    let mut r = Response::new(PlanBody::empty(&ev));
                    r.headers_mut().insert("content-length", HeaderValue::from_static("5"));
                    r
                }
            };
            resp.headers_mut().insert("x-k", HeaderValue::from(k));
            Ok::<_, SvcErr>(resp)
        }
    });
    let (conn, end, ctl) = h2::serve_with(ex, cfg, io, svc);
    (conn, end, ctl, seen)
}

#[derive(Default, Debug)]
struct CliT {
    res: Option<Result<(u16, Vec<u8>, bool), String>>,
    interim: usize,
}
/// One CONNECT request (or, without a plan, a POST that is echoed).
fn client_tunnel(ex: &mut Exec, sender: &Rc<RefCell<Option<Sender>>>, up: &Gate, k: usize, spec: &Spec, p: &TunPlan, t: &Rc<RefCell<Tun>>, gate: &Gate) -> Rc<RefCell<CliT>> {
    let out: Rc<RefCell<CliT>> = Default::default();
    let (o, sender, up, spec, p, t, gate) = (out.clone(), sender.clone(), up.clone(), spec.clone(), p.clone(), t.clone(), gate.clone());
    let (sp, ev) = (ex.spawner.clone(), ex.events.clone());
    ex.spawn(async move {
        up.wait().await;
        let sr = sender.borrow().as_ref().and_then(|s| s.h2());
        let Some(mut sr) = sr else {
            o.borrow_mut().res = Some(Err("no sender".into()));
            return;
        };
        let mut r = Request::new(PlanBody::empty(&ev));
        *r.method_mut() = Method::CONNECT;
        *r.uri_mut() = if spec.protocol.is_some() { format!("http://t{k}.test:1/p{k}") } else { format!("t{k}.test:1") }.parse().expect("uri");
        if let Some(pr) = spec.protocol {
            r.extensions_mut().insert(hyper::ext::Protocol::from_static(pr));
        }
        let f = sr.send_request(r);
        drop(sr);
        match f.await {
            Err(e) => o.borrow_mut().res = Some(Err(format!("{e:?}"))),
            Ok(mut r) => {
                let st = r.status().as_u16();
                let on = hyper::upgrade::on(&mut r);
                await_upgrade(&sp, &ev, on, p, t, gate);
                let mut b = r.into_body();
                let mut v = vec![];
                let mut clean = true;
                while let Some(f) = std::future::poll_fn(|cx| Pin::new(&mut b).poll_frame(cx)).await {
                    match f {
                        Ok(f) => {
                            if let Ok(d) = f.into_data() {
                                v.extend_from_slice(&d)
                            }
                        }
                        Err(_) => {
                            clean = false;
                            break;
                        }
                    }
                }
                o.borrow_mut().res = Some(Ok((st, v, clean)));
            }
        }
    });
    out
}
fn client_plain(ex: &mut Exec, sender: &Rc<RefCell<Option<Sender>>>, up: &Gate, body: Vec<u8>) -> Rc<RefCell<CliT>> {
    let out: Rc<RefCell<CliT>> = Default::default();
    let (o, sender, up, ev) = (out.clone(), sender.clone(), up.clone(), ex.events.clone());
    ex.spawn(async move {
        up.wait().await;
        let sr = sender.borrow().as_ref().and_then(|s| s.h2());
        let Some(mut sr) = sr else {
            o.borrow_mut().res = Some(Err("no sender".into()));
            return;
        };
        let mut r = Request::new(PlanBody::full(&ev, body));
        *r.method_mut() = Method::POST;
        *r.uri_mut() = "http://a.test/echo".parse().expect("uri");
        let f = sr.send_request(r);
        drop(sr);
        match f.await {
            Err(e) => o.borrow_mut().res = Some(Err(format!("{e:?}"))),
            Ok(r) => {
                let st = r.status().as_u16();
                let b = crate::srv::collect(r.into_body()).await;
                let clean = b.is_some();
                o.borrow_mut().res = Some(Ok((st, b.unwrap_or_default(), clean)));
            }
        }
    });
    out
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.weighted(&[4, 4, 2]) {
        0 => {
            cx.label("server");
            raw(s, cx, false)
        }
        1 => {
            cx.label("client");
            raw(s, cx, true)
        }
        _ => {
            cx.label("both");
            both(s, cx)
        }
    }
}

fn small_cfg(s: &mut Src) -> H2Cfg {
    let mut cfg = H2Cfg::gen(s);
    cfg.max_streams = None;
    cfg.initial_streams = None;
    if cfg.stream_window.is_some_and(|w| w < 1000) {
        cfg.stream_window = Some(1000);
    }
    cfg.connect = s.chance(128);
    cfg
}

#[derive(Clone, Debug)]
enum Act {
    Open,
    Head,
    Interim,
    Data(Vec<u8>, bool),
    Give(u32),
    Reset(u32),
}

fn raw(s: &mut Src, cx: &mut Cx, client: bool) -> R {
    let mut cfg = small_cfg(s);
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let n = s.range(1, 3);
    let nplain = s.below(3);
    cx.label_if(nplain > 0, "plain");
    let my_win = *s.pick(&[65_535u32, 0, 1, 1000, 200_000]);
    let peer_connect = s.chance(128);
    let can_extend = if client { peer_connect } else { cfg.connect };
    let mut specs = vec![];
    let mut plans = vec![];
    let mut acts: Vec<VecDeque<Act>> = vec![];
    let mut sends: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let mut sp = Spec::gen(s, cx);
        if s.chance(if can_extend { 100 } else { 30 }) {
            sp.protocol = Some(*s.pick(&["websocket", "x"]));
            cx.label(if can_extend { "extended" } else { "not-extended" });
        }
        let mut p = tun_plan(s, cx, 100 + 10 * k as u8);
        // the peer's part
        let mut a = VecDeque::new();
        let mut all = vec![];
        if !client {
            a.push_back(Act::Open);
        } else {
            if s.chance(40) {
                a.push_back(Act::Interim);
            }
            a.push_back(Act::Head);
        }
        // (a message with a length has to keep to it)
        let quiet = client && (sp.kind == Kind::BadLen || !sp.open());
        let nd = if quiet { 0 } else { s.weighted(&[1, 3, 2, 2]) };
        for i in 0..nd {
            let b = payload(50 + 10 * k as u8 + i as u8, *s.pick(&[10usize, 1, 1000, 16_384, 30_000, 0]));
            cx.label_if(b.is_empty(), "empty-frame");
            all.extend_from_slice(&b);
            a.push_back(Act::Data(b, false));
            if s.chance(80) {
                a.push_back(Act::Give(*s.pick(&[1u32, 100, 20_000])));
            }
        }
        match if quiet { 3 } else { s.weighted(&[5, 2, 1, 1]) } {
            0 => {
                cx.label("peer-end");
                a.push_back(Act::Data(vec![], true));
            }
            1 => {
                cx.label("peer-reset");
                let at = s.range(1, a.len());
                a.insert(at, Act::Reset(*s.pick(&[2u32, 10, 1, 5, 11])));
            }
            2 => {
                cx.label("peer-reset-quiet");
                let at = s.range(1, a.len());
                a.insert(at, Act::Reset(*s.pick(&[8u32, 0])));
            }
            _ => {}
        }
        p.coarse(all.len());
        sends.push(all);
        specs.push(sp);
        plans.push(p);
        acts.push(a);
    }
    if nplain > 0 && plans.iter().any(|p| p.hold_at.is_some()) {
        // (what is not read holds up the connection)
        cfg.conn_window = None;
        cfg.adaptive = false;
    }
    // how it ends: everything finishes, or the transport is cut
    let cut = s.chance(50);
    let graceful = !client && s.chance(40);
    let drop_senders = client && s.chance(60);
    cx.label_if(graceful, "graceful");
    cx.label_if(drop_senders, "senders-dropped");
    cx.label_if(my_win == 0, "no-window");
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|k| {
                let w: Vec<usize> = plans[k].writes.iter().map(|w| w.len()).collect();
                let a: Vec<String> = acts[k].iter().map(|a| match a { Act::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }), o => format!("{o:?}") }).collect();
                format!("{:?} reads={:?} hold={:?} writes={w:?} {:?} acts {a:?}", specs[k], plans[k].reads, plans[k].hold_at, plans[k].fin)
            })
            .collect();
        format!("{} {} win={my_win} cut={cut} graceful={graceful} drop_senders={drop_senders} peer_connect={peer_connect} plain={nplain} io[{}] {}", if client { "client" } else { "server" }, cfg.show(), ic.show(), l.join(" || "))
    });
    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 400_000;
    let (io, h) = scripted(&ex.events, &ic);
    let gate = Gate::default();
    let tuns: Vec<Rc<RefCell<Tun>>> = (0..n).map(|_| Default::default()).collect();
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    let mut peer = Peer::new(client);
    peer.grant = Grant::Manual;
    let mut set = vec![(4u16, my_win)];
    if client && peer_connect {
        set.push((8, 1));
    }
    peer.hello(&set);
    peer.give(0, 50_000_000);
    let mut srv = None;
    let mut cp = None;
    let mut clis = vec![];
    let mut plain_c = vec![];
    if client {
        cp = Some(h2::connect(&mut ex, &cfg, io));
    } else {
        srv = Some(tunnel_server(&mut ex, &cfg, io, specs.clone(), plans.clone(), tuns.clone(), gate.clone()));
    }
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    let end = if let Some(c) = &cp { c.env.end.clone() } else { srv.as_ref().unwrap().1.clone() };
    macro_rules! state {
        () => {
            format!("tunnels {:?} clients {clis:?} {plain_c:?} end={:?} frames {}", tuns.iter().map(|t| t.borrow().show()).collect::<Vec<_>>(), end.borrow().as_ref().map(|e| e.text.clone()), peer.show())
        };
    }
    ensure!(client || peer.their_connect == cfg.connect, "setting", "extended CONNECT announced: {}, configured: {}", peer.their_connect, cfg.connect);
    let mut sids = vec![0u32; n];
    let mut plain = vec![];
    if let Some(c) = &cp {
        // one after the other, to know the stream ids
        for k in 0..n {
            clis.push(client_tunnel(&mut ex, &c.env.sender, &c.env.up, k, &specs[k], &plans[k], &tuns[k], &gate));
            let before = peer.max_sid;
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            ensure!(peer.max_sid != before, "lost", "the request was not sent: {}", peer.show());
            sids[k] = peer.max_sid;
            let f = &peer.streams[&sids[k]].heads[0];
            let want: Fields = match specs[k].protocol {
                None => fields(&[(":method", "CONNECT"), (":authority", &format!("t{k}.test:1"))]),
                Some(p) => fields(&[(":method", "CONNECT"), (":authority", &format!("t{k}.test:1")), (":path", &format!("/p{k}")), (":protocol", p), (":scheme", "http")]),
            };
            let mut have: Fields = f.iter().filter(|e| e.0.starts_with(b":")).cloned().collect();
            have.sort();
            let mut want = want;
            want.sort();
            ensure!(have == want, "request", "{have:?} for {want:?}");
            ensure!(!peer.streams[&sids[k]].ended, "request", "a CONNECT request that ended: {}", peer.show());
        }
        for i in 0..nplain {
            plain_c.push(client_plain(&mut ex, &c.env.sender, &c.env.up, payload(200 + i as u8, 500)));
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            plain.push(peer.max_sid);
        }
        if drop_senders {
            *c.env.sender.borrow_mut() = None;
        }
    } else {
        for i in 0..nplain {
            let sid = peer.open(&super::c20::req_fields("POST", "/echo", &[]), false);
            peer.send(sid, &payload(200 + i as u8, 500), false);
            plain.push(sid);
        }
    }
    // liveness of what hyper sends, once all is quiet
    macro_rules! check_flow {
        () => {
            for k in 0..n {
                let Some(st) = peer.streams.get(&sids[k]) else { continue };
                let t = tuns[k].borrow();
                let all = plans[k].all();
                if !client && !specs[k].open() {
                    continue;
                }
                ensure!(st.data == all[..st.data.len().min(all.len())], "bytes", "tunnel {k}: the peer has {} bytes which are not what was written: {}", st.data.len(), state!());
                if t.up != Some(Ok(())) || st.my_reset.is_some() || st.reset.is_some() {
                    continue;
                }
                ensure!(st.data.len() <= t.accepted, "bytes", "tunnel {k}: more than was accepted: {}", state!());
                if st.room > 0 {
                    ensure!(st.data.len() == t.accepted, "stuck", "tunnel {k}: {} accepted, {} sent, with window: {}", t.accepted, st.data.len(), state!());
                    ensure!(t.wdone || t.dropped || t.writes_done, "stuck", "tunnel {k}: the writer waits with window left: {}", state!());
                }
                if (t.dropped || t.writes_done && plans[k].fin == Fin::Shutdown) && st.data.len() == t.accepted {
                    ensure!(st.ended, "no-end", "tunnel {k}: everything was sent, the end was not: {}", state!());
                }
                let max = plans[k].writes.iter().map(|w| w.len()).max().unwrap_or(0);
                ensure!(t.accepted - st.data.len() <= 3 * max, "unbounded", "tunnel {k}: {} accepted, {} sent, no window: {}", t.accepted, st.data.len(), state!());
            }
        };
    }
    let mut headed = vec![false; n];
    let mut graceful_at = if graceful { Some(s.below(6)) } else { None };
    loop {
        let live: Vec<usize> = (0..n).filter(|k| !acts[*k].is_empty()).collect();
        if live.is_empty() {
            break;
        }
        let k = *s.pick(&live);
        let a = acts[k].pop_front().unwrap();
        let sid = sids[k];
        let over = sid != 0 && peer.streams.get(&sid).is_some_and(|v| v.my_reset.is_some() || v.reset.is_some());
        match a {
            _ if over => {}
            Act::Open => {
                let auth = format!("t{k}.test:1");
                let mut f = fields(&[(":method", "CONNECT"), (":authority", &auth)]);
                if let Some(p) = specs[k].protocol {
                    f.extend(fields(&[(":scheme", "http"), (":path", &format!("/p{k}")), (":protocol", p)]));
                }
                sids[k] = peer.open(&f, false);
            }
            Act::Interim => {
                cx.label("interim");
                peer.headers(sid, &fields(&[(":status", "103"), ("link", "x")]), false);
            }
            Act::Head => {
                headed[k] = true;
                match specs[k].kind {
                    Kind::Accept(st) => peer.headers(sid, &fields(&[(":status", &st.to_string())]), false),
                    Kind::Decline(st) => {
                        peer.headers(sid, &fields(&[(":status", &st.to_string())]), specs[k].body == 0);
                        if specs[k].body > 0 {
                            peer.send(sid, &payload(k as u8, specs[k].body), true);
                        }
                    }
                    Kind::BadLen => peer.headers(sid, &fields(&[(":status", "200"), ("content-length", "5")]), false),
                }
            }
            Act::Data(b, e) => {
                cx.label_if(!client && peer.streams[&sid].head().is_none() && !b.is_empty(), "early-data");
                peer.send(sid, &b, e)
            }
            Act::Give(w) => peer.give(sid, w),
            Act::Reset(c) => {
                if !(peer.streams[&sid].my_end && peer.streams[&sid].done()) {
                    peer.reset(sid, c)
                }
            }
        }
        if graceful_at.is_some_and(|g| g == 0) && sids.iter().all(|s| *s != 0) {
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
            srv.as_ref().unwrap().2.graceful();
            graceful_at = None;
        } else {
            graceful_at = graceful_at.map(|g| g.saturating_sub(1));
        }
        match s.weighted(&[3, 3, 2]) {
            0 => {}
            1 => nudge(&mut ex, &h, &mut peer, s.range(1, 25)).map_err(fix)?,
            _ => {
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                check_flow!();
            }
        }
    }
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    check_flow!();
    cx.nontrivial = tuns.iter().any(|t| t.borrow().up == Some(Ok(())));
    // the plain exchanges, while the tunnels are as they are
    for (i, sid) in plain.iter().enumerate() {
        if client {
            let b = peer.streams[sid].data.clone();
            peer.headers(*sid, &fields(&[(":status", "200")]), false);
            if my_win == 0 {
                peer.give(*sid, 500);
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
            }
            let _ = b;
            peer.send(*sid, &payload(200 + i as u8, 500), true);
            peer.give(*sid, 1000);
        } else {
            peer.send(*sid, b"", true);
            peer.give(*sid, 1000);
        }
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        let v = &peer.streams[sid];
        ensure!(v.ended && v.data == payload(200 + i as u8, 500), "other-stream", "plain exchange {i}: {} bytes ended={} reset={:?}: {}", v.data.len(), v.ended, v.reset, state!());
        if client {
            let r = plain_c[i].borrow();
            ensure!(matches!(&r.res, Some(Ok((200, b, true))) if *b == payload(200 + i as u8, 500)), "other-stream", "plain exchange {i}: {:?}: {}", r.res.as_ref().map(|r| r.as_ref().map(|x| (x.0, x.1.len(), x.2))), state!());
        }
    }
    if cut {
        cx.label("peer-cut");
        feed_eof(&h.rx);
        if ex.run() == Stall::Spinning {
            fail!("spin", "no end of activity: {}", state!());
        }
    } else {
        // all the window there may be
        for k in 0..n {
            if sids[k] != 0 && peer.streams[&sids[k]].my_reset.is_none() {
                peer.give(sids[k], 10_000_000);
            }
        }
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        check_flow!();
    }
    gate.open();
    if cut {
        if ex.run() == Stall::Spinning {
            fail!("spin", "no end of activity: {}", state!());
        }
    } else {
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        check_flow!();
    }
    // what each end saw
    for k in 0..n {
        let t = tuns[k].borrow();
        let spec = &specs[k];
        if sids[k] == 0 {
            continue;
        }
        let st = &peer.streams[&sids[k]];
        if !client && spec.protocol.is_some() && !can_extend {
            ensure!(st.heads.is_empty() && (st.reset == Some(code::PROTOCOL) || st.my_reset.is_some()) && t.up.is_none(), "not-extended", "tunnel {k}: an extended CONNECT which was not allowed: {}", state!());
            continue;
        }
        let answered = if client { headed[k] } else { st.head().is_some() };
        let reset_first = st.my_reset.is_some() && (t.up.is_none() || matches!(t.up, Some(Err(_))));
        if client {
            let r = clis[k].borrow();
            match (&r.res, &spec.kind) {
                // a reset may overtake the response
                (Some(Err(_)), _) if st.my_reset.is_some() || (cut && !answered) => {}
                (Some(Ok((a, b, true))), Kind::Accept(x)) => ensure!(a == x && b.is_empty(), "response", "tunnel {k}: {a} with {} bytes: {}", b.len(), state!()),
                (Some(Ok((a, b, true))), Kind::Decline(x)) => ensure!(a == x && *b == payload(k as u8, spec.body), "response", "tunnel {k}: {a} with {} bytes: {}", b.len(), state!()),
                (Some(Err(_)), Kind::BadLen) => ensure!(cut || st.reset == Some(code::INTERNAL), "bad-length", "tunnel {k}: a response with a length was not refused: {}", state!()),
                _ if !answered && !cut => {}
                _ => fail!("response", "tunnel {k}: {:?}: {}", r.res.as_ref().map(|r| r.as_ref().map(|x| (x.0, x.1.len(), x.2))), state!()),
            }
            if !answered || matches!(r.res, Some(Err(_))) {
                continue;
            }
        } else if !(st.my_reset.is_some() && st.heads.is_empty()) && !cut {
            match spec.kind {
                Kind::Accept(x) | Kind::Decline(x) => ensure!(st.head().and_then(status) == Some(x), "response", "tunnel {k}: {:?}: {}", st.heads, state!()),
                Kind::BadLen => ensure!(st.heads.is_empty() && st.reset == Some(code::INTERNAL), "bad-length", "tunnel {k}: {:?}: {}", st.heads, state!()),
            }
            if let (Kind::Decline(_), None) = (&spec.kind, st.my_reset) {
                ensure!(st.data == payload(k as u8, spec.body) && st.ended, "response", "tunnel {k}: {} bytes: {}", st.data.len(), state!());
            }
            if spec.open() {
                ensure!(!st.head().unwrap().iter().any(|e| e.0 == b"content-length"), "response", "tunnel {k} with content-length: {}", state!());
            }
        }
        match (&t.up, spec.open()) {
            (Some(Ok(())), true) => {}
            (Some(Err(_)), false) => continue,
            (Some(Err(_)), true) if reset_first || cut => continue,
            (None, true) if !client && cut => continue,
            (None, _) if !client && st.my_reset.is_some() => continue,
            (x, _) => fail!("outcome", "tunnel {k}: the upgrade gave {x:?}: {}", state!()),
        }
        let sent = &sends[k][..st.sent.min(sends[k].len())];
        ensure!(t.read == sent[..t.read.len().min(sent.len())], "bytes", "tunnel {k}: read {} bytes which are not what was sent: {}", t.read.len(), state!());
        if plans[k].fin == Fin::Now {
            continue;
        }
        let cut_here = cut && !st.my_end;
        let reader_left = t.dropped && !t.eof && t.read_err.is_none();
        match st.my_reset {
            _ if reader_left => {}
            Some(c) if c == code::CANCEL || c == code::NO_ERROR => {
                ensure!(t.eof || t.read_err.is_some(), "waiting", "tunnel {k}: the reader does not see the reset: {}", state!());
            }
            Some(_) => ensure!(t.read_err.is_some() && !t.eof, "reset-as-end", "tunnel {k}: the reader took a reset for an end: {}", state!()),
            // (a lost connection may overtake what a reader did not take in time)
            None if st.my_end && cut && plans[k].hold_at.is_some() && t.read_err.is_some() => {}
            None if st.my_end => ensure!(t.eof && t.read == *sent, "bytes", "tunnel {k}: the reader has {} of {} bytes, eof={}: {}", t.read.len(), sent.len(), t.eof, state!()),
            None if cut_here => ensure!(t.read_err.is_some() && !t.eof, "cut-as-end", "tunnel {k}: the reader took a cut for an end: {}", state!()),
            None => {
                ensure!(!t.eof && t.read_err.is_none(), "false-end", "tunnel {k}: the reader saw an end that was not: {}", state!());
                ensure!(t.read == *sent, "bytes", "tunnel {k}: the reader has {} of {} bytes: {}", t.read.len(), sent.len(), state!());
            }
        }
        if st.my_reset.is_some() || cut {
            ensure!(t.wdone || t.dropped, "waiting", "tunnel {k}: the writer waits on a dead stream: {}", state!());
        } else {
            ensure!(t.write_err.is_none(), "write-error", "tunnel {k}: {}", state!());
            ensure!(t.wdone || t.dropped, "waiting", "tunnel {k}: the writer waits: {}", state!());
            if let Some(r) = &t.shut {
                ensure!(r.is_ok(), "shutdown", "tunnel {k}: shutdown gave {r:?}: {}", state!());
            }
            if !t.dropped {
                ensure!(st.reset.is_none(), "reset", "tunnel {k} was reset: {}", state!());
            } else {
                ensure!(st.reset.is_none_or(|c| c == code::CANCEL || c == code::NO_ERROR), "reset", "tunnel {k} was reset: {}", state!());
            }
        }
    }
    if cut {
        ensure!(end.borrow().is_some(), "not-ended", "the connection goes on without a transport: {}", state!());
        ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
        return Ok(());
    }
    // the connection is still good, its window given back
    if !(graceful && peer.goaways.len() > 1) && !client && end.borrow().is_none() && !graceful {
        let sid = peer.open(&super::c20::req_fields("POST", "/echo", &[]), false);
        let b = payload(3, 40_000);
        peer.give(sid, 40_000);
        peer.send(sid, &b, true);
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        let v = &peer.streams[&sid];
        ensure!(v.ended && v.data == b, "other-stream", "a later exchange: sent {} of {}, got {}: {}", v.sent, b.len(), v.data.len(), state!());
    }
    // finish
    for k in 0..n {
        if sids[k] != 0 {
            let v = &peer.streams[&sids[k]];
            if v.my_reset.is_none() && v.reset.is_none() && !v.my_end {
                if v.heads.is_empty() && !client || client && !headed[k] {
                    peer.reset(sids[k], 8);
                } else {
                    peer.send(sids[k], b"", true);
                }
            }
        }
    }
    pump(&mut ex, &h, &mut peer).map_err(fix)?;
    // h2 never releases a stream that was reset by the peer after it was dropped with data left
    let lost = (0..n).any(|k| sids[k] != 0 && peer.streams[&sids[k]].my_reset.is_some() && (tuns[k].borrow().dropped || !specs[k].open()));
    if graceful && lost {
    } else if graceful && srv.as_ref().is_some() && graceful_at.is_none() {
        let e = end.borrow().clone();
        ensure!(e.as_ref().is_some_and(|e| e.ok), "graceful", "the connection did not end after graceful shutdown: {}", state!());
    } else if drop_senders {
        ensure!(end.borrow().as_ref().is_some_and(|e| e.ok), "senders", "the connection did not end after its last use: {}", state!());
        ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    } else {
        ensure!(end.borrow().is_none(), "closed", "the connection ended: {}", state!());
    }
    if let Some((_, _, _, seen)) = &srv {
        for (k, sp) in specs.iter().enumerate() {
            let want = if sp.protocol.is_some() { format!("CONNECT http://t{k}.test:1/p{k}") } else { format!("CONNECT t{k}.test:1") };
            let have = seen.borrow();
            if let Some(x) = have.iter().find(|x| x.0.contains(&format!("t{k}.test"))) {
                ensure!(x.0 == want && x.1.as_deref() == sp.protocol, "request", "the service saw {x:?} for {want:?} {:?}", sp.protocol);
            }
        }
    }
    Ok(())
}

/// hyper on both ends
fn both(s: &mut Src, cx: &mut Cx) -> R {
    let mut scfg = small_cfg(s);
    let mut ccfg = small_cfg(s);
    if scfg.stream_window.is_some_and(|w| w < 65_535) {
        scfg.stream_window = Some(65_535);
    }
    let mut a = IoCfg::gen_coarse(s);
    let mut b = IoCfg::gen_coarse(s);
    a.cap = a.cap.max(4096);
    b.cap = usize::MAX;
    let n = s.range(1, 3);
    let nplain = s.below(3);
    cx.label_if(nplain > 0, "plain");
    let mut specs = vec![];
    let (mut sps, mut cps) = (vec![], vec![]);
    for k in 0..n {
        let mut sp = Spec::gen(s, cx);
        if scfg.connect && s.chance(100) {
            sp.protocol = Some("websocket");
        }
        let mut x = tun_plan(s, cx, 100 + 10 * k as u8);
        let mut y = tun_plan(s, cx, 50 + 10 * k as u8);
        // not both waiting for the other
        if x.fin == Fin::Hold && matches!(y.fin, Fin::Hold | Fin::DropAt(_)) {
            y.fin = Fin::Shutdown;
        }
        if matches!(x.fin, Fin::DropAt(_)) && matches!(y.fin, Fin::Hold | Fin::DropAt(_)) {
            y.fin = Fin::Shutdown;
        }
        x.coarse(y.all().len());
        y.coarse(x.all().len());
        specs.push(sp);
        sps.push(x);
        cps.push(y);
    }
    // (what is not read leaves the rest of the connection a window of a few bytes)
    if sps.iter().any(|p| p.hold_at.is_some()) {
        scfg.conn_window = None;
        scfg.adaptive = false;
    }
    if cps.iter().any(|p| p.hold_at.is_some()) {
        ccfg.conn_window = None;
        ccfg.adaptive = false;
    }
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|k| {
                let w = |p: &TunPlan| format!("reads={:?} hold={:?} writes={:?} {:?}", p.reads, p.hold_at, p.writes.iter().map(|w| w.len()).collect::<Vec<_>>(), p.fin);
                format!("{:?} server {} client {}", specs[k], w(&sps[k]), w(&cps[k]))
            })
            .collect();
        format!("both {} / {} plain={nplain} io[{}] [{}] {}", scfg.show(), ccfg.show(), a.show(), b.show(), l.join(" || "))
    });
    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 400_000;
    let ((ioa, _ha), (iob, _hb)) = duplex(&ex.events, &a, &b);
    let gate = Gate::default();
    let st: Vec<Rc<RefCell<Tun>>> = (0..n).map(|_| Default::default()).collect();
    let ct: Vec<Rc<RefCell<Tun>>> = (0..n).map(|_| Default::default()).collect();
    let (_, send, _, _) = tunnel_server(&mut ex, &scfg, ioa, specs.clone(), sps.clone(), st.clone(), gate.clone());
    let cp = h2::connect(&mut ex, &ccfg, iob);
    // the server's settings first
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity");
    }
    let clis: Vec<_> = (0..n).map(|k| client_tunnel(&mut ex, &cp.env.sender, &cp.env.up, k, &specs[k], &cps[k], &ct[k], &gate)).collect();
    let plain: Vec<_> = (0..nplain).map(|i| client_plain(&mut ex, &cp.env.sender, &cp.env.up, payload(200 + i as u8, *s.pick(&[500usize, 30_000])))).collect();
    macro_rules! state {
        () => {
            format!("server {:?} client {:?} {:?} end {:?} {:?}", st.iter().map(|t| t.borrow().show()).collect::<Vec<_>>(), ct.iter().map(|t| t.borrow().show()).collect::<Vec<_>>(), clis.iter().map(|c| c.borrow().res.as_ref().map(|r| r.as_ref().map(|x| (x.0, x.1.len(), x.2)).map_err(|e| e.clone()))).collect::<Vec<_>>(), send.borrow().as_ref().map(|e| e.text.clone()), cp.env.end.borrow().as_ref().map(|e| e.text.clone()))
        };
    }
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity: {}", state!());
    }
    gate.open();
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity: {}", state!());
    }
    for (i, p) in plain.iter().enumerate() {
        let r = p.borrow();
        ensure!(matches!(&r.res, Some(Ok((200, b, true))) if *b == payload(200 + i as u8, b.len())), "other-stream", "plain exchange {i}: {:?}: {}", r.res.as_ref().map(|r| r.as_ref().map(|x| (x.0, x.1.len(), x.2))), state!());
    }
    cx.nontrivial = ct.iter().any(|t| t.borrow().up == Some(Ok(())));
    for k in 0..n {
        let (x, y) = (st[k].borrow(), ct[k].borrow());
        let r = clis[k].borrow();
        match (&r.res, &specs[k].kind) {
            (Some(Ok((a, b, true))), Kind::Accept(z)) => ensure!(a == z && b.is_empty(), "response", "tunnel {k}: {}", state!()),
            (Some(Ok((a, b, true))), Kind::Decline(z)) => ensure!(a == z && *b == payload(k as u8, specs[k].body), "response", "tunnel {k}: {}", state!()),
            (Some(Err(_)), Kind::BadLen) => {}
            _ => fail!("response", "tunnel {k}: {}", state!()),
        }
        if !specs[k].open() {
            ensure!(matches!(x.up, Some(Err(_))), "outcome", "tunnel {k}: {}", state!());
            ensure!(!matches!(y.up, Some(Ok(()))), "outcome", "tunnel {k}: {}", state!());
            continue;
        }
        ensure!(x.up == Some(Ok(())) && y.up == Some(Ok(())), "outcome", "tunnel {k}: {}", state!());
        for (who, me, my, other, its) in [("server", &x, &sps[k], &y, &cps[k]), ("client", &y, &cps[k], &x, &sps[k])] {
            let sent = &its.all()[..other.accepted];
            ensure!(me.read == sent[..me.read.len().min(sent.len())], "bytes", "tunnel {k}, {who}: what was read is not what was written: {}", state!());
            ensure!(me.wdone || me.dropped, "waiting", "tunnel {k}, {who}: the writer waits: {}", state!());
            let left = me.dropped && !me.eof && me.read_err.is_none() || my.fin == Fin::Now;
            if left {
                continue;
            }
            // the other side keeps its end to the last
            let other_ended = other.dropped || matches!(other.shut, Some(Ok(())));
            // dropping a tunnel nobody reads from any more abandons what is still to come,
            // never what this side wrote
            if other_ended {
                // bytes this side wrote to an abandoned tunnel may reset it
                ensure!(me.eof && me.read_err.is_none(), "waiting", "tunnel {k}, {who}: no end: {}", state!());
                // (h2 discards what a client has not sent of a stream abandoned while still receiving)
                if !(who == "server" && other.dropped && !other.eof) {
                    ensure!(me.read == *sent, "bytes", "tunnel {k}, {who}: {} of {} bytes: {}", me.read.len(), sent.len(), state!());
                }
            }
            // a writer fails only if the other side is gone
            ensure!(me.write_err.is_none() || other.dropped, "write-error", "tunnel {k}, {who}: {}", state!());
        }
    }
    ensure!(send.borrow().is_none() && cp.env.end.borrow().is_none(), "closed", "the connection ended: {}", state!());
    Ok(())
}
