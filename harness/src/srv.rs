//! A hyper HTTP/1 server connection driven by a script, with a planned service.
use crate::body::{next_frame, next_frame_noting, poll_on, err_kinds, BodyPlan, BodyStat, Got, PlanBody, Step};
use crate::sim::*;
use crate::src::{show, Src};
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue, Request, Response, StatusCode, Version};
use http_body::Body;
use hyper::body::Incoming;
use hyper::server::conn::http1;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Waker;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct SrvCfg {
    pub keep_alive: bool,
    pub half_close: bool,
    pub max_headers: Option<usize>,
    pub max_buf: Option<usize>,
    pub pipeline_flush: bool,
    pub writev: Option<bool>,
    pub title_case: bool,
    pub preserve_case: bool,
    pub ignore_invalid: bool,
    pub multi_space: bool,
    pub date: bool,
    pub timer: bool,
    pub default_reset: bool,
    /// None: leave hyper's default; Some(None): disabled
    pub header_timeout: Option<Option<Duration>>,
    pub upgrades: bool,
}
impl SrvCfg {
    pub fn plain() -> Self {
        SrvCfg {
            keep_alive: true,
            half_close: false,
            max_headers: None,
            max_buf: None,
            pipeline_flush: false,
            writev: None,
            title_case: false,
            preserve_case: false,
            ignore_invalid: false,
            multi_space: false,
            date: true,
            timer: false,
            default_reset: false,
            header_timeout: None,
            upgrades: false,
        }
    }
    /// options that must not change what is delivered
    pub fn gen_neutral(s: &mut Src) -> Self {
        let mut c = SrvCfg::plain();
        c.half_close = s.chance(64);
        c.pipeline_flush = s.chance(80);
        c.writev = *s.pick(&[None, Some(true), Some(false)]);
        c.date = !s.chance(64);
        c.title_case = s.chance(40);
        c.preserve_case = s.chance(40);
        c.upgrades = s.chance(64);
        if s.chance(40) {
            c.timer = true;
            c.default_reset = s.chance(128);
        }
        if s.chance(40) {
            c.max_buf = Some(*s.pick(&[8192, 8193, 16384, 65536]));
        }
        c
    }
    pub fn builder(&self, clock: &Clock) -> http1::Builder {
        let mut b = http1::Builder::new();
        b.keep_alive(self.keep_alive).half_close(self.half_close).pipeline_flush(self.pipeline_flush).title_case_headers(self.title_case);
        b.preserve_header_case(self.preserve_case).ignore_invalid_headers(self.ignore_invalid).auto_date_header(self.date);
        b.allow_multiple_spaces_in_request_line_delimiters(self.multi_space);
        if let Some(n) = self.max_headers {
            b.max_headers(n);
        }
        if let Some(n) = self.max_buf {
            b.max_buf_size(n);
        }
        if let Some(v) = self.writev {
            b.writev(v);
        }
        if self.timer {
            b.timer(SimTimer { clock: clock.clone(), default_reset: self.default_reset });
        }
        if let Some(t) = self.header_timeout {
            b.header_read_timeout(t);
        }
        b
    }
    pub fn show(&self) -> String {
        format!("{self:?}")
    }
}

/// What the service does with a request body
#[derive(Clone, Debug, PartialEq)]
pub enum ReadPlan {
    /// read to the end before responding
    All,
    /// drop it unread before responding
    Drop,
    /// read n frames, drop the rest, respond
    Frames(usize),
    /// respond first; the body is read to the end by another task
    Background,
    /// respond first, keep the body alive until the response body was dropped, never read it
    Hold,
    /// read n frames, then hand the rest to another task and respond
    FramesThenBackground(usize),
    /// read n frames, wait for the gate, read the rest, respond
    Gated(usize),
    /// another task reads the body; the response waits for the gate
    BackgroundGated,
    /// poll the body once, drop it, respond
    PollOnce,
}

#[derive(Clone, Debug)]
pub struct RespPlan {
    pub delay: usize,
    pub read: ReadPlan,
    pub pauses: Plan,
    pub post_delay: usize,
    pub status: u16,
    pub version: Version,
    pub headers: Vec<(String, Vec<u8>)>,
    pub reason: Option<Vec<u8>>,
    pub body: BodyPlan,
    pub svc_err: bool,
    pub echo: bool,
    /// forward the request body, frame by frame, as the response body
    pub stream_echo: bool,
    /// opened once that many bytes of the request body were taken
    pub req_gates: Vec<(usize, Gate)>,
}
impl RespPlan {
    pub fn simple() -> Self {
        RespPlan {
            delay: 0,
            read: ReadPlan::All,
            pauses: Plan::none(),
            post_delay: 0,
            status: 200,
            version: Version::HTTP_11,
            headers: vec![],
            reason: None,
            body: BodyPlan { steps: vec![Step::Data(Bytes::from_static(b"ok"), 1)], hint: crate::body::Hint::Exact, honest_end: true },
            svc_err: false,
            echo: false,
            stream_echo: false,
            req_gates: vec![],
        }
    }
    pub fn show(&self) -> String {
        let hs: Vec<String> = self.headers.iter().map(|(n, v)| format!("{n}:{}", show(v))).collect();
        format!("{{{}read={:?} delay={}/{} {} {:?} hdrs=[{}] body={} err={}}}", if self.stream_echo { "ECHO " } else { "" }, self.read, self.delay, self.post_delay, self.status, self.version, hs.join(";"), self.body.show(), self.svc_err)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub method: String,
    pub uri: String,
    pub version: Option<Version>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub hint: (u64, Option<u64>),
    pub end_at_start: bool,
    pub got: Got,
    /// stopped reading (finished, or plan said so)
    pub read_done: bool,
    pub body_dropped: bool,
    pub responded: bool,
    pub at: Duration,
    pub wire_pos: u64,
    pub gates: Vec<(usize, Gate)>,
    /// an earlier call had not been answered when this one came
    pub overlap: bool,
    /// earlier calls whose response bodies were not dropped yet when this one came
    /// (call, bytes taken, end taken)
    pub open_bodies: Vec<(usize, usize, bool)>,
    /// what became of the body of the response
    pub stat: Option<Rc<RefCell<BodyStat>>>,
    /// the future of the service is gone
    pub fut_dropped: bool,
}

pub fn header_list(h: &HeaderMap) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect()
}
pub fn header_map(h: &[(String, Vec<u8>)]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in h {
        m.append(HeaderName::from_bytes(n.as_bytes()).expect("name"), HeaderValue::from_bytes(v).expect("value"));
    }
    m
}
/// group by name keeping the order of values: the only order HeaderMap promises
pub fn grouped(h: &[(String, Vec<u8>)]) -> std::collections::BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in h {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}

#[derive(Clone, Debug)]
pub struct ConnEnd {
    pub ok: bool,
    pub kinds: String,
    pub text: String,
    pub at: Duration,
}

#[derive(Default)]
pub struct Ctl {
    pub graceful: Cell<bool>,
    /// called just before graceful_shutdown() is
    pub on_take: RefCell<Option<Box<dyn Fn()>>>,
    pub waker: RefCell<Option<Waker>>,
}
impl Ctl {
    pub fn graceful(&self) {
        self.graceful.set(true);
        if let Some(w) = self.waker.borrow_mut().take() {
            w.wake();
        }
    }
}

pub type PlanFn = Rc<dyn Fn(usize, &http::request::Parts) -> RespPlan>;

pub struct Srv {
    pub ex: Exec,
    pub io: IoHandle,
    pub conn: usize,
    pub calls: Rc<RefCell<Vec<Call>>>,
    pub stats: Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>>,
    pub end: Rc<RefCell<Option<ConnEnd>>>,
    pub ctl: Rc<Ctl>,
    pub gate: Gate,
}

#[derive(Debug)]
pub struct SvcErr;
impl std::fmt::Display for SvcErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated service error")
    }
}
impl std::error::Error for SvcErr {}

type SvcFut = Pin<Box<dyn Future<Output = Result<Response<PlanBody>, SvcErr>>>>;

pub struct SvcEnv {
    calls: Rc<RefCell<Vec<Call>>>,
    stats: Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>>,
    ev: Events,
    sp: Spawner,
    plans: PlanFn,
    clock: Clock,
    tx: PipeRef,
    gate: Gate,
}

impl SvcEnv {
    pub fn new(ex: &Exec, calls: &Rc<RefCell<Vec<Call>>>, stats: &Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>>, gate: &Gate, plans: PlanFn, tx: &PipeRef) -> Rc<SvcEnv> {
        Rc::new(SvcEnv {
            calls: calls.clone(),
            stats: stats.clone(),
            ev: ex.events.clone(),
            sp: ex.spawner.clone(),
            plans,
            clock: ex.clock.clone(),
            tx: tx.clone(),
            gate: gate.clone(),
        })
    }
}

pub fn open_gates(gates: &[(usize, Gate)], n: usize) {
    for (k, g) in gates {
        if *k <= n && !g.is_open() {
            g.open()
        }
    }
}

async fn read_body(env: Rc<SvcEnv>, idx: usize, mut body: Incoming, frames: usize, mut pauses: Plan, drop_after: bool) -> Incoming {
    let mut n = 0;
    while n < frames {
        n += 1;
        let f = next_frame_noting(&mut body, &env.ev, &mut pauses, |b| env.calls.borrow_mut()[idx].got.observe(b)).await;
        let over = env.calls.borrow_mut()[idx].got.absorb(f);
        let (gates, have) = {
            let c = env.calls.borrow();
            (c[idx].gates.clone(), c[idx].got.data.len())
        };
        open_gates(&gates, have);
        if over {
            let clean = env.calls.borrow()[idx].got.ended;
            let after = poll_on(&mut body, clean);
            env.calls.borrow_mut()[idx].got.after = after;
            break;
        }
    }
    let mut c = env.calls.borrow_mut();
    c[idx].got.observe(&body);
    c[idx].read_done = true;
    c[idx].body_dropped = drop_after;
    drop(c);
    body
}

struct FutMark(Rc<SvcEnv>, usize);
impl Drop for FutMark {
    fn drop(&mut self) {
        if let Ok(mut c) = self.0.calls.try_borrow_mut() {
            c[self.1].fut_dropped = true;
        }
    }
}

pub fn service(env: Rc<SvcEnv>, req: Request<Incoming>) -> SvcFut {
    let (parts, body) = req.into_parts();
    let idx = {
        let mut c = env.calls.borrow_mut();
        let h = body.size_hint();
        let overlap = c.iter().any(|c| !c.responded);
        let open_bodies = env.stats.borrow().iter().enumerate().filter(|(_, b)| !b.borrow().dropped).map(|(i, b)| (i, b.borrow().polled_data, b.borrow().ended)).collect();
        c.push(Call {
            overlap,
            open_bodies,
            method: parts.method.as_str().to_string(),
            uri: parts.uri.to_string(),
            version: Some(parts.version),
            headers: header_list(&parts.headers),
            hint: (h.lower(), h.upper()),
            end_at_start: body.is_end_stream(),
            at: env.clock.now(),
            wire_pos: lock(&env.tx).total_in,
            got: Got::new(),
            ..Call::default()
        });
        c.len() - 1
    };
    let plan = (env.plans)(idx, &parts);
    let mark = FutMark(env.clone(), idx);
    Box::pin(async move {
        let _mark = mark;
        // keep request extensions (upgrade handle etc.) alive only for the call
        let _parts = parts;
        if plan.delay > 0 {
            delay(&env.ev, plan.delay).await;
        }
        let mut hold: Option<Incoming> = None;
        env.calls.borrow_mut()[idx].gates = plan.req_gates.clone();
        open_gates(&plan.req_gates, 0);
        let mut echo: Option<Incoming> = None;
        match plan.read {
            _ if plan.stream_echo => echo = Some(body),
            ReadPlan::All => {
                let b = read_body(env.clone(), idx, body, usize::MAX, plan.pauses.clone(), true).await;
                drop(b);
            }
            ReadPlan::Drop => {
                drop(body);
                let mut c = env.calls.borrow_mut();
                c[idx].read_done = true;
                c[idx].body_dropped = true;
            }
            ReadPlan::Frames(n) => {
                let b = read_body(env.clone(), idx, body, n, plan.pauses.clone(), true).await;
                drop(b);
            }
            ReadPlan::Background => {
                let e2 = env.clone();
                let p = plan.pauses.clone();
                env.sp.spawn(async move {
                    let b = read_body(e2, idx, body, usize::MAX, p, true).await;
                    drop(b);
                });
            }
            ReadPlan::FramesThenBackground(n) => {
                let b = read_body(env.clone(), idx, body, n, plan.pauses.clone(), false).await;
                let e2 = env.clone();
                let p = plan.pauses.clone();
                let done = { let c = env.calls.borrow(); c[idx].got.ended || c[idx].got.err.is_some() };
                if !done {
                    env.calls.borrow_mut()[idx].read_done = false;
                    env.sp.spawn(async move {
                        let b = read_body(e2, idx, b, usize::MAX, p, true).await;
                        drop(b);
                    });
                }
            }
            ReadPlan::Hold => hold = Some(body),
            ReadPlan::BackgroundGated => {
                let e2 = env.clone();
                let p = plan.pauses.clone();
                env.sp.spawn(async move {
                    let b = read_body(e2, idx, body, usize::MAX, p, true).await;
                    drop(b);
                });
                env.gate.wait().await;
            }
            ReadPlan::PollOnce => {
                let mut body = body;
                let f = crate::cli::now(next_frame(&mut body, &env.ev, &mut Plan::none()));
                drop(body);
                let mut c = env.calls.borrow_mut();
                if let Some(f) = f {
                    c[idx].got.absorb(f);
                }
                c[idx].read_done = true;
                c[idx].body_dropped = true;
            }
            ReadPlan::Gated(n) => {
                let b = read_body(env.clone(), idx, body, n, plan.pauses.clone(), false).await;
                let over = env.calls.borrow()[idx].got.over();
                if !over {
                    env.calls.borrow_mut()[idx].read_done = false;
                    env.gate.wait().await;
                    drop(read_body(env.clone(), idx, b, usize::MAX, plan.pauses.clone(), true).await);
                } else {
                    drop(b);
                    env.calls.borrow_mut()[idx].body_dropped = true;
                    env.gate.wait().await;
                }
            }
        }
        if plan.post_delay > 0 {
            delay(&env.ev, plan.post_delay).await;
        }
        env.calls.borrow_mut()[idx].responded = true;
        if plan.svc_err {
            if hold.take().is_some() {
                let mut c = env.calls.borrow_mut();
                c[idx].read_done = true;
                c[idx].body_dropped = true;
            }
            return Err(SvcErr);
        }
        let body = if plan.echo {
            let d = env.calls.borrow()[idx].got.data.clone();
            PlanBody::full(&env.ev, d)
        } else {
            plan.body.build(&env.ev)
        };
        let body = if let Some(from) = echo {
            let e2 = env.clone();
            let seen: crate::body::Seen = Rc::new(move |f| {
                let mut c = e2.calls.borrow_mut();
                if c[idx].got.absorb(f) {
                    c[idx].read_done = true;
                }
            });
            let mut b = body_parts(&env.ev, &plan.body);
            b.echo = Some(crate::body::Echo { from, seen });
            b
        } else {
            body
        };
        env.stats.borrow_mut().push(body.stat.clone());
        env.calls.borrow_mut()[idx].stat = Some(body.stat.clone());
        if let Some(h) = hold {
            let st = body.stat.clone();
            let ev = env.ev.clone();
            let e2 = env.clone();
            env.sp.spawn(async move {
                // polled by deferred events until the response body is gone
                let mut n = 0;
                while !st.borrow().dropped && n < 400 {
                    delay(&ev, 1).await;
                    n += 1;
                }
                drop(h);
                let mut c = e2.calls.borrow_mut();
                c[idx].read_done = true;
                c[idx].body_dropped = true;
            });
        }
        let mut r = Response::new(body);
        *r.status_mut() = StatusCode::from_u16(plan.status).expect("status");
        *r.version_mut() = plan.version;
        *r.headers_mut() = header_map(&plan.headers);
        if let Some(rs) = &plan.reason {
            r.extensions_mut().insert(hyper::ext::ReasonPhrase::try_from(rs.as_slice()).expect("reason"));
        }
        Ok(r)
    })
}

/// a body with the plan's hints but no steps
fn body_parts(ev: &Events, p: &BodyPlan) -> PlanBody {
    PlanBody::new(ev, p.steps.iter().filter(|s| matches!(s, Step::Pending(_))).cloned().collect(), p.hint, p.honest_end)
}

impl Srv {
    pub fn start(cfg: &SrvCfg, io_cfg: &IoCfg, sched: Plan, plans: PlanFn) -> Srv {
        let mut ex = Exec::new(sched);
        let (io, h) = scripted(&ex.events, io_cfg);
        lock(&h.tx).cap = io_cfg.cap;
        Srv::start_on(&mut ex, cfg, io, plans).into_srv(ex, h)
    }
    pub fn start_on(ex: &mut Exec, cfg: &SrvCfg, io: SimIo, plans: PlanFn) -> SrvPart {
        let tx = io.tx.clone();
        Srv::start_any(ex, cfg, io, &tx, plans)
    }
    /// `tx`: the pipe the transport writes to
    pub fn start_any<I: Transport>(ex: &mut Exec, cfg: &SrvCfg, io: I, tx: &PipeRef, plans: PlanFn) -> SrvPart {
        let calls: Rc<RefCell<Vec<Call>>> = Default::default();
        let stats: Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>> = Default::default();
        let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
        let ctl: Rc<Ctl> = Default::default();
        let gate = Gate::default();
        let env = SvcEnv::new(ex, &calls, &stats, &gate, plans, tx);
        let svc = hyper::service::service_fn(move |r: Request<Incoming>| service(env.clone(), r));
        let c = cfg.builder(&ex.clock).serve_connection(io, svc);
        let (e2, ctl2, clock) = (end.clone(), ctl.clone(), ex.clock.clone());
        let conn = if cfg.upgrades {
            let mut c = Box::pin(c.with_upgrades());
            ex.spawn(async move {
                let r = std::future::poll_fn(|cx| {
                    *ctl2.waker.borrow_mut() = Some(cx.waker().clone());
                    if ctl2.graceful.take() {
                        if let Some(f) = ctl2.on_take.borrow().as_ref() {
                            f()
                        }
                        c.as_mut().graceful_shutdown();
                    }
                    c.as_mut().poll(cx)
                })
                .await;
                *e2.borrow_mut() = Some(conn_end(r, clock.now()));
            })
        } else {
            let mut c = Box::pin(c);
            ex.spawn(async move {
                let r = std::future::poll_fn(|cx| {
                    *ctl2.waker.borrow_mut() = Some(cx.waker().clone());
                    if ctl2.graceful.take() {
                        if let Some(f) = ctl2.on_take.borrow().as_ref() {
                            f()
                        }
                        c.as_mut().graceful_shutdown();
                    }
                    c.as_mut().poll(cx)
                })
                .await;
                *e2.borrow_mut() = Some(conn_end(r, clock.now()));
            })
        };
        SrvPart { conn, calls, stats, end, ctl, gate }
    }
    pub fn ended(&self) -> Option<ConnEnd> {
        self.end.borrow().clone()
    }
    pub fn show_state(&self) -> String {
        let c = self.calls.borrow();
        format!(
            "calls={} end={:?} out={}",
            c.len(),
            self.end.borrow().as_ref().map(|e| if e.ok { "ok".to_string() } else { e.text.clone() }),
            show(&self.io.output())
        )
    }
}
pub fn conn_end(r: Result<(), hyper::Error>, at: Duration) -> ConnEnd {
    match r {
        Ok(()) => ConnEnd { ok: true, kinds: String::new(), text: String::new(), at },
        Err(e) => ConnEnd { ok: false, kinds: err_kinds(&e), text: format!("{e:?}"), at },
    }
}
pub struct SrvPart {
    pub conn: usize,
    pub calls: Rc<RefCell<Vec<Call>>>,
    pub stats: Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>>,
    pub end: Rc<RefCell<Option<ConnEnd>>>,
    pub ctl: Rc<Ctl>,
    pub gate: Gate,
}
impl SrvPart {
    pub fn into_srv(self, ex: Exec, io: IoHandle) -> Srv {
        Srv { ex, io, conn: self.conn, calls: self.calls, stats: self.stats, end: self.end, ctl: self.ctl, gate: self.gate }
    }
}

// ---------------------------------------------------------------- input scripts

#[derive(Clone, Debug)]
pub enum Seg {
    Bytes(Vec<u8>),
    /// run until nothing is runnable
    Settle,
    /// run a few steps only
    Steps(usize),
    Eof,
    Err(std::io::ErrorKind),
    Graceful,
}

/// Cut a stream into segments with runs in between.
pub fn gen_cuts(s: &mut Src, b: &[u8]) -> Vec<Seg> {
    let mut out = vec![];
    let style = s.weighted(&[3, 4, 1, 3]);
    let gap = |s: &mut Src, out: &mut Vec<Seg>| match s.weighted(&[2, 4, 3]) {
        0 => {}
        1 => out.push(Seg::Settle),
        _ => out.push(Seg::Steps(s.range(1, 6))),
    };
    match style {
        0 => out.push(Seg::Bytes(b.to_vec())),
        1 => {
            let mut i = 0;
            let mut n = 0;
            while i < b.len() {
                let left = b.len() - i;
                let w = *s.pick(&[1usize, 2, 5, 17, 60, 300, 3000]);
                let k = if n > 60 { left } else { 1 + s.below(w).min(left - 1) };
                let k = k.min(left);
                out.push(Seg::Bytes(b[i..i + k].to_vec()));
                i += k;
                n += 1;
                gap(s, &mut out);
            }
        }
        2 => {
            // byte by byte (bounded)
            let m = b.len().min(3000);
            for c in &b[..m] {
                out.push(Seg::Bytes(vec![*c]));
                out.push(Seg::Settle);
            }
            if m < b.len() {
                out.push(Seg::Bytes(b[m..].to_vec()));
            }
        }
        _ => {
            // around line ends
            let mut cut: Vec<usize> = vec![];
            for (i, c) in b.iter().enumerate() {
                if (*c == b'\r' || *c == b'\n') && cut.len() < 80 && s.chance(120) {
                    cut.push(i + s.below(2));
                }
            }
            cut.sort();
            cut.dedup();
            let mut i = 0;
            for c in cut {
                if c > i {
                    out.push(Seg::Bytes(b[i..c].to_vec()));
                    i = c;
                    gap(s, &mut out);
                }
            }
            if i < b.len() {
                out.push(Seg::Bytes(b[i..].to_vec()));
            }
        }
    }
    out
}

/// Feed the script; returns false if activity never settles.
pub fn play(ex: &mut Exec, io: &IoHandle, ctl: Option<&Ctl>, segs: &[Seg]) -> bool {
    for g in segs {
        match g {
            Seg::Bytes(b) => feed(&io.rx, b),
            Seg::Settle => {
                if ex.run() == Stall::Spinning {
                    return false;
                }
            }
            Seg::Steps(n) => {
                ex.run_steps(*n);
            }
            Seg::Eof => feed_eof(&io.rx),
            Seg::Err(k) => feed_err(&io.rx, *k),
            Seg::Graceful => {
                if let Some(c) = ctl {
                    c.graceful()
                }
            }
        }
    }
    ex.run() != Stall::Spinning
}

/// The whole body's data, or None when it fails.
pub async fn collect(mut b: hyper::body::Incoming) -> Option<Vec<u8>> {
    let mut out = vec![];
    loop {
        let f = std::future::poll_fn(|cx| {
            crate::sim::burn();
            http_body::Body::poll_frame(std::pin::Pin::new(&mut b), cx)
        })
        .await;
        match f {
            None => return Some(out),
            Some(Err(_)) => return None,
            Some(Ok(f)) => {
                if let Ok(d) = f.into_data() {
                    out.extend_from_slice(&d);
                }
            }
        }
    }
}
