//! A hyper HTTP/1 client connection with planned requests.
use crate::body::{err_kinds, next_frame_noting, poll_on, BodyPlan, BodyStat, Got, Hint, PlanBody};
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::{conn_end, header_list, header_map, ConnEnd, ReadPlan};
use http::{Method, Request, Response, Uri, Version};
use http_body::Body;
use hyper::body::Incoming;
use hyper::client::conn::{http1, http2, TrySendError};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct CliCfg {
    pub max_headers: Option<usize>,
    pub max_buf: Option<usize>,
    pub read_exact: Option<usize>,
    pub writev: Option<bool>,
    pub title_case: bool,
    pub preserve_case: bool,
    pub ignore_invalid: bool,
    pub spaces_after_name: bool,
    pub obs_fold: bool,
    pub h09: bool,
    pub upgrades: bool,
}
impl CliCfg {
    pub fn plain() -> Self {
        CliCfg {
            max_headers: None,
            max_buf: None,
            read_exact: None,
            writev: None,
            title_case: false,
            preserve_case: false,
            ignore_invalid: false,
            spaces_after_name: false,
            obs_fold: false,
            h09: false,
            upgrades: false,
        }
    }
    /// options that must not change what is delivered
    pub fn gen_neutral(s: &mut Src) -> Self {
        let mut c = CliCfg::plain();
        c.writev = *s.pick(&[None, Some(true), Some(false)]);
        c.title_case = s.chance(40);
        c.preserve_case = s.chance(40);
        c.upgrades = s.chance(64);
        match s.weighted(&[5, 1, 1]) {
            0 => {}
            1 => c.max_buf = Some(*s.pick(&[8192, 8193, 16384, 65536])),
            _ => c.read_exact = Some(*s.pick(&[32768, 65536, 40000])),
        }
        c
    }
    pub fn builder(&self) -> http1::Builder {
        let mut b = http1::Builder::new();
        b.title_case_headers(self.title_case)
            .preserve_header_case(self.preserve_case)
            .ignore_invalid_headers_in_responses(self.ignore_invalid)
            .allow_spaces_after_header_name_in_responses(self.spaces_after_name)
            .allow_obsolete_multiline_headers_in_responses(self.obs_fold)
            .http09_responses(self.h09);
        if let Some(n) = self.max_headers {
            b.max_headers(n);
        }
        if let Some(n) = self.read_exact {
            b.read_buf_exact_size(Some(n));
        }
        if let Some(n) = self.max_buf {
            b.max_buf_size(n);
        }
        if let Some(v) = self.writev {
            b.writev(v);
        }
        b
    }
    pub fn show(&self) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Debug)]
pub struct ReqPlan {
    pub method: String,
    pub uri: String,
    pub version: Version,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: BodyPlan,
    pub read: ReadPlan,
    pub pauses: Plan,
    pub try_send: bool,
    /// register an informational callback
    pub interim: bool,
    /// wait for readiness first (sequences)
    pub ready: bool,
    /// opened by the first informational response
    pub interim_gate: Option<Gate>,
    /// opened once that many bytes of the response body were taken (0: the head came)
    pub reply_gates: Vec<(usize, Gate)>,
    /// deferred wake-ups before the request is handed over (concurrent use)
    pub delay: usize,
    /// everything about the request is dropped after that many deferred wake-ups
    pub cancel: Option<usize>,
    /// the same, when the gate opens
    pub cancel_gate: Option<Gate>,
}
impl ReqPlan {
    pub fn get() -> Self {
        ReqPlan {
            method: "GET".into(),
            uri: "/".into(),
            version: Version::HTTP_11,
            headers: vec![],
            body: BodyPlan { steps: vec![], hint: Hint::Exact, honest_end: true },
            read: ReadPlan::All,
            pauses: Plan::none(),
            try_send: false,
            interim: false,
            ready: true,
            interim_gate: None,
            reply_gates: vec![],
            delay: 0,
            cancel: None,
            cancel_gate: None,
        }
    }
    pub fn show(&self) -> String {
        let hs: Vec<String> = self.headers.iter().map(|(n, v)| format!("{n}:{}", show(v))).collect();
        let c = self.cancel.map(|n| format!(" cancel@{n}")).unwrap_or_default();
        format!("{{{} {} {:?} hdrs=[{}] body={} read={:?}{c}{}}}", self.method, self.uri, self.version, hs.join(";"), self.body.show(), self.read, if self.cancel_gate.is_some() { " cancel@gate" } else { "" })
    }
}

#[derive(Clone, Debug)]
pub struct RespHead {
    pub status: u16,
    pub version: Version,
    pub headers: Vec<(String, Vec<u8>)>,
    pub reason: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Resp(RespHead),
    Err { kinds: String, text: String, returned: bool },
    /// readiness reported the connection dead: the request was never handed over
    NotReady(String),
}
#[derive(Clone, Debug, Default)]
pub struct CCall {
    pub sent: bool,
    pub out: Option<Outcome>,
    pub got: Got,
    pub hint: (u64, Option<u64>),
    pub end_at_start: bool,
    pub read_done: bool,
    pub interim: Arc<Mutex<Vec<(u16, Version, Vec<(String, Vec<u8>)>)>>>,
    pub body_dropped: bool,
    /// a request handed back is not what was submitted
    pub mangled: Option<String>,
    pub gates: Vec<(usize, Gate)>,
    pub cancelled: bool,
}
impl CCall {
    pub fn resp(&self) -> Option<&RespHead> {
        match &self.out {
            Some(Outcome::Resp(r)) => Some(r),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match &self.out {
            None => format!("pending(sent={})", self.sent),
            Some(Outcome::Resp(r)) => format!("{} body={} ended={} err={:?}", r.status, self.got.data.len(), self.got.ended, self.got.err),
            Some(Outcome::Err { text, .. }) => format!("error {text}"),
            Some(Outcome::NotReady(t)) => format!("not ready: {t}"),
        }
    }
}

pub type Hook = Rc<dyn Fn(usize, &mut Response<Incoming>)>;

pub enum Sender {
    H1(http1::SendRequest<PlanBody>),
    H2(http2::SendRequest<PlanBody>),
}
impl Sender {
    pub fn is_ready(&self) -> bool {
        match self {
            Sender::H1(s) => s.is_ready(),
            Sender::H2(s) => s.is_ready(),
        }
    }
    pub fn is_closed(&self) -> bool {
        match self {
            Sender::H1(s) => s.is_closed(),
            Sender::H2(s) => s.is_closed(),
        }
    }
    pub fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<hyper::Result<()>> {
        match self {
            Sender::H1(s) => s.poll_ready(cx),
            Sender::H2(s) => s.poll_ready(cx),
        }
    }
    fn send(&mut self, r: Request<PlanBody>) -> Pin<Box<dyn Future<Output = hyper::Result<Response<Incoming>>>>> {
        match self {
            Sender::H1(s) => Box::pin(s.send_request(r)),
            Sender::H2(s) => Box::pin(s.send_request(r)),
        }
    }
    fn try_send(&mut self, r: Request<PlanBody>) -> Pin<Box<dyn Future<Output = Result<Response<Incoming>, TrySendError<Request<PlanBody>>>>>> {
        match self {
            Sender::H1(s) => Box::pin(s.try_send_request(r)),
            Sender::H2(s) => Box::pin(s.try_send_request(r)),
        }
    }
    pub fn h2(&self) -> Option<http2::SendRequest<PlanBody>> {
        match self {
            Sender::H2(s) => Some(s.clone()),
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct CliEnv {
    pub sender: Rc<RefCell<Option<Sender>>>,
    /// open once there is a sender
    pub up: Gate,
    pub calls: Rc<RefCell<Vec<CCall>>>,
    pub stats: Rc<RefCell<Vec<Rc<RefCell<BodyStat>>>>>,
    pub end: Rc<RefCell<Option<ConnEnd>>>,
    pub ev: Events,
    pub sp: Spawner,
    pub hook: Rc<RefCell<Option<Hook>>>,
    pub gate: Gate,
}
pub struct Cli {
    pub ex: Exec,
    pub io: IoHandle,
    pub conn: usize,
    pub env: CliEnv,
}

pub fn build_request(env: &CliEnv, p: &ReqPlan, idx: usize) -> Request<PlanBody> {
    let body = p.body.build(&env.ev);
    {
        let mut st = env.stats.borrow_mut();
        while st.len() <= idx {
            st.push(Default::default());
        }
        st[idx] = body.stat.clone();
    }
    let mut r = Request::new(body);
    *r.method_mut() = Method::from_bytes(p.method.as_bytes()).expect("method");
    *r.uri_mut() = p.uri.parse::<Uri>().expect("uri");
    *r.version_mut() = p.version;
    *r.headers_mut() = header_map(&p.headers);
    if p.interim {
        let log = env.calls.borrow()[idx].interim.clone();
        let g = p.interim_gate.clone();
        hyper::ext::on_informational(&mut r, move |resp| {
            if let Some(g) = &g {
                g.open()
            }
            log.lock().unwrap().push((resp.status().as_u16(), resp.version(), header_list(resp.headers())));
        });
    }
    r
}

type RespFut = Pin<Box<dyn Future<Output = Result<Response<Incoming>, (hyper::Error, bool)>>>>;
/// Hand the request to hyper now.
pub fn hand_over(env: &CliEnv, p: &ReqPlan, idx: usize) -> Option<RespFut> {
    let r = build_request(env, p, idx);
    let mut g = env.sender.borrow_mut();
    let sr = g.as_mut()?;
    env.calls.borrow_mut()[idx].sent = true;
    if p.try_send {
        let f = sr.try_send(r);
        let (env, p) = (env.clone(), p.clone());
        Some(Box::pin(async move {
            f.await.map_err(|mut e| {
                let back = e.take_message();
                if let Some(r) = &back {
                    let same = r.method().as_str() == p.method
                        && r.uri() == &p.uri.parse::<Uri>().expect("uri")
                        && r.version() == p.version
                        && r.headers() == &header_map(&p.headers)
                        && r.body().stat.borrow().polls == 0
                        && r.body().remaining() == p.body.len() as u64;
                    if !same {
                        env.calls.borrow_mut()[idx].mangled = Some(format!("{r:?}"));
                    }
                }
                (e.into_error(), back.is_some())
            })
        }))
    } else {
        let f = sr.send(r);
        Some(Box::pin(async move { f.await.map_err(|e| (e, false)) }))
    }
}

async fn read_resp(env: CliEnv, idx: usize, mut body: Incoming, frames: usize, mut pauses: Plan) -> Incoming {
    let mut n = 0;
    let gates = env.calls.borrow()[idx].gates.clone();
    while n < frames {
        n += 1;
        let f = next_frame_noting(&mut body, &env.ev, &mut pauses, |b| env.calls.borrow_mut()[idx].got.observe(b)).await;
        let over = env.calls.borrow_mut()[idx].got.absorb(f);
        let have = env.calls.borrow()[idx].got.data.len();
        crate::srv::open_gates(&gates, have);
        if over {
            let clean = env.calls.borrow()[idx].got.ended;
            let after = poll_on(&mut body, clean);
            env.calls.borrow_mut()[idx].got.after = after;
            break;
        }
    }
    env.calls.borrow_mut()[idx].got.observe(&body);
    body
}

/// Await the response and deal with its body; returns when the next request of a sequence may go.
pub async fn finish(env: CliEnv, p: ReqPlan, idx: usize, fut: RespFut) {
    match fut.await {
        Err((e, returned)) => {
            env.calls.borrow_mut()[idx].out = Some(Outcome::Err { kinds: err_kinds(&e), text: format!("{e:?}"), returned });
        }
        Ok(mut r) => {
            {
                let mut c = env.calls.borrow_mut();
                let c = &mut c[idx];
                c.out = Some(Outcome::Resp(RespHead {
                    status: r.status().as_u16(),
                    version: r.version(),
                    headers: header_list(r.headers()),
                    reason: r.extensions().get::<hyper::ext::ReasonPhrase>().map(|x| x.as_bytes().to_vec()),
                }));
                let h = r.body().size_hint();
                c.hint = (h.lower(), h.upper());
                c.end_at_start = r.body().is_end_stream();
                c.got = Got::new();
                c.gates = p.reply_gates.clone();
            }
            crate::srv::open_gates(&p.reply_gates, 0);
            let h = env.hook.borrow().clone();
            if let Some(h) = h {
                h(idx, &mut r);
            }
            let body = r.into_body();
            let done = |env: &CliEnv| {
                let mut c = env.calls.borrow_mut();
                c[idx].read_done = true;
                c[idx].body_dropped = true;
            };
            match p.read {
                ReadPlan::All => {
                    drop(read_resp(env.clone(), idx, body, usize::MAX, p.pauses).await);
                    done(&env);
                }
                ReadPlan::Drop => {
                    drop(body);
                    done(&env);
                }
                ReadPlan::Frames(n) => {
                    drop(read_resp(env.clone(), idx, body, n, p.pauses).await);
                    done(&env);
                }
                ReadPlan::Background | ReadPlan::FramesThenBackground(_) => {
                    let b = match p.read {
                        ReadPlan::FramesThenBackground(n) => read_resp(env.clone(), idx, body, n, p.pauses.clone()).await,
                        _ => body,
                    };
                    if env.calls.borrow()[idx].got.over() {
                        done(&env);
                        return;
                    }
                    let (e2, ps) = (env.clone(), p.pauses.clone());
                    env.sp.spawn(async move {
                        drop(read_resp(e2.clone(), idx, b, usize::MAX, ps).await);
                        let mut c = e2.calls.borrow_mut();
                        c[idx].read_done = true;
                        c[idx].body_dropped = true;
                    });
                }
                ReadPlan::Gated(n) => {
                    let b = read_resp(env.clone(), idx, body, n, p.pauses.clone()).await;
                    if !env.calls.borrow()[idx].got.over() {
                        env.gate.wait().await;
                        drop(read_resp(env.clone(), idx, b, usize::MAX, p.pauses).await);
                    }
                    done(&env);
                }
                ReadPlan::Hold | ReadPlan::BackgroundGated | ReadPlan::PollOnce => {
                    // kept unread for the rest of the case
                    let e2 = env.clone();
                    env.sp.spawn(async move {
                        let b = body;
                        std::future::pending::<()>().await;
                        drop(b);
                        drop(e2);
                    });
                }
            }
        }
    }
}

pub struct CliPart {
    pub conn: usize,
    pub env: CliEnv,
}

pub fn now<F: Future>(f: F) -> Option<F::Output> {
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(v) => Some(v),
        _ => None,
    }
}

impl Cli {
    pub fn start(cfg: &CliCfg, io_cfg: &IoCfg, sched: Plan) -> Cli {
        let mut ex = Exec::new(sched);
        let (io, h) = scripted(&ex.events, io_cfg);
        lock(&h.tx).cap = io_cfg.cap;
        let p = Cli::start_on(&mut ex, cfg, io);
        Cli { ex, io: h, conn: p.conn, env: p.env }
    }
    pub fn start_on<I: Transport>(ex: &mut Exec, cfg: &CliCfg, io: I) -> CliPart {
        let (sr, c) = now(cfg.builder().handshake::<_, PlanBody>(io)).expect("handshake is immediate").expect("handshake");
        let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
        let env = CliEnv {
            sender: Rc::new(RefCell::new(Some(Sender::H1(sr)))),
            up: Gate::opened(),
            calls: Default::default(),
            stats: Default::default(),
            end: end.clone(),
            ev: ex.events.clone(),
            sp: ex.spawner.clone(),
            hook: Default::default(),
            gate: Gate::default(),
        };
        let clock = ex.clock.clone();
        let conn = if cfg.upgrades {
            ex.spawn(async move {
                let r = c.with_upgrades().await;
                *end.borrow_mut() = Some(conn_end(r, clock.now()));
            })
        } else {
            ex.spawn(async move {
                let r = c.await;
                *end.borrow_mut() = Some(conn_end(r, clock.now()));
            })
        };
        CliPart { conn, env }
    }
    pub fn slot(env: &CliEnv) -> usize {
        let mut c = env.calls.borrow_mut();
        c.push(CCall { got: Got::new(), ..CCall::default() });
        c.len() - 1
    }
    /// Hand a request over immediately; returns (call index, task)
    pub fn send(&mut self, p: &ReqPlan) -> (usize, usize) {
        let idx = Cli::slot(&self.env);
        let env = self.env.clone();
        let p2 = p.clone();
        match hand_over(&env, p, idx) {
            Some(f) => {
                let t = self.ex.spawn(finish(env, p2, idx, f));
                (idx, t)
            }
            None => {
                env.calls.borrow_mut()[idx].out = Some(Outcome::NotReady("sender dropped".into()));
                let t = self.ex.spawn(async {});
                (idx, t)
            }
        }
    }
    pub fn ended(&self) -> Option<ConnEnd> {
        self.env.end.borrow().clone()
    }
    /// whether the sender says it can take a request now
    pub fn ready_now(&self) -> Option<bool> {
        self.env.sender.borrow().as_ref().map(|s| s.is_ready())
    }
    pub fn closed_now(&self) -> Option<bool> {
        self.env.sender.borrow().as_ref().map(|s| s.is_closed())
    }
    pub fn drop_sender(&self) {
        let s = self.env.sender.borrow_mut().take();
        drop(s);
    }
    pub fn show_state(&self) -> String {
        let c = self.env.calls.borrow();
        let v: Vec<String> = c.iter().map(|x| x.show()).collect();
        format!("calls={:?} end={:?} sent={}", v, self.env.end.borrow().as_ref().map(|e| if e.ok { "ok".to_string() } else { e.text.clone() }), show(&self.io.output()))
    }
}

/// Run the requests one after another from one task; slots are reserved up front.
pub fn sequence(ex: &mut Exec, env: &CliEnv, plans: Vec<ReqPlan>) -> usize {
    let first = env.calls.borrow().len();
    for _ in &plans {
        Cli::slot(env);
    }
    let env = env.clone();
    ex.spawn(async move {
        for (k, p) in plans.into_iter().enumerate() {
            let idx = first + k;
            if p.ready {
                let r = std::future::poll_fn(|cx| {
                    burn();
                    match env.sender.borrow_mut().as_mut() {
                        Some(s) => s.poll_ready(cx).map_err(|e| format!("{e:?}")),
                        None => std::task::Poll::Ready(Err("sender dropped".into())),
                    }
                })
                .await;
                if let Err(e) = r {
                    env.calls.borrow_mut()[idx].out = Some(Outcome::NotReady(e));
                    continue;
                }
            }
            match hand_over(&env, &p, idx) {
                Some(f) => finish(env.clone(), p, idx, f).await,
                None => env.calls.borrow_mut()[idx].out = Some(Outcome::NotReady("sender dropped".into())),
            }
        }
    })
}

pub fn at_zero() -> Duration {
    Duration::ZERO
}

/// Run the requests at the same time, each from a task of its own.
pub fn concurrent(ex: &mut Exec, env: &CliEnv, plans: Vec<ReqPlan>) -> Vec<usize> {
    let mut out = vec![];
    for p in plans {
        let idx = Cli::slot(env);
        out.push(one(ex, env, p, idx));
    }
    out
}
pub fn one(ex: &mut Exec, env: &CliEnv, p: ReqPlan, idx: usize) -> usize {
    let env = env.clone();
    let (cancel, cgate, ev) = (p.cancel, p.cancel_gate.clone(), env.ev.clone());
    let e2 = env.clone();
    let body = async move {
        env.up.wait().await;
        if p.delay > 0 {
            delay(&env.ev, p.delay).await;
        }
        if p.ready {
            let r = std::future::poll_fn(|cx| {
                burn();
                match env.sender.borrow_mut().as_mut() {
                    Some(s) => s.poll_ready(cx).map_err(|e| format!("{e:?}")),
                    None => std::task::Poll::Ready(Err("sender dropped".into())),
                }
            })
            .await;
            if let Err(e) = r {
                env.calls.borrow_mut()[idx].out = Some(Outcome::NotReady(e));
                return;
            }
        }
        match hand_over(&env, &p, idx) {
            Some(f) => finish(env.clone(), p, idx, f).await,
            None => env.calls.borrow_mut()[idx].out = Some(Outcome::NotReady("sender dropped".into())),
        }
    };
    ex.spawn(async move {
        let mut body = Some(Box::pin(body));
        let mut d = cancel.map(|n| Box::pin(delay(&ev, n)));
        let mut g = cgate.map(|g| Box::pin(async move { g.wait().await }));
        std::future::poll_fn(|cx| {
            let cut = d.as_mut().is_some_and(|d| d.as_mut().poll(cx).is_ready()) || g.as_mut().is_some_and(|g| g.as_mut().poll(cx).is_ready());
            if cut {
                drop(body.take());
                e2.calls.borrow_mut()[idx].cancelled = true;
                return std::task::Poll::Ready(());
            }
            body.as_mut().expect("polled after end").as_mut().poll(cx)
        })
        .await
    })
}
