//! hyper HTTP/2 connections over simulated transports.
use crate::cli::{CliEnv, CliPart, Sender};
use crate::sim::*;
use crate::src::Src;
use crate::srv::*;
use http::Request;
use hyper::body::Incoming;
use hyper::client::conn::http2 as c2;
use hyper::server::conn::http2 as s2;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Debug, Default)]
pub struct H2Cfg {
    pub stream_window: Option<u32>,
    pub conn_window: Option<u32>,
    pub adaptive: bool,
    pub max_frame: Option<u32>,
    /// server: limit told to the peer
    pub max_streams: Option<u32>,
    pub send_buf: Option<usize>,
    pub table: Option<u32>,
    pub header_list: Option<u32>,
    pub no_date: bool,
    pub timer: bool,
    pub default_reset: bool,
    pub ka_interval: Option<Duration>,
    pub ka_timeout: Option<Duration>,
    pub connect: bool,
    /// client only
    pub initial_streams: Option<usize>,
    pub while_idle: bool,
    pub reset_streams: Option<usize>,
    pub pending_reset: Option<usize>,
    pub local_reset: Option<usize>,
    /// builder calls made after all of these
    pub calls: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub enum Opt {
    StreamWin(Option<u32>),
    ConnWin(Option<u32>),
    Adaptive(bool),
    MaxFrame(Option<u32>),
    Streams(Option<u32>),
    List(u32),
    Table(Option<u32>),
    Connect,
    Local(Option<usize>),
    Pending(Option<usize>),
    SendBuf(usize),
    Initial(Option<usize>),
    Interval(Option<Duration>),
    Date(bool),
}
impl H2Cfg {
    pub fn plain() -> Self {
        H2Cfg::default()
    }
    /// options that must not change what is delivered
    pub fn gen(s: &mut Src) -> Self {
        let mut c = H2Cfg::default();
        if s.chance(110) {
            c.stream_window = Some(*s.pick(&[1u32, 7, 100, 1000, 16_384, 40_000, 65_535, 65_536, 200_000]));
        }
        if s.chance(90) {
            c.conn_window = Some(*s.pick(&[65_535u32, 65_536, 70_000, 131_070, 1 << 20]));
        }
        c.adaptive = s.chance(30);
        if s.chance(60) {
            c.max_frame = Some(*s.pick(&[16_384u32, 16_385, 20_000, 65_536, (1 << 24) - 1]));
        }
        if s.chance(70) {
            c.max_streams = Some(*s.pick(&[1u32, 2, 3, 10]));
        }
        if s.chance(90) {
            c.send_buf = Some(*s.pick(&[1usize, 10, 100, 1000, 16_384, 65_536]));
        }
        if s.chance(40) {
            c.table = Some(*s.pick(&[0u32, 1, 64, 4096, 65_536]));
        }
        c.no_date = s.chance(64);
        c.timer = c.adaptive || s.chance(40);
        c.default_reset = s.chance(60);
        if s.chance(50) {
            c.initial_streams = Some(*s.pick(&[1usize, 2, 5, 100]));
        }
        c
    }
    pub fn server(&self, ex: &Exec) -> s2::Builder<Spawner> {
        let mut b = s2::Builder::new(ex.spawner.clone());
        if let Some(n) = self.stream_window {
            b.initial_stream_window_size(n);
        }
        if let Some(n) = self.conn_window {
            b.initial_connection_window_size(n);
        }
        if self.adaptive {
            b.adaptive_window(true);
        }
        if let Some(n) = self.max_frame {
            b.max_frame_size(n);
        }
        if let Some(n) = self.max_streams {
            b.max_concurrent_streams(n);
        }
        if let Some(n) = self.send_buf {
            b.max_send_buf_size(n);
        }
        if let Some(n) = self.table {
            b.header_table_size(n);
        }
        if let Some(n) = self.header_list {
            b.max_header_list_size(n);
        }
        if self.no_date {
            b.auto_date_header(false);
        }
        if self.timer {
            b.timer(SimTimer { clock: ex.clock.clone(), default_reset: self.default_reset });
        }
        if let Some(d) = self.ka_interval {
            b.keep_alive_interval(d);
        }
        if let Some(d) = self.ka_timeout {
            b.keep_alive_timeout(d);
        }
        if self.connect {
            b.enable_connect_protocol();
        }
        if let Some(n) = self.pending_reset {
            b.max_pending_accept_reset_streams(n);
        }
        if let Some(n) = self.local_reset {
            b.max_local_error_reset_streams(n);
        }
        for o in &self.calls {
            match o.clone() {
                Opt::StreamWin(n) => b.initial_stream_window_size(n),
                Opt::ConnWin(n) => b.initial_connection_window_size(n),
                Opt::Adaptive(n) => b.adaptive_window(n),
                Opt::MaxFrame(n) => b.max_frame_size(n),
                Opt::Streams(n) => b.max_concurrent_streams(n),
                Opt::List(n) => b.max_header_list_size(n),
                Opt::Table(n) => b.header_table_size(n),
                Opt::Local(n) => b.max_local_error_reset_streams(n),
                Opt::Pending(n) => b.max_pending_accept_reset_streams(n),
                Opt::SendBuf(n) => b.max_send_buf_size(n),
                Opt::Interval(n) => b.keep_alive_interval(n),
                Opt::Connect => b.enable_connect_protocol(),
                Opt::Date(n) => b.auto_date_header(n),
                _ => &mut b,
            };
        }
        b
    }
    pub fn client(&self, ex: &Exec) -> c2::Builder<Spawner> {
        let mut b = c2::Builder::new(ex.spawner.clone());
        if let Some(n) = self.stream_window {
            b.initial_stream_window_size(n);
        }
        if let Some(n) = self.conn_window {
            b.initial_connection_window_size(n);
        }
        if self.adaptive {
            b.adaptive_window(true);
        }
        if let Some(n) = self.max_frame {
            b.max_frame_size(n);
        }
        if let Some(n) = self.send_buf {
            b.max_send_buf_size(n);
        }
        if let Some(n) = self.table {
            b.header_table_size(n);
        }
        if let Some(n) = self.header_list {
            b.max_header_list_size(n);
        }
        if self.timer {
            b.timer(SimTimer { clock: ex.clock.clone(), default_reset: self.default_reset });
        }
        if let Some(d) = self.ka_interval {
            b.keep_alive_interval(d);
        }
        if let Some(d) = self.ka_timeout {
            b.keep_alive_timeout(d);
        }
        b.keep_alive_while_idle(self.while_idle);
        if let Some(n) = self.initial_streams {
            b.initial_max_send_streams(n);
        }
        if let Some(n) = self.reset_streams {
            b.max_concurrent_reset_streams(n);
        }
        if let Some(n) = self.pending_reset {
            b.max_pending_accept_reset_streams(n);
        }
        if let Some(n) = self.local_reset {
            b.max_local_error_reset_streams(n);
        }
        for o in &self.calls {
            match o.clone() {
                Opt::StreamWin(n) => b.initial_stream_window_size(n),
                Opt::ConnWin(n) => b.initial_connection_window_size(n),
                Opt::Adaptive(n) => b.adaptive_window(n),
                Opt::MaxFrame(n) => b.max_frame_size(n),
                Opt::Streams(n) => b.max_concurrent_streams(n),
                Opt::List(n) => b.max_header_list_size(n),
                Opt::Table(n) => b.header_table_size(n),
                Opt::Local(n) => b.max_local_error_reset_streams(n),
                Opt::Pending(n) => b.max_pending_accept_reset_streams(n),
                Opt::SendBuf(n) => b.max_send_buf_size(n),
                Opt::Interval(n) => b.keep_alive_interval(n),
                Opt::Initial(n) => b.initial_max_send_streams(n),
                _ => &mut b,
            };
        }
        b
    }
    pub fn show(&self) -> String {
        let t = format!("{self:?}");
        // only what was set
        t.trim_start_matches("H2Cfg { ").trim_end_matches(" }").split(", ").filter(|x| !x.ends_with("None") && !x.ends_with("false") && !x.ends_with("[]")).collect::<Vec<_>>().join(",")
    }
}

pub fn serve(ex: &mut Exec, cfg: &H2Cfg, io: SimIo, plans: PlanFn) -> SrvPart {
    let tx = io.tx.clone();
    serve_any(ex, cfg, io, &tx, plans)
}
pub fn serve_any<I: Transport>(ex: &mut Exec, cfg: &H2Cfg, io: I, tx: &PipeRef, plans: PlanFn) -> SrvPart {
    let calls: Rc<RefCell<Vec<Call>>> = Default::default();
    let stats: Rc<RefCell<Vec<Rc<RefCell<crate::body::BodyStat>>>>> = Default::default();
    let gate = Gate::default();
    let env = SvcEnv::new(ex, &calls, &stats, &gate, plans, tx);
    let svc = hyper::service::service_fn(move |r: Request<Incoming>| service(env.clone(), r));
    let (conn, end, ctl) = serve_with(ex, cfg, io, svc);
    SrvPart { conn, calls, stats, end, ctl, gate }
}

/// The same with any service.
pub fn serve_with<I, S, B>(ex: &mut Exec, cfg: &H2Cfg, io: I, svc: S) -> (usize, Rc<RefCell<Option<ConnEnd>>>, Rc<Ctl>)
where
    I: Transport,
    S: hyper::service::HttpService<Incoming, ResBody = B> + 'static,
    S::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
    S::Future: 'static,
    B: http_body::Body + 'static,
    B::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
{
    let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
    let ctl: Rc<Ctl> = Default::default();
    let c = cfg.server(ex).serve_connection(io, svc);
    let (e2, ctl2, clock) = (end.clone(), ctl.clone(), ex.clock.clone());
    let mut c = Box::pin(c);
    let conn = ex.spawn(async move {
        let r = std::future::poll_fn(|cx| {
            *ctl2.waker.borrow_mut() = Some(cx.waker().clone());
            if ctl2.graceful.take() {
                if let Some(f) = ctl2.on_take.borrow().as_ref() {
                    f()
                }
                c.as_mut().graceful_shutdown();
            }
            std::future::Future::poll(c.as_mut(), cx)
        })
        .await;
        *e2.borrow_mut() = Some(conn_end(r, clock.now()));
    });
    (conn, end, ctl)
}

pub fn connect<I: Transport>(ex: &mut Exec, cfg: &H2Cfg, io: I) -> CliPart {
    let b = cfg.client(ex);
    let end: Rc<RefCell<Option<ConnEnd>>> = Default::default();
    let env = CliEnv {
        sender: Default::default(),
        up: Gate::default(),
        calls: Default::default(),
        stats: Default::default(),
        end: end.clone(),
        ev: ex.events.clone(),
        sp: ex.spawner.clone(),
        hook: Default::default(),
        gate: Gate::default(),
    };
    let clock = ex.clock.clone();
    let (slot, up) = (env.sender.clone(), env.up.clone());
    let conn = ex.spawn(async move {
        match b.handshake::<_, crate::body::PlanBody>(io).await {
            Err(e) => {
                *end.borrow_mut() = Some(conn_end(Err(e), clock.now()));
                up.open();
            }
            Ok((sr, c)) => {
                *slot.borrow_mut() = Some(Sender::H2(sr));
                up.open();
                let r = c.await;
                *end.borrow_mut() = Some(conn_end(r, clock.now()));
            }
        }
    });
    CliPart { conn, env }
}
