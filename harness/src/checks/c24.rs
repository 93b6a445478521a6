//! HTTP/2: keep-alive pings, on a virtual clock.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, Outcome, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C24",
        run,
        quick: 300_000,
        thorough: 5_000_000,
        max_len: 400,
        rule: "a case is a hyper HTTP/2 server or client with or without keep-alive, interval and timeout generated, against a raw peer that opens, feeds and ends streams at generated virtual times and answers each ping after a generated delay, late, or never; non-trivial when keep-alive is on and at least one ping was sent, or off and the peer stays silent for long",
        must_labels: &["server", "client", "off", "on", "while-idle", "not-while-idle", "idle", "pinged", "answered-late", "dies", "dies-blocked", "dies-idle", "dies-ping-out", "open-at-death", "survives", "adaptive", "rescheduled"],
    }
}

const MS: Duration = Duration::from_millis(1);

#[derive(Clone, Debug)]
enum Act {
    /// a new stream / request
    Open,
    /// the peer sends more of the oldest (or another) open stream
    Data(usize, usize),
    /// response head (client only)
    Head(usize),
    End(usize),
    /// a frame that carries nothing
    Noise,
    /// the gates of hyper's outgoing bodies open
    Gates,
}

struct D<'a, 'b> {
    ex: Exec,
    h: IoHandle,
    peer: Peer,
    on: bool,
    client: bool,
    while_idle: bool,
    adaptive: bool,
    i: Duration,
    t: Duration,
    s: &'a mut Src<'b>,
    end: Box<dyn Fn() -> Option<ConnEnd>>,
    /// answers to come
    due: Vec<(Duration, [u8; 8])>,
    seen: usize,
    out: Option<Duration>,
    last_any: Duration,
    last_counted: Duration,
    open: Option<Duration>,
    late: Option<Duration>,
    dead: bool,
    blocked: bool,
    pings: usize,
    moved: bool,
    trace: Vec<String>,
}

impl D<'_, '_> {
    fn now(&self) -> Duration {
        self.ex.clock.now()
    }
    fn show(&self) -> String {
        format!("now={:?} interval={:?} timeout={:?} last={:?}/{:?} ping-out={:?} open-since={:?} end={:?} trace {} frames {}", self.now(), self.i, self.t, self.last_any, self.last_counted, self.out, self.open, (self.end)().map(|e| (e.at, e.text)), self.trace.join(" "), self.peer.show())
    }
    fn busy(&self) -> bool {
        self.peer.streams.values().any(|v| !(v.done() && (v.my_end || v.my_reset.is_some() || v.reset.is_some())))
    }
    fn sent(&mut self, counted: bool) {
        self.last_any = self.now();
        if counted {
            self.last_counted = self.now();
        }
    }
    /// all that happens at this instant
    fn settle(&mut self) -> R {
        loop {
            pump(&mut self.ex, &self.h, &mut self.peer).map_err(|e| Fail::new(e.0, e.1))?;
            let now = self.now();
            let was_open = self.open.is_some();
            if self.busy() {
                self.open.get_or_insert(now);
            }
            let active = !self.client || self.while_idle || self.open.is_some();
            while self.seen < self.peer.pings.len() {
                let b = self.peer.pings[self.seen];
                self.seen += 1;
                self.pings += 1;
                self.trace.push(format!("ping@{now:?}"));
                ensure!(self.on || self.adaptive, "ping-disabled", "a ping without keep-alive: {}", self.show());
                ensure!(self.out.is_none(), "double-ping", "a second ping: {}", self.show());
                if !self.adaptive {
                    ensure!(now >= self.last_counted + self.i, "early-ping", "a ping before the interval was over: {}", self.show());
                    ensure!(active || was_open, "idle-ping", "a ping while idle: {}", self.show());
                }
                self.out = Some(now);
                if self.dead || self.late.is_some() {
                    continue;
                }
                let t = self.t.as_millis() as u64;
                let d = match self.s.weighted(&[4, 2, 2, 1, 1]) {
                    0 => Some(0),
                    1 => Some(t / 2),
                    2 => Some(t - 1),
                    3 => Some(t + self.s.range(1, 50) as u64),
                    _ => None,
                };
                // an adaptive window's own pings have no deadline
                let d = if self.adaptive { Some(d.unwrap_or(0) % t) } else { d };
                match d {
                    Some(d) if d < t => self.due.push((now + MS * d as u32, b)),
                    Some(d) => {
                        self.late = Some(now + self.t);
                        self.due.push((now + MS * d as u32, b));
                    }
                    None => self.late = Some(now + self.t),
                }
            }
            if !self.busy() {
                self.open = None;
            }
            let now_due: Vec<_> = self.due.iter().filter(|d| d.0 <= now).map(|d| d.1).collect();
            self.due.retain(|d| d.0 > now);
            if now_due.is_empty() {
                break;
            }
            for b in now_due {
                self.trace.push(format!("pong@{now:?}"));
                self.peer.out.extend(ping(true, b));
                self.out = None;
                self.sent(true);
                self.moved = true;
            }
        }
        let now = self.now();
        match (self.end)() {
            Some(_) if self.dead => {}
            Some(e) => match self.late {
                Some(l) => ensure!(e.at == l, "closed-when", "closed at {:?}, not at {l:?}: {}", e.at, self.show()),
                None => fail!("closed", "a live peer was given up: {}", self.show()),
            },
            None => {
                if let Some(l) = self.late {
                    ensure!(now < l, "not-closed", "no answer for the whole timeout: {}", self.show());
                }
                if let (true, false, None) = (self.on, self.blocked, self.out) {
                    let since = if !self.client || self.while_idle { Some(Duration::ZERO) } else { self.open };
                    if let Some(s) = since {
                        ensure!(now < s.max(self.last_any) + self.i, "no-ping", "no ping after the interval: {}", self.show());
                    }
                }
            }
        }
        Ok(())
    }
    fn over(&self) -> bool {
        (self.end)().is_some()
    }
    fn until(&mut self, t: Duration) -> R {
        loop {
            self.settle()?;
            if self.over() && !self.dead || self.now() >= t {
                return Ok(());
            }
            let mut n = t;
            if let Some(d) = self.ex.clock.next_deadline() {
                n = n.min(d);
            }
            for d in &self.due {
                n = n.min(d.0);
            }
            self.ex.clock.advance_to(n);
        }
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let client = s.chance(128);
    cx.label(if client { "client" } else { "server" });
    let on = s.chance(224);
    cx.label(if on { "on" } else { "off" });
    let mut cfg = H2Cfg::plain();
    cfg.timer = true;
    cfg.default_reset = s.chance(60);
    cfg.adaptive = s.chance(30);
    cx.label_if(cfg.adaptive, "adaptive");
    let i = MS * *s.pick(&[1000u32, 10, 2, 100, 30_000]);
    let t = match s.weighted(&[1, 5]) {
        0 => Duration::from_secs(20),
        _ => {
            let t = MS * *s.pick(&[1000u32, 5, 2, 100, 3000]);
            cfg.ka_timeout = Some(t);
            t
        }
    };
    if on {
        cfg.ka_interval = Some(i);
    }
    cfg.while_idle = client && s.chance(100);
    if client {
        cx.label(if cfg.while_idle { "while-idle" } else { "not-while-idle" });
    }
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let (im, tm) = (i.as_millis() as u32, t.as_millis() as u32);
    let gaps = [0, 1, im / 3, im - 1, im, im + 1, 2 * im, im + tm, 50, tm].map(|g: u32| g.min(25 * im));
    let mut acts = vec![];
    for _ in 0..s.below(14) {
        let gap = *s.pick(&gaps);
        let k = s.below(4);
        acts.push((
            gap,
            match s.weighted(&[4, 4, 2, 3, 2, 1]) {
                0 => Act::Open,
                1 => Act::Data(k, *s.pick(&[1usize, 1000, 30_000])),
                2 => Act::Head(k),
                3 => Act::End(k),
                4 => Act::Noise,
                _ => Act::Gates,
            },
        ));
    }
    // how it ends: the peer goes silent, or everything is finished properly
    let dies = s.chance(140);
    let block = dies && s.chance(110);
    let big = s.chance(80);
    let die_gap = *s.pick(&gaps);
    let revive = s.chance(60);
    let nreq = acts.iter().filter(|a| matches!(a.1, Act::Open)).count() + 2;
    let gates: Vec<Gate> = (0..nreq).map(|_| Gate::default()).collect();
    let sizes: Vec<usize> = (0..nreq).map(|_| if big { 200_000 } else { *s.pick(&[0usize, 10, 3000]) }).collect();
    let wait: Vec<bool> = (0..nreq).map(|_| s.chance(128)).collect();
    cx.describe(|| format!("{} {} on={on} i={i:?} t={t:?} dies={dies} block={block} after {die_gap} revive={revive} io[{}] sizes={sizes:?} wait={wait:?} acts {acts:?}", if client { "client" } else { "server" }, cfg.show(), ic.show()));

    let mut ex = Exec::new(Plan::gen(s, 4));
    ex.max_polls = 500_000;
    let (io, h) = scripted(&ex.events, &ic);
    let body = |k: usize| {
        let mut steps = vec![];
        if wait[k] {
            steps.push(Step::Gate(gates[k].clone()));
        }
        if sizes[k] > 0 {
            steps.push(Step::Data(Bytes::from(payload(k as u8, sizes[k])), 1));
        }
        BodyPlan { steps, hint: if wait[k] { Hint::Unknown } else { Hint::Exact }, honest_end: true }
    };
    let sp;
    let cp;
    let endf: Box<dyn Fn() -> Option<ConnEnd>>;
    if client {
        let c = h2::connect(&mut ex, &cfg, io);
        let e = c.env.end.clone();
        endf = Box::new(move || e.borrow().clone());
        (sp, cp) = (None, Some(c));
    } else {
        let plans: BTreeMap<String, RespPlan> = (0..nreq)
            .map(|k| {
                let mut p = RespPlan::simple();
                p.version = http::Version::HTTP_2;
                p.body = body(k);
                p.read = if k % 2 == 0 { ReadPlan::All } else { ReadPlan::Background };
                (format!("/{k}"), p)
            })
            .collect();
        let pf: PlanFn = Rc::new(move |_, parts| plans.get(parts.uri.path()).cloned().unwrap_or_else(RespPlan::simple));
        let p = h2::serve(&mut ex, &cfg, io, pf);
        let e = p.end.clone();
        endf = Box::new(move || e.borrow().clone());
        (sp, cp) = (Some(p), None);
    }
    let mut peer = Peer::new(client);
    peer.auto_ping = false;
    peer.hello(&[]);
    peer.give(0, 5_000_000);
    let mut d = D {
        ex,
        h,
        peer,
        on,
        client,
        while_idle: cfg.while_idle,
        adaptive: cfg.adaptive,
        i,
        t,
        s,
        end: endf,
        due: vec![],
        seen: 0,
        out: None,
        last_any: Duration::ZERO,
        last_counted: Duration::ZERO,
        open: None,
        late: None,
        dead: false,
        blocked: false,
        pings: 0,
        moved: false,
        trace: vec![],
    };
    d.settle()?;
    let mut opened = 0;
    let mut idx = vec![];
    // what each stream was sent
    let mut sent: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut sids: Vec<u32> = vec![];
    macro_rules! open {
        () => {{
            let k = opened;
            opened += 1;
            if let Some(cp) = &cp {
                let mut p = ReqPlan::get();
                p.version = http::Version::HTTP_2;
                p.method = "POST".into();
                p.uri = format!("http://a.test/{k}");
                p.body = body(k);
                let n = cli::Cli::slot(&cp.env);
                idx.push(n);
                cli::one(&mut d.ex, &cp.env, p, n);
                if !d.blocked {
                    pump(&mut d.ex, &d.h, &mut d.peer).map_err(|e| Fail::new(e.0, e.1))?;
                    sids.push(d.peer.max_sid);
                }
            } else {
                let sid = d.peer.open(&super::c20::req_fields("POST", &format!("/{k}"), &[]), false);
                sids.push(sid);
                d.sent(true);
            }
        }};
    }
    for (gap, a) in &acts {
        d.until(d.now() + MS * *gap)?;
        if d.over() {
            break;
        }
        d.trace.push(format!("{a:?}@{:?}", d.now()));
        let pick = |d: &D, k: usize| -> Option<u32> {
            let l: Vec<u32> = sids.iter().copied().filter(|sid| d.peer.streams.get(sid).is_some_and(|v| !v.my_end && v.reset.is_none() && v.tail.is_none())).collect();
            if l.is_empty() {
                None
            } else {
                Some(l[k % l.len()])
            }
        };
        match a {
            Act::Open => open!(),
            Act::Data(k, n) => {
                if let Some(sid) = pick(&d, *k) {
                    if client && !sent.contains_key(&sid) {
                        d.peer.headers(sid, &fields(&[(":status", "200")]), false);
                        sent.insert(sid, vec![]);
                    }
                    let b = payload(sid as u8, *n);
                    let n0 = d.peer.sent;
                    d.peer.send(sid, &b, false);
                    sent.entry(sid).or_default().extend(b);
                    d.settle()?;
                    if d.peer.sent > n0 {
                        d.sent(true);
                    }
                }
            }
            Act::Head(k) => {
                if let Some(sid) = pick(&d, *k) {
                    if client && !sent.contains_key(&sid) {
                        d.peer.headers(sid, &fields(&[(":status", "200")]), false);
                        sent.insert(sid, vec![]);
                        d.sent(true);
                    }
                }
            }
            Act::End(k) => {
                if let Some(sid) = pick(&d, *k) {
                    if client && !sent.contains_key(&sid) {
                        d.peer.headers(sid, &fields(&[(":status", "200")]), true);
                        sent.insert(sid, vec![]);
                        d.sent(true);
                    } else {
                        d.peer.send(sid, b"", true);
                        d.sent(false);
                    }
                }
            }
            Act::Noise => {
                d.peer.give(0, 1);
                d.sent(false);
            }
            Act::Gates => gates.iter().for_each(|g| g.open()),
        }
        d.settle()?;
    }
    d.until(d.now() + MS * die_gap)?;
    cx.label_if(d.pings > 0, "pinged");
    cx.label_if(d.moved && d.pings > 1, "rescheduled");
    let calls_end = |sig: &'static str, d: &D| -> R {
        // nothing may be left hanging
        ensure!(d.h.dropped() || d.h.shutdown(), sig, "the transport was kept: {}", d.show());
        Ok(())
    };
    let mut timed_out = false;
    if d.over() {
        cx.label("answered-late");
        timed_out = true;
    } else if dies {
        cx.label("dies");
        d.dead = true;
        d.due.clear();
        let now = d.now();
        let was_late = d.late;
        d.trace.push(format!("dies@{now:?}"));
        cx.label_if(d.out.is_some(), "dies-ping-out");
        cx.label_if(d.open.is_some(), "open-at-death");
        cx.label_if(d.open.is_none(), "dies-idle");
        if block {
            cx.label("dies-blocked");
            d.blocked = true;
            set_cap(&d.h.tx, 0);
            if big {
                gates.iter().for_each(|g| g.open());
            }
        }
        let mut since = d.open;
        if client && revive && opened < nreq {
            // a request made to a dead peer
            open!();
            since = Some(since.unwrap_or(now));
        }
        let far = now + (d.i + d.t) * 6;
        let active = !client || cfg.while_idle || since.is_some();
        // the window in which the connection is to be given up
        let window = if !on {
            None
        } else if let Some(p) = d.out {
            Some((p + d.t, if d.adaptive { d.last_any.max(p).max(now) + d.i + d.t } else { p + d.t }))
        } else if active {
            let s0 = since.unwrap_or(now).max(Duration::ZERO);
            let hi = if !client || cfg.while_idle { d.last_any } else { d.last_any.max(s0) };
            Some((d.last_counted + d.i + d.t, hi + d.i + d.t))
        } else {
            None
        };
        let _ = was_late;
        d.until(far)?;
        // with its response complete and its upload buffered, a stream may count as closed
        let revived = client && opened > sids.len();
        // (and an adaptive window's ping without open streams has no deadline)
        let sure = (active || !d.adaptive) && (!client || cfg.while_idle || !block || revived || d.peer.streams.values().any(|v| !v.my_end && v.reset.is_none()));
        match (window, (d.end)()) {
            (Some(_), None) if !sure => {}
            (Some((lo, hi)), Some(e)) => {
                ensure!(e.at >= lo || d.adaptive, "early-close", "given up at {:?}, before {lo:?}: {}", e.at, d.show());
                ensure!(e.at <= hi, "late-close", "given up at {:?}, after {hi:?}: {}", e.at, d.show());
                timed_out = true;
            }
            (Some((_, hi)), None) => fail!("not-closed", "a dead peer was not noticed by {hi:?}: {}", d.show()),
            (None, Some(e)) => fail!("closed", "ended at {:?} without a reason: {}", e.at, d.show()),
            (None, None) => cx.label("idle"),
        }
    } else {
        // everything finishes
        gates.iter().for_each(|g| g.open());
        for sid in sids.clone() {
            let Some(v) = d.peer.streams.get(&sid) else { continue };
            if v.my_end || v.reset.is_some() {
                continue;
            }
            if client && !sent.contains_key(&sid) {
                d.peer.headers(sid, &fields(&[(":status", "200")]), true);
                sent.insert(sid, vec![]);
                d.sent(true);
            } else {
                d.peer.send(sid, b"", true);
                d.sent(false);
            }
            d.settle()?;
        }
        d.until(d.now() + MS)?;
        if !d.over() {
            d.until(d.now() + ((d.i + d.t) * 4).min(d.i * 40))?;
        }
        if d.over() {
            cx.label("answered-late");
            timed_out = true;
        } else if d.late.is_none() {
            cx.label("survives");
            for sid in &sids {
                let v = &d.peer.streams[sid];
                ensure!(v.ended && v.reset.is_none(), "unfinished", "stream {sid}: {}", d.show());
            }
            if let Some(cp) = &cp {
                for (c, sid) in cp.env.calls.borrow().iter().zip(&sids) {
                    ensure!(c.resp().is_some() && c.got.clean() && c.got.data == sent[sid], "unfinished", "request: {}: {}", c.show(), d.show());
                }
            }
            if let Some(sp) = &sp {
                for (c, sid) in sp.calls.borrow().iter().zip(&sids) {
                    ensure!(c.got.clean() && c.got.data == *sent.entry(*sid).or_default(), "unfinished", "request {}: {}", c.uri, d.show());
                }
            }
        }
    }
    cx.nontrivial |= on && d.pings > 0 || !on && d.now() > d.last_any + d.i * 2;
    if timed_out {
        let e = (d.end)().unwrap();
        d.settle()?;
        calls_end("not-shutdown", &d)?;
        if let Some(cp) = &cp {
            for c in cp.env.calls.borrow().iter() {
                match &c.out {
                    None => fail!("hangs", "a request is still pending: {}", d.show()),
                    Some(Outcome::Resp(_)) => ensure!(c.got.ended || c.got.err.is_some(), "hangs", "a body is still pending: {}", d.show()),
                    Some(Outcome::Err { kinds, text, .. }) => ensure!(kinds.contains("timeout"), "kind", "the request failed with {text}: {}", d.show()),
                    Some(Outcome::NotReady(_)) => {}
                }
            }
        }
        if let Some(sp) = &sp {
            ensure!(!e.ok && e.kinds.contains("timeout"), "kind", "ended with {} {}: {}", e.kinds, e.text, d.show());
            gates.iter().for_each(|g| g.open());
            d.settle()?;
            for c in sp.calls.borrow().iter() {
                ensure!(c.got.ended || c.got.err.is_some() || c.fut_dropped, "hangs", "a request body is still pending: {}", d.show());
            }
        }
        ensure!(d.ex.live() == 0, "leftover", "{} tasks are left: {}", d.ex.live(), d.show());
    }
    Ok(())
}
