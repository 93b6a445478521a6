//! Deterministic world: executor, deferred wake-ups, virtual clock, transports.
use crate::src::Src;
use bytes::Bytes;
use hyper::rt::{Read, ReadBufCursor, Sleep, Timer, Write};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(0) };
}
const FUEL_PER_POLL: u64 = 1_500_000;

/// Called by every simulated operation; bounds the work done inside one poll.
pub fn burn() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(FUEL_PER_POLL);
            panic!("[sim] one poll performed more than {FUEL_PER_POLL} transport/body operations");
        }
        f.set(v - 1);
    })
}
pub fn refuel() {
    FUEL.with(|f| f.set(FUEL_PER_POLL));
}

// ---------------------------------------------------------------- plans

/// A cyclic pattern of decision bytes; the empty plan always answers 0.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pat: Vec<u8>,
    i: usize,
}
impl Plan {
    pub fn none() -> Self {
        Plan::default()
    }
    pub fn new(pat: Vec<u8>) -> Self {
        if pat.iter().all(|b| *b == 0) {
            Plan::default()
        } else {
            Plan { pat, i: 0 }
        }
    }
    pub fn gen(s: &mut Src, max: usize) -> Self {
        let n = s.below(max + 1);
        Plan::new(s.bytes(n))
    }
    pub fn is_none(&self) -> bool {
        self.pat.is_empty()
    }
    pub fn next(&mut self) -> u8 {
        if self.pat.is_empty() {
            return 0;
        }
        let cyc = self.i / self.pat.len();
        let b = self.pat[self.i % self.pat.len()] ^ (cyc as u8).wrapping_mul(151);
        self.i += 1;
        b
    }
}

/// What a single transport operation may do.
#[derive(Clone, Debug)]
pub struct OpPlan {
    style: u8,
    plan: Plan,
    pendings: u8,
}
pub enum Op {
    Pending,
    UpTo(usize),
}
impl OpPlan {
    pub fn none() -> Self {
        OpPlan { style: 0, plan: Plan::none(), pendings: 0 }
    }
    pub fn one_byte() -> Self {
        OpPlan { style: 1, plan: Plan::none(), pendings: 0 }
    }
    pub fn gen(s: &mut Src) -> Self {
        let style = s.weighted(&[3, 1, 3, 2, 1]) as u8;
        let plan = match style {
            0 | 1 => Plan::none(),
            _ => Plan::gen(s, 10),
        };
        OpPlan { style, plan, pendings: 0 }
    }
    /// few and large operations, for much data
    pub fn coarse(s: &mut Src) -> Self {
        let style = *s.pick(&[0u8, 5, 5, 4]);
        OpPlan { style, plan: if style == 0 { Plan::none() } else { Plan::gen(s, 10) }, pendings: 0 }
    }
    pub fn style_name(&self) -> &'static str {
        ["full", "bytewise", "mixed", "pending-heavy", "blocks", "coarse"][self.style as usize]
    }
    pub fn is_full(&self) -> bool {
        self.style == 0
    }
    pub fn next(&mut self) -> Op {
        match self.style {
            0 => Op::UpTo(usize::MAX),
            1 => Op::UpTo(1),
            2 | 3 => {
                let b = self.plan.next();
                let pend = if self.style == 3 { 120 } else { 200 };
                if b >= pend && self.pendings < 2 {
                    self.pendings += 1;
                    return Op::Pending;
                }
                self.pendings = 0;
                match b % 4 {
                    0 => Op::UpTo(usize::MAX),
                    1 => Op::UpTo(1 + (b as usize >> 2) % 8),
                    2 => Op::UpTo(1 << ((b as usize >> 2) % 14)),
                    _ => Op::UpTo(3 + (b as usize) * 2),
                }
            }
            5 => {
                let b = self.plan.next();
                if b >= 180 && self.pendings < 2 {
                    self.pendings += 1;
                    return Op::Pending;
                }
                self.pendings = 0;
                if b % 2 == 0 { Op::UpTo(usize::MAX) } else { Op::UpTo(1000 + 97 * b as usize) }
            }
            _ => Op::UpTo(1000 + 97 * self.plan.next() as usize),
        }
    }
}

// ---------------------------------------------------------------- deferred wake-ups

#[derive(Clone, Default)]
pub struct Events(Arc<Mutex<VecDeque<Waker>>>);
impl Events {
    pub fn defer(&self, w: &Waker) {
        self.0.lock().unwrap().push_back(w.clone());
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    /// fire the k-th (mod len) deferred wake-up
    pub fn fire(&self, k: usize) -> bool {
        let w = {
            let mut q = self.0.lock().unwrap();
            if q.is_empty() {
                return false;
            }
            let k = k % q.len();
            q.remove(k).unwrap()
        };
        w.wake();
        true
    }
}

/// Completes after `n` deferred wake-ups.
pub struct Delay {
    n: usize,
    ev: Events,
}
pub fn delay(ev: &Events, n: usize) -> Delay {
    Delay { n, ev: ev.clone() }
}
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        burn();
        if self.n == 0 {
            return Poll::Ready(());
        }
        self.n -= 1;
        self.ev.defer(cx.waker());
        Poll::Pending
    }
}

/// A manually opened gate; futures wait until it is open.
#[derive(Clone, Default)]
pub struct Gate(Arc<Mutex<(bool, Vec<Waker>)>>);
impl std::fmt::Debug for Gate {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Gate")
    }
}
impl Gate {
    pub fn opened() -> Gate {
        let g = Gate::default();
        g.open();
        g
    }
    pub fn open(&self) {
        let ws = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            std::mem::take(&mut g.1)
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn close(&self) {
        self.0.lock().unwrap().0 = false;
    }
    pub fn is_open(&self) -> bool {
        self.0.lock().unwrap().0
    }
    pub fn poll_open(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.0 {
            Poll::Ready(())
        } else {
            g.1.push(cx.waker().clone());
            Poll::Pending
        }
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| self.poll_open(cx)).await
    }
}

// ---------------------------------------------------------------- executor

struct WakeSet {
    q: Mutex<Vec<usize>>,
}
struct TaskWaker {
    id: usize,
    set: Arc<WakeSet>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut q = self.set.q.lock().unwrap();
        if !q.contains(&self.id) {
            q.push(self.id);
        }
    }
}

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
struct Task {
    fut: Option<LocalFut>,
    waker: Waker,
    polls: u64,
}

#[derive(Clone, Default)]
pub struct Spawner(Rc<RefCell<Vec<LocalFut>>>);
impl Spawner {
    pub fn spawn(&self, f: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push(Box::pin(f));
    }
}
impl<F> hyper::rt::Executor<F> for Spawner
where
    F: Future + 'static,
{
    fn execute(&self, fut: F) {
        self.spawn(async move {
            let _ = fut.await;
        });
    }
}

pub struct Exec {
    tasks: Vec<Task>,
    set: Arc<WakeSet>,
    pub spawner: Spawner,
    pub events: Events,
    pub plan: Plan,
    pub clock: Clock,
    pub polls: u64,
    pub max_polls: u64,
    pub trace: bool,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Stall {
    /// nothing runnable and no deferred event
    Quiet,
    /// poll budget exceeded
    Spinning,
}

impl Exec {
    pub fn new(plan: Plan) -> Self {
        refuel();
        Exec {
            tasks: vec![],
            set: Arc::new(WakeSet { q: Mutex::new(vec![]) }),
            spawner: Spawner::default(),
            events: Events::default(),
            plan,
            clock: Clock::new(),
            polls: 0,
            max_polls: 400_000,
            trace: false,
        }
    }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        let id = self.add(Box::pin(f));
        self.absorb();
        id
    }
    fn add(&mut self, f: LocalFut) -> usize {
        let id = self.tasks.len();
        let waker: Waker = Arc::new(TaskWaker { id, set: self.set.clone() }).into();
        self.tasks.push(Task { fut: Some(f), waker, polls: 0 });
        self.set.q.lock().unwrap().push(id);
        id
    }
    fn absorb(&mut self) {
        loop {
            let v: Vec<LocalFut> = std::mem::take(&mut *self.spawner.0.borrow_mut());
            if v.is_empty() {
                break;
            }
            for f in v {
                self.add(f);
            }
        }
    }
    pub fn is_done(&self, id: usize) -> bool {
        self.tasks[id].fut.is_none()
    }
    pub fn task_polls(&self, id: usize) -> u64 {
        self.tasks[id].polls
    }
    pub fn live(&self) -> usize {
        self.tasks.iter().filter(|t| t.fut.is_some()).count()
    }
    pub fn kill(&mut self, id: usize) {
        refuel();
        let f = self.tasks[id].fut.take();
        drop(f);
    }
    /// drop everything, in spawn order
    pub fn kill_all(&mut self) {
        for i in 0..self.tasks.len() {
            self.kill(i);
        }
        self.spawner.0.borrow_mut().clear();
    }
    pub fn wake(&self, id: usize) {
        self.tasks[id].waker.wake_by_ref();
    }
    fn poll_task(&mut self, id: usize) {
        refuel();
        self.polls += 1;
        let t = &mut self.tasks[id];
        t.polls += 1;
        let waker = t.waker.clone();
        if let Some(mut f) = t.fut.take() {
            let mut cx = Context::from_waker(&waker);
            let r = f.as_mut().poll(&mut cx);
            match r {
                Poll::Ready(()) => {
                    refuel();
                    drop(f);
                }
                Poll::Pending => self.tasks[id].fut = Some(f),
            }
        }
        self.absorb();
    }
    /// One step: poll one woken task or fire one deferred event. false = quiet.
    pub fn step(&mut self) -> bool {
        self.absorb();
        let (n, ne) = (self.set.q.lock().unwrap().len(), self.events.len());
        if n == 0 && ne == 0 {
            return false;
        }
        let b = self.plan.next() as usize;
        if n > 0 && (ne == 0 || b < 192) {
            let id = {
                let mut q = self.set.q.lock().unwrap();
                let k = b % n;
                q.remove(k)
            };
            if self.tasks[id].fut.is_some() {
                self.poll_task(id);
            }
        } else {
            self.events.fire(b);
        }
        true
    }
    pub fn run(&mut self) -> Stall {
        loop {
            if self.polls > self.max_polls {
                return Stall::Spinning;
            }
            if !self.step() {
                return Stall::Quiet;
            }
        }
    }
    /// run at most n steps; true if quiet was reached
    pub fn run_steps(&mut self, n: usize) -> bool {
        for _ in 0..n {
            if !self.step() {
                return true;
            }
        }
        false
    }
    /// run until quiet, then jump to the next timer, until `until` virtual time
    pub fn run_timed(&mut self, until: Duration) -> Stall {
        loop {
            if self.run() == Stall::Spinning {
                return Stall::Spinning;
            }
            match self.clock.next_deadline() {
                Some(d) if d <= until => self.clock.advance_to(d),
                _ => {
                    self.clock.advance_to(until);
                    return self.run();
                }
            }
        }
    }
}
impl Drop for Exec {
    fn drop(&mut self) {
        refuel();
    }
}

// ---------------------------------------------------------------- clock

struct ClockIn {
    now: Duration,
    sleepers: BTreeMap<(Duration, u64), Waker>,
    next_id: u64,
    created: u64,
}
#[derive(Clone)]
pub struct Clock {
    base: Instant,
    st: Arc<Mutex<ClockIn>>,
}
impl Clock {
    pub fn new() -> Self {
        Clock {
            base: Instant::now(),
            st: Arc::new(Mutex::new(ClockIn { now: Duration::ZERO, sleepers: BTreeMap::new(), next_id: 0, created: 0 })),
        }
    }
    pub fn now(&self) -> Duration {
        self.st.lock().unwrap().now
    }
    pub fn sleeps_created(&self) -> u64 {
        self.st.lock().unwrap().created
    }
    pub fn next_deadline(&self) -> Option<Duration> {
        self.st.lock().unwrap().sleepers.keys().next().map(|k| k.0)
    }
    pub fn advance_to(&self, t: Duration) {
        let ws: Vec<Waker> = {
            let mut g = self.st.lock().unwrap();
            if t > g.now {
                g.now = t;
            }
            let now = g.now;
            let keys: Vec<_> = g.sleepers.keys().copied().filter(|k| k.0 <= now).collect();
            keys.into_iter().map(|k| g.sleepers.remove(&k).unwrap()).collect()
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn sleep_for(&self, d: Duration) -> SimSleep {
        let at = self.now() + d;
        self.mk(at)
    }
    pub fn sleep_at(&self, at: Duration) -> SimSleep {
        self.mk(at)
    }
    fn mk(&self, at: Duration) -> SimSleep {
        let mut g = self.st.lock().unwrap();
        g.next_id += 1;
        g.created += 1;
        SimSleep { at, id: g.next_id, clock: self.clone(), reg: false }
    }
}
pub struct SimSleep {
    at: Duration,
    id: u64,
    clock: Clock,
    reg: bool,
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        burn();
        let key = (self.at, self.id);
        let done = {
            let mut g = self.clock.st.lock().unwrap();
            if g.now >= self.at {
                g.sleepers.remove(&key);
                true
            } else {
                g.sleepers.insert(key, cx.waker().clone());
                false
            }
        };
        self.reg = !done;
        if done {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for SimSleep {
    fn drop(&mut self) {
        if self.reg {
            if let Ok(mut g) = self.clock.st.lock() {
                g.sleepers.remove(&(self.at, self.id));
            }
        }
    }
}
impl Sleep for SimSleep {}

/// `hyper::rt::Timer` over the virtual clock.
#[derive(Clone)]
pub struct SimTimer {
    pub clock: Clock,
    /// use the default `reset` (a fresh sleep) instead of in-place reset
    pub default_reset: bool,
}
impl Timer for SimTimer {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn Sleep>> {
        Box::pin(self.clock.sleep_for(d))
    }
    fn sleep_until(&self, deadline: Instant) -> Pin<Box<dyn Sleep>> {
        let at = deadline.checked_duration_since(self.clock.base).unwrap_or(Duration::ZERO);
        Box::pin(self.clock.sleep_at(at))
    }
    fn now(&self) -> Instant {
        self.clock.base + self.clock.now()
    }
    fn reset(&self, sleep: &mut Pin<Box<dyn Sleep>>, new_deadline: Instant) {
        if self.default_reset {
            *sleep = self.sleep_until(new_deadline);
            return;
        }
        let at = new_deadline.checked_duration_since(self.clock.base).unwrap_or(Duration::ZERO);
        if let Some(mut s) = sleep.as_mut().downcast_mut_pin::<SimSleep>() {
            if s.reg {
                let key = (s.at, s.id);
                s.clock.st.lock().unwrap().sleepers.remove(&key);
            }
            let fresh = self.clock.mk(at);
            s.set(fresh);
        } else {
            *sleep = self.sleep_until(new_deadline);
        }
    }
}

// ---------------------------------------------------------------- transport

pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub eof: bool,
    pub err: Option<io::ErrorKind>,
    /// end with an error instead of EOF once the buffer is empty
    pub reader: Option<Waker>,
    pub writer: Option<Waker>,
    pub cap: usize,
    /// reader went away
    pub broken: bool,
    pub total_in: u64,
    pub total_out: u64,
    /// everything ever written, if recording
    pub record: Option<Vec<u8>>,
}
pub type PipeRef = Arc<Mutex<Pipe>>;
pub fn lock<T>(m: &Arc<Mutex<T>>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn pipe(cap: usize) -> PipeRef {
    Arc::new(Mutex::new(Pipe {
        buf: VecDeque::new(),
        eof: false,
        err: None,
        reader: None,
        writer: None,
        cap,
        broken: false,
        total_in: 0,
        total_out: 0,
        record: None,
    }))
}
fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake()
    }
}
/// harness-side operations
pub fn feed(p: &PipeRef, b: &[u8]) {
    let w = {
        let mut g = lock(p);
        g.buf.extend(b);
        g.total_in += b.len() as u64;
        g.reader.take()
    };
    wake(w);
}
pub fn feed_eof(p: &PipeRef) {
    let w = {
        let mut g = lock(p);
        g.eof = true;
        g.reader.take()
    };
    wake(w);
}
pub fn feed_err(p: &PipeRef, k: io::ErrorKind) {
    let w = {
        let mut g = lock(p);
        g.err = Some(k);
        g.reader.take()
    };
    wake(w);
}
pub fn drain(p: &PipeRef) -> Vec<u8> {
    let (v, w) = {
        let mut g = lock(p);
        let v: Vec<u8> = g.buf.drain(..).collect();
        g.total_out += v.len() as u64;
        (v, g.writer.take())
    };
    wake(w);
    v
}
pub fn set_cap(p: &PipeRef, cap: usize) {
    let w = {
        let mut g = lock(p);
        g.cap = cap;
        g.writer.take()
    };
    wake(w);
}

pub struct IoState {
    pub read: OpPlan,
    pub write: OpPlan,
    pub flush: OpPlan,
    pub close: OpPlan,
    pub vectored: bool,
    /// written bytes become visible only when flushed (or shut down)
    pub buffered: bool,
    pub stage: Vec<u8>,
    pub shutdown: bool,
    pub shutdown_polls: u32,
    pub dropped: bool,
    pub written: u64,
    pub read_total: u64,
    pub write_err_at: Option<(u64, io::ErrorKind)>,
    pub write_zero_at: Option<u64>,
    pub flush_err_after: Option<(u64, io::ErrorKind)>,
    pub shutdown_err: Option<io::ErrorKind>,
    pub write_after_shutdown: bool,
    /// something was written since the last completed flush
    pub dirty: bool,
    pub vectored_calls: u64,
    pub plain_calls: u64,
    pub reads: u64,
    pub read_after_eof: u64,
    pub saw_eof: bool,
    pub max_read_buf: usize,
    /// how bytes are put into the reader's buffer
    pub read_style: u8,
    /// (first byte offset, bytes, bytes read so far) of every write, if wanted
    pub marks: Option<Vec<(u64, u64, u64)>>,
}
impl IoState {
    fn new() -> Self {
        IoState {
            read: OpPlan::none(),
            write: OpPlan::none(),
            flush: OpPlan::none(),
            close: OpPlan::none(),
            vectored: false,
            buffered: false,
            stage: vec![],
            shutdown: false,
            shutdown_polls: 0,
            dropped: false,
            written: 0,
            read_total: 0,
            write_err_at: None,
            write_zero_at: None,
            flush_err_after: None,
            shutdown_err: None,
            write_after_shutdown: false,
            dirty: false,
            vectored_calls: 0,
            plain_calls: 0,
            reads: 0,
            read_after_eof: 0,
            saw_eof: false,
            max_read_buf: 0,
            read_style: 0,
            marks: None,
        }
    }
}
pub type IoRef = Arc<Mutex<IoState>>;

pub struct SimIo {
    pub rx: PipeRef,
    pub tx: PipeRef,
    pub st: IoRef,
    ev: Events,
}
pub struct IoHandle {
    pub rx: PipeRef,
    pub tx: PipeRef,
    pub st: IoRef,
}
impl IoHandle {
    pub fn dropped(&self) -> bool {
        lock(&self.st).dropped
    }
    pub fn shutdown(&self) -> bool {
        lock(&self.st).shutdown
    }
    /// everything written so far, including unflushed bytes (not drained)
    pub fn output(&self) -> Vec<u8> {
        lock(&self.tx).buf.iter().copied().collect()
    }
}
#[derive(Clone, Debug)]
pub struct IoCfg {
    pub read: OpPlan,
    pub write: OpPlan,
    pub flush: OpPlan,
    pub vectored: bool,
    pub buffered: bool,
    pub cap: usize,
    /// how bytes are put into the reader's buffer
    pub style: u8,
}
impl IoCfg {
    pub fn plain() -> Self {
        IoCfg { read: OpPlan::none(), write: OpPlan::none(), flush: OpPlan::none(), vectored: true, buffered: false, cap: usize::MAX, style: 0 }
    }
    pub fn gen(s: &mut Src) -> Self {
        let read = OpPlan::gen(s);
        let write = OpPlan::gen(s);
        let flush = OpPlan::gen(s);
        // one choice: what writes look like, and now and then another way of filling read buffers
        let v = s.u8();
        let vectored = v < 160;
        let style = if v % 8 == 7 { v / 8 % READ_STYLES } else { 0 };
        let buffered = s.chance(96);
        let cap = match s.weighted(&[4, 1, 1]) {
            0 => usize::MAX,
            1 => s.range(1, 64),
            _ => s.range(64, 20000),
        };
        IoCfg { read, write, flush, vectored, buffered, cap, style }
    }
    pub fn gen_coarse(s: &mut Src) -> Self {
        IoCfg { read: OpPlan::coarse(s), write: OpPlan::coarse(s), flush: OpPlan::coarse(s), ..IoCfg::gen(s) }
    }
    pub fn is_plain(&self) -> bool {
        self.read.is_full() && self.write.is_full() && self.flush.is_full() && !self.buffered && self.cap == usize::MAX
    }
    pub fn show(&self) -> String {
        format!(
            "read={} write={} flush={} vectored={} buffered={} cap={}",
            self.read.style_name(),
            self.write.style_name(),
            self.flush.style_name(),
            self.vectored,
            self.buffered,
            if self.cap == usize::MAX { "inf".to_string() } else { self.cap.to_string() }
        )
    }
}
fn mk_io(ev: &Events, rx: PipeRef, tx: PipeRef, c: &IoCfg) -> (SimIo, IoHandle) {
    let mut st = IoState::new();
    st.read = c.read.clone();
    st.write = c.write.clone();
    st.flush = c.flush.clone();
    st.close = c.flush.clone();
    st.vectored = c.vectored;
    st.buffered = c.buffered;
    st.read_style = c.style;
    let st = Arc::new(Mutex::new(st));
    (
        SimIo { rx: rx.clone(), tx: tx.clone(), st: st.clone(), ev: ev.clone() },
        IoHandle { rx, tx, st },
    )
}
/// one endpoint whose other side is the harness itself
pub fn scripted(ev: &Events, c: &IoCfg) -> (SimIo, IoHandle) {
    mk_io(ev, pipe(usize::MAX), pipe(usize::MAX), c)
}
/// two connected endpoints
pub fn duplex(ev: &Events, a: &IoCfg, b: &IoCfg) -> ((SimIo, IoHandle), (SimIo, IoHandle)) {
    let ab = pipe(a.cap);
    let ba = pipe(b.cap);
    (mk_io(ev, ba.clone(), ab.clone(), a), mk_io(ev, ab, ba, b))
}

impl SimIo {
    fn push(&self, st: &mut IoState, cx: &mut Context<'_>, max: usize, bufs: &[&[u8]]) -> Poll<io::Result<usize>> {
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        if st.shutdown && want > 0 {
            st.write_after_shutdown = true;
        }
        if let Some((at, k)) = st.write_err_at {
            if st.written >= at {
                return Poll::Ready(Err(io::Error::new(k, "simulated write error")));
            }
        }
        if let Some(at) = st.write_zero_at {
            if st.written >= at {
                return Poll::Ready(Ok(0));
            }
        }
        let mut room = max.min(want);
        if let Some((at, _)) = st.write_err_at {
            room = room.min((at - st.written) as usize);
        }
        if let Some(at) = st.write_zero_at {
            room = room.min((at - st.written) as usize);
        }
        let mut g = lock(&self.tx);
        if g.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let used = g.buf.len() + st.stage.len();
        let free = g.cap.saturating_sub(used);
        if want > 0 && free == 0 {
            if st.buffered && !st.stage.is_empty() {
                // a full staging buffer empties itself like a BufWriter would
                let b = std::mem::take(&mut st.stage);
                g.buf.extend(&b);
                let w = g.reader.take();
                g.writer = Some(cx.waker().clone());
                drop(g);
                wake(w);
                return Poll::Pending;
            }
            g.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        room = room.min(free);
        let mut left = room;
        let mut out: Vec<u8> = Vec::with_capacity(room.min(1 << 16));
        for b in bufs {
            let n = left.min(b.len());
            out.extend_from_slice(&b[..n]);
            left -= n;
            if left == 0 {
                break;
            }
        }
        let (at, rd) = (st.written, st.read_total);
        if let Some(m) = st.marks.as_mut() {
            m.push((at, room as u64, rd));
        }
        st.written += room as u64;
        st.dirty |= room > 0;
        g.total_in += room as u64;
        if let Some(r) = g.record.as_mut() {
            r.extend_from_slice(&out);
        }
        if st.buffered {
            st.stage.extend_from_slice(&out);
            drop(g);
        } else {
            g.buf.extend(&out);
            let w = if room > 0 { g.reader.take() } else { None };
            drop(g);
            wake(w);
        }
        Poll::Ready(Ok(room))
    }
    /// no room at all: unready until the other side drains, whatever the plan says
    fn full(&self, st: &IoState) -> bool {
        let g = lock(&self.tx);
        g.cap.saturating_sub(g.buf.len() + st.stage.len()) == 0
    }
    fn unstage(&self, st: &mut IoState) {
        if !st.stage.is_empty() {
            let b = std::mem::take(&mut st.stage);
            let w = {
                let mut g = lock(&self.tx);
                g.buf.extend(&b);
                g.reader.take()
            };
            wake(w);
        }
    }
}

/// what hyper takes as a transport, as one object-safe trait
pub trait Transport: Read + Write + Unpin + Send + 'static {}
impl<T: Read + Write + Unpin + Send + 'static> Transport for T {}

pub const READ_STYLES: u8 = 8;
/// the ways a transport may put bytes into the buffer it is given
pub fn deliver(buf: &mut ReadBufCursor<'_>, data: &[u8], style: u8) {
    let n = data.len();
    match style {
        0 => buf.put_slice(data),
        1 => {
            for c in data.chunks((n / 3).max(1)) {
                buf.put_slice(c);
            }
        }
        2 => {
            // the documented unsafe way
            let room = unsafe { buf.as_mut() };
            for (d, b) in room.iter_mut().zip(data) {
                d.write(*b);
            }
            unsafe { buf.advance(n) };
        }
        3 => {
            buf.initialize_unfilled()[..n].copy_from_slice(data);
            unsafe { buf.advance(n) };
        }
        4 => {
            buf.initialize_unfilled_to(n).copy_from_slice(data);
            unsafe { buf.advance(n) };
        }
        5 => {
            // half initialised first, the rest put
            let h = n / 2;
            buf.initialize_unfilled_to(h).copy_from_slice(&data[..h]);
            unsafe { buf.advance(h) };
            buf.put_slice(&data[h..]);
        }
        6 => {
            // more initialised than used, in two goes
            let h = n / 2;
            let r = buf.remaining();
            buf.initialize_unfilled_to(r.min(n + 3))[..h].copy_from_slice(&data[..h]);
            unsafe { buf.advance(h) };
            buf.initialize_unfilled()[..n - h].copy_from_slice(&data[h..]);
            unsafe { buf.advance(n - h) };
        }
        _ => {
            // initialised, then written through the raw slice, advanced in single steps
            buf.initialize_unfilled();
            let room = unsafe { buf.as_mut() };
            for (d, b) in room.iter_mut().zip(data) {
                d.write(*b);
            }
            for _ in 0..n {
                unsafe { buf.advance(1) };
            }
        }
    }
}

impl Read for SimIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        burn();
        let mut st = lock(&self.st);
        st.reads += 1;
        st.max_read_buf = st.max_read_buf.max(buf.remaining());
        let mut g = lock(&self.rx);
        if g.buf.is_empty() {
            if let Some(k) = g.err {
                return Poll::Ready(Err(io::Error::new(k, "simulated read error")));
            }
            if g.eof {
                if st.saw_eof {
                    st.read_after_eof += 1;
                }
                st.saw_eof = true;
                return Poll::Ready(Ok(()));
            }
            g.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let max = match st.read.next() {
            Op::Pending => {
                g.reader = Some(cx.waker().clone());
                self.ev.defer(cx.waker());
                return Poll::Pending;
            }
            Op::UpTo(n) => n,
        };
        let n = max.min(g.buf.len()).min(buf.remaining());
        let data: Vec<u8> = g.buf.drain(..n).collect();
        g.total_out += n as u64;
        st.read_total += n as u64;
        let w = g.writer.take();
        drop(g);
        let style = st.read_style;
        deliver(&mut buf, &data, style);
        drop(st);
        wake(w);
        Poll::Ready(Ok(()))
    }
}
impl Write for SimIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        burn();
        let mut st = lock(&self.st);
        st.plain_calls += 1;
        if self.full(&st) {
            return self.push(&mut st, cx, usize::MAX, &[buf]);
        }
        match st.write.next() {
            Op::Pending => {
                self.ev.defer(cx.waker());
                Poll::Pending
            }
            Op::UpTo(n) => self.push(&mut st, cx, n, &[buf]),
        }
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        burn();
        let mut st = lock(&self.st);
        st.vectored_calls += 1;
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        let v: Vec<&[u8]> = if st.vectored { v } else { v.into_iter().filter(|b| !b.is_empty()).take(1).collect() };
        if self.full(&st) {
            return self.push(&mut st, cx, usize::MAX, &v);
        }
        match st.write.next() {
            Op::Pending => {
                self.ev.defer(cx.waker());
                Poll::Pending
            }
            Op::UpTo(n) => self.push(&mut st, cx, n, &v),
        }
    }
    fn is_write_vectored(&self) -> bool {
        lock(&self.st).vectored
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        burn();
        let mut st = lock(&self.st);
        if let Some((at, k)) = st.flush_err_after {
            if st.written >= at {
                return Poll::Ready(Err(io::Error::new(k, "simulated flush error")));
            }
        }
        if !st.dirty {
            return Poll::Ready(Ok(()));
        }
        match st.flush.next() {
            Op::Pending => {
                self.ev.defer(cx.waker());
                Poll::Pending
            }
            _ => {
                st.dirty = false;
                self.unstage(&mut st);
                Poll::Ready(Ok(()))
            }
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        burn();
        let mut st = lock(&self.st);
        st.shutdown_polls += 1;
        if let Some(k) = st.shutdown_err {
            return Poll::Ready(Err(io::Error::new(k, "simulated shutdown error")));
        }
        if let Op::Pending = st.close.next() {
            self.ev.defer(cx.waker());
            return Poll::Pending;
        }
        self.unstage(&mut st);
        st.shutdown = true;
        feed_eof(&self.tx);
        Poll::Ready(Ok(()))
    }
}
impl Drop for SimIo {
    fn drop(&mut self) {
        {
            let mut st = lock(&self.st);
            st.dropped = true;
        }
        feed_eof(&self.tx);
        let w = {
            let mut g = lock(&self.rx);
            g.broken = true;
            g.writer.take()
        };
        wake(w);
    }
}

// ---------------------------------------------------------------- small helpers

pub type Log<T> = Rc<RefCell<Vec<T>>>;
pub fn log<T>() -> Log<T> {
    Rc::new(RefCell::new(vec![]))
}
pub fn b(s: &[u8]) -> Bytes {
    Bytes::copy_from_slice(s)
}
