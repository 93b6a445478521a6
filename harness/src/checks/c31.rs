//! Read buffers, cursors and transport adapters.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, Cli, CliCfg, CliPart, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::reqgen::{gen_req, ReqOpts};
use crate::sim::*;
use crate::src::{payload, show, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use hyper::rt::{Read, ReadBuf, ReadBufCursor, Write};
use std::cell::RefCell;
use std::io::{self, IoSlice};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Wake, Waker};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C31",
        run,
        quick: 500_000,
        thorough: 20_000_000,
        max_len: 300,
        rule: "a case is one of: a random operation sequence on a read buffer and its cursors (against a model, run twice over differently poisoned memory); a random call sequence on a recording transport, direct and through 1-3 adapters; a whole HTTP/1 or HTTP/2 client-server exchange with adapters and another way of filling buffers, against the plain run; a tunnel read and written through caller-made buffers. Non-trivial when the buffer had a filled part, something was initialised but not filled, an adapter or another filling style was in use",
        must_labels: &[
            "buf", "overflow-put", "overflow-init", "init-ahead", "new-cursor", "adapter", "default-vectored", "read-pending", "vectored", "h1", "h2", "wrapped", "style", "tunnel", "prefix-left", "prefilled",
        ],
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.weighted(&[10, 8, 3, 3]) {
        0 => buffers(s, cx),
        1 => adapters(s, cx),
        2 => exchanges(s, cx),
        _ => tunnels(s, cx),
    }
}

// ---------------------------------------------------------------- buffers

#[derive(Clone, Debug)]
enum Op {
    /// a fresh cursor (the old one is given up)
    Fresh,
    Put(Vec<u8>),
    PutTooMuch(usize),
    /// write bytes through the raw slice, advance over some of them
    Raw(Vec<u8>, usize),
    /// initialise everything; write these; advance over that many
    Init(Vec<u8>, usize),
    InitTo(usize, Vec<u8>, usize),
    InitTooMuch(usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Obs {
    Len(usize),
    Bytes(Vec<u8>),
    Panicked(bool),
}

fn gen_ops(s: &mut Src, cx: &mut Cx, cap: usize) -> Vec<Op> {
    let mut v = vec![];
    let (mut filled, mut init) = (0usize, 0usize);
    for _ in 0..s.range(1, 12) {
        let room = cap - filled;
        let some = |s: &mut Src, max: usize| -> usize {
            match s.weighted(&[2, 4, 1, 1]) {
                0 => 0,
                1 => s.range(0, max),
                2 => max,
                _ => max.saturating_sub(1),
            }
        };
        let op = match s.weighted(&[3, 6, 1, 4, 3, 4, 1]) {
            0 => Op::Fresh,
            1 => {
                let n = some(s, room);
                filled += n;
                Op::Put(payload(s.u8(), n))
            }
            2 => Op::PutTooMuch(s.range(1, 9)),
            3 => {
                let n = some(s, room);
                let k = some(s, n);
                filled += k;
                Op::Raw(payload(s.u8(), n), k)
            }
            4 => {
                let n = some(s, room);
                // everything is initialised: any advance within the room is allowed
                let k = some(s, room);
                filled += k;
                init = cap;
                Op::Init(payload(s.u8(), n), k)
            }
            5 => {
                let m = some(s, room);
                let n = some(s, m);
                let k = some(s, m);
                init = init.max(filled + m);
                filled += k;
                Op::InitTo(m, payload(s.u8(), n), k)
            }
            _ => Op::InitTooMuch(s.range(1, 9)),
        };
        init = init.max(filled);
        cx.label_if(matches!(op, Op::PutTooMuch(_)), "overflow-put");
        cx.label_if(matches!(op, Op::InitTooMuch(_)), "overflow-init");
        cx.label_if(init > filled, "init-ahead");
        cx.label_if(matches!(op, Op::Fresh), "new-cursor");
        v.push(op);
    }
    v
}

/// One operation on a cursor.
fn op_on(c: &mut ReadBufCursor<'_>, op: &Op, out: &mut Vec<Obs>) {
    out.push(Obs::Len(c.remaining()));
    // SAFETY: nothing is de-initialised
    out.push(Obs::Len(unsafe { c.as_mut() }.len()));
    match op {
        Op::Fresh => {}
        Op::Put(b) => c.put_slice(b),
        Op::PutTooMuch(n) => {
            let b = vec![0x77; c.remaining() + n];
            let r = may_panic(|| c.put_slice(&b));
            out.push(Obs::Panicked(r.is_none()));
        }
        Op::Raw(b, k) => {
            let room = unsafe { c.as_mut() };
            for (d, x) in room.iter_mut().zip(b) {
                d.write(*x);
            }
            // SAFETY: at least that many were written
            unsafe { c.advance(*k) };
        }
        Op::Init(b, k) => {
            let room = c.initialize_unfilled();
            out.push(Obs::Bytes(room.to_vec()));
            room[..b.len()].copy_from_slice(b);
            unsafe { c.advance(*k) };
        }
        Op::InitTo(m, b, k) => {
            let room = c.initialize_unfilled_to(*m);
            out.push(Obs::Bytes(room.to_vec()));
            room[..b.len()].copy_from_slice(b);
            unsafe { c.advance(*k) };
        }
        Op::InitTooMuch(n) => {
            let m = c.remaining() + n;
            let r = may_panic(|| c.initialize_unfilled_to(m).len());
            out.push(Obs::Panicked(r.is_none()));
        }
    }
    out.push(Obs::Len(c.remaining()));
}

/// Apply everything; `initialized`: hand the memory over as initialised bytes.
fn play_ops(cap: usize, ops: &[Op], initialized: bool, poison: u8) -> (Vec<Obs>, Vec<u8>) {
    let mut out = vec![];
    let mut raw_u: Vec<MaybeUninit<u8>> = vec![MaybeUninit::new(poison); cap];
    let mut raw_i: Vec<u8> = vec![poison; cap];
    let mut buf = if initialized { ReadBuf::new(&mut raw_i) } else { ReadBuf::uninit(&mut raw_u) };
    let mut i = 0;
    while i < ops.len() {
        {
            let mut c = buf.unfilled();
            loop {
                op_on(&mut c, &ops[i], &mut out);
                i += 1;
                if i >= ops.len() || matches!(ops[i], Op::Fresh) {
                    break;
                }
            }
        }
        out.push(Obs::Bytes(buf.filled().to_vec()));
        let _ = format!("{buf:?}");
    }
    let f = buf.filled().to_vec();
    (out, f)
}

fn buffers(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("buf");
    let cap = match s.weighted(&[1, 4, 2]) {
        0 => s.range(0, 2),
        1 => s.range(3, 40),
        _ => s.range(41, 300),
    };
    let ops = gen_ops(s, cx, cap);
    let initialized = s.chance(100);
    cx.describe(|| format!("buffer of {cap} initialized={initialized} ops={ops:?}"));
    cx.nontrivial |= ops.len() > 1;
    let (a, fa) = play_ops(cap, &ops, initialized, 0xa5);
    // the model: positions whose value is known
    let mut filled: Vec<u8> = vec![];
    // what the harness itself wrote beyond the filled part (readable once filled)
    let mut tail: Vec<Option<u8>> = vec![if initialized { Some(0xa5) } else { None }; cap];
    let mut it = a.iter();
    let mut next = || it.next().cloned();
    let mut i = 0;
    while i < ops.len() {
        let room = cap - filled.len();
        for what in ["remaining() before", "as_mut().len() before"] {
            let o = next();
            ensure!(o == Some(Obs::Len(room)), "remaining", "op {i} {:?}: {what} is {o:?}, expected {room}", ops[i]);
        }
        let base = filled.len();
        let over = |tail: &mut Vec<Option<u8>>, b: &[u8]| {
            for (k, x) in b.iter().enumerate() {
                tail[base + k] = Some(*x);
            }
        };
        match &ops[i] {
            Op::Fresh => {}
            Op::Put(b) => {
                over(&mut tail, b);
                filled.extend_from_slice(b);
            }
            Op::Raw(b, k) => {
                over(&mut tail, b);
                filled.extend_from_slice(&b[..*k]);
            }
            Op::PutTooMuch(n) => {
                let o = next();
                ensure!(o == Some(Obs::Panicked(true)), "overflow", "op {i}: putting {n} bytes more than fit did not panic");
            }
            Op::InitTooMuch(n) => {
                let o = next();
                ensure!(o == Some(Obs::Panicked(true)), "overflow", "op {i}: initialising {n} bytes more than there are did not panic");
            }
            Op::Init(b, k) | Op::InitTo(_, b, k) => {
                let m = if let Op::InitTo(m, _, _) = &ops[i] { *m } else { room };
                let got = match next() {
                    Some(Obs::Bytes(v)) => v,
                    o => fail!("harness", "unexpected observation {o:?}"),
                };
                ensure!(got.len() == m, "init-len", "op {i} {:?}: {} bytes returned", ops[i], got.len());
                for (k, x) in got.iter().enumerate() {
                    tail[base + k] = Some(*x);
                }
                over(&mut tail, b);
                for t in &tail[base..base + k] {
                    match t {
                        Some(x) => filled.push(*x),
                        None => fail!("harness", "advance over bytes never initialised"),
                    }
                }
            }
        }
        let o = next();
        ensure!(o == Some(Obs::Len(cap - filled.len())), "remaining", "op {i} {:?}: remaining() after it is {o:?}, expected {}", ops[i], cap - filled.len());
        i += 1;
        if i >= ops.len() || matches!(ops[i], Op::Fresh) {
            let o = next();
            ensure!(o.as_ref() == Some(&Obs::Bytes(filled.clone())), "filled", "after op {}: filled() is {o:?}, expected {:?}", i - 1, filled);
        }
    }
    ensure!(fa == filled, "filled", "at the end filled() is {fa:?}, expected {filled:?}");
    if !initialized {
        // what is seen may not depend on what uninitialised memory held
        let (b, fb) = play_ops(cap, &ops, initialized, 0x3c);
        ensure!(a == b && fa == fb, "uninit", "uninitialised memory shows: {a:?} against {b:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- adapters

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Read { room: usize, waker: bool },
    Write(Vec<u8>, bool),
    Vectored(Vec<Vec<u8>>, bool),
    Flush(bool),
    Shutdown(bool),
    IsVectored,
}
#[derive(Clone, Debug)]
enum Ans {
    Pending,
    Err(io::ErrorKind),
    /// bytes to deliver or to take
    Some(usize),
}
struct Core {
    log: Vec<Ev>,
    ans: Vec<Ans>,
    at: usize,
    seq: u8,
    style: u8,
    vectored: bool,
    mine: Waker,
}
impl Core {
    fn ans(&mut self) -> Ans {
        let a = self.ans[self.at % self.ans.len()].clone();
        self.at += 1;
        a
    }
    fn mine(&self, cx: &Context<'_>) -> bool {
        cx.waker().will_wake(&self.mine)
    }
}
/// a transport with all methods, and one that leaves the defaults
struct Rec(Rc<RefCell<Core>>);
struct RecDefault(Rc<RefCell<Core>>);

fn do_read(c: &mut Core, cx: &Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
    let w = c.mine(cx);
    c.log.push(Ev::Read { room: buf.remaining(), waker: w });
    match c.ans() {
        Ans::Pending => Poll::Pending,
        Ans::Err(k) => Poll::Ready(Err(k.into())),
        Ans::Some(n) => {
            let n = n.min(buf.remaining());
            c.seq = c.seq.wrapping_add(1);
            let d = payload(c.seq, n);
            deliver(&mut buf, &d, c.style);
            Poll::Ready(Ok(()))
        }
    }
}
fn take(c: &mut Core, n: usize) -> Poll<io::Result<usize>> {
    match c.ans() {
        Ans::Pending => Poll::Pending,
        Ans::Err(k) => Poll::Ready(Err(k.into())),
        Ans::Some(k) => Poll::Ready(Ok(k.min(n))),
    }
}
fn unit(c: &mut Core) -> Poll<io::Result<()>> {
    match c.ans() {
        Ans::Pending => Poll::Pending,
        Ans::Err(k) => Poll::Ready(Err(k.into())),
        Ans::Some(_) => Poll::Ready(Ok(())),
    }
}
macro_rules! common {
    () => {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            let mut c = self.0.borrow_mut();
            let w = c.mine(cx);
            c.log.push(Ev::Write(b.to_vec(), w));
            take(&mut c, b.len())
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let mut c = self.0.borrow_mut();
            let w = c.mine(cx);
            c.log.push(Ev::Flush(w));
            unit(&mut c)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let mut c = self.0.borrow_mut();
            let w = c.mine(cx);
            c.log.push(Ev::Shutdown(w));
            unit(&mut c)
        }
    };
}
impl Read for Rec {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        do_read(&mut self.0.borrow_mut(), cx, buf)
    }
}
impl Read for RecDefault {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        do_read(&mut self.0.borrow_mut(), cx, buf)
    }
}
impl Write for RecDefault {
    common!();
}
impl Write for Rec {
    common!();
    fn is_write_vectored(&self) -> bool {
        let mut c = self.0.borrow_mut();
        c.log.push(Ev::IsVectored);
        c.vectored
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let mut c = self.0.borrow_mut();
        let w = c.mine(cx);
        c.log.push(Ev::Vectored(bufs.iter().map(|b| b.to_vec()).collect(), w));
        let n = bufs.iter().map(|b| b.len()).sum();
        take(&mut c, n)
    }
}

#[derive(Clone, Debug)]
enum Call {
    /// prefix already filled, room
    Read(usize, usize, bool),
    Write(Vec<u8>),
    Vectored(Vec<Vec<u8>>),
    Flush,
    Shutdown,
    IsVectored,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Read(Poll<Result<(), io::ErrorKind>>, Vec<u8>),
    Write(Poll<Result<usize, io::ErrorKind>>),
    Unit(Poll<Result<(), io::ErrorKind>>),
    Is(bool),
}

trait Rw: Read + Write {}
impl<T: Read + Write> Rw for T {}

struct NoWake;
impl Wake for NoWake {
    fn wake(self: std::sync::Arc<Self>) {}
}

fn apply<T: Read + Write + Unpin + ?Sized>(t: &mut T, w: &Waker, calls: &[Call]) -> Vec<Res> {
    let mut cx = Context::from_waker(w);
    let mut out = vec![];
    for c in calls {
        out.push(match c {
            Call::Read(pre, room, uninit) => {
                let mut a = vec![MaybeUninit::new(0xee); pre + room];
                let mut b = vec![0xeeu8; pre + room];
                let mut buf = if *uninit { ReadBuf::uninit(&mut a) } else { ReadBuf::new(&mut b) };
                buf.unfilled().put_slice(&vec![0x11; *pre]);
                let r = Pin::new(&mut *t).poll_read(&mut cx, buf.unfilled());
                Res::Read(r.map_err(|e| e.kind()), buf.filled().to_vec())
            }
            Call::Write(b) => Res::Write(Pin::new(&mut *t).poll_write(&mut cx, b).map_err(|e| e.kind())),
            Call::Vectored(v) => {
                let s: Vec<IoSlice<'_>> = v.iter().map(|b| IoSlice::new(b)).collect();
                Res::Write(Pin::new(&mut *t).poll_write_vectored(&mut cx, &s).map_err(|e| e.kind()))
            }
            Call::Flush => Res::Unit(Pin::new(&mut *t).poll_flush(&mut cx).map_err(|e| e.kind())),
            Call::Shutdown => Res::Unit(Pin::new(&mut *t).poll_shutdown(&mut cx).map_err(|e| e.kind())),
            Call::IsVectored => Res::Is(t.is_write_vectored()),
        });
    }
    out
}

const FORMS: usize = 12;
/// The same calls through an adapter (0: directly).
fn through<T: Read + Write + Unpin + 'static>(mut t: T, form: usize, w: &Waker, calls: &[Call]) -> Vec<Res> {
    match form {
        0 => apply(&mut t, w, calls),
        1 => apply(&mut Box::new(t), w, calls),
        2 => apply(&mut &mut t, w, calls),
        3 => apply(&mut Box::pin(t), w, calls),
        4 => apply(&mut Pin::new(&mut t), w, calls),
        5 => {
            let mut b: Box<dyn RwUnpin> = Box::new(t);
            apply(&mut b, w, calls)
        }
        6 => {
            let mut b: Pin<Box<dyn Rw>> = Box::pin(t);
            apply(&mut b, w, calls)
        }
        7 => apply(&mut Box::new(Box::pin(t)), w, calls),
        8 => apply(&mut &mut Box::new(&mut t), w, calls),
        9 => {
            let d: Pin<&mut T> = Pin::new(&mut t);
            let mut d: Pin<&mut dyn Rw> = d;
            apply(&mut d, w, calls)
        }
        10 => apply(&mut Pin::new(&mut &mut t), w, calls),
        _ => {
            let mut d: &mut dyn RwUnpin = &mut t;
            apply(&mut d, w, calls)
        }
    }
}
trait RwUnpin: Read + Write + Unpin {}
impl<T: Read + Write + Unpin> RwUnpin for T {}

fn adapters(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("adapter");
    cx.nontrivial = true;
    let default = s.chance(80);
    let form = if default { s.below(FORMS) } else { s.range(1, FORMS - 1) };
    let style = s.below(READ_STYLES as usize) as u8;
    let vectored = s.chance(128);
    let ans: Vec<Ans> = (0..s.range(1, 8))
        .map(|_| match s.weighted(&[2, 1, 8]) {
            0 => Ans::Pending,
            1 => Ans::Err(*s.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionReset, io::ErrorKind::Other])),
            _ => Ans::Some(s.range(0, 40)),
        })
        .collect();
    let calls: Vec<Call> = (0..s.range(1, 10))
        .map(|_| match s.weighted(&[4, 3, 4, 1, 1, 2]) {
            0 => Call::Read(s.range(0, 8), s.range(0, 40), s.chance(128)),
            1 => {
                let n = s.range(0, 20);
                Call::Write(payload(s.u8(), n))
            }
            2 => {
                let v = (0..s.range(0, 4))
                    .map(|_| {
                        let n = *s.pick(&[0usize, 0, 1, 5, 9]);
                        payload(s.u8(), n)
                    })
                    .collect();
                Call::Vectored(v)
            }
            3 => Call::Flush,
            4 => Call::Shutdown,
            _ => Call::IsVectored,
        })
        .collect();
    cx.describe(|| format!("adapter form {form} default={default} style {style} vectored={vectored} answers={ans:?} calls={calls:?}"));
    cx.label_if(calls.iter().any(|c| matches!(c, Call::Vectored(_))), "vectored");
    let w = Waker::from(std::sync::Arc::new(NoWake));
    let core = || Rc::new(RefCell::new(Core { log: vec![], ans: ans.clone(), at: 0, seq: 0, style, vectored, mine: w.clone() }));
    let (a, b) = (core(), core());
    if default {
        cx.label("default-vectored");
        let rb = through(RecDefault(b.clone()), form, &w, &calls);
        // what the defaults are documented to do
        let mapped: Vec<Call> = calls
            .iter()
            .map(|c| match c {
                Call::Vectored(v) => Call::Write(v.iter().find(|b| !b.is_empty()).cloned().unwrap_or_default()),
                c => c.clone(),
            })
            .collect();
        let plain: Vec<Call> = mapped.iter().filter(|c| !matches!(c, Call::IsVectored)).cloned().collect();
        let ra = through(RecDefault(a.clone()), 0, &w, &plain);
        let is: Vec<bool> = rb.iter().filter_map(|r| if let Res::Is(v) = r { Some(*v) } else { None }).collect();
        ensure!(is.iter().all(|v| !v), "default", "a transport without vectored writes is said to have them");
        let rb2: Vec<Res> = rb.into_iter().filter(|r| !matches!(r, Res::Is(_))).collect();
        ensure!(ra == rb2, "results", "defaults through form {form}: {rb2:?} instead of {ra:?}");
        ensure!(a.borrow().log == b.borrow().log, "calls", "defaults through form {form}: {:?} instead of {:?}", b.borrow().log, a.borrow().log);
    } else {
        let ra = through(Rec(a.clone()), 0, &w, &calls);
        let rb = through(Rec(b.clone()), form, &w, &calls);
        ensure!(ra == rb, "results", "through form {form}: {rb:?} instead of {ra:?}");
        ensure!(a.borrow().log == b.borrow().log, "calls", "through form {form}: {:?} instead of {:?}", b.borrow().log, a.borrow().log);
        for (c, r) in calls.iter().zip(&ra) {
            if let (Call::Read(pre, ..), Res::Read(p, got)) = (c, r) {
                cx.label_if(p.is_pending(), "read-pending");
                ensure!(got.len() >= *pre && got[..*pre].iter().all(|b| *b == 0x11), "filled", "the bytes already in the buffer became {got:?}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- whole exchanges

#[derive(Clone)]
struct Setup {
    h2: bool,
    scfg: SrvCfg,
    ccfg: CliCfg,
    h2s: H2Cfg,
    h2c: H2Cfg,
    sio: IoCfg,
    cio: IoCfg,
    sched: Plan,
    reqs: Vec<ReqPlan>,
    resps: Vec<RespPlan>,
    conc: bool,
}

fn wrap(io: SimIo, form: usize) -> Box<dyn Transport> {
    match form {
        1 => Box::new(io),
        2 => Box::new(Box::new(io)),
        3 => Box::new(Box::pin(io)),
        4 => {
            let b: Pin<Box<dyn Transport>> = Box::pin(io);
            Box::new(b)
        }
        _ => {
            let b: Box<dyn Transport> = Box::new(Box::new(io));
            Box::new(Pin::new(b))
        }
    }
}

/// Everything that can be seen of one run.
fn exchange(u: &Setup, form: (usize, usize), style: (u8, u8)) -> Result<(String, bool), Fail> {
    let mut ex = Exec::new(u.sched.clone());
    let ((ci, ch), (si, sh)) = duplex(&ex.events, &u.cio, &u.sio);
    lock(&ch.st).read_style = style.0;
    lock(&sh.st).read_style = style.1;
    lock(&ch.tx).record = Some(vec![]);
    lock(&sh.tx).record = Some(vec![]);
    let resps = u.resps.clone();
    let plans: PlanFn = Rc::new(move |i, _| resps[i % resps.len()].clone());
    let stx = si.tx.clone();
    let sp: SrvPart = match (u.h2, form.1) {
        (false, 0) => Srv::start_on(&mut ex, &u.scfg, si, plans),
        (false, f) => Srv::start_any(&mut ex, &u.scfg, wrap(si, f), &stx, plans),
        (true, 0) => h2::serve(&mut ex, &u.h2s, si, plans),
        (true, f) => h2::serve_any(&mut ex, &u.h2s, wrap(si, f), &stx, plans),
    };
    let cp: CliPart = match (u.h2, form.0) {
        (false, 0) => Cli::start_on(&mut ex, &u.ccfg, ci),
        (false, f) => Cli::start_on(&mut ex, &u.ccfg, wrap(ci, f)),
        (true, 0) => h2::connect(&mut ex, &u.h2c, ci),
        (true, f) => h2::connect(&mut ex, &u.h2c, wrap(ci, f)),
    };
    if u.h2 {
        ensure!(ex.run() == Stall::Quiet, "spin", "spinning in the handshake");
    }
    if u.conc {
        cli::concurrent(&mut ex, &cp.env, u.reqs.clone());
    } else {
        cli::sequence(&mut ex, &cp.env, u.reqs.clone());
    }
    ensure!(ex.run() == Stall::Quiet, "spin", "spinning");
    let done = cp.env.calls.borrow().iter().all(|c| c.resp().is_some() && c.got.ended);
    for (i, (c, p)) in cp.env.calls.borrow().iter().zip(&u.resps).enumerate() {
        if done && !u.conc && u.reqs[i].method != "HEAD" {
            ensure!(c.got.data == p.body.data(), "body", "response {i}: {} bytes instead of {}", c.got.data.len(), p.body.len());
        }
    }
    let t = cp.env.sender.borrow_mut().take();
    drop(t);
    ensure!(ex.run() == Stall::Quiet, "spin", "spinning after the sender was dropped");
    let mut o = String::new();
    for c in sp.calls.borrow().iter() {
        o += &format!("req {} {} {:?} {:?} body={} ended={} err={:?} trailers={:?} hint={:?}\n", c.method, c.uri, c.version, c.headers, show(&c.got.data), c.got.ended, c.got.err, c.got.trailers, c.hint);
    }
    for c in cp.env.calls.borrow().iter() {
        o += &format!("res {:?} body={} ended={} err={:?} trailers={:?} hint={:?}\n", c.out, show(&c.got.data), c.got.ended, c.got.err, c.got.trailers, c.hint);
    }
    o += &format!("ends {:?} / {:?}\n", sp.end.borrow(), cp.env.end.borrow());
    for (n, h) in [("client", &ch), ("server", &sh)] {
        let st = lock(&h.st);
        o += &format!("{n}: written={} read={} vectored={} plain={} reads={} shutdown={} wire={}\n", st.written, st.read_total, st.vectored_calls, st.plain_calls, st.reads, st.shutdown, crate::engine::hex(lock(&h.tx).record.as_deref().unwrap_or_default()));
    }
    Ok((o, done))
}

fn exchanges(s: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let form = (s.below(6), s.below(6));
    let style = (s.below(READ_STYLES as usize) as u8, s.below(READ_STYLES as usize) as u8);
    let h2 = s.chance(128);
    cx.label(if h2 { "h2" } else { "h1" });
    let mut scfg = SrvCfg::gen_neutral(s);
    scfg.date = false;
    let ccfg = CliCfg::gen_neutral(s);
    let (mut h2s, h2c) = (H2Cfg::gen(s), H2Cfg::gen(s));
    h2s.no_date = true;
    h2s.max_streams = h2s.max_streams.filter(|n| *n > 2);
    let small = s.chance(90);
    let mut io = || {
        let mut c = if small { IoCfg::gen(s) } else { IoCfg::gen_coarse(s) };
        c.style = 0;
        if h2 && c.cap < 400 {
            c.cap = 400;
        }
        c
    };
    let (sio, cio) = (io(), io());
    let sched = Plan::gen(s, 8);
    let n = s.range(1, 3);
    let mut reqs = vec![];
    let mut resps = vec![];
    let body = |s: &mut Src| {
        let k = (*s.pick(&[0usize, 1, 30, 700, 5000, 20_000])).min(if small { 500 } else { usize::MAX });
        let st = s.range(1, 4);
        let steps = if k == 0 { vec![] } else { vec![Step::Data(Bytes::from(payload(s.u8(), k)), st)] };
        BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown]), honest_end: !s.chance(64) }
    };
    for _ in 0..n {
        let mut p = if h2 { ReqPlan::get() } else { gen_req(s, ReqOpts { big: false, framing_headers: false, connection: false, connect: false }) };
        if h2 {
            p.method = s.pick(&["GET", "POST", "PUT"]).to_string();
            p.uri = "http://a.test/x".into();
            p.version = http::Version::HTTP_2;
        }
        if !h2 {
            p.version = http::Version::HTTP_11;
        }
        p.body = body(s);
        p.try_send = s.chance(60);
        p.read = ReadPlan::All;
        p.pauses = Plan::gen(s, 3);
        reqs.push(p);
        let mut r = RespPlan::simple();
        if h2 {
            r.version = http::Version::HTTP_2;
        }
        r.read = if s.chance(80) { ReadPlan::Background } else { ReadPlan::All };
        r.body = body(s);
        r.pauses = Plan::gen(s, 3);
        resps.push(r);
    }
    let conc = h2 && s.chance(100);
    let u = Setup { h2, scfg, ccfg, h2s, h2c, sio, cio, sched, reqs, resps, conc };
    cx.label_if(form != (0, 0), "wrapped");
    cx.label_if(style != (0, 0), "style");
    cx.describe(|| format!("h2={h2} forms={form:?} styles={style:?} cio[{}] sio[{}] reqs={} conc={conc}", u.cio.show(), u.sio.show(), u.reqs.iter().map(|r| r.show()).collect::<Vec<_>>().join(" ")));
    let (a, done) = exchange(&u, (0, 0), (0, 0))?;
    cx.label_if(done, "complete");
    ensure!(done || (u.cio.cap.min(u.sio.cap) < 1000), "incomplete", "{}", clip(&a));
    let (b, _) = exchange(&u, form, style)?;
    if a != b {
        let d = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("{} instead of {}", clip(y), clip(x))).unwrap_or_else(|| "more or fewer lines".into());
        fail!("differs", "forms {form:?} styles {style:?}: {d}");
    }
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(600).collect()
}

// ---------------------------------------------------------------- tunnels through caller-made buffers

#[derive(Clone, Debug)]
enum Use {
    /// filled before, room, uninitialised memory, initialise some first
    Read(usize, usize, bool, usize),
    Write(Vec<u8>),
    Vectored(Vec<Vec<u8>>),
}

fn tunnels(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("tunnel");
    cx.nontrivial = true;
    let client = s.chance(128);
    let ic = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let sched = Plan::gen(s, 6);
    let style = s.below(READ_STYLES as usize) as u8;
    let early = {
        let n = *s.pick(&[0usize, 1, 7, 60, 200]);
        payload(s.u8(), n)
    };
    let late = {
        let n = *s.pick(&[0usize, 1, 9, 300]);
        payload(s.u8(), n)
    };
    let uses: Vec<Use> = (0..s.range(1, 9))
        .map(|_| match s.weighted(&[5, 1, 1]) {
            0 => Use::Read(s.range(0, 6), s.range(1, 80), s.chance(128), s.range(0, 90)),
            1 => {
                let n = s.range(1, 20);
                Use::Write(payload(s.u8(), n))
            }
            _ => Use::Vectored((0..s.range(1, 3)).map(|_| payload(7, *s.pick(&[0usize, 1, 6]))).collect()),
        })
        .collect();
    cx.describe(|| format!("client={client} io[{}] style={style} early={} late={} uses={uses:?}", ic.show(), show(&early), show(&late)));
    let mut ex = Exec::new(sched);
    let (io, h) = scripted(&ex.events, &ic);
    lock(&h.st).read_style = style;
    let got: Rc<RefCell<Vec<u8>>> = Default::default();
    let sent: Rc<RefCell<Vec<u8>>> = Default::default();
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let left: Rc<RefCell<usize>> = Default::default();
    let done: Rc<RefCell<Option<String>>> = Default::default();
    let (g2, s2, b2, d2, l2) = (got.clone(), sent.clone(), bad.clone(), done.clone(), left.clone());
    let first = early.len();
    let user = move |on: hyper::upgrade::OnUpgrade| async move {
        let mut up = match on.await {
            Ok(u) => u,
            Err(e) => {
                *d2.borrow_mut() = Some(format!("no upgrade: {e:?}"));
                return;
            }
        };
        let mut list = uses;
        // then read to the end
        let mut over = false;
        while !over {
            let u = if list.is_empty() { Use::Read(3, 16, true, 5) } else { list.remove(0) };
            match u {
                Use::Read(pre, room, uninit, init) => {
                    let mut a = vec![MaybeUninit::new(0xeeu8); pre + room];
                    let mut b = vec![0xeeu8; pre + room];
                    let mut buf = if uninit { ReadBuf::uninit(&mut a) } else { ReadBuf::new(&mut b) };
                    buf.unfilled().put_slice(&vec![0x11; pre]);
                    buf.unfilled().initialize_unfilled_to(init.min(room));
                    let r = std::future::poll_fn(|cx| Pin::new(&mut up).poll_read(cx, buf.unfilled())).await;
                    let f = buf.filled();
                    if f.len() < pre || f[..pre].iter().any(|b| *b != 0x11) {
                        *b2.borrow_mut() = Some(format!("the {pre} bytes already in the buffer became {f:?}"));
                        return;
                    }
                    match r {
                        Err(e) => {
                            *d2.borrow_mut() = Some(format!("read error {e:?}"));
                            return;
                        }
                        Ok(()) => {
                            over = f.len() == pre;
                            g2.borrow_mut().extend_from_slice(&f[pre..]);
                            let n = g2.borrow().len();
                            if n < first {
                                *l2.borrow_mut() += 1;
                            }
                        }
                    }
                }
                Use::Write(b) => {
                    if let Ok(n) = std::future::poll_fn(|cx| Pin::new(&mut up).poll_write(cx, &b)).await {
                        s2.borrow_mut().extend_from_slice(&b[..n]);
                    }
                }
                Use::Vectored(v) => {
                    let all: Vec<u8> = v.concat();
                    let sl: Vec<IoSlice<'_>> = v.iter().map(|b| IoSlice::new(b)).collect();
                    if let Ok(n) = std::future::poll_fn(|cx| Pin::new(&mut up).poll_write_vectored(cx, &sl)).await {
                        s2.borrow_mut().extend_from_slice(&all[..n]);
                    }
                }
            }
        }
        let _ = std::future::poll_fn(|cx| Pin::new(&mut up).poll_flush(cx)).await;
        *d2.borrow_mut() = Some("end".into());
    };
    let user = RefCell::new(Some(user));
    if client {
        let (mut sr, c) = cli::now(hyper::client::conn::http1::handshake::<_, crate::body::PlanBody>(io)).expect("handshake").expect("handshake");
        ex.spawn(async move {
            let _ = c.with_upgrades().await;
        });
        let ev = ex.events.clone();
        let r = http::Request::builder().header("upgrade", "x").header("connection", "upgrade").body(crate::body::PlanBody::empty(&ev)).expect("request");
        let user = user.take().expect("once");
        ex.spawn(async move {
            match sr.send_request(r).await {
                Ok(mut r) => user(hyper::upgrade::on(&mut r)).await,
                Err(_) => drop(user),
            }
        });
    } else {
        let sp = ex.spawner.clone();
        let ev = ex.events.clone();
        let svc = hyper::service::service_fn(move |mut r: http::Request<hyper::body::Incoming>| {
            if let Some(u) = user.borrow_mut().take() {
                sp.spawn(u(hyper::upgrade::on(&mut r)));
            }
            let b = crate::body::PlanBody::empty(&ev);
            async move { Ok::<_, SvcErr>(http::Response::builder().status(101).header("upgrade", "x").header("connection", "upgrade").body(b).expect("response")) }
        });
        let c = hyper::server::conn::http1::Builder::new().serve_connection(io, svc).with_upgrades();
        ex.spawn(async move {
            let _ = c.await;
        });
    }
    ensure!(ex.run() == Stall::Quiet, "spin", "spinning at the start");
    let head: &[u8] = if client { b"HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n" } else { b"GET / HTTP/1.1\r\nHost: a\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n" };
    let mut b = head.to_vec();
    b.extend_from_slice(&early);
    feed(&h.rx, &b);
    ensure!(ex.run() == Stall::Quiet, "spin", "spinning after the upgrade");
    if !late.is_empty() {
        feed(&h.rx, &late);
        ensure!(ex.run() == Stall::Quiet, "spin", "spinning after late bytes");
    }
    feed_eof(&h.rx);
    ensure!(ex.run() == Stall::Quiet, "spin", "spinning after the end");
    if let Some(b) = bad.borrow().as_ref() {
        fail!("filled", "{b}");
    }
    let d = done.borrow().clone();
    ensure!(d.as_deref() == Some("end"), "tunnel-end", "the tunnel did not end cleanly: {d:?}, read {} of {}", got.borrow().len(), early.len() + late.len());
    cx.label_if(*left.borrow() > 0, "prefix-left");
    cx.label("prefilled");
    let mut want = early.clone();
    want.extend_from_slice(&late);
    ensure!(*got.borrow() == want, "tunnel-bytes", "read {} from the tunnel, the peer sent {}", show(&got.borrow()), show(&want));
    let out = h.output();
    let at = out.windows(4).position(|w| w == b"\r\n\r\n").map(|i| i + 4).unwrap_or(out.len());
    ensure!(out[at..] == sent.borrow()[..], "tunnel-bytes", "wrote {} to the tunnel, the peer got {}", show(&sent.borrow()), show(&out[at..]));
    Ok(())
}
