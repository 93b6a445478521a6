//! Generated outgoing bodies and helpers to collect incoming ones.
use crate::sim::{burn, Events, Gate};
use crate::src::{payload, Src};
use bytes::{Buf, Bytes};
use http::HeaderMap;
use http_body::{Body, Frame, SizeHint};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Non-contiguous buffer.
#[derive(Debug, Clone, Default)]
pub struct SegBuf(pub VecDeque<Bytes>);
impl SegBuf {
    /// split `b` into at most `n` pieces
    pub fn split(b: Bytes, n: usize) -> Self {
        let mut q = VecDeque::new();
        let n = n.max(1);
        let mut b = b;
        let piece = b.len().div_ceil(n).max(1);
        while b.len() > piece {
            q.push_back(b.split_to(piece));
        }
        if !b.is_empty() {
            q.push_back(b);
        }
        SegBuf(q)
    }
}
impl Buf for SegBuf {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.front().map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.0.front_mut().expect("advance past end");
            if f.len() > n {
                f.advance(n);
                return;
            }
            n -= f.len();
            self.0.pop_front();
        }
        while matches!(self.0.front(), Some(b) if b.is_empty()) {
            self.0.pop_front();
        }
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [std::io::IoSlice<'a>]) -> usize {
        let mut i = 0;
        for b in &self.0 {
            if i == dst.len() {
                break;
            }
            dst[i] = std::io::IoSlice::new(b);
            i += 1;
        }
        i
    }
}

#[derive(Debug, Clone)]
pub enum Step {
    /// data, cut into the given number of buffer segments
    Data(Bytes, usize),
    /// not ready for n deferred wake-ups
    Pending(usize),
    Trailers(HeaderMap),
    Err,
    /// never completes
    Stuck,
    /// waits until the gate is opened
    Gate(Gate),
    /// the body ends here, whatever was announced
    Cut,
}

#[derive(Debug, Default)]
pub struct BodyStat {
    pub polled_data: usize,
    pub frames: usize,
    pub polls: usize,
    pub dropped: bool,
    pub ended: bool,
    pub errored: bool,
    pub polled_after_end: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    /// correct lower bound, no upper
    Lower,
}

/// A body driven by a script.
pub struct PlanBody {
    pub steps: VecDeque<Step>,
    pub hint: Hint,
    /// report is_end_stream truthfully (false = always false until polled to the end)
    pub honest_end: bool,
    /// lie: declared exact length differs from data
    pub declared: Option<u64>,
    pub stat: Rc<RefCell<BodyStat>>,
    /// forward this incoming body instead of the steps
    pub echo: Option<Echo>,
    ev: Events,
    done: bool,
}
pub type Seen = Rc<dyn Fn(Option<Result<Frame<Bytes>, hyper::Error>>)>;
pub struct Echo {
    pub from: hyper::body::Incoming,
    /// told about every frame
    pub seen: Seen,
}
impl PlanBody {
    pub fn new(ev: &Events, steps: Vec<Step>, hint: Hint, honest_end: bool) -> Self {
        PlanBody {
            steps: steps.into(),
            hint,
            honest_end,
            declared: None,
            stat: Rc::new(RefCell::new(BodyStat::default())),
            echo: None,
            ev: ev.clone(),
            done: false,
        }
    }
    pub fn empty(ev: &Events) -> Self {
        PlanBody::new(ev, vec![], Hint::Exact, true)
    }
    pub fn full(ev: &Events, b: impl Into<Bytes>) -> Self {
        let b = b.into();
        if b.is_empty() {
            return PlanBody::empty(ev);
        }
        PlanBody::new(ev, vec![Step::Data(b, 1)], Hint::Exact, true)
    }
    pub fn remaining(&self) -> u64 {
        self.steps.iter().map(|s| if let Step::Data(b, _) = s { b.len() as u64 } else { 0 }).sum()
    }
}
impl std::fmt::Debug for PlanBody {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "body({} steps left, {} polls)", self.steps.len(), self.stat.borrow().polls)
    }
}
impl Drop for PlanBody {
    fn drop(&mut self) {
        self.stat.borrow_mut().dropped = true;
    }
}
#[derive(Debug)]
pub struct BodyErr;
impl std::fmt::Display for BodyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated body error")
    }
}
impl std::error::Error for BodyErr {}

impl Body for PlanBody {
    type Data = SegBuf;
    type Error = BodyErr;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<SegBuf>, BodyErr>>> {
        burn();
        let stat = self.stat.clone();
        let mut st = stat.borrow_mut();
        st.polls += 1;
        if self.done {
            st.polled_after_end = true;
            return Poll::Ready(None);
        }
        let started = self.steps.is_empty();
        if let (Some(e), true) = (self.echo.as_mut(), started) {
            let r = Pin::new(&mut e.from).poll_frame(cx);
            return match r {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => {
                    (e.seen)(None);
                    self.done = true;
                    st.ended = true;
                    Poll::Ready(None)
                }
                Poll::Ready(Some(Err(err))) => {
                    (e.seen)(Some(Err(err)));
                    self.done = true;
                    st.errored = true;
                    Poll::Ready(Some(Err(BodyErr)))
                }
                Poll::Ready(Some(Ok(f))) => {
                    st.frames += 1;
                    let f = match f.into_data() {
                        Ok(d) => {
                            st.polled_data += d.len();
                            (e.seen)(Some(Ok(Frame::data(d.clone()))));
                            Frame::data(SegBuf::split(d, 1))
                        }
                        Err(f) => {
                            let t = f.into_trailers().unwrap_or_default();
                            (e.seen)(Some(Ok(Frame::trailers(t.clone()))));
                            Frame::trailers(t)
                        }
                    };
                    Poll::Ready(Some(Ok(f)))
                }
            };
        }
        match self.steps.pop_front() {
            None => {
                self.done = true;
                st.ended = true;
                Poll::Ready(None)
            }
            Some(Step::Data(b, n)) => {
                st.frames += 1;
                st.polled_data += b.len();
                Poll::Ready(Some(Ok(Frame::data(SegBuf::split(b, n)))))
            }
            Some(Step::Trailers(t)) => {
                st.frames += 1;
                Poll::Ready(Some(Ok(Frame::trailers(t))))
            }
            Some(Step::Err) => {
                self.done = true;
                st.errored = true;
                Poll::Ready(Some(Err(BodyErr)))
            }
            Some(Step::Cut) => {
                self.steps.clear();
                self.done = true;
                st.ended = true;
                Poll::Ready(None)
            }
            Some(Step::Stuck) => {
                self.steps.push_front(Step::Stuck);
                Poll::Pending
            }
            Some(Step::Gate(g)) => {
                if g.poll_open(cx).is_pending() {
                    self.steps.push_front(Step::Gate(g));
                    return Poll::Pending;
                }
                drop(st);
                self.poll_frame(cx)
            }
            Some(Step::Pending(n)) => {
                if n > 1 {
                    self.steps.push_front(Step::Pending(n - 1));
                }
                self.ev.defer(cx.waker());
                Poll::Pending
            }
        }
    }
    fn is_end_stream(&self) -> bool {
        if !self.honest_end {
            return self.done;
        }
        (self.steps.is_empty() || matches!(self.steps.front(), Some(Step::Cut))) && self.echo.as_ref().is_none_or(|e| e.from.is_end_stream())
    }
    fn size_hint(&self) -> SizeHint {
        if let Some(d) = self.declared {
            return SizeHint::with_exact(d);
        }
        if let Some(e) = &self.echo {
            return if self.hint == Hint::Exact && self.steps.is_empty() { e.from.size_hint() } else { SizeHint::default() };
        }
        let n = self.remaining();
        match self.hint {
            Hint::Exact => SizeHint::with_exact(n),
            Hint::Unknown => SizeHint::default(),
            Hint::Lower => {
                let mut h = SizeHint::new();
                h.set_lower(n);
                h
            }
        }
    }
}

/// Sizes with boundary values.
pub fn gen_size(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[3, 6, 4, 3, if big { 2 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => 0,
        1 => s.range(1, 40),
        2 => *s.pick(&[1, 9, 10, 15, 16, 17, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1001]),
        3 => s.range(41, 3000),
        4 => *s.pick(&[4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16383, 16384, 16385, 20000, 65535, 65536]),
        _ => s.range(3000, 70000),
    }
}

#[derive(Clone, Debug)]
pub struct BodyPlan {
    pub steps: Vec<Step>,
    pub hint: Hint,
    pub honest_end: bool,
}
impl BodyPlan {
    pub fn data(&self) -> Vec<u8> {
        let mut v = vec![];
        for s in &self.steps {
            if let Step::Data(b, _) = s {
                v.extend_from_slice(b);
            }
        }
        v
    }
    pub fn len(&self) -> usize {
        self.steps.iter().map(|s| if let Step::Data(b, _) = s { b.len() } else { 0 }).sum()
    }
    pub fn build(&self, ev: &Events) -> PlanBody {
        PlanBody::new(ev, self.steps.clone(), self.hint, self.honest_end)
    }
    pub fn show(&self) -> String {
        let st: Vec<String> = self
            .steps
            .iter()
            .map(|s| match s {
                Step::Data(b, n) => format!("data({},{}seg)", b.len(), n),
                Step::Pending(n) => format!("pend{n}"),
                Step::Trailers(t) => format!("trailers{}", t.len()),
                Step::Err => "ERR".into(),
                Step::Stuck => "STUCK".into(),
                Step::Gate(_) => "GATE".into(),
                Step::Cut => "CUT".into(),
            })
            .collect();
        format!("[{} hint={:?} honest_end={}]", st.join(","), self.hint, self.honest_end)
    }
    /// data frames (possibly empty ones), pendings; no trailers, no errors
    pub fn gen(s: &mut Src, big: bool) -> Self {
        let tag = s.u8();
        let nf = s.weighted(&[2, 5, 3, 2, 1, 1]);
        let nf = if nf == 5 { s.range(5, 40) } else { nf };
        let mut steps = vec![];
        let mut total = 0;
        for i in 0..nf {
            if s.chance(50) {
                steps.push(Step::Pending(s.range(1, 3)));
            }
            let mut n = gen_size(s, big && total < 100_000);
            if nf > 6 {
                n %= 300;
            }
            if n == 0 && !s.chance(64) {
                n = 1;
            }
            total += n;
            let seg = if s.chance(60) { s.range(2, 5) } else { 1 };
            steps.push(Step::Data(Bytes::from(payload(tag.wrapping_add(i as u8), n)), seg));
        }
        if s.chance(40) {
            steps.push(Step::Pending(1));
        }
        let hint = *s.pick(&[Hint::Exact, Hint::Exact, Hint::Unknown, Hint::Lower]);
        let honest_end = !s.chance(64);
        BodyPlan { steps, hint, honest_end }
    }
    /// What hyper can see when it decides framing: known exact length
    pub fn exact(&self) -> bool {
        self.hint == Hint::Exact
    }
    /// is_end_stream() before polling
    pub fn ends_at_once(&self) -> bool {
        self.honest_end && self.steps.is_empty()
    }
}

/// Everything observed while reading an incoming body.
#[derive(Debug, Clone, Default)]
pub struct Got {
    pub data: Vec<u8>,
    pub trailers: Vec<HeaderMap>,
    pub err: Option<String>,
    pub err_incomplete: bool,
    pub err_kinds: String,
    pub ended: bool,
    pub frames: usize,
    pub order_ok: bool,
    /// (bytes read so far, frames so far, lower, upper, end flag) before each read
    pub hints: Vec<(u64, usize, u64, Option<u64>, bool)>,
    /// what came of polling on after the end
    pub after: Option<String>,
}

pub fn err_kinds(e: &hyper::Error) -> String {
    let mut v: Vec<&str> = vec![];
    if e.is_parse() {
        v.push("parse");
    }
    if e.is_parse_too_large() {
        v.push("too_large");
    }
    if e.is_user() {
        v.push("user");
    }
    if e.is_canceled() {
        v.push("canceled");
    }
    if e.is_closed() {
        v.push("closed");
    }
    if e.is_incomplete_message() {
        v.push("incomplete");
    }
    if e.is_body_write_aborted() {
        v.push("body_write_aborted");
    }
    if e.is_timeout() {
        v.push("timeout");
    }
    if e.is_parse_version_h2() {
        v.push("version_h2");
    }
    if v.is_empty() {
        v.push("other");
    }
    v.join("+")
}

impl Got {
    pub fn new() -> Got {
        Got { order_ok: true, ..Got::default() }
    }
    /// true if reading is over
    pub fn absorb(&mut self, f: Option<Result<Frame<Bytes>, hyper::Error>>) -> bool {
        match f {
            None => {
                self.ended = true;
                true
            }
            Some(Ok(f)) => {
                self.frames += 1;
                match f.into_data() {
                    Ok(d) => {
                        if !self.trailers.is_empty() {
                            self.order_ok = false;
                        }
                        self.data.extend_from_slice(&d);
                    }
                    Err(f) => {
                        if let Ok(t) = f.into_trailers() {
                            self.trailers.push(t);
                        }
                    }
                }
                false
            }
            Some(Err(e)) => {
                self.err_incomplete = e.is_incomplete_message();
                self.err_kinds = err_kinds(&e);
                self.err = Some(format!("{e:?}"));
                true
            }
        }
    }
    pub fn over(&self) -> bool {
        self.ended || self.err.is_some()
    }
    pub fn observe<B: Body>(&mut self, b: &B) {
        if self.hints.len() < 200 {
            let h = b.size_hint();
            self.hints.push((self.data.len() as u64, self.frames, h.lower(), h.upper(), b.is_end_stream()));
        }
    }
    /// Were the hints given on the way true of what then came?
    pub fn hint_check(&self) -> Result<(), String> {
        if !self.over() {
            return Ok(());
        }
        let total = self.data.len() as u64;
        for (at, fr, lo, up, end) in &self.hints {
            let rem = total - at;
            if self.ended && (rem < *lo) {
                return Err(format!("size_hint lower bound {lo} after {at} bytes, but only {rem} more came before a clean end"));
            }
            if let Some(u) = up {
                if rem > *u {
                    return Err(format!("size_hint upper bound {u} after {at} bytes, but {rem} more came"));
                }
            }
            if *end {
                if self.frames > *fr {
                    return Err(format!("is_end_stream was true after {at} bytes, but {} more frames came", self.frames - fr));
                }
                if self.err.is_some() {
                    return Err(format!("is_end_stream was true after {at} bytes, but an error came: {:?}", self.err));
                }
            }
        }
        Ok(())
    }
    /// the hints of a body of which `n` bytes were announced
    pub fn exact_check(&self, n: u64) -> Result<(), String> {
        for (at, _, lo, up, _) in &self.hints {
            if *lo != n.saturating_sub(*at) || *up != Some(n.saturating_sub(*at)) {
                return Err(format!("size_hint {lo}..{up:?} after {at} of {n} bytes announced"));
            }
        }
        Ok(())
    }
    /// complete, no error, trailers at most once and after data
    pub fn clean(&self) -> bool {
        self.ended && self.err.is_none() && self.order_ok && self.trailers.len() <= 1
    }
}

/// Next frame, after an optional generated pause; `note` looks at the body before and after every poll.
pub async fn next_frame_noting<F: Fn(&hyper::body::Incoming)>(body: &mut hyper::body::Incoming, ev: &Events, pauses: &mut crate::sim::Plan, note: F) -> Option<Result<Frame<Bytes>, hyper::Error>> {
    note(body);
    let p = pauses.next();
    if p >= 160 {
        crate::sim::delay(ev, 1 + (p as usize & 3)).await;
        note(body);
    }
    std::future::poll_fn(|cx| {
        burn();
        let r = Pin::new(&mut *body).poll_frame(cx);
        if r.is_pending() {
            note(body);
        }
        r
    })
    .await
}

/// polls a body that is over twice more
pub fn poll_on(body: &mut hyper::body::Incoming, clean: bool) -> Option<String> {
    for _ in 0..2 {
        burn();
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        match Pin::new(&mut *body).poll_frame(&mut cx) {
            Poll::Ready(None) => {}
            Poll::Ready(Some(Ok(f))) => return Some(format!("a frame: {f:?}")),
            Poll::Ready(Some(Err(e))) if clean => return Some(format!("an error: {e:?}")),
            Poll::Pending if clean => return Some("nothing yet".into()),
            _ => {}
        }
    }
    None
}

/// Next frame, after an optional generated pause.
pub async fn next_frame<B>(body: &mut B, ev: &Events, pauses: &mut crate::sim::Plan) -> Option<Result<Frame<Bytes>, hyper::Error>>
where
    B: Body<Data = Bytes, Error = hyper::Error> + Unpin,
{
    let p = pauses.next();
    if p >= 160 {
        crate::sim::delay(ev, 1 + (p as usize & 3)).await;
    }
    std::future::poll_fn(|cx| {
        burn();
        Pin::new(&mut *body).poll_frame(cx)
    })
    .await
}

/// Read everything.
pub async fn collect<B>(body: &mut B, max_frames: usize, ev: &Events, pauses: &mut crate::sim::Plan) -> Got
where
    B: Body<Data = Bytes, Error = hyper::Error> + Unpin,
{
    let mut g = Got::new();
    let mut n = 0;
    while n < max_frames {
        n += 1;
        let f = next_frame(body, ev, pauses).await;
        if g.absorb(f) {
            break;
        }
    }
    g
}
