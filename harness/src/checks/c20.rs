//! HTTP/2: failures and cancellations stay within their stream.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, Outcome, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use bytes::Bytes;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C20",
        run,
        quick: 150_000,
        thorough: 5_000_000,
        max_len: 700,
        rule: "a case is a hyper HTTP/2 server or client connection against a scripted raw peer with 2-7 streams, at least one of which fails in a generated way (reset by the peer at any point, cancelled, failing body or service, malformed message, abandoned body, no window), interleaved with healthy streams and followed by later ones; every case with at least one failing stream is non-trivial",
        must_labels: &[
            "server", "client", "rst-early", "rst-pending", "rst-body", "svc-err", "body-err", "stall", "malformed", "long", "short", "abandon", "connect-len",
            "c-rst-before", "c-rst-mid", "c-cancel", "c-cancel-upload", "c-body-err", "c-drop", "c-stall", "c-malformed", "c-long", "c-short", "c-cancel-late", "later",
        ],
    }
}

pub fn plain_body(s: &mut Src, max: usize) -> BodyPlan {
    let mut steps = vec![];
    let mut n = 0;
    for _ in 0..s.weighted(&[1, 3, 2, 1]) {
        if s.chance(50) {
            steps.push(Step::Pending(s.range(1, 2)));
        }
        let k = (*s.pick(&[1usize, 10, 300, 5000, 16_384, 16_385, 40_000])).min(max);
        steps.push(Step::Data(Bytes::from(payload(s.u8().wrapping_add(n), k)), 1));
        n += 1;
    }
    BodyPlan { steps, hint: *s.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower]), honest_end: !s.chance(64) }
}
pub fn req_fields(method: &str, path: &str, extra: &[(&str, &str)]) -> Fields {
    let mut f = fields(&[(":method", method), (":scheme", "http"), (":authority", "a.test"), (":path", path)]);
    f.extend(fields(extra));
    f
}
fn trailer_fields() -> Fields {
    fields(&[("x-t", "1")])
}

#[derive(Clone, Debug)]
enum Act {
    Open(Fields, bool),
    Head(Fields, bool),
    Data(Vec<u8>, bool),
    Trailers,
    Reset(u32),
    /// let everything settle first
    Settle,
    /// only once the other side has ended its half or reset
    WaitEnd,
}

fn data_acts(s: &mut Src, a: &mut VecDeque<Act>, b: &[u8], end: bool) {
    let mut i = 0;
    while i < b.len() {
        let n = s.pick(&[1usize, 100, 1000, 20_000, 70_000]).min(&(b.len() - i)).to_owned();
        let n = if a.len() > 20 { b.len() - i } else { n };
        let last = i + n == b.len();
        a.push_back(Act::Data(b[i..i + n].to_vec(), last && end));
        i += n;
    }
    if b.is_empty() && end {
        a.push_back(Act::Data(vec![], true));
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(128) {
        cx.label("server");
        server(s, cx)
    } else {
        cx.label("client");
        client(s, cx)
    }
}

const CODES: &[u32] = &[8, 8, 0, 1, 2, 5, 7, 11, 99];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Normal,
    RstEarly,
    RstPending,
    RstBody,
    SvcErr,
    BodyErr,
    Stall,
    Malformed,
    Long,
    Short,
    Abandon,
    ConnectLen,
}

fn server(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = H2Cfg::gen(s);
    cfg.max_streams = None;
    if cfg.stream_window.is_some_and(|w| w < 1000) {
        cfg.stream_window = Some(1000);
    }
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let sched = Plan::gen(s, 8);
    let n = s.range(2, 7);
    let my_win = *s.pick(&[65_535u32, 65_535, 1000, 200_000]);
    let mut fates = vec![];
    let mut plans: BTreeMap<String, RespPlan> = BTreeMap::new();
    let mut acts: Vec<VecDeque<Act>> = vec![];
    let mut reqs: Vec<(Vec<u8>, bool)> = vec![];
    let mut codes = vec![0u32; n];
    for i in 0..n {
        use Fate::*;
        let f = *s.pick(&[Normal, Normal, Normal, Normal, RstEarly, RstEarly, RstPending, RstBody, SvcErr, BodyErr, Stall, Malformed, Long, Short, Abandon, ConnectLen]);
        let path = format!("/{i}");
        let mut p = RespPlan::simple();
        p.version = http::Version::HTTP_2;
        p.delay = s.weighted(&[3, 1, 1]);
        p.post_delay = s.weighted(&[3, 1, 1]);
        p.pauses = Plan::gen(s, 3);
        p.status = *s.pick(&[200u16, 404, 500]);
        p.body = plain_body(s, 40_000);
        p.read = match s.weighted(&[4, 2, 1]) {
            0 => ReadPlan::All,
            1 => ReadPlan::Background,
            _ => ReadPlan::FramesThenBackground(1),
        };
        let body = plain_body(s, 20_000).data();
        let mut trailers = s.chance(50);
        let mut a = VecDeque::new();
        let cl = body.len().to_string();
        let extra: Vec<(&str, &str)> = if s.chance(100) { vec![("content-length", &cl)] } else { vec![] };
        let mut fs = req_fields("POST", &path, &extra);
        codes[i] = *s.pick(CODES);
        match f {
            Normal => {}
            RstEarly => cx.label("rst-early"),
            RstPending => {
                cx.label("rst-pending");
                p.read = ReadPlan::BackgroundGated;
            }
            RstBody => {
                cx.label("rst-body");
                p.body.steps.push(if s.chance(128) { Step::Stuck } else { Step::Data(Bytes::from(vec![7; 3_000_000]), 1) });
            }
            SvcErr => {
                cx.label("svc-err");
                p.svc_err = true;
            }
            BodyErr => {
                cx.label("body-err");
                p.body.steps.push(Step::Err);
                if p.body.hint == Hint::Exact {
                    p.body.hint = Hint::Lower;
                }
            }
            Stall => {
                cx.label("stall");
                p.body.steps.insert(0, Step::Data(Bytes::from(payload(9, 250_000)), 1));
            }
            Malformed => {
                cx.label("malformed");
                match s.below(5) {
                    0 => fs.push((b"transfer-encoding".to_vec(), b"chunked".to_vec())),
                    1 => fs.push((b"connection".to_vec(), b"close".to_vec())),
                    2 => fs.push((b"te".to_vec(), b"gzip".to_vec())),
                    3 => fs.retain(|e| e.0 != b":method"),
                    _ => fs.push((b":path".to_vec(), b"/again".to_vec())),
                }
            }
            Long | Short => {
                cx.label(if f == Long { "long" } else { "short" });
                trailers = trailers && f == Short;
                fs = req_fields("POST", &path, &[]);
                let k = if f == Short { body.len() + s.range(1, 3) } else { body.len().saturating_sub(s.range(1, 3)) };
                fs.push((b"content-length".to_vec(), k.to_string().into_bytes()));
            }
            Abandon => {
                cx.label("abandon");
                p.read = match s.below(3) {
                    0 => ReadPlan::Drop,
                    1 => ReadPlan::Frames(1),
                    _ => ReadPlan::PollOnce,
                };
            }
            ConnectLen => {
                cx.label("connect-len");
                fs = fields(&[(":method", "CONNECT"), (":authority", "t.test:1"), ("content-length", "5")]);
            }
        }
        cx.nontrivial |= f != Normal;
        // a body that is too long needs bytes
        let body = if f == Long && body.is_empty() { vec![1, 2, 3] } else { body };
        if f == Long && body.len() <= 3 {
            fs = req_fields("POST", &path, &[("content-length", "0")]);
        }
        let ends_now = body.is_empty() && !trailers && s.chance(128) && f != Short;
        a.push_back(Act::Open(fs, ends_now));
        if !ends_now {
            data_acts(s, &mut a, &body, !trailers);
            if trailers {
                a.push_back(Act::Trailers);
            }
        }
        match f {
            RstEarly => {
                // somewhere before the end
                let mut k = s.range(1, a.len());
                if ends_now || k >= a.len() {
                    k = a.len().max(2) - 1;
                }
                if ends_now {
                    if let Some(Act::Open(_, e)) = a.front_mut() {
                        *e = false;
                    }
                    k = 1;
                }
                a.truncate(k);
                if s.chance(128) {
                    a.push_back(Act::Settle);
                }
                a.push_back(Act::Reset(codes[i]));
            }
            RstPending | RstBody => {
                a.push_back(Act::Settle);
                a.push_back(Act::Reset(codes[i]));
            }
            Stall if s.chance(128) => {
                a.push_back(Act::Settle);
                a.push_back(Act::Reset(codes[i]));
            }
            ConnectLen => a.truncate(1),
            _ => {}
        }
        reqs.push((body, trailers));
        fates.push(f);
        plans.insert(path, p);
        acts.push(a);
    }
    let later = s.range(1, 2);
    for i in n..n + later {
        let mut p = RespPlan::simple();
        p.body = plain_body(s, 20_000);
        plans.insert(format!("/{i}"), p);
    }
    let conn_win = s.chance(60);
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|i| {
                let a: Vec<String> = acts[i].iter().map(|a| match a { Act::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }), Act::Open(f, e) => format!("open{}{}", f.len(), if *e { "E" } else { "" }), o => format!("{o:?}") }).collect();
                format!("{:?}: {} / {}", fates[i], a.join(","), plans[&format!("/{i}")].show())
            })
            .collect();
        format!("server {} win={my_win} io[{}] {}", cfg.show(), ic.show(), l.join(" || "))
    });

    let mut ex = Exec::new(sched);
    ex.max_polls = 400_000;
    let (io, h) = scripted(&ex.events, &ic);
    let p2 = plans.clone();
    let pf: PlanFn = Rc::new(move |_, parts| p2.get(parts.uri.path()).cloned().unwrap_or_else(RespPlan::simple));
    let sp = h2::serve(&mut ex, &cfg, io, pf);
    let mut peer = Peer::new(false);
    peer.grant = Grant::Manual;
    peer.hello(&[(4, my_win)]);
    peer.give(0, if conn_win { 500_000 } else { 8_000_000 });
    let mut sids = vec![0u32; n];
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {
            format!("calls {:?} end={:?} frames {}", sp.calls.borrow().iter().map(|c| format!("{} got {} ended={} err={:?} responded={} gone={}", c.uri, c.got.data.len(), c.got.ended, c.got.err, c.responded, c.fut_dropped)).collect::<Vec<_>>(), sp.end.borrow().as_ref().map(|e| e.text.clone()), peer.show())
        };
    }
    macro_rules! grant {
        () => {
            for i in 0..n {
                let sid = sids[i];
                if sid != 0 && fates[i] != Fate::Stall && !(fates[i] == Fate::RstBody) {
                    peer.give_back(sid);
                }
            }
            let w = std::mem::take(&mut peer.conn_owed);
            peer.give(0, w);
        };
    }
    macro_rules! settle {
        () => {
            loop {
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                grant!();
                if peer.out.is_empty() {
                    break;
                }
            }
        };
    }
    nudge(&mut ex, &h, &mut peer, s.below(30)).map_err(fix)?;
    if cfg.stream_window.is_some_and(|w| w < 65_535) {
        // the h2 crate can lose a window update when a window shrinks under a stream
        settle!();
    }
    loop {
        let live: Vec<usize> = (0..n).filter(|i| !acts[*i].is_empty()).collect();
        if live.is_empty() {
            break;
        }
        let i = *s.pick(&live);
        match acts[i].pop_front().unwrap() {
            Act::Open(f, end) => sids[i] = peer.open(&f, end),
            Act::Data(b, e) => peer.send(sids[i], &b, e),
            Act::Trailers => peer.trailers(sids[i], &trailer_fields()),
            Act::Reset(c) => {
                // once the other side has reset it, there is nothing to reset
                if peer.streams[&sids[i]].reset.is_none() {
                    peer.reset(sids[i], c)
                }
            }
            Act::Settle => {
                settle!();
            }
            _ => {}
        }
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                nudge(&mut ex, &h, &mut peer, s.range(1, 25)).map_err(fix)?;
                grant!();
            }
            _ => {
                settle!();
            }
        }
    }
    settle!();
    ensure!(sp.end.borrow().is_none() && peer.goaways.is_empty(), "connection-hit", "a failure on one stream ended the connection: {}", state!());
    let mut open_left = false;
    {
        let calls = sp.calls.borrow();
        for i in 0..n {
            let path = format!("/{i}");
            let p = &plans[&path];
            let st = &peer.streams[&sids[i]];
            let call: Vec<&Call> = calls.iter().filter(|c| c.uri.ends_with(&path) && c.method != "CONNECT").collect();
            ensure!(call.len() <= 1, "wrong-request", "request {i} was delivered {} times", call.len());
            let call = call.first();
            let (body, trailers) = &reqs[i];
            let f = fates[i];
            if let Some(c) = call {
                ensure!(body.starts_with(&c.got.data), "wrong-body", "request body {i} is not what was sent: {}", state!());
                if let Err(e) = c.got.hint_check() {
                    // a declared length that is a lie is only found out at the end
                    ensure!(!matches!(f, Fate::Normal | Fate::Abandon | Fate::Stall), "hint", "request {i}: {e}");
                }
            }
            // whatever came of the response is a part of it
            let want = p.body.data();
            ensure!(want.starts_with(&st.data), "wrong-body", "response body {i} is not what the service gave: {}", state!());
            if st.ended {
                ensure!(st.data == want && f != Fate::SvcErr && f != Fate::BodyErr, "false-end", "response {i} ({f:?}) ended after {} of {} bytes: {}", st.data.len(), want.len(), state!());
            }
            let healthy = |what: &str| -> R {
                let Some(c) = call else { fail!("missing", "{what} {i} never reached the service: {}", state!()) };
                if f != Fate::Abandon {
                    ensure!(c.got.clean() && c.got.data == *body && c.got.trailers.len() == *trailers as usize, "healthy-hit", "{what} {i}: the body arrived as {} of {} bytes ended={} err={:?} trailers={:?}: {}", c.got.data.len(), body.len(), c.got.ended, c.got.err, c.got.trailers, state!());
                } else {
                    ensure!(c.got.err.is_none(), "healthy-hit", "{what} {i}: body error {:?}: {}", c.got.err, state!());
                }
                Ok(())
            };
            match f {
                Fate::Normal | Fate::Abandon => {
                    healthy("request")?;
                    let ok_rst = st.reset.is_none() || st.reset == Some(0);
                    ensure!(st.head().and_then(status) == Some(p.status) && st.ended && st.data == want && ok_rst, "healthy-hit", "response {i}: {:?} with {} of {} bytes ended={} reset={:?}: {}", st.head().map(|h| regular(h).len()), st.data.len(), want.len(), st.ended, st.reset, state!());
                }
                Fate::RstEarly => {
                    if let Some(c) = call {
                        ensure!(codes[i] == 0 || !c.got.ended, "reset-as-end", "request body {i} was reset with {} and ended cleanly: {}", codes[i], state!());
                        ensure!(c.fut_dropped, "leftover", "the service future of the reset stream {i} is still there: {}", state!());
                        if let Some(b) = &c.stat {
                            ensure!(b.borrow().dropped, "leftover", "the response body of the reset stream {i} is still there: {}", state!());
                        }
                    }
                }
                Fate::RstPending => {
                    ensure!(st.heads.is_empty(), "harness", "gated response sent");
                    if let Some(c) = call {
                        ensure!(c.fut_dropped, "leftover", "the service future of the reset stream {i} is still there: {}", state!());
                    }
                }
                Fate::RstBody => {
                    if let Some(c) = call {
                        ensure!(c.fut_dropped && c.stat.as_ref().is_none_or(|b| b.borrow().dropped), "leftover", "the response body of the reset stream {i} is still there: {}", state!());
                    }
                }
                Fate::SvcErr => {
                    ensure!(st.heads.is_empty() && st.reset == Some(code::INTERNAL), "error-unsignalled", "the service failed on stream {i}: response {:?} reset {:?}: {}", st.heads, st.reset, state!());
                }
                Fate::BodyErr => {
                    ensure!(st.reset == Some(code::INTERNAL), "error-unsignalled", "the response body failed on stream {i}: {} of {} bytes, reset {:?}: {}", st.data.len(), want.len(), st.reset, state!());
                    ensure!(call.and_then(|c| c.stat.clone()).is_some_and(|b| b.borrow().dropped), "leftover", "the failed response body of stream {i} is still there");
                }
                Fate::Stall => {
                    if st.my_reset.is_none() {
                        open_left = true;
                        healthy("request")?;
                        ensure!(st.head().and_then(status) == Some(p.status) && st.reset.is_none() && st.room <= 0, "healthy-hit", "response {i}, whose peer grants nothing: {} bytes, room for {}, reset {:?}: {}", st.data.len(), st.room, st.reset, state!());
                    } else if let Some(c) = call {
                        ensure!(c.fut_dropped && c.stat.as_ref().is_none_or(|b| b.borrow().dropped), "leftover", "the response body of the reset stream {i} is still there: {}", state!());
                    }
                }
                Fate::Malformed | Fate::ConnectLen => {
                    ensure!(call.is_none() && st.heads.is_empty() && !calls.iter().any(|c| f == Fate::ConnectLen && c.method == "CONNECT"), "malformed-served", "the malformed request {i} reached the service: {}", state!());
                    ensure!(st.reset.is_some_and(|c| c != 0), "error-unsignalled", "the malformed request {i} was not reset: {}", state!());
                }
                Fate::Long | Fate::Short => {
                    if let Some(c) = call {
                        ensure!(!c.got.ended, "length", "the body of request {i}, which is not as long as declared, ended cleanly: {}", state!());
                    }
                    // reset, or complete already
                    ensure!(st.reset.is_some() || st.ended, "error-unsignalled", "the malformed request {i} was not reset: {}", state!());
                }
            }
        }
    }
    // later streams
    cx.label("later");
    for i in n..n + later {
        let b = payload(i as u8, *s.pick(&[0usize, 10, 3000, 30_000]));
        let sid = peer.open(&req_fields("PUT", &format!("/{i}"), &[]), b.is_empty());
        if !b.is_empty() {
            peer.send(sid, &b, true);
        }
        for _ in 0..300 {
            settle!();
            peer.give_back(sid);
            if peer.out.is_empty() {
                break;
            }
        }
        let st = &peer.streams[&sid];
        let want = plans[&format!("/{i}")].body.data();
        ensure!(st.head().and_then(status) == Some(200) && st.ended && st.data == want, "later-hit", "the later request {i} got {:?} and {} of {} bytes, ended={} reset={:?}: {}", st.head(), st.data.len(), want.len(), st.ended, st.reset, state!());
        let calls = sp.calls.borrow();
        let c = calls.iter().find(|c| c.uri.ends_with(&format!("/{i}")));
        ensure!(c.is_some_and(|c| c.got.clean() && c.got.data == b), "later-hit", "the later request {i} arrived incomplete: {}", state!());
    }
    ensure!(sp.end.borrow().is_none() && peer.goaways.is_empty(), "connection-hit", "a failure on one stream ended the connection: {}", state!());
    feed_eof(&h.rx);
    sp.gate.open();
    ensure!(pump(&mut ex, &h, &mut peer).is_ok(), "spin", "no end of activity: {}", state!());
    // round trip estimates and such
    let t = ex.clock.now() + std::time::Duration::from_secs(2);
    ensure!(ex.run_timed(t) == Stall::Quiet, "spin", "no end of activity: {}", state!());
    let e = sp.end.borrow().clone();
    match e {
        None => fail!("stuck", "the connection goes on after the transport ended: {}", state!()),
        Some(e) => ensure!(e.ok || open_left || e.text.contains("BrokenPipe"), "bad-end", "the connection ended with {}: {}", e.text, state!()),
    }
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum CFate {
    Normal,
    RstBefore,
    RstMid,
    /// cancelled with nothing of the response there
    Cancel,
    /// the same while the upload waits
    CancelUpload,
    /// cancelled at any time
    CancelLate,
    BodyErr,
    /// response body dropped
    Drop,
    /// no window for the upload
    Stall,
    Malformed,
    Long,
    Short,
}

fn client(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = H2Cfg::gen(s);
    cfg.initial_streams = None;
    if cfg.stream_window.is_some_and(|w| w < 1000) {
        cfg.stream_window = Some(1000);
    }
    let mut ic = IoCfg::gen_coarse(s);
    ic.cap = usize::MAX;
    let sched = Plan::gen(s, 8);
    let n = s.range(2, 7);
    let my_win = *s.pick(&[65_535u32, 65_535, 1000, 200_000]);
    let mut fates = vec![];
    let mut plans: Vec<ReqPlan> = vec![];
    let mut acts: Vec<VecDeque<Act>> = vec![];
    let mut resps: Vec<(Vec<u8>, bool)> = vec![];
    let mut codes = vec![0u32; n];
    let mut gates: Vec<Gate> = vec![];
    for i in 0..n {
        use CFate::*;
        let f = *s.pick(&[Normal, Normal, Normal, Normal, RstBefore, RstMid, Cancel, CancelUpload, CancelLate, BodyErr, CFate::Drop, Stall, Malformed, Long, Short]);
        let mut q = ReqPlan::get();
        q.method = s.pick(&["POST", "PUT"]).to_string();
        q.uri = format!("http://a.test/{i}");
        q.delay = s.weighted(&[4, 1, 1]) * 3;
        q.try_send = s.chance(80);
        q.ready = s.chance(160);
        q.pauses = Plan::gen(s, 3);
        q.body = plain_body(s, 40_000);
        let g = Gate::default();
        codes[i] = *s.pick(CODES);
        let body = plain_body(s, 30_000).data();
        let mut trailers = s.chance(50);
        let cl = body.len().to_string();
        let mut fs = fields(&[(":status", "200")]);
        if s.chance(100) {
            fs.extend(fields(&[("content-length", &cl)]));
        }
        let mut a = VecDeque::new();
        let mut body = body;
        match f {
            Normal => {}
            RstBefore => cx.label("c-rst-before"),
            RstMid => cx.label("c-rst-mid"),
            Cancel => {
                cx.label("c-cancel");
                q.cancel_gate = Some(g.clone());
            }
            CancelUpload => {
                cx.label("c-cancel-upload");
                q.cancel_gate = Some(g.clone());
                q.body.steps.push(if s.chance(128) { Step::Stuck } else { Step::Data(Bytes::from(vec![7; 300_000]), 1) });
            }
            CancelLate => {
                cx.label("c-cancel-late");
                q.cancel = Some(s.below(12));
            }
            BodyErr => {
                cx.label("c-body-err");
                q.body.steps.push(Step::Err);
                if q.body.hint == Hint::Exact {
                    q.body.hint = Hint::Lower;
                }
            }
            CFate::Drop => {
                cx.label("c-drop");
                q.read = if s.chance(128) { ReadPlan::Drop } else { ReadPlan::Frames(1) };
                fs = fields(&[(":status", "200")]);
            }
            Stall => {
                cx.label("c-stall");
                q.body.steps.insert(0, Step::Data(Bytes::from(payload(9, 250_000)), 1));
            }
            Malformed => {
                cx.label("c-malformed");
                match s.below(3) {
                    0 => fs.push((b"upgrade".to_vec(), b"v".to_vec())),
                    1 => fs.push((b"connection".to_vec(), b"close".to_vec())),
                    _ => fs.insert(0, (b":status".to_vec(), b"200".to_vec())),
                }
            }
            Long | Short => {
                cx.label(if f == Long { "c-long" } else { "c-short" });
                trailers = trailers && f == Short;
                if f == Long && body.is_empty() {
                    body = vec![1, 2, 3];
                }
                let k = if f == Short { body.len() + s.range(1, 3) } else { body.len().saturating_sub(s.range(1, 3)) };
                fs = fields(&[(":status", "200"), ("content-length", &k.to_string())]);
            }
        }
        cx.nontrivial |= f != Normal;
        if matches!(f, Normal | Long | Short | CancelLate) && s.chance(128) {
            a.push_back(Act::WaitEnd);
        }
        let ends_now = body.is_empty() && !trailers && s.chance(128) && !matches!(f, Short | CFate::Drop);
        a.push_back(Act::Head(fs, ends_now));
        if !ends_now {
            data_acts(s, &mut a, &body, !trailers);
            if trailers {
                a.push_back(Act::Trailers);
            }
        }
        match f {
            RstBefore => {
                a.clear();
                if s.chance(100) {
                    a.push_back(Act::Settle);
                }
                a.push_back(Act::Reset(codes[i]));
            }
            RstMid => {
                if let Some(Act::Head(_, e)) = a.front_mut() {
                    *e = false;
                }
                let k = s.range(1, a.len().max(2) - 1);
                a.truncate(k);
                if s.chance(100) {
                    a.push_back(Act::Settle);
                }
                a.push_back(Act::Reset(codes[i]));
            }
            Cancel | CancelUpload | BodyErr => a.clear(),
            CFate::Drop if s.chance(128) => {
                // the rest never comes
                q.read = ReadPlan::Drop;
                a.truncate(s.range(1, a.len().max(2) - 1).min(a.len()));
            }
            _ => {}
        }
        resps.push((body, trailers));
        fates.push(f);
        plans.push(q);
        acts.push(a);
        gates.push(g);
    }
    let later = s.range(1, 2);
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|i| {
                let a: Vec<String> = acts[i].iter().map(|a| match a { Act::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }), Act::Head(f, e) => format!("head{}{}", f.len(), if *e { "E" } else { "" }), o => format!("{o:?}") }).collect();
                format!("{:?}: {} <- {}", fates[i], plans[i].show(), a.join(","))
            })
            .collect();
        format!("client {} win={my_win} io[{}] {}", cfg.show(), ic.show(), l.join(" || "))
    });

    let mut ex = Exec::new(sched);
    ex.max_polls = 400_000;
    let (io, h) = scripted(&ex.events, &ic);
    let cp = h2::connect(&mut ex, &cfg, io);
    let mut peer = Peer::new(true);
    peer.grant = Grant::Manual;
    peer.hello(&[(4, my_win)]);
    peer.give(0, 8_000_000);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    macro_rules! state {
        () => {
            format!("calls {:?} end={:?} frames {}", cp.env.calls.borrow().iter().map(|c| c.show()).collect::<Vec<_>>(), cp.env.end.borrow().as_ref().map(|e| e.text.clone()), peer.show())
        };
    }
    let tasks = cli::concurrent(&mut ex, &cp.env, plans.clone());
    let find = |peer: &Peer, i: usize| -> Option<u32> {
        let path = format!("/{i}");
        peer.streams.iter().find(|(_, v)| v.heads.first().and_then(|h| field(h, ":path")) == Some(path.as_bytes())).map(|e| *e.0)
    };
    macro_rules! grant {
        () => {
            for i in 0..n {
                if let Some(sid) = find(&peer, i) {
                    if !matches!(fates[i], CFate::Stall | CFate::CancelUpload) {
                        peer.give_back(sid);
                    }
                }
            }
            let w = std::mem::take(&mut peer.conn_owed);
            peer.give(0, w);
        };
    }
    macro_rules! settle {
        () => {
            loop {
                pump(&mut ex, &h, &mut peer).map_err(fix)?;
                grant!();
                if peer.out.is_empty() {
                    break;
                }
            }
        };
    }
    let mut idle = 0;
    loop {
        let ready: Vec<usize> = (0..n)
            .filter(|i| {
                !acts[*i].is_empty()
                    && find(&peer, *i).is_some_and(|sid| match acts[*i][0] {
                        Act::WaitEnd => peer.streams[&sid].done(),
                        _ => true,
                    })
            })
            .collect();
        if ready.is_empty() {
            if idle > 1 {
                break;
            }
            idle += 1;
            settle!();
            continue;
        }
        idle = 0;
        let i = *s.pick(&ready);
        let sid = find(&peer, i).unwrap();
        let gone = peer.streams[&sid].reset.is_some();
        match acts[i].pop_front().unwrap() {
            _ if gone => acts[i].clear(),
            Act::Head(f, end) => peer.headers(sid, &f, end),
            Act::Data(b, e) => peer.send(sid, &b, e),
            Act::Trailers => peer.trailers(sid, &trailer_fields()),
            Act::Reset(c) => peer.reset(sid, c),
            Act::Settle => {
                settle!();
            }
            _ => {}
        }
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                nudge(&mut ex, &h, &mut peer, s.range(1, 25)).map_err(fix)?;
                grant!();
            }
            _ => {
                settle!();
            }
        }
        if s.chance(20) {
            gates[i].open();
        }
    }
    settle!();
    for g in &gates {
        g.open();
    }
    settle!();
    ensure!(cp.env.end.borrow().is_none() && peer.goaways.is_empty(), "connection-hit", "a failure on one stream ended the connection: {}", state!());
    let mut open_left = false;
    {
        let calls = cp.env.calls.borrow();
        for i in 0..n {
            let q = &plans[i];
            let c = &calls[i];
            let f = fates[i];
            let (body, trailers) = &resps[i];
            let sid = find(&peer, i);
            let want = q.body.data();
            ensure!(body.starts_with(&c.got.data), "wrong-body", "response body {i} is not what was sent: {}", state!());
            if let Err(e) = c.got.hint_check() {
                ensure!(!matches!(f, CFate::Normal | CFate::Drop | CFate::Stall), "hint", "response {i}: {e}");
            }
            let stat = cp.env.stats.borrow().get(i).cloned();
            let body_gone = || stat.as_ref().is_none_or(|b| b.borrow().polls == 0 && !c.sent || b.borrow().dropped);
            let Some(sid) = sid else {
                // cancelled before it was sent
                ensure!(c.cancelled, "missing", "request {i} was never sent: {}", state!());
                continue;
            };
            let st = &peer.streams[&sid];
            ensure!(want.starts_with(&st.data), "wrong-body", "request body {i} is not what was given: {}", state!());
            if st.ended {
                ensure!(st.data == want && f != CFate::BodyErr, "false-end", "request {i} ({f:?}) ended after {} of {} bytes: {}", st.data.len(), want.len(), state!());
            }
            let outcome = |e: &Option<Outcome>| match e {
                Some(Outcome::Resp(r)) => Some(r.status == 200),
                Some(_) => Some(false),
                None => None,
            };
            match f {
                CFate::Normal => {
                    ensure!(outcome(&c.out) == Some(true) && c.got.clean() && c.got.data == *body && c.got.trailers.len() == *trailers as usize, "healthy-hit", "exchange {i} failed: {}", state!());
                    ensure!(st.ended && st.reset.is_none_or(|c| c == 0), "healthy-hit", "request body {i}: {} of {} bytes, reset {:?}: {}", st.data.len(), want.len(), st.reset, state!());
                }
                CFate::Stall => {
                    ensure!(outcome(&c.out) == Some(true) && c.got.clean() && c.got.data == *body, "healthy-hit", "exchange {i} failed: {}", state!());
                    ensure!(st.room <= 0 && !st.ended && st.reset.is_none(), "healthy-hit", "request body {i}, which gets no window: {} bytes, room for {}, reset {:?}: {}", st.data.len(), st.room, st.reset, state!());
                    open_left = true;
                }
                CFate::RstBefore => {
                    ensure!(outcome(&c.out) == Some(false), "reset-hidden", "request {i} was reset with {} and got: {}", codes[i], state!());
                    ensure!(body_gone(), "leftover", "the body of the reset request {i} is still there: {}", state!());
                }
                CFate::RstMid => {
                    if st.my_reset.is_some() {
                        ensure!(outcome(&c.out).is_some(), "stuck", "request {i} never resolved: {}", state!());
                        if outcome(&c.out) == Some(true) {
                            ensure!(c.got.over() && (codes[i] == 0 || c.got.err.is_some()), "reset-as-end", "response body {i} was reset with {}: {}", codes[i], state!());
                        }
                        ensure!(body_gone(), "leftover", "the body of the reset request {i} is still there: {}", state!());
                    }
                }
                CFate::Cancel | CFate::CancelUpload => {
                    ensure!(c.cancelled && c.out.is_none(), "harness", "not cancelled");
                    ensure!(st.reset == Some(code::CANCEL), "cancel-unsignalled", "request {i} was cancelled; its stream: ended={} reset={:?}: {}", st.ended, st.reset, state!());
                    ensure!(body_gone(), "leftover", "the body of the cancelled request {i} is still there: {}", state!());
                }
                CFate::CancelLate => {
                    let complete = st.my_end && st.ended;
                    ensure!(complete || st.reset.is_some() || !c.cancelled || c.out.is_some(), "cancel-unsignalled", "request {i} was cancelled; its stream: ended={} reset={:?}: {}", st.ended, st.reset, state!());
                    if c.cancelled && c.out.is_none() {
                        ensure!(body_gone(), "leftover", "the body of the cancelled request {i} is still there: {}", state!());
                    }
                    if !c.cancelled {
                        ensure!(outcome(&c.out) == Some(true), "healthy-hit", "exchange {i} failed: {}", state!());
                    }
                }
                CFate::BodyErr => {
                    ensure!(st.reset == Some(code::INTERNAL), "error-unsignalled", "the body of request {i} failed; its stream: ended={} reset={:?}: {}", st.ended, st.reset, state!());
                    ensure!(outcome(&c.out) == Some(false), "error-unsignalled", "request {i}, whose body failed, got: {}", state!());
                    ensure!(body_gone(), "leftover", "the failed body of request {i} is still there");
                }
                CFate::Drop => {
                    ensure!(outcome(&c.out) == Some(true), "healthy-hit", "exchange {i} failed: {}", state!());
                    // unless the upload keeps it, nobody is left on this stream
                    ensure!(st.my_end || st.reset == Some(code::CANCEL) || !st.ended, "cancel-unsignalled", "the response body {i} was dropped; its stream: ended={} reset={:?}: {}", st.ended, st.reset, state!());
                    ensure!(st.ended || st.reset.is_some(), "healthy-hit", "the upload of request {i} stopped: {}", state!());
                }
                CFate::Malformed => {
                    ensure!(outcome(&c.out) == Some(false), "malformed-served", "the malformed response {i} was delivered: {}", state!());
                    ensure!(st.reset.is_some_and(|c| c != 0), "error-unsignalled", "the malformed response {i} was not reset: {}", state!());
                }
                CFate::Long | CFate::Short => {
                    ensure!(outcome(&c.out).is_some() && !c.got.ended, "length", "the response body {i}, which is not as long as declared, ended cleanly: {}", state!());
                    ensure!(outcome(&c.out) == Some(false) || c.got.err.is_some(), "stuck", "the malformed response {i} never ended: {}", state!());
                    ensure!(st.reset.is_some() || st.ended, "error-unsignalled", "the malformed response {i} was not reset: {}", state!());
                }
            }
            ensure!(c.mangled.is_none(), "mangled", "request {i} came back as {:?}", c.mangled);
        }
    }
    for (i, t) in tasks.iter().enumerate() {
        ensure!(ex.is_done(*t), "stuck", "the task of request {i} has not finished: {}", state!());
    }
    cx.label("later");
    for j in 0..later {
        let i = n + j;
        let mut q = ReqPlan::get();
        q.method = "PUT".into();
        q.uri = format!("http://a.test/{i}");
        q.body = plain_body(s, 20_000);
        q.ready = s.chance(128);
        let want = q.body.data();
        let t = cli::concurrent(&mut ex, &cp.env, vec![q]);
        let back = payload(i as u8, *s.pick(&[0usize, 10, 3000, 30_000]));
        let mut answered = false;
        for _ in 0..300 {
            settle!();
            if let Some(sid) = find(&peer, i) {
                peer.give_back(sid);
                if !answered {
                    answered = true;
                    peer.headers(sid, &fields(&[(":status", "200")]), back.is_empty());
                    if !back.is_empty() {
                        peer.send(sid, &back, true);
                    }
                }
            }
            if peer.out.is_empty() {
                break;
            }
        }
        let c = cp.env.calls.borrow()[i].clone();
        ensure!(c.resp().is_some_and(|r| r.status == 200) && c.got.clean() && c.got.data == back && ex.is_done(t[0]), "later-hit", "the later request {i} failed: {}", state!());
        let st = &peer.streams[&find(&peer, i).unwrap()];
        ensure!(st.ended && st.data == want, "later-hit", "the later request {i} arrived as {} of {} bytes: {}", st.data.len(), want.len(), state!());
    }
    ensure!(cp.env.end.borrow().is_none() && peer.goaways.is_empty(), "connection-hit", "a failure on one stream ended the connection: {}", state!());
    if s.chance(128) {
        // the transport ends: what is submitted now was certainly not sent
        feed_eof(&h.rx);
        ensure!(pump(&mut ex, &h, &mut peer).is_ok(), "spin", "no end of activity: {}", state!());
        ensure!(cp.env.end.borrow().is_some(), "stuck", "the connection goes on after the transport ended: {}", state!());
        let mut q = ReqPlan::get();
        q.uri = "http://a.test/x".into();
        q.method = "POST".into();
        q.body = plain_body(s, 1000);
        q.try_send = true;
        q.ready = false;
        let k = cp.env.calls.borrow().len();
        cli::concurrent(&mut ex, &cp.env, vec![q]);
        ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity: {}", state!());
        let c = cp.env.calls.borrow()[k].clone();
        match &c.out {
            Some(Outcome::Err { returned: true, .. }) if c.mangled.is_none() => {}
            o => fail!("not-returned", "a request submitted after the end came back as {o:?} {:?}", c.mangled),
        }
    } else {
        let sr = cp.env.sender.borrow_mut().take();
        drop(sr);
        ensure!(pump(&mut ex, &h, &mut peer).is_ok(), "spin", "no end of activity: {}", state!());
        let e = cp.env.end.borrow().clone();
        match e {
            Some(e) => ensure!(e.ok, "bad-end", "the connection ended with {}: {}", e.text, state!()),
            None => fail!("stuck", "the connection goes on after the last sender is gone: {}", state!()),
        }
        if open_left {
            feed_eof(&h.rx);
            ensure!(pump(&mut ex, &h, &mut peer).is_ok(), "spin", "no end of activity: {}", state!());
        }
    }
    let t = ex.clock.now() + std::time::Duration::from_secs(2);
    ensure!(ex.run_timed(t) == Stall::Quiet, "spin", "no end of activity: {}", state!());
    let sr = cp.env.sender.borrow_mut().take();
    drop(sr);
    ensure!(ex.run() == Stall::Quiet, "spin", "no end of activity: {}", state!());
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    Ok(())
}
