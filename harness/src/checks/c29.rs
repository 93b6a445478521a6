//! HTTP/2: arbitrary frame sequences from the peer.
use crate::src::show;
use crate::body::*;
use crate::cli::{self, ReqPlan};
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::{all, field, status};
use crate::h2ref::{self, RConn};
use crate::h2wire::*;
use crate::sim::*;
use crate::src::{payload, Src};
use crate::srv::*;
use crate::{ensure, fail};
use super::c20::{plain_body, req_fields};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C29",
        run,
        quick: 600_000,
        thorough: 6_000_000,
        max_len: 500,
        rule: "a case is a hyper HTTP/2 server or client whose peer plays 1-6 exchanges in pieces; benign cases mix in frames that have to be ignored, padding, priorities and split header blocks, hostile ones mutated pieces, arbitrary frames in any state, malformed messages, floods, and a cut at any byte; benign cases with an exchange and hostile cases with at least one hostile act are non-trivial",
        must_labels: &[
            "server", "client", "benign", "hostile", "raw-frame", "mutated", "cut-piece", "repeated-piece", "malformed-head", "malformed-trailers", "goaway", "rst", "window", "settings", "ping", "push", "wrong-length", "continuation", "huge-head", "rapid-reset", "too-many", "eof-mid",
            "read-error", "garbage", "padded", "split-head", "unknown-frame", "interim", "clean", "partial", "bad-preface", "write-error",
        ],
    }
}

#[derive(Clone, Debug)]
pub enum P {
    Head(Fields, bool),
    Data(Vec<u8>, bool),
    Tail(Fields),
}

pub struct Wire {
    pub sent: Vec<u8>,
    pub out: Vec<u8>,
    /// handled so far of `out`
    at: usize,
    client: bool,
    pings: Vec<[u8; 8]>,
    settings: usize,
    auto: bool,
}
impl Wire {
    pub fn new(client: bool) -> Wire {
        Wire { sent: vec![], out: vec![], at: 0, client, pings: vec![], settings: 0, auto: true }
    }
    pub fn put(&mut self, h: &IoHandle, b: &[u8]) {
        self.sent.extend_from_slice(b);
        feed(&h.rx, b);
    }
    /// take what hyper wrote, answer SETTINGS and PING
    pub fn take(&mut self, h: &IoHandle) {
        self.out.extend(drain(&h.tx));
        if !self.auto {
            return;
        }
        if self.at == 0 {
            let n = if self.client { PREFACE.len() } else { 0 };
            if self.out.len() < n {
                return;
            }
            self.at = n;
        }
        let mut b = self.out[self.at..].to_vec();
        let n = b.len();
        let fs = take_frames(&mut b);
        self.at += n - b.len();
        for f in fs {
            if f.flags & ACK != 0 {
                continue;
            }
            match f.kind {
                k::SETTINGS => self.put(h, &settings_ack()),
                k::PING if f.payload.len() == 8 => {
                    let mut x = [0; 8];
                    x.copy_from_slice(&f.payload);
                    self.put(h, &ping(true, x))
                }
                _ => {}
            }
        }
    }
}

pub fn settle(ex: &mut Exec, h: &IoHandle, w: &mut Wire) -> R {
    loop {
        if ex.run() == Stall::Spinning {
            fail!("spin", "no end of activity");
        }
        let n = w.out.len();
        let m = w.sent.len();
        w.take(h);
        if w.out.len() == n && w.sent.len() == m {
            return Ok(());
        }
    }
}

/// the frames of a piece, with allowed decoration
pub fn render(s: &mut Src, cx: &mut Cx, sid: u32, p: &P, fancy: bool) -> Vec<u8> {
    let (f, end) = match p {
        P::Data(b, e) => {
            if fancy && s.chance(60) {
                cx.label("padded");
                let n = *s.pick(&[0usize, 1, 100, 255]);
                let mut v = vec![n as u8];
                v.extend_from_slice(b);
                v.extend(vec![0; n]);
                return frame(k::DATA, 8 | *e as u8, sid, &v);
            }
            return data(sid, b, *e);
        }
        P::Head(f, e) => (f, *e),
        P::Tail(f) => (f, true),
    };
    let block = encode(f, if fancy { s.below(8) as u8 } else { 0 });
    if !fancy || s.chance(100) {
        return headers(sid, &block, end);
    }
    let mut flags = end as u8;
    let mut pre = vec![];
    let mut post = vec![];
    if s.chance(100) {
        cx.label("padded");
        flags |= 8;
        let n = *s.pick(&[0usize, 1, 100, 255]);
        pre.push(n as u8);
        post = vec![0; n];
    }
    if s.chance(100) {
        flags |= 0x20;
        pre.extend_from_slice(&[0, 0, 0, if sid == 3 { 1 } else { 3 }, 16]);
    }
    if s.chance(40) {
        flags |= 0x42;
    }
    let mut cuts: Vec<usize> = vec![];
    if s.chance(128) {
        cx.label("split-head");
        for _ in 0..s.range(1, 4) {
            cuts.push(s.below(block.len() + 1));
        }
        cuts.sort();
    }
    cuts.push(block.len());
    let mut v = vec![];
    let mut at = 0;
    for (i, c) in cuts.iter().enumerate() {
        let last = if i + 1 == cuts.len() { END_HEADERS } else { 0 };
        if i == 0 {
            let mut b = pre.clone();
            b.extend_from_slice(&block[..*c]);
            b.extend_from_slice(&post);
            v.extend(frame(k::HEADERS, flags | last, sid, &b));
        } else {
            v.extend(frame(k::CONT, last, sid, &block[at..*c]));
        }
        at = *c;
    }
    v
}

fn bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.below(max + 1);
    (0..n).map(|_| s.u8()).collect()
}
fn any_sid(s: &mut Src, known: &[u32], next: u32) -> u32 {
    match s.weighted(&[3, 5, 2, 1, 1]) {
        0 => 0,
        1 if !known.is_empty() => *s.pick(known),
        2 => next,
        3 => *s.pick(&[2u32, 4, next + 1]),
        _ => *s.pick(&[1u32, 3, 99, 0x7fff_ffff]),
    }
}

/// frames that have to be ignored, or answered without any effect
fn noise(s: &mut Src, cx: &mut Cx, w: &mut Wire, known: &[u32], next: u32, client: bool) -> Vec<u8> {
    match s.below(7) {
        0 => {
            let mut b = [0u8; 8];
            b.iter_mut().for_each(|x| *x = s.u8());
            // (recognisable: not an acknowledgement of something else)
            b[0] = w.pings.len() as u8;
            w.pings.push(b);
            frame(k::PING, if s.chance(60) { 0x0e } else { 0 }, 0, &b)
        }
        1 => {
            let sid = *s.pick(&[1u32, 3, 5, 7, 99]);
            frame(k::PRIORITY, 0, sid, &[0, 0, 0, 11, 7])
        }
        2 => window(0, *s.pick(&[1u32, 100, 1000])),
        3 if !known.is_empty() => window(*s.pick(known), *s.pick(&[1u32, 100])),
        4 => {
            cx.label("unknown-frame");
            let b = bytes(s, 30);
            frame(s.range(0x10, 0xff) as u8, s.u8(), any_sid(s, known, next), &b)
        }
        5 => {
            w.settings += 1;
            let mut l = vec![];
            for _ in 0..s.below(3) {
                l.push(match s.below(5) {
                    0 => (4u16, 1 << 24),
                    1 => (5, *s.pick(&[16_384u32, 20_000, 16_777_215])),
                    2 => (s.range(0x10, 0xffff) as u16, s.u8() as u32),
                    3 => (1, *s.pick(&[4096u32, 0, 100])),
                    _ if client => (2, 0),
                    _ => (4, 1 << 24),
                });
            }
            settings(&l)
        }
        _ => {
            w.settings += 1;
            settings(&[])
        }
    }
}

fn malformed(s: &mut Src, cx: &mut Cx, f: &mut Fields, request: bool) {
    cx.label("malformed-head");
    let pos = s.below(f.len() + 1);
    let bad: &[(&str, &str)] = &[
        ("X-Up", "1"), ("connection", "close"), ("connection", "keep-alive"), ("transfer-encoding", "chunked"), ("keep-alive", "1"), ("upgrade", "x"), ("proxy-connection", "x"), ("te", "gzip"), ("te", "trailers, gzip"), ("a b", "1"), ("", "1"), ("x\0", "1"), ("x", "a\0b"), ("x", "a\r\nb: c"), ("x", "a\nb"),
        (":bogus", "1"), (":status", "200"), (":method", "GET"), (":path", "/evil"), (":authority", "b.test"), (":scheme", "https"), (":protocol", "x"), ("content-length", "-1"), ("content-length", "5, 5"), ("content-length", ""), ("content-length", "1x"), ("content-length", "99999999999999999999"), ("content-length", "3"),
        (":path", ""), (":status", "099"), (":status", "20"), (":status", "2000"), (":status", "abc"), (":method", ""), (":authority", "a b"), (":scheme", "ht!tp"), ("host", "other.test"),
    ];
    match s.below(4) {
        0 => {
            let names: Vec<usize> = (0..f.len()).filter(|i| f[*i].0.starts_with(b":")).collect();
            let i = *s.pick(&names);
            f.remove(i);
        }
        1 => {
            // a different value for a pseudo field
            let names: Vec<usize> = (0..f.len()).filter(|i| f[*i].0.starts_with(b":")).collect();
            let i = *s.pick(&names);
            f[i].1 = s.pick(&["", " ", "/\0", "GET x", "a\r\nb", "x", "*", "/ok", "CONNECT", "http", "199", "100", "000", "600", "99"]).as_bytes().to_vec();
        }
        2 => {
            let (a, b) = *s.pick(bad);
            f.insert(pos, (a.as_bytes().to_vec(), b.as_bytes().to_vec()));
        }
        _ => {
            f.rotate_left(1);
            let _ = request;
        }
    }
}

/// an act no peer should commit (or only at the cost of a stream)
fn hostile(s: &mut Src, cx: &mut Cx, w: &mut Wire, known: &[u32], next: &mut u32, client: bool) -> Vec<u8> {
    let sid = any_sid(s, known, *next);
    match s.below(14) {
        0 | 1 => {
            cx.label("raw-frame");
            let kind = s.below(11) as u8;
            let n = match kind {
                k::RST | k::WINDOW => 4,
                k::PRIORITY => 5,
                k::PING | k::GOAWAY => 8,
                k::SETTINGS => 6,
                _ => 12,
            };
            let b = if s.chance(160) { (0..n).map(|_| s.u8()).collect() } else { bytes(s, 40) };
            frame(kind, s.u8(), sid, &b)
        }
        2 => {
            cx.label("goaway");
            goaway(*s.pick(&[0x7fff_ffffu32, 0, 1, 3, 5]), *s.pick(&[0u32, 0, 2, 11, 0xdead]))
        }
        3 | 4 => {
            cx.label("rst");
            rst(sid, *s.pick(&[0u32, 8, 2, 7, 5, 0xdead]))
        }
        5 => {
            cx.label("window");
            match s.below(4) {
                0 => window(sid, 0),
                1 => window(sid, 0x7fff_ffff),
                2 => window(sid, 0xffff_ffff),
                _ => frame(k::WINDOW, 0, sid, &bytes(s, 6)),
            }
        }
        6 => {
            cx.label("settings");
            match s.below(6) {
                0 => settings(&[(2, 2)]),
                1 => settings(&[(4, 0x8000_0000)]),
                2 => settings(&[(5, *s.pick(&[0u32, 16_383, 16_777_216]))]),
                3 => frame(k::SETTINGS, ACK, 0, &bytes(s, 6)),
                4 => frame(k::SETTINGS, 0, s.below(4) as u32, &bytes(s, 14)),
                _ => settings(&[(4, *s.pick(&[0u32, 1, 0x7fff_ffff])), (3, *s.pick(&[0u32, 1])), (6, *s.pick(&[0u32, 10]))]),
            }
        }
        7 => {
            cx.label("ping");
            frame(k::PING, s.below(2) as u8, s.below(3) as u32, &bytes(s, 9))
        }
        8 => {
            cx.label("push");
            let mut b = vec![0, 0, 0, *s.pick(&[2u8, 4, 3, 0])];
            b.extend(encode(&req_fields("GET", "/push", &[]), 0));
            frame(k::PUSH, END_HEADERS, sid, &b)
        }
        9 => {
            cx.label("continuation");
            match s.below(3) {
                0 => frame(k::CONT, END_HEADERS, sid, &encode(&fields(&[("x", "y")]), 0)),
                1 => frame(k::HEADERS, 0, *next, &encode(&req_fields("GET", "/x", &[]), 0)),
                _ => {
                    let mut v = frame(k::HEADERS, 0, *next, &encode(&req_fields("GET", "/x", &[]), 0));
                    for _ in 0..s.range(1, 30) {
                        v.extend(frame(k::CONT, 0, *next, if s.chance(128) { b"" } else { &[0x00, 1, b'a', 1, b'b'] }));
                    }
                    v
                }
            }
        }
        10 => {
            cx.label("huge-head");
            let mut f = if client { req_fields("GET", "/huge", &[]) } else { fields(&[(":status", "200")]) };
            for i in 0..s.range(1, 30) {
                f.push((format!("x-{i}").into_bytes(), vec![b'v'; 1000]));
            }
            let at = if client { *next } else { sid };
            if client {
                *next += 2;
            }
            headers(at, &encode(&f, 0), s.chance(128))
        }
        11 if client => {
            cx.label("rapid-reset");
            let mut v = vec![];
            for _ in 0..s.range(1, 40) {
                v.extend(headers(*next, &encode(&req_fields("GET", "/r", &[]), 2), s.chance(128)));
                v.extend(rst(*next, 8));
                *next += 2;
            }
            v
        }
        12 if client => {
            cx.label("too-many");
            let mut v = vec![];
            for _ in 0..s.range(1, 20) {
                v.extend(headers(*next, &encode(&req_fields("GET", "/many", &[]), 2), s.chance(200)));
                *next += 2;
            }
            v
        }
        _ => {
            cx.label("garbage");
            let _ = w;
            bytes(s, 60)
        }
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    session(s, cx, false)
}
/// `cut`: a correct peer, and the bytes end somewhere
pub fn session(s: &mut Src, cx: &mut Cx, cut: bool) -> R {
    let server = s.chance(128);
    let benign = !cut && s.chance(80);
    cx.label(if server { "server" } else { "client" });
    cx.label(if benign { "benign" } else { "hostile" });
    let mut cfg = H2Cfg::gen(s);
    cfg.table = None;
    cfg.adaptive = false;
    cfg.initial_streams = None;
    if cfg.stream_window.is_some_and(|w| w < 65_535) {
        cfg.stream_window = Some(65_535);
    }
    if server && cfg.max_streams.is_some() && benign {
        cfg.max_streams = Some(10);
    }
    let limit = cfg.max_streams.unwrap_or(200) as usize;
    let ic = IoCfg::gen_coarse(s);
    let n = s.range(1, 5);
    // the exchanges
    let mut plans: BTreeMap<String, RespPlan> = BTreeMap::new();
    let mut reqs = vec![];
    let mut pieces: Vec<VecDeque<P>> = vec![];
    let mut whole: Vec<(Vec<u8>, bool)> = vec![];
    for i in 0..n {
        let path = format!("/{i}");
        let mut q = VecDeque::new();
        let body = payload(i as u8, *s.pick(&[10usize, 0, 1, 300, 5000, 9000]));
        let tail = s.chance(60);
        let mut extra = vec![("x-n".to_string(), i.to_string())];
        let mut interims = 0;
        let mut f;
        if server {
            let mut p = RespPlan::simple();
            p.version = http::Version::HTTP_2;
            p.delay = s.weighted(&[3, 1, 1]);
            p.pauses = Plan::gen(s, 3);
            p.body = plain_body(s, 9000);
            p.read = if s.chance(128) { ReadPlan::All } else { ReadPlan::Background };
            if !benign && s.chance(40) {
                p.body.steps.push(Step::Stuck);
            }
            plans.insert(path.clone(), p);
            if s.chance(100) {
                extra.push(("content-length".into(), body.len().to_string()));
            }
            f = req_fields(if body.is_empty() { "GET" } else { "POST" }, &path, &[]);
        } else {
            let mut p = ReqPlan::get();
            let b = plain_body(s, 5000);
            p.method = if s.chance(30) { "HEAD".into() } else { "POST".into() };
            if p.method == "POST" {
                p.body = b;
            }
            p.version = http::Version::HTTP_2;
            p.uri = format!("http://a.test{path}");
            p.pauses = Plan::gen(s, 3);
            if s.chance(100) {
                extra.push(("content-length".into(), body.len().to_string()));
            }
            while s.chance(50) && interims < 3 {
                cx.label("interim");
                let st = *s.pick(&[100u16, 103, 199]);
                interims += 1;
                q.push_back(P::Head(fields(&[(":status", &st.to_string()), ("x-i", "1")]), false));
            }
            f = fields(&[(":status", s.pick(&["200", "404", "500"]))]);
            reqs.push(p);
        }
        let none = !server && reqs[i].method == "HEAD";
        let body = if none { vec![] } else { body };
        let tail = tail && !none;
        f.extend(extra.iter().map(|e| (e.0.clone().into_bytes(), e.1.clone().into_bytes())));
        if !benign && !cut && s.chance(30) {
            malformed(s, cx, &mut f, server);
            cx.nontrivial = true;
        }
        if !benign && !cut && s.chance(20) {
            cx.label("wrong-length");
            cx.nontrivial = true;
            f.retain(|e| e.0 != b"content-length");
            f.push((b"content-length".to_vec(), s.pick(&["0", "1", "9", "11", "301", "4999", "100000"]).as_bytes().to_vec()));
        }
        let now = body.is_empty() && !tail && s.chance(160);
        q.push_back(P::Head(f, now));
        if !now {
            let mut at = 0;
            while at < body.len() {
                let k = (*s.pick(&[1usize, 100, 4000, 9000])).min(body.len() - at).max(body.len() / 10);
                let k = k.min(body.len() - at);
                at += k;
                let last = at == body.len() && !tail && s.chance(180);
                q.push_back(P::Data(body[at - k..at].to_vec(), last));
            }
            if tail {
                let mut t = fields(&[("x-t", "1")]);
                if !benign && !cut && s.chance(60) {
                    cx.label("malformed-trailers");
                    cx.nontrivial = true;
                    let (a, b) = *s.pick(&[(":status", "200"), (":path", "/"), ("X", "1"), ("connection", "close"), ("x", "a\0"), (":", "")]);
                    t.push((a.as_bytes().to_vec(), b.as_bytes().to_vec()));
                }
                q.push_back(P::Tail(t));
            } else if !matches!(q.back(), Some(P::Data(_, true))) {
                q.push_back(P::Data(vec![], true));
            }
        }
        whole.push((body, tail));
        pieces.push(q);
    }
    cx.describe(|| {
        let l: Vec<String> = (0..n)
            .map(|i| {
                let a: Vec<String> = pieces[i]
                    .iter()
                    .map(|a| match a {
                        P::Data(b, e) => format!("data{}{}", b.len(), if *e { "E" } else { "" }),
                        P::Head(f, e) => format!("head[{}]{}", f.iter().map(|e| format!("{}={}", show(&e.0), show(&e.1))).collect::<Vec<_>>().join(";"), if *e { "E" } else { "" }),
                        P::Tail(f) => format!("tail{}", f.len()),
                    })
                    .collect();
                format!("{} / {}", a.join(","), if server { plans[&format!("/{i}")].show() } else { reqs[i].show() })
            })
            .collect();
        format!("{} {} {} io[{}] {}", if server { "server" } else { "client" }, if benign { "benign" } else { "hostile" }, cfg.show(), ic.show(), l.join(" || "))
    });

    let mut ex = Exec::new(Plan::gen(s, 8));
    ex.max_polls = 200_000;
    let mut ic = ic;
    ic.cap = usize::MAX;
    let (io, h) = scripted(&ex.events, &ic);
    let mut w = Wire::new(!server);
    let mut srv = None;
    let mut cp = None;
    if server {
        let p2 = plans.clone();
        let pf: PlanFn = Rc::new(move |_, parts| p2.get(parts.uri.path()).cloned().unwrap_or_else(RespPlan::simple));
        srv = Some(h2::serve(&mut ex, &cfg, io, pf));
    } else {
        let c = h2::connect(&mut ex, &cfg, io);
        cli::concurrent(&mut ex, &c.env, reqs.clone());
        cp = Some(c);
    }
    let end = if let Some(c) = &cp { c.env.end.clone() } else { srv.as_ref().unwrap().end.clone() };
    macro_rules! state {
        () => {
            format!(
                "calls {:?} end={:?} sent {} wrote {}",
                match (&srv, &cp) {
                    (Some(p), _) => p.calls.borrow().iter().map(|c| format!("{} {} {:?} got {} ended={} err={:?} responded={} gone={}", c.method, c.uri, c.headers.iter().map(|h| format!("{}: {}", h.0, show(&h.1))).collect::<Vec<_>>(), c.got.data.len(), c.got.ended, c.got.err, c.responded, c.fut_dropped)).collect::<Vec<_>>(),
                    (_, Some(c)) => c.env.calls.borrow().iter().map(|c| c.show()).collect(),
                    _ => vec![],
                },
                end.borrow().as_ref().map(|e| e.text.clone()),
                frames(&w.sent, server),
                frames(&w.out, !server)
            )
        };
    }
    // preface
    let mut hello = vec![];
    if server {
        hello.extend_from_slice(PREFACE);
    }
    hello.extend(settings(&[(4, 1 << 24)]));
    w.settings += 1;
    hello.extend(window(0, 1 << 28));
    if !benign && !cut && s.chance(12) {
        cx.label("bad-preface");
        cx.nontrivial = true;
        match s.below(4) {
            0 => {
                let i = s.below(hello.len());
                hello[i] ^= 1 << s.below(8);
            }
            1 => hello.truncate(s.below(hello.len())),
            2 => hello = b"GET / HTTP/1.1\r\nhost: a\r\n\r\n".to_vec(),
            _ => hello = bytes(s, 60),
        }
    }
    w.put(&h, &hello);
    w.auto = !(!benign && !cut && s.chance(40));
    let mut sids = vec![0u32; n];
    let mut next = 1u32;
    let mut known: Vec<u32> = vec![];
    let mut heads = 0;
    let mut over = false;
    let mut gone = false;
    let mut lost = vec![false; n];
    // which stream is which request
    let learn = |w: &Wire, sids: &mut Vec<u32>| {
        let r = h2ref::read(&w.out, true);
        for (sid, st) in &r.streams {
            if let Some(p) = st.heads.first().and_then(|f| field(f, ":path")) {
                if let Some(i) = std::str::from_utf8(&p[1..]).ok().and_then(|x| x.parse::<usize>().ok()) {
                    sids[i] = *sid;
                }
            }
        }
    };
    loop {
        let live: Vec<usize> = (0..n).filter(|i| !pieces[*i].is_empty() && !lost[*i]).collect();
        if live.is_empty() || over {
            break;
        }
        match s.weighted(&[3, 2, 2]) {
            0 => {}
            1 => {
                ex.run_steps(s.range(1, 20));
                w.take(&h);
            }
            _ => settle(&mut ex, &h, &mut w)?,
        }
        let i = *s.pick(&live);
        if benign && s.chance(90) {
            let b = noise(s, cx, &mut w, &known, next, server);
            w.put(&h, &b);
        }
        if !benign && !cut && s.chance(70) {
            cx.nontrivial = true;
            let b = hostile(s, cx, &mut w, &known, &mut next, server);
            w.put(&h, &b);
        }
        if sids[i] == 0 {
            if server {
                sids[i] = next;
                next += 2;
            } else {
                settle(&mut ex, &h, &mut w)?;
                learn(&w, &mut sids);
                if sids[i] == 0 {
                    ensure!(!benign, "not-sent", "request {i} was not sent: {}", state!());
                    lost[i] = true;
                    continue;
                }
            }
            known.push(sids[i]);
        }
        if cut && s.chance(12) {
            cx.label("goaway");
            gone |= true;
            w.put(&h, &goaway(*s.pick(&[0x7fff_ffffu32, 0, 1, 3, 5]), *s.pick(&[0u32, 0, 2])));
        }
        let p = pieces[i].pop_front().unwrap();
        let mut b = render(s, cx, sids[i], &p, true);
        heads += matches!(p, P::Head(..)) as usize;
        if !benign {
            match if cut { s.weighted(&[12, 0, 0, 0, 1, 1, 1]) } else { s.weighted(&[40, 2, 1, 1, 1, 1, 1]) } {
                0 => {}
                1 => {
                    cx.label("mutated");
                    cx.nontrivial = true;
                    let at = s.below(b.len());
                    b[at] ^= 1 << s.below(8);
                }
                2 => {
                    cx.label("cut-piece");
                    cx.nontrivial = true;
                    let (x, y) = (s.below(b.len()), s.below(b.len()));
                    b.drain(x.min(y)..x.max(y));
                }
                3 => {
                    cx.label("repeated-piece");
                    cx.nontrivial = true;
                    b = [b.clone(), b].concat();
                }
                4 | 5 => {
                    cx.label("eof-mid");
                    cx.nontrivial = true;
                    let at = s.below(b.len() + 1);
                    b.truncate(at);
                    w.put(&h, &b);
                    b.clear();
                    feed_eof(&h.rx);
                    over = true;
                }
                _ => {
                    if s.chance(128) {
                        cx.label("read-error");
                        cx.nontrivial = true;
                        w.put(&h, &b);
                        feed_err(&h.rx, std::io::ErrorKind::ConnectionReset);
                        b.clear();
                        over = true;
                    } else {
                        cx.label("write-error");
                        cx.nontrivial = true;
                        let mut g = h.st.lock().unwrap();
                        let at = g.written + s.below(30) as u64;
                        g.write_err_at = Some((at, std::io::ErrorKind::BrokenPipe));
                    }
                }
            }
        }
        w.put(&h, &b);
    }
    cx.nontrivial |= benign && heads > 0;
    if !over {
        settle(&mut ex, &h, &mut w)?;
        // never more at once than allowed
        if let Some(p) = &srv {
            let open = p.calls.borrow().iter().filter(|c| !c.fut_dropped && !c.responded).count();
            ensure!(open <= limit, "too-many", "{open} calls at once, {limit} streams allowed: {}", state!());
        }
    }
    if benign {
        let out = h2ref::read(&w.out, !server);
        ensure!(end.borrow().is_none() && out.goaways.is_empty(), "closed", "a connection with a correct peer ended: {}", state!());
        good(&w, &out, &srv, &cp, &plans, &reqs, &whole, &sids, n).map_err(|e| Fail::new(e.0, format!("{}: {}", e.1, state!())))?;
    }
    if !over {
        if s.chance(128) && !benign {
            feed_err(&h.rx, std::io::ErrorKind::ConnectionReset);
        } else {
            feed_eof(&h.rx);
        }
    }
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity: {}", state!());
    }
    w.take(&h);
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity: {}", state!());
    }
    // everything is over
    ensure!(end.borrow().is_some(), "not-ended", "the connection goes on without a transport: {}", state!());
    if let Some(c) = &cp {
        for (i, c) in c.env.calls.borrow().iter().enumerate() {
            ensure!(c.out.is_some(), "pending", "request {i} is pending: {}", state!());
            ensure!(c.resp().is_none() || c.got.over(), "waiting", "the body of response {i} does not end: {}", state!());
        }
        *c.env.sender.borrow_mut() = None;
    } else if let Some(p) = &srv {
        for (i, c) in p.calls.borrow().iter().enumerate() {
            ensure!(c.got.over() || c.body_dropped || c.fut_dropped && !c.responded, "waiting", "the body of request {i} does not end: {}", state!());
        }
    }
    if ex.run() == Stall::Spinning {
        fail!("spin", "no end of activity: {}", state!());
    }
    ensure!(ex.live() == 0, "leftover", "{} tasks are left: {}", ex.live(), state!());
    ensure!(h.dropped(), "leftover", "the transport was not dropped: {}", state!());
    // what hyper wrote can be read
    let out = h2ref::read(&w.out, !server);
    let hostile_end = !benign;
    let short = h.st.lock().unwrap().write_err_at.is_some();
    ensure!(out.stop.is_none_or(|x| x == "preface" && w.out.is_empty()), "output", "what was written cannot be read ({:?}): {}", out.stop, state!());
    ensure!(short || hostile_end || out.rest == 0, "output", "{} bytes of an unfinished frame were written: {}", out.rest, state!());
    for (sid, st) in &out.streams {
        ensure!(st.bad.is_none(), "output", "stream {sid} written: {:?}: {}", st.bad, state!());
        for f in &st.heads {
            ensure!(h2ref::head_ok(f, !server).is_ok(), "output", "stream {sid} written: {:?} {f:?}: {}", h2ref::head_ok(f, !server), state!());
        }
    }
    // what was handed over was sent
    let sent = h2ref::read(&w.sent, server);
    if sent.hole {
        cx.label("split-malformed");
        return Ok(());
    }
    if let Some(p) = &srv {
        for c in p.calls.borrow().iter() {
            let mut hs = c.headers.clone();
            hs.sort_by(|a, b| a.0.cmp(&b.0));
            let same = |f: &Fields| all(f, ":method").contains(&c.method.as_bytes()) && (all(f, ":path").is_empty() && c.uri.is_empty() || all(f, ":path").iter().any(|p| c.uri.as_bytes().ends_with(p.split(|c| *c == b'#').next().unwrap_or(p))) || c.method == "CONNECT") && h2ref::delivered(f) == hs;
            let m = sent.streams.values().find(|s| s.heads.first().is_some_and(same) && judge(s, &s.heads[0], &c.got, false).is_ok());
            if m.is_none() {
                let near: Vec<String> = sent.streams.values().filter(|s| s.heads.first().is_some_and(same)).map(|s| judge(s, &s.heads[0], &c.got, false).unwrap_err()).collect();
                fail!("unjustified", "the service was given {} {} {:?} with {} bytes (ended={} err={:?}): {near:?}: {}", c.method, c.uri, c.headers, c.got.data.len(), c.got.ended, c.got.err, state!());
            }
            cx.label_if(c.got.ended, "clean");
            cx.label_if(c.got.err.is_some() && !c.got.data.is_empty(), "partial");
        }
    } else if let Some(p) = &cp {
        learn(&w, &mut sids);
        for (i, c) in p.env.calls.borrow().iter().enumerate() {
            let Some(r) = c.resp() else { continue };
            let st = sent.streams.get(&sids[i]);
            let Some(f) = st.and_then(|s| s.head()) else { fail!("unjustified", "request {i} was given a response never sent ({:?}, {:?}): {}", sent.stop, sent.streams.get(&sids[i]), state!()) };
            let mut hs = r.headers.clone();
            hs.sort_by(|a, b| a.0.cmp(&b.0));
            ensure!(status(f) == Some(r.status) && h2ref::delivered(f) == hs, "unjustified", "request {i} was given {} {:?} for {f:?}: {}", r.status, r.headers, state!());
            let head = reqs[i].method == "HEAD";
            if let Err(e) = judge(st.unwrap(), f, &c.got, head || matches!(r.status, 204 | 304)) {
                fail!("unjustified", "request {i} was given {} bytes (ended={} err={:?}): {e}: {}", c.got.data.len(), c.got.ended, c.got.err, state!());
            }
            cx.label_if(c.got.ended, "clean");
            cx.label_if(c.got.err.is_some() && !c.got.data.is_empty(), "partial");
        }
        if cut && !gone && !short {
            for (i, c) in p.env.calls.borrow().iter().enumerate() {
                let st = sent.streams.get(&sids[i]);
                if st.is_some_and(|s| s.ended) && reqs[i].body.steps.is_empty() {
                    cx.label("whole");
                    ensure!(c.got.ended, "refused-complete", "response {i} arrived as a whole, and is not given to the user: {}", state!());
                }
            }
        }
    }
    Ok(())
}

fn frames(b: &[u8], client: bool) -> String {
    let b = if client { b.strip_prefix(PREFACE).unwrap_or(b) } else { b };
    let mut v = b.to_vec();
    let l: Vec<String> = take_frames(&mut v).iter().map(|f| f.show()).collect();
    let mut t = l.join(" ");
    if t.len() > 1800 {
        t = t.chars().take(1800).collect();
    }
    format!("[{t} +{}]", show(&v[..v.len().min(40)]))
}

/// may this much of the message have been handed over, ending so?
pub fn judge(s: &h2ref::RStream, head: &Fields, got: &Got, bodiless: bool) -> Result<(), String> {
    if !s.data.starts_with(&got.data) {
        return Err("its bytes were not sent".into());
    }
    if !got.ended {
        return Ok(());
    }
    if s.rst_all.contains(&code::NO_ERROR) && got.trailers.is_empty() {
        return Ok(());
    }
    if let Some(b) = s.bad {
        return Err(format!("complete, but {b}"));
    }
    if !s.ended {
        return Err("complete, but its end was not sent".into());
    }
    if got.data != s.data {
        return Err(format!("complete with {} of {} bytes", got.data.len(), s.data.len()));
    }
    match (&s.trailers, got.trailers.len()) {
        (None, 0) => {}
        (Some(t), 1) => {
            let mut h = header_list(&got.trailers[0]);
            h.sort_by(|a, b| a.0.cmp(&b.0));
            let sent = h2ref::delivered(t);
            // (h2 cuts trailers that exceed the limit)
            let cut = sent.iter().map(|e| e.0.len() + e.1.len() + 32).sum::<usize>() > 4000 && h.iter().all(|e| sent.contains(e));
            if h != sent && !cut {
                return Err(format!("trailers {h:?} for {t:?}"));
            }
        }
        (t, k) => return Err(format!("{k} trailers for {t:?}")),
    }
    if let Ok(Some(n)) = h2ref::declared(head) {
        if n != s.data.len() as u64 && !bodiless {
            return Err(format!("complete with {} bytes, declared {n}", s.data.len()));
        }
    }
    Ok(())
}

/// a correct peer gets everything, and gives everything
#[allow(clippy::too_many_arguments)]
fn good(w: &Wire, out: &RConn, srv: &Option<SrvPart>, cp: &Option<cli::CliPart>, plans: &BTreeMap<String, RespPlan>, reqs: &[ReqPlan], whole: &[(Vec<u8>, bool)], sids: &[u32], n: usize) -> Result<(), (&'static str, String)> {
    macro_rules! need {
        ($c:expr, $s:expr, $($t:tt)*) => {
            if !$c {
                return Err(($s, format!($($t)*)));
            }
        };
    }
    let mut v = w.out[if srv.is_none() { PREFACE.len() } else { 0 }..].to_vec();
    let fs = take_frames(&mut v);
    let pongs: Vec<&[u8]> = fs.iter().filter(|f| f.kind == k::PING && f.flags & ACK != 0).map(|f| &f.payload[..]).collect();
    need!(pongs == w.pings.iter().map(|p| &p[..]).collect::<Vec<_>>(), "pong", "{} pings answered {} times", w.pings.len(), pongs.len());
    let acks = fs.iter().filter(|f| f.kind == k::SETTINGS && f.flags & ACK != 0).count();
    need!(acks == w.settings, "settings-ack", "{} settings acknowledged {acks} times", w.settings);
    for i in 0..n {
        let o = out.streams.get(&sids[i]);
        if let Some(p) = srv {
            let calls = p.calls.borrow();
            let l: Vec<&Call> = calls.iter().filter(|c| c.headers.iter().any(|h| h.0 == "x-n" && h.1 == i.to_string().as_bytes())).collect();
            need!(l.len() == 1, "lost", "request {i} came {} times", l.len());
            let g = &l[0].got;
            need!(g.ended && g.data == whole[i].0 && g.trailers.len() == whole[i].1 as usize, "lost", "request {i}: {} of {} bytes, ended={} err={:?}", g.data.len(), whole[i].0.len(), g.ended, g.err);
            let want = plans[&format!("/{i}")].body.data();
            need!(o.is_some_and(|o| o.ended && o.data == want && o.rst.is_none()), "lost", "response {i}: {:?}", o.map(|o| (o.data.len(), o.ended, o.rst)));
        } else if let Some(p) = cp {
            let calls = p.env.calls.borrow();
            let g = &calls[i].got;
            need!(calls[i].resp().is_some() && g.ended && g.data == whole[i].0 && g.trailers.len() == whole[i].1 as usize, "lost", "response {i}: {} of {} bytes, ended={} err={:?}", g.data.len(), whole[i].0.len(), g.ended, g.err);
            let want = reqs[i].body.data();
            // the upload may be cut short once the response is complete
            need!(o.is_some_and(|o| o.data == want && o.ended || want.starts_with(&o.data) && o.rst.is_some()), "lost", "request {i}: {:?}", o.map(|o| (o.data.len(), o.ended, o.rst)));
        }
    }
    Ok(())
}
