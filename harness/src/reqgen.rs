//! Generated requests of a client and what must appear on the wire for them.
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{CliCfg, ReqPlan};
use crate::engine::*;
use crate::respgen::members;
use crate::src::{show, Src};
use crate::wire::{self, Framing, Msg};
use crate::{ensure, fail};
use http::Version;
use std::collections::BTreeMap;

const NAMES: &[&str] = &["host", "x-a", "x-b", "user-agent", "cookie", "accept", "authorization", "x-empty", "x_~9", "cookie", "te", "a", "upgrade"];
const VALUES: &[&[u8]] = &[b"1", b"", b"a=b; c", b"text/html", b"x, y", b"\xe9\xff", b"tab\there", b"chunked", b"close", b"\"q\"", b"trailers", b"long long value with spaces"];

#[derive(Clone, Copy)]
pub struct ReqOpts {
    pub big: bool,
    pub framing_headers: bool,
    pub connection: bool,
    pub connect: bool,
}

pub fn gen_req(s: &mut Src, o: ReqOpts) -> ReqPlan {
    let mut p = ReqPlan::get();
    p.method = s.pick(&["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "M-SEARCH", "get", "X", if o.connect { "CONNECT" } else { "TRACE" }]).to_string();
    p.uri = if p.method == "CONNECT" {
        s.pick(&["h:443", "example.com:80", "[::1]:1"]).to_string()
    } else {
        match s.weighted(&[6, 1, 2, 1]) {
            0 => s.pick(&["/", "/a?b=c&d", "/%20/%zz?", "/a//b/../c", "/?q={}|", "/~x;y=1"]).to_string(),
            1 => "*".into(),
            2 => s.pick(&["http://h/x", "http://h.example:8080/a?b", "https://u@h/"]).to_string(),
            _ => format!("/{}", "y".repeat(s.range(1, 300))),
        }
    };
    if p.uri == "*" {
        p.method = "OPTIONS".into();
    }
    p.version = *s.pick(&[Version::HTTP_11, Version::HTTP_11, Version::HTTP_11, Version::HTTP_10, Version::HTTP_2]);
    let n = s.weighted(&[4, 3, 3, 2, 1]);
    let n = if n == 4 { s.range(4, 24) } else { n };
    for _ in 0..n {
        p.headers.push((s.pick(NAMES).to_string(), s.pick(VALUES).to_vec()));
    }
    p.body = BodyPlan::gen(s, o.big);
    if s.chance(64) || (p.method == "GET" && s.chance(128)) {
        p.body.steps.clear();
        p.body.honest_end = !s.chance(32);
        if p.body.honest_end {
            p.body.hint = Hint::Exact;
        }
    }
    if o.connection && s.chance(40) {
        for _ in 0..s.range(1, 2) {
            p.headers.push(("connection".into(), s.pick(&[&b"close"[..], b"keep-alive", b"x-a", b"Close", b"te", b"upgrade, x"]).to_vec()));
        }
    }
    if o.framing_headers {
        let len = p.body.len();
        match s.weighted(&[6, 3, 2, 1]) {
            0 => {}
            1 => gen_cl(s, &mut p, len),
            2 => gen_te(s, &mut p),
            _ => {
                gen_te(s, &mut p);
                gen_cl(s, &mut p, len);
            }
        }
        if s.chance(24) {
            p.headers.push(("trailer".into(), b"x-t, x-sum".to_vec()));
        }
    }
    if s.chance(128) && p.headers.len() > 1 {
        let k = s.below(p.headers.len());
        p.headers.rotate_left(k);
        let mut te: Vec<Vec<u8>> = of(&p.headers, "transfer-encoding").into_iter().map(|v| v.to_vec()).collect();
        te.sort_by_key(|v| v == b"chunked");
        let mut te = te.into_iter();
        for h in p.headers.iter_mut().filter(|h| h.0 == "transfer-encoding") {
            h.1 = te.next().unwrap();
        }
    }
    p
}
fn gen_cl(s: &mut Src, p: &mut ReqPlan, len: usize) {
    let v: Vec<u8> = match s.weighted(&[5, 2, 2, 2]) {
        0 => len.to_string().into_bytes(),
        1 => (len + s.range(1, 20)).to_string().into_bytes(),
        2 => len.saturating_sub(s.range(1, 20)).to_string().into_bytes(),
        _ => s.pick(&[&b"abc"[..], b"+1", b"", b"1,2", b"-0", b"18446744073709551616", b"1 1", b"0x1"]).to_vec(),
    };
    p.headers.push(("content-length".into(), v));
}
fn gen_te(s: &mut Src, p: &mut ReqPlan) {
    let name = "transfer-encoding".to_string();
    match s.weighted(&[4, 2, 1, 1]) {
        0 => p.headers.push((name, b"chunked".to_vec())),
        1 => p.headers.push((name, b"gzip".to_vec())),
        2 => p.headers.push((name, b"gzip, Chunked".to_vec())),
        _ => {
            p.headers.push((name.clone(), b"gzip".to_vec()));
            p.headers.push((name, s.pick(&[&b"chunked"[..], b"br"]).to_vec()));
        }
    }
}
fn of<'a>(h: &'a [(String, Vec<u8>)], n: &str) -> Vec<&'a [u8]> {
    h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| &v[..]).collect()
}
fn dec(v: &[u8]) -> Option<u64> {
    if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(v).unwrap().parse().ok()
}

pub struct Expect {
    pub v11: bool,
    pub framing: Framing,
    pub body: Vec<u8>,
    /// the body fulfils its framing
    pub complete: bool,
    /// this size cannot be framed: only the head is sent
    pub dropped: bool,
}
pub fn expect(p: &ReqPlan, peer10: bool) -> Expect {
    let v11 = p.version != Version::HTTP_10 && !peer10;
    let cl = of(&p.headers, "content-length");
    let cl: Option<u64> = if cl.len() == 1 { dec(cl[0]) } else { None };
    let te = !of(&p.headers, "transfer-encoding").is_empty();
    let data = p.body.data();
    let none = p.body.ends_at_once();
    let known = !none && p.body.exact();
    let mut e = Expect { v11, framing: Framing::None, body: vec![], complete: true, dropped: false };
    let fixed = |e: &mut Expect, n: u64| {
        e.framing = Framing::Length(n);
        e.complete = data.len() as u64 >= n;
        e.body = data[..data.len().min(n as usize)].to_vec();
    };
    if none {
        if let Some(n) = cl {
            fixed(&mut e, n);
        }
    } else if te && v11 {
        e.framing = Framing::Chunked;
        e.body = data;
    } else if let Some(n) = cl {
        fixed(&mut e, n);
    } else if known {
        fixed(&mut e, data.len() as u64);
    } else if !v11 || matches!(&p.method[..], "GET" | "HEAD" | "CONNECT") {
        e.dropped = true;
    } else {
        e.framing = Framing::Chunked;
        e.body = data;
    }
    e
}

fn group<N: AsRef<[u8]>>(h: &[(N, Vec<u8>)]) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in h {
        m.entry(String::from_utf8_lossy(n.as_ref()).to_ascii_lowercase()).or_default().push(wire::trim(v).to_vec());
    }
    m
}

/// Is `m` the request that was sent?
pub fn check(i: usize, p: &ReqPlan, e: &Expect, m: &Msg, _cfg: &CliCfg) -> R {
    ensure!(m.method == p.method.as_bytes(), "method", "request {i}: method {:?}, sent {:?}", show(&m.method), p.method);
    let want = p.uri.parse::<http::Uri>().unwrap().to_string();
    ensure!(m.target == want.as_bytes(), "target", "request {i}: target {:?}, sent {:?}", show(&m.target), want);
    ensure!(m.version == if e.v11 { 11 } else { 10 }, "version", "request {i}: version {} on the wire", m.version);
    let sent = group(&m.headers);
    let user = group(&p.headers);
    for (n, vs) in &user {
        match n.as_str() {
            "content-length" | "transfer-encoding" | "connection" => {}
            _ => {
                let got = sent.get(n).cloned().unwrap_or_default();
                ensure!(&got == vs, "field", "request {i}: field {n} is {got:?} on the wire, user set {vs:?}");
            }
        }
    }
    for n in sent.keys() {
        if !user.contains_key(n) {
            ensure!(matches!(n.as_str(), "content-length" | "transfer-encoding" | "connection"), "invented-field", "request {i}: field {n} on the wire was not set by the user");
        }
    }
    let got = members(sent.get("connection").map(|v| &v[..]).unwrap_or(&[]));
    let want = members(user.get("connection").map(|v| &v[..]).unwrap_or(&[]));
    for w in &want {
        ensure!(got.contains(w), "connection", "request {i}: connection option {:?} set by the user is missing: {got:?}", show(w));
    }
    for g in &got {
        ensure!(want.contains(g) || g == b"close" || g == b"keep-alive", "connection", "request {i}: connection option {:?} was invented", show(g));
    }
    ensure!(m.framing == e.framing, "framing", "request {i}: framed as {:?}, expected {:?}", m.framing, e.framing);
    if m.framing == Framing::Chunked {
        let mut tw = members(user.get("transfer-encoding").map(|v| &v[..]).unwrap_or(&[]));
        if tw.last().map(|t| t != b"chunked").unwrap_or(true) {
            tw.push(b"chunked".to_vec());
        }
        let tg = members(sent.get("transfer-encoding").map(|v| &v[..]).unwrap_or(&[]));
        ensure!(tg == tw, "framing", "request {i}: transfer-encoding {tg:?}, expected {tw:?}");
    }
    Ok(())
}
pub fn check_body(i: usize, e: &Expect, m: &Msg) -> R {
    let same = if e.complete { m.body == e.body } else { e.body.starts_with(&m.body) };
    ensure!(same, "body", "request {i}: {} body bytes on the wire ({:?}), expected {} ({:?})", m.body.len(), show(&m.body[..m.body.len().min(60)]), e.body.len(), show(&e.body[..e.body.len().min(60)]));
    if m.complete != e.complete {
        fail!("complete", "request {i}: complete={} on the wire, expected {}", m.complete, e.complete);
    }
    Ok(())
}
pub fn body_of(n: usize, step: usize) -> BodyPlan {
    let d = crate::src::payload(n as u8, n);
    let steps = d.chunks(step.max(1)).map(|c| Step::Data(bytes::Bytes::copy_from_slice(c), 1)).collect();
    BodyPlan { steps, hint: Hint::Unknown, honest_end: true }
}
