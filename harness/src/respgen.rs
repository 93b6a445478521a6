//! Generated responses of a service and what must appear on the wire for them.
use crate::body::{BodyPlan, Hint, Step};
use crate::engine::*;
use crate::src::{show, Src};
use crate::srv::{RespPlan, SrvCfg};
use crate::wire::{self, Framing, Msg};
use crate::{ensure, fail};
use http::Version;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct ReqFacts {
    pub method: Vec<u8>,
    pub v11: bool,
    pub te_trailers: bool,
}

#[derive(Clone, Copy)]
pub struct RespOpts {
    pub big: bool,
    /// user supplied Content-Length / Transfer-Encoding
    pub framing_headers: bool,
    pub connection: bool,
    pub odd_status: bool,
}

const NAMES: &[&str] = &["x-a", "x-b", "server", "set-cookie", "vary", "etag", "content-type", "x-empty", "x_~9", "set-cookie", "warning", "a"];
const VALUES: &[&[u8]] = &[b"1", b"", b"a=b; c", b"text/html", b"x, y", b"\xe9\xff", b"tab\there", b"chunked", b"close", b"\"q\"", b"long long value with spaces"];

pub fn gen_headers(s: &mut Src) -> Vec<(String, Vec<u8>)> {
    let n = s.weighted(&[4, 3, 3, 2, 1]);
    let n = if n == 4 { s.range(4, 24) } else { n };
    (0..n).map(|_| (s.pick(NAMES).to_string(), s.pick(VALUES).to_vec())).collect()
}

pub fn gen_resp(s: &mut Src, rq: &ReqFacts, o: RespOpts) -> RespPlan {
    let mut p = RespPlan::simple();
    p.status = match s.weighted(&[10, 2, 2, 3, if o.odd_status { 2 } else { 0 }]) {
        0 => 200,
        1 => 204,
        2 => 304,
        3 => *s.pick(&[201, 206, 205, 301, 302, 400, 404, 418, 499, 500, 503, 599, 600, 999, 299]),
        _ => *s.pick(&[100, 101, 102, 103, 199]),
    };
    if rq.method == b"CONNECT" && s.chance(160) {
        p.status = *s.pick(&[200, 204, 299, 405]);
    }
    p.version = *s.pick(&[Version::HTTP_11, Version::HTTP_11, Version::HTTP_11, Version::HTTP_10, Version::HTTP_2]);
    p.headers = gen_headers(s);
    p.body = BodyPlan::gen(s, o.big);
    if s.chance(48) {
        p.body.steps.clear();
    }
    if s.chance(30) {
        p.reason = Some(s.pick(&[&b"Custom"[..], b"", b"With  spaces ok", b"obs\xe9"]).to_vec());
    }
    if s.chance(30) {
        p.headers.push(("date".into(), s.pick(&[&b"Thu, 01 Jan 1970 00:00:00 GMT"[..], b"whatever"]).to_vec()));
    }
    if o.connection && s.chance(60) {
        for _ in 0..s.range(1, 2) {
            p.headers.push(("connection".into(), s.pick(&[&b"close"[..], b"keep-alive", b"x-a", b"Close", b"keep-alive, x", b"upgrade"]).to_vec()));
        }
    }
    if o.framing_headers {
        let len = p.body.len();
        let known = !p.body.ends_at_once() && p.body.exact();
        match s.weighted(&[6, 3, 2, 1]) {
            0 => {}
            1 => gen_cl(s, &mut p, len, known, &rq.method),
            2 => gen_te(s, &mut p),
            _ => {
                if s.chance(128) {
                    gen_cl(s, &mut p, len, known, &rq.method);
                    gen_te(s, &mut p);
                } else {
                    gen_te(s, &mut p);
                    gen_cl(s, &mut p, len, known, &rq.method);
                }
            }
        }
        if s.chance(24) {
            p.headers.push(("trailer".into(), b"x-t, x-sum".to_vec()));
        }
    }
    // the order of fields matters to the encoder
    if s.chance(128) && p.headers.len() > 1 {
        let k = s.below(p.headers.len());
        p.headers.rotate_left(k);
        // but repeated transfer codings keep theirs
        let mut te: Vec<Vec<u8>> = of(&p.headers, "transfer-encoding").into_iter().map(|v| v.to_vec()).collect();
        te.sort_by_key(|v| v == b"chunked");
        let mut te = te.into_iter();
        for h in p.headers.iter_mut().filter(|h| h.0 == "transfer-encoding") {
            h.1 = te.next().unwrap();
        }
    }
    p
}
fn gen_cl(s: &mut Src, p: &mut RespPlan, len: usize, known: bool, method: &[u8]) {
    let name = "content-length".to_string();
    if known && !(method == b"HEAD" && len == 0) {
        // hyper takes the user's word here (and asserts it in debug builds)
        for _ in 0..s.weighted(&[0, 8, 1]) {
            p.headers.push((name.clone(), len.to_string().into_bytes()));
        }
        return;
    }
    // a number is passed through untouched when hyper has no body to frame with it
    let unread = (p.body.ends_at_once() || known) && method == b"HEAD";
    let v: Vec<u8> = match s.weighted(&[5, 2, 2, if unread { 0 } else { 2 }, 1]) {
        0 => len.to_string().into_bytes(),
        1 => (len + s.range(1, 20)).to_string().into_bytes(),
        2 => len.saturating_sub(s.range(1, 20)).to_string().into_bytes(),
        3 => s.pick(&[&b"abc"[..], b"+1", b"", b"1,1", b"-0", b"18446744073709551616"]).to_vec(),
        _ => {
            p.headers.push((name.clone(), len.to_string().into_bytes()));
            if s.chance(128) {
                len.to_string().into_bytes()
            } else {
                (len + 1).to_string().into_bytes()
            }
        }
    };
    p.headers.push((name, v));
}
fn gen_te(s: &mut Src, p: &mut RespPlan) {
    let name = "transfer-encoding".to_string();
    match s.weighted(&[4, 2, 1, 1]) {
        0 => p.headers.push((name, b"chunked".to_vec())),
        1 => p.headers.push((name, b"gzip".to_vec())),
        2 => p.headers.push((name, b"gzip, Chunked".to_vec())),
        _ => {
            p.headers.push((name.clone(), b"gzip".to_vec()));
            p.headers.push((name, s.pick(&[&b"chunked"[..], b"br"]).to_vec()));
        }
    }
}

fn of<'a>(h: &'a [(String, Vec<u8>)], n: &str) -> Vec<&'a [u8]> {
    h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| &v[..]).collect()
}
fn dec(v: &[u8]) -> Option<u64> {
    if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(v).unwrap().parse().ok()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Err3 {
    No,
    Must,
    May,
}
pub struct Expect {
    pub err: Err3,
    /// the response is replaced by a 500 (or dropped) because of its status
    pub interim: bool,
    pub bodyless: bool,
    pub v11: bool,
    pub framing: Framing,
    /// body bytes that reach the wire
    pub body: Vec<u8>,
    pub complete: bool,
    pub upgrade: bool,
}

pub fn expect(p: &RespPlan, rq: &ReqFacts) -> Expect {
    let v11 = rq.v11 && p.version != Version::HTTP_10;
    let connect2 = rq.method == b"CONNECT" && (200..300).contains(&p.status);
    let interim = (100..200).contains(&p.status) && p.status != 101;
    let bodyless = rq.method == b"HEAD" || matches!(p.status, 100..=199 | 204 | 304) || connect2;
    let upgrade = p.status == 101 || connect2;
    let cl = of(&p.headers, "content-length");
    let te = of(&p.headers, "transfer-encoding");
    let data = p.body.data();
    let none = p.body.ends_at_once();
    let known = !none && p.body.exact();
    let mut e = Expect { err: Err3::No, interim, bodyless, v11, framing: Framing::None, body: vec![], complete: true, upgrade };
    if interim {
        e.err = Err3::Must;
        return e;
    }
    if connect2 {
        if !cl.is_empty() || !te.is_empty() {
            e.err = Err3::Must;
        }
        return e;
    }
    let cl_used = !cl.is_empty() && !(none && rq.method != b"HEAD");
    if !cl.is_empty() && !te.is_empty() {
        e.err = Err3::May;
    }
    let te_used = !te.is_empty() && v11 && !bodyless;
    let mut len: Option<u64> = None;
    if cl_used {
        if known {
            len = Some(data.len() as u64);
        } else if none {
            // HEAD: anything may be announced, but two lines are refused
            if cl.len() > 1 {
                e.err = Err3::May;
            }
        } else {
            let vals: Vec<Option<u64>> = cl.iter().map(|v| dec(v)).collect();
            if vals.iter().any(|v| v.is_none()) || vals.iter().any(|v| *v != vals[0]) {
                if e.err == Err3::No {
                    e.err = Err3::Must;
                }
            } else {
                len = vals[0];
            }
        }
    }
    if bodyless {
        return e;
    }
    if te_used {
        e.framing = Framing::Chunked;
        e.body = data;
    } else if let Some(n) = len {
        e.framing = Framing::Length(n);
        e.complete = data.len() as u64 >= n;
        e.body = data[..data.len().min(n.min(usize::MAX as u64) as usize)].to_vec();
    } else if none {
        e.framing = Framing::Length(0);
    } else if known {
        e.framing = Framing::Length(data.len() as u64);
        e.body = data;
    } else if v11 {
        e.framing = Framing::Chunked;
        e.body = data;
    } else {
        e.framing = Framing::Close;
        e.body = data;
    }
    e
}

fn group(h: &[(Vec<u8>, Vec<u8>)]) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in h {
        m.entry(String::from_utf8_lossy(n).to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}
/// comma separated members over all lines
pub fn members(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    v.iter().flat_map(|l| l.split(|b| *b == b',')).map(|t| wire::trim(t).to_ascii_lowercase()).filter(|t| !t.is_empty()).collect()
}
fn trimmed(v: &[u8]) -> Vec<u8> {
    wire::trim(v).to_vec()
}

/// Does message `m` on the wire carry the planned response? (`e.err` is No, or May and it was sent.)
pub fn check(i: usize, p: &RespPlan, rq: &ReqFacts, cfg: &SrvCfg, e: &Expect, m: &Msg) -> R {
    ensure!(m.status == p.status, "status", "response {i}: status {} on the wire, service returned {}", m.status, p.status);
    let v = if e.v11 { 11 } else { 10 };
    ensure!(m.version == v, "version", "response {i}: version {} on the wire, expected {v}", m.version);
    match &p.reason {
        Some(r) => ensure!(&m.reason == r, "reason", "response {i}: reason {:?}, expected {:?}", show(&m.reason), show(r)),
        None => {
            let want = http::StatusCode::from_u16(p.status).unwrap().canonical_reason().unwrap_or("<none>");
            ensure!(m.reason == want.as_bytes(), "reason", "response {i}: reason {:?}, expected {want:?}", show(&m.reason));
        }
    }
    let sent = group(&m.headers);
    let mut user: BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in &p.headers {
        user.entry(n.to_ascii_lowercase()).or_default().push(trimmed(v));
    }
    for (n, vs) in &user {
        match n.as_str() {
            "content-length" | "transfer-encoding" | "connection" | "trailer" => {}
            _ => {
                let got: Vec<Vec<u8>> = sent.get(n).map(|v| v.iter().map(|x| trimmed(x)).collect()).unwrap_or_default();
                ensure!(&got == vs, "field", "response {i}: field {n} is {got:?} on the wire, service set {vs:?}");
            }
        }
    }
    for n in sent.keys() {
        if !user.contains_key(n) {
            let ok = match n.as_str() {
                "date" => cfg.date,
                "content-length" | "transfer-encoding" | "connection" => true,
                _ => false,
            };
            ensure!(ok, "invented-field", "response {i}: field {n} on the wire was not set by the service");
        }
    }
    if cfg.date && !user.contains_key("date") {
        let d = sent.get("date").cloned().unwrap_or_default();
        ensure!(d.len() == 1, "date", "response {i}: {} date fields", d.len());
        let t = std::str::from_utf8(&d[0]).ok().and_then(|t| httpdate::parse_http_date(t).ok());
        let Some(t) = t else { fail!("date", "response {i}: bad date {:?}", show(&d[0])) };
        let now = std::time::SystemTime::now();
        let off = now.duration_since(t).map(|d| d.as_secs() as i64).unwrap_or_else(|e| -(e.duration().as_secs() as i64));
        ensure!((-5..600).contains(&off), "date", "response {i}: date is off by {off} s");
    }
    // connection: everything the service named is there, only keep-alive or close may be added
    let got = members(sent.get("connection").map(|v| &v[..]).unwrap_or(&[]));
    let want = members(user.get("connection").map(|v| &v[..]).unwrap_or(&[]));
    for w in &want {
        ensure!(got.contains(w), "connection", "response {i}: connection option {:?} set by the service is missing: {got:?}", show(w));
    }
    for g in &got {
        ensure!(want.contains(g) || g == b"close" || g == b"keep-alive", "connection", "response {i}: connection option {:?} was invented", show(g));
    }
    // trailer announcement only on messages that can have trailers
    let tr = members(sent.get("trailer").map(|v| &v[..]).unwrap_or(&[]));
    let ut = members(user.get("trailer").map(|v| &v[..]).unwrap_or(&[]));
    if e.v11 && !e.bodyless {
        ensure!(tr == ut, "field", "response {i}: trailer field {tr:?}, service set {ut:?}");
    } else {
        ensure!(tr.is_empty(), "field", "response {i}: trailer field on a message without chunked body");
    }
    // framing
    let cl = sent.get("content-length").cloned().unwrap_or_default();
    let te = sent.get("transfer-encoding").cloned().unwrap_or_default();
    let ucl = of(&p.headers, "content-length");
    if e.bodyless {
        ensure!(te.is_empty(), "framing", "response {i}: transfer-encoding on a message without body");
        if !cl.is_empty() {
            let known = p.body.data().len().to_string().into_bytes();
            let ok = ucl.iter().any(|v| *v == cl[0]) || (rq.method == b"HEAD" && !matches!(p.status, 101 | 204 | 304) && p.body.exact() && cl[0] == known);
            ensure!(ok, "framing", "response {i}: content-length {:?} on a body-less message was neither set by the service nor is the size of the body", show(&cl[0]));
        }
        return Ok(());
    }
    if e.err == Err3::No {
        ensure!(m.framing == e.framing, "framing", "response {i}: framed as {:?}, expected {:?}", m.framing, e.framing);
    }
    if m.framing == Framing::Chunked {
        let mut tw = members(user.get("transfer-encoding").map(|v| &v[..]).unwrap_or(&[]));
        if tw.last().map(|t| t != b"chunked").unwrap_or(true) {
            tw.push(b"chunked".to_vec());
        }
        let tg = members(&te);
        ensure!(tg == tw, "framing", "response {i}: transfer-encoding {tg:?}, expected {tw:?}");
    }
    Ok(())
}
/// Body bytes and completeness, once the exchange is over. `err` marks a May error that was sent anyway.
/// `cut`: the connection was given up because of a later failing body, possibly before this was flushed.
pub fn check_body(i: usize, e: &Expect, m: &Msg, cut: bool) -> R {
    // a body that falls short of its declared length is cut off anywhere
    let same = if e.complete && !cut { m.body == e.body } else { e.body.starts_with(&m.body) };
    ensure!(same, "body", "response {i}: {} body bytes on the wire ({:?}), expected {} ({:?})", m.body.len(), show(&m.body[..m.body.len().min(60)]), e.body.len(), show(&e.body[..e.body.len().min(60)]));
    ensure!(m.complete == e.complete || (cut && !m.complete), "complete", "response {i}: complete={} on the wire, expected {}", m.complete, e.complete);
    Ok(())
}

pub fn exact_body(n: usize) -> BodyPlan {
    BodyPlan { steps: vec![Step::Data(bytes::Bytes::from(vec![b'z'; n]), 1)], hint: Hint::Exact, honest_end: true }
}
