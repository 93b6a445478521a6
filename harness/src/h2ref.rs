//! A lenient reference reader of an HTTP/2 byte stream: which messages may have been received from it.
use crate::h2peer::{all, field, status};
use crate::h2wire::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct RStream {
    /// interim heads and the head
    pub heads: Vec<Fields>,
    pub data: Vec<u8>,
    pub trailers: Option<Fields>,
    pub ended: bool,
    pub rst: Option<u32>,
    pub rst_all: Vec<u32>,
    /// not a legal sequence of frames
    pub bad: Option<&'static str>,
}
impl RStream {
    pub fn head(&self) -> Option<&Fields> {
        self.heads.last().filter(|h| status(h).is_none_or(|s| s >= 200))
    }
}
#[derive(Clone, Debug, Default)]
pub struct RConn {
    pub streams: BTreeMap<u32, RStream>,
    pub goaways: Vec<(u32, u32)>,
    /// why nothing more can be read
    pub stop: Option<&'static str>,
    /// a malformed or unfinished header block in several frames (the h2 crate may miss that it is malformed)
    pub hole: bool,
    /// bytes after the last whole frame
    pub rest: usize,
}

fn unpad(f: &Frame, prio: bool) -> Option<&[u8]> {
    let mut p = &f.payload[..];
    let mut pad = 0;
    if f.flags & 8 != 0 {
        pad = *p.first()? as usize;
        p = &p[1..];
    }
    if prio && f.flags & 0x20 != 0 {
        p = p.get(5..)?;
    }
    (pad <= p.len()).then(|| &p[..p.len() - pad])
}

/// `client`: the bytes come from a client
pub fn read(b: &[u8], client: bool) -> RConn {
    let mut c = RConn::default();
    let b = if client {
        match b.strip_prefix(PREFACE) {
            Some(b) => b,
            None => {
                c.stop = Some("preface");
                return c;
            }
        }
    } else {
        b
    };
    let mut v = b.to_vec();
    let mut dec = HpackDec::new(4096);
    let mut pushing = false;
    let mut cont: Option<(u32, bool, Vec<u8>)> = None;
    for f in take_frames(&mut v) {
        if cont.as_ref().is_some_and(|x| f.kind != k::CONT || f.sid != x.0) {
            c.hole = true;
            c.stop = Some("broken header block");
            break;
        }
        match f.kind {
            k::DATA => {
                let Some(p) = unpad(&f, false) else {
                    c.stop = Some("padding");
                    break;
                };
                let Some(s) = c.streams.get_mut(&f.sid).filter(|s| !s.heads.is_empty()) else {
                    continue;
                };
                if s.head().is_none() {
                    s.bad = Some("data before the head");
                }
                if s.ended || s.rst.is_some() {
                    continue;
                }
                s.data.extend_from_slice(p);
                s.ended |= f.flags & END_STREAM != 0;
            }
            k::HEADERS => {
                let Some(p) = unpad(&f, true) else {
                    c.stop = Some("padding");
                    break;
                };
                cont = Some((f.sid, f.flags & END_STREAM != 0, p.to_vec()));
            }
            k::PUSH => {
                let Some(p) = unpad(&f, false).and_then(|p| p.get(4..)) else {
                    c.stop = Some("push");
                    break;
                };
                pushing = f.flags & END_HEADERS == 0;
                cont = Some((f.sid, true, p.to_vec()));
            }
            k::CONT => match &mut cont {
                Some(x) => x.2.extend_from_slice(&f.payload),
                None => {
                    c.stop = Some("continuation");
                    break;
                }
            },
            k::RST => {
                if f.payload.len() != 4 {
                    c.stop = Some("reset");
                    break;
                }
                if let Some(s) = c.streams.get_mut(&f.sid) {
                    s.rst_all.push(be32(&f.payload));
                    s.rst = s.rst.or(Some(be32(&f.payload)));
                }
            }
            k::GOAWAY => {
                if f.payload.len() >= 8 {
                    c.goaways.push((be32(&f.payload) & 0x7fff_ffff, be32(&f.payload[4..])));
                }
            }
            _ => {}
        }
        if matches!(f.kind, k::HEADERS | k::CONT | k::PUSH) && f.flags & END_HEADERS != 0 {
            let (sid, end, block) = cont.take().unwrap();
            let push = std::mem::take(&mut pushing) || f.kind == k::PUSH;
            let Ok(fs) = dec.decode(&block) else {
                c.hole |= f.kind == k::CONT;
                c.stop = Some("compression");
                break;
            };
            if push {
                continue;
            }
            if f.kind == k::CONT && head_ok(&fs, true).is_err() && head_ok(&fs, false).is_err() && (regular_ok(&fs).is_err() || fs.iter().any(|f| f.0.starts_with(b":"))) {
                c.hole = true;
            }
            let s = c.streams.entry(sid).or_default();
            if s.ended || s.rst.is_some() {
                continue;
            }
            if s.head().is_some() {
                if !end || s.trailers.is_some() {
                    s.bad = Some("header block in the middle");
                } else {
                    s.trailers = Some(fs);
                }
            } else {
                if end && status(&fs).is_some_and(|s| s < 200) {
                    s.bad = Some("interim head at the end");
                }
                s.heads.push(fs);
            }
            s.ended |= end;
        }
    }
    c.rest = v.len();
    c
}

fn token(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| matches!(c, b'a'..=b'z' | b'0'..=b'9' | b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~'))
}
/// are the ordinary fields well-formed?
pub fn regular_ok(f: &Fields) -> Result<(), &'static str> {
    for (n, v) in f.iter().filter(|e| !e.0.starts_with(b":")) {
        if !token(n) {
            return Err("field name");
        }
        if v.iter().any(|c| matches!(c, 0 | b'\r' | b'\n')) {
            return Err("field value");
        }
        if crate::h2peer::CONN_HEADERS.iter().any(|h| h.as_bytes() == &n[..]) {
            return Err("connection-specific field");
        }
        if n == b"te" && !v.eq_ignore_ascii_case(b"trailers") {
            return Err("te");
        }
    }
    Ok(())
}
/// is it a well-formed request or response head?
pub fn head_ok(f: &Fields, request: bool) -> Result<(), &'static str> {
    regular_ok(f)?;
    let known: &[&str] = if request { &[":method", ":scheme", ":authority", ":path", ":protocol"] } else { &[":status"] };
    let mut seen_regular = false;
    for (n, v) in f {
        if !n.starts_with(b":") {
            seen_regular = true;
            continue;
        }
        if seen_regular {
            return Err("pseudo field after others");
        }
        if !known.iter().any(|k| k.as_bytes() == &n[..]) {
            return Err("unknown pseudo field");
        }
        if all(f, std::str::from_utf8(n).unwrap_or("")).len() != 1 {
            return Err("repeated pseudo field");
        }
        if v.iter().any(|c| matches!(c, 0..=32 | 127)) {
            return Err("pseudo field value");
        }
    }
    if request {
        let m = field(f, ":method").ok_or("no method")?;
        if m == b"CONNECT" && field(f, ":protocol").is_none() {
            if field(f, ":authority").is_none() || field(f, ":scheme").is_some() || field(f, ":path").is_some() {
                return Err("CONNECT");
            }
        } else if field(f, ":scheme").is_none() || field(f, ":path").is_none_or(|p| p.is_empty()) {
            return Err("no scheme or path");
        }
    } else {
        let v = field(f, ":status").ok_or("no status")?;
        if v.len() != 3 || !v.iter().all(|c| c.is_ascii_digit()) || v[0] == b'0' {
            return Err("status");
        }
    }
    Ok(())
}
/// the declared length
pub fn declared(f: &Fields) -> Result<Option<u64>, &'static str> {
    let mut r = None;
    for v in all(f, "content-length") {
        let n = std::str::from_utf8(v).ok().filter(|t| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit())).and_then(|t| t.parse::<u64>().ok()).ok_or("content-length")?;
        if r.is_some_and(|x| x != n) {
            return Err("content-length");
        }
        r = Some(n);
    }
    Ok(r)
}
pub fn by_name(f: &Fields) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = f.iter().filter(|e| !e.0.starts_with(b":")).map(|e| (String::from_utf8_lossy(&e.0).into_owned(), e.1.clone())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
/// the ordinary fields without those that are malformed or belong to a connection
/// (which a receiver has to refuse; the h2 crate sometimes only leaves them out)
pub fn delivered(f: &Fields) -> Vec<(String, Vec<u8>)> {
    by_name(f).into_iter().filter(|e| !crate::h2peer::CONN_HEADERS.contains(&e.0.as_str()) && http::HeaderName::from_lowercase(e.0.as_bytes()).is_ok() && http::HeaderValue::from_bytes(&e.1).is_ok() && (e.0 != "te" || e.1.eq_ignore_ascii_case(b"trailers"))).collect()
}
