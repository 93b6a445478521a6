//! Strict, independent reader for the bytes hyper writes on HTTP/1 connections.
use std::fmt::Write as _;

pub type Hdrs = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Framing {
    None,
    Length(u64),
    Chunked,
    Close,
}

#[derive(Debug, Clone)]
pub struct Msg {
    pub version: u8,
    pub status: u16,
    pub reason: Vec<u8>,
    pub method: Vec<u8>,
    pub target: Vec<u8>,
    pub headers: Hdrs,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub trailers: Hdrs,
    pub chunks: Vec<usize>,
    pub start: usize,
    pub head_end: usize,
    pub end: usize,
    /// fully framed
    pub complete: bool,
}
impl Msg {
    pub fn all(&self, name: &str) -> Vec<&[u8]> {
        get_all(&self.headers, name)
    }
    pub fn has(&self, name: &str) -> bool {
        !self.all(name).is_empty()
    }
    /// some Connection line carries this token
    pub fn conn_token(&self, tok: &str) -> bool {
        has_token(&self.headers, "connection", tok)
    }
    /// the peer may send or expect another message after this one
    pub fn persistent(&self) -> bool {
        if self.framing == Framing::Close {
            return false;
        }
        if self.version == 11 {
            !self.conn_token("close")
        } else {
            self.conn_token("keep-alive") && !self.conn_token("close")
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if self.method.is_empty() {
            let _ = write!(s, "HTTP/{} {}", self.version, self.status);
        } else {
            let _ = write!(s, "{} {}", String::from_utf8_lossy(&self.method), String::from_utf8_lossy(&self.target));
        }
        let _ = write!(s, " {:?} body={} complete={}", self.framing, self.body.len(), self.complete);
        s
    }
}
pub fn get_all<'a>(h: &'a Hdrs, name: &str) -> Vec<&'a [u8]> {
    h.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name.as_bytes())).map(|(_, v)| &v[..]).collect()
}
pub fn has_token(h: &Hdrs, name: &str, tok: &str) -> bool {
    get_all(h, name).iter().any(|v| v.split(|b| *b == b',').any(|t| trim(t).eq_ignore_ascii_case(tok.as_bytes())))
}
pub fn trim(mut s: &[u8]) -> &[u8] {
    while let [b' ' | b'\t', r @ ..] = s {
        s = r;
    }
    while let [r @ .., b' ' | b'\t'] = s {
        s = r;
    }
    s
}
pub fn is_tchar(b: u8) -> bool {
    matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~'
        | b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z')
}
pub fn is_vchar(b: u8) -> bool {
    b == b'\t' || (0x20..=0x7e).contains(&b) || b >= 0x80
}

enum Line<'a> {
    Full(&'a [u8], usize),
    Part,
}
/// A CRLF-terminated line; bare CR or LF is a violation.
fn line(b: &[u8], pos: usize) -> Result<Line<'_>, String> {
    let mut i = pos;
    while i < b.len() {
        match b[i] {
            b'\r' => {
                if i + 1 == b.len() {
                    return Ok(Line::Part);
                }
                if b[i + 1] != b'\n' {
                    return Err(format!("bare CR at {i}"));
                }
                return Ok(Line::Full(&b[pos..i], i + 2));
            }
            b'\n' => return Err(format!("bare LF at {i}")),
            _ => i += 1,
        }
    }
    Ok(Line::Part)
}

fn fields(b: &[u8], mut pos: usize, out: &mut Hdrs) -> Result<Option<usize>, String> {
    loop {
        match line(b, pos)? {
            Line::Part => return Ok(None),
            Line::Full(l, next) => {
                pos = next;
                if l.is_empty() {
                    return Ok(Some(pos));
                }
                let c = l.iter().position(|x| *x == b':').ok_or_else(|| format!("header line without colon: {:?}", crate::src::show(l)))?;
                let (n, v) = (&l[..c], trim(&l[c + 1..]));
                if n.is_empty() || !n.iter().all(|x| is_tchar(*x)) {
                    return Err(format!("bad header name {:?}", crate::src::show(n)));
                }
                if !v.iter().all(|x| is_vchar(*x)) {
                    return Err(format!("bad header value {:?}", crate::src::show(v)));
                }
                out.push((n.to_vec(), v.to_vec()));
            }
        }
    }
}

fn decimal(v: &[u8]) -> Option<u64> {
    if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(v).ok()?.parse().ok()
}

#[derive(Debug)]
pub enum P {
    /// nothing left
    End,
    Msg(Box<Msg>),
    /// bytes of an unfinished head
    Partial,
}

fn blank(start: usize) -> Msg {
    Msg {
        version: 0,
        status: 0,
        reason: vec![],
        method: vec![],
        target: vec![],
        headers: vec![],
        framing: Framing::None,
        body: vec![],
        trailers: vec![],
        chunks: vec![],
        start,
        head_end: start,
        end: start,
        complete: false,
    }
}

/// Strictly checked length fields. Returns (chunked, content-length).
fn framing_fields(m: &Msg) -> Result<(bool, Option<u64>), String> {
    let te = m.all("transfer-encoding");
    let cl = m.all("content-length");
    if !te.is_empty() && !cl.is_empty() {
        return Err("both transfer-encoding and content-length".into());
    }
    let mut chunked = false;
    if let Some(last) = te.last() {
        let toks: Vec<&[u8]> = te.iter().flat_map(|v| v.split(|b| *b == b',')).map(trim).collect();
        let n = toks.iter().filter(|t| t.eq_ignore_ascii_case(b"chunked")).count();
        chunked = last.rsplit(|b| *b == b',').next().map(|t| trim(t).eq_ignore_ascii_case(b"chunked")).unwrap_or(false);
        if !chunked {
            return Err(format!("transfer-encoding does not end in chunked: {:?}", crate::src::show(last)));
        }
        if n != 1 {
            return Err(format!("chunked applied {n} times"));
        }
    }
    let mut len = None;
    for v in &cl {
        let n = decimal(v).ok_or_else(|| format!("content-length not a number: {:?}", crate::src::show(v)))?;
        if len.is_some() {
            return Err("more than one content-length line".into());
        }
        len = Some(n);
    }
    Ok((chunked, len))
}

fn read_body(b: &[u8], m: &mut Msg, eof: bool) -> Result<(), String> {
    let pos = m.head_end;
    match m.framing.clone() {
        Framing::None => {
            m.end = pos;
            m.complete = true;
        }
        Framing::Length(n) => {
            let avail = (b.len() - pos) as u64;
            let k = n.min(avail) as usize;
            m.body = b[pos..pos + k].to_vec();
            m.end = pos + k;
            m.complete = k as u64 == n;
        }
        Framing::Close => {
            m.body = b[pos..].to_vec();
            m.end = b.len();
            m.complete = eof;
        }
        Framing::Chunked => {
            let mut p = pos;
            loop {
                match line(b, p)? {
                    Line::Part => {
                        // a partial size line must still look like one
                        for x in &b[p..] {
                            if !(x.is_ascii_hexdigit() || *x == b'\r') {
                                return Err(format!("bad chunk size byte {:#x} at {p}", x));
                            }
                        }
                        m.end = b.len();
                        return Ok(());
                    }
                    Line::Full(l, next) => {
                        if l.is_empty() || l.len() > 16 || !l.iter().all(|x| x.is_ascii_hexdigit()) {
                            return Err(format!("bad chunk size line {:?} at {p}", crate::src::show(l)));
                        }
                        let n = u64::from_str_radix(std::str::from_utf8(l).unwrap(), 16).map_err(|e| e.to_string())?;
                        p = next;
                        if n == 0 {
                            let mut t = vec![];
                            return match fields(b, p, &mut t)? {
                                Some(e) => {
                                    m.trailers = t;
                                    m.end = e;
                                    m.complete = true;
                                    Ok(())
                                }
                                None => {
                                    m.end = b.len();
                                    Ok(())
                                }
                            };
                        }
                        let k = n.min((b.len() - p) as u64) as usize;
                        m.body.extend_from_slice(&b[p..p + k]);
                        p += k;
                        if (k as u64) < n {
                            m.end = b.len();
                            return Ok(());
                        }
                        m.chunks.push(k);
                        let rest = &b[p..];
                        if rest.len() < 2 {
                            if !b"\r\n".starts_with(rest) {
                                return Err(format!("chunk data not followed by CRLF at {p}"));
                            }
                            m.end = b.len();
                            return Ok(());
                        }
                        if &rest[..2] != b"\r\n" {
                            return Err(format!("chunk data not followed by CRLF at {p}"));
                        }
                        p += 2;
                    }
                }
            }
        }
    }
    Ok(())
}

/// Parse one response at `pos`; `method` is the request's method.
pub fn response(b: &[u8], pos: usize, method: &[u8], eof: bool) -> Result<P, String> {
    if pos == b.len() {
        return Ok(P::End);
    }
    let mut m = blank(pos);
    let (l, next) = match line(b, pos)? {
        Line::Part => {
            let have = &b[pos..];
            let n = have.len().min(7);
            if have[..n] != b"HTTP/1."[..n] {
                return Err(format!("not a status line: {:?}", crate::src::show(have)));
            }
            return Ok(P::Partial);
        }
        Line::Full(l, n) => (l, n),
    };
    m.version = match l.get(..9) {
        Some(b"HTTP/1.1 ") => 11,
        Some(b"HTTP/1.0 ") => 10,
        _ => return Err(format!("bad status line {:?}", crate::src::show(l))),
    };
    if l.len() < 13 || !l[9..12].iter().all(|x| x.is_ascii_digit()) || l[12] != b' ' {
        return Err(format!("bad status line {:?}", crate::src::show(l)));
    }
    m.status = std::str::from_utf8(&l[9..12]).unwrap().parse().unwrap();
    m.reason = l[13..].to_vec();
    if !m.reason.iter().all(|x| is_vchar(*x)) {
        return Err("bad reason phrase".into());
    }
    let mut h = vec![];
    match fields(b, next, &mut h)? {
        None => return Ok(P::Partial),
        Some(e) => m.head_end = e,
    }
    m.headers = h;
    m.end = m.head_end;
    let (chunked, len) = framing_fields(&m)?;
    if chunked && m.version == 10 {
        return Err("chunked response to/as HTTP/1.0".into());
    }
    let s = m.status;
    m.framing = if (100..200).contains(&s) || s == 204 || s == 304 || method == b"HEAD" || (method == b"CONNECT" && (200..300).contains(&s)) {
        if chunked && ((100..200).contains(&s) || s == 204) {
            return Err(format!("transfer-encoding on a {s} response"));
        }
        Framing::None
    } else if chunked {
        Framing::Chunked
    } else if let Some(n) = len {
        Framing::Length(n)
    } else {
        Framing::Close
    };
    read_body(b, &mut m, eof)?;
    Ok(P::Msg(Box::new(m)))
}

/// Parse one request at `pos`.
pub fn request(b: &[u8], pos: usize) -> Result<P, String> {
    if pos == b.len() {
        return Ok(P::End);
    }
    let mut m = blank(pos);
    let (l, next) = match line(b, pos)? {
        Line::Part => return Ok(P::Partial),
        Line::Full(l, n) => (l, n),
    };
    let parts: Vec<&[u8]> = l.split(|x| *x == b' ').collect();
    if parts.len() != 3 || parts[0].is_empty() || parts[1].is_empty() || !parts[0].iter().all(|x| is_tchar(*x)) {
        return Err(format!("bad request line {:?}", crate::src::show(l)));
    }
    m.method = parts[0].to_vec();
    m.target = parts[1].to_vec();
    m.version = match parts[2] {
        b"HTTP/1.1" => 11,
        b"HTTP/1.0" => 10,
        _ => return Err(format!("bad request line {:?}", crate::src::show(l))),
    };
    let mut h = vec![];
    match fields(b, next, &mut h)? {
        None => return Ok(P::Partial),
        Some(e) => m.head_end = e,
    }
    m.headers = h;
    m.end = m.head_end;
    let (chunked, len) = framing_fields(&m)?;
    if chunked && m.version == 10 {
        return Err("chunked request as HTTP/1.0".into());
    }
    m.framing = if chunked {
        Framing::Chunked
    } else if let Some(n) = len {
        Framing::Length(n)
    } else {
        Framing::None
    };
    read_body(b, &mut m, false)?;
    Ok(P::Msg(Box::new(m)))
}

pub struct Stream {
    /// final responses (status >= 200, or 101) with the interim ones that preceded each
    pub msgs: Vec<Msg>,
    pub interim: Vec<Vec<Msg>>,
    /// interim responses after the last final one
    pub tail_interim: Vec<Msg>,
    /// unfinished head at the end
    pub partial: bool,
    /// bytes after the last message that was parsed (stopped after non-persistent or method list end)
    pub rest: usize,
}

/// Parse a whole server output stream given the methods of the requests, in order.
/// Requests beyond the list use GET (an error response to an unparsable request).
pub fn responses(b: &[u8], methods: &[Vec<u8>], eof: bool) -> Result<Stream, String> {
    let mut s = Stream { msgs: vec![], interim: vec![], tail_interim: vec![], partial: false, rest: 0 };
    let mut pos = 0;
    let mut cur = vec![];
    loop {
        let m = methods.get(s.msgs.len()).map(|v| &v[..]).unwrap_or(b"GET");
        match response(b, pos, m, eof)? {
            P::End => break,
            P::Partial => {
                s.partial = true;
                break;
            }
            P::Msg(m) => {
                pos = m.end;
                if (100..200).contains(&m.status) && m.status != 101 {
                    cur.push(*m);
                    continue;
                }
                let connect = methods.get(s.msgs.len()).map(|v| v == b"CONNECT").unwrap_or(false);
                let stop = !m.complete || m.status == 101 || (connect && (200..300).contains(&m.status));
                s.msgs.push(*m);
                s.interim.push(std::mem::take(&mut cur));
                if stop {
                    break;
                }
            }
        }
    }
    s.tail_interim = cur;
    s.rest = if s.partial { 0 } else { b.len() - pos };
    Ok(s)
}

pub fn requests(b: &[u8]) -> Result<(Vec<Msg>, bool), String> {
    let mut out = vec![];
    let mut pos = 0;
    loop {
        match request(b, pos)? {
            P::End => return Ok((out, false)),
            P::Partial => return Ok((out, true)),
            P::Msg(m) => {
                pos = m.end;
                let stop = !m.complete;
                out.push(*m);
                if stop {
                    return Ok((out, false));
                }
            }
        }
    }
}
