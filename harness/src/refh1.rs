//! Reference reader: what an HTTP/1 endpoint is required to make of an input byte stream.
//! Written from RFC 9112 and hyper's documented leniencies (bare LF line ends in heads, leading blank
//! lines, obs-text), without looking at hyper's own parsing structure.
use crate::wire::{is_tchar, is_vchar, trim};

pub type H = Vec<(String, Vec<u8>)>;

#[derive(Clone, Debug)]
pub struct RefCfg {
    pub max_headers: usize,
    /// maximum number of trailer lines
    pub max_trailers: usize,
    pub multi_space: bool,
    pub spaces_after_name: bool,
    pub obs_fold: bool,
    pub h09: bool,
    pub ignore_invalid: bool,
}
impl Default for RefCfg {
    fn default() -> Self {
        RefCfg { max_headers: 100, max_trailers: 100, multi_space: false, spaces_after_name: false, obs_fold: false, h09: false, ignore_invalid: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// 400
    Syntax,
    /// 431
    TooLarge,
    /// 414
    UriTooLong,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BodyEnd {
    Complete,
    /// input ended first
    Truncated,
    /// framing bytes are broken; position of the first broken byte
    Malformed(usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fr {
    None,
    Length(u64),
    Chunked,
    Close,
}

#[derive(Clone, Debug)]
pub struct RefMsg {
    pub method: Vec<u8>,
    pub target: Vec<u8>,
    pub status: u16,
    pub reason: Vec<u8>,
    pub version: u8,
    /// lower-cased names in wire order, as the application must see them
    pub headers: H,
    /// original spelling, all lines
    pub raw: Vec<(Vec<u8>, Vec<u8>)>,
    pub fr: Fr,
    pub body: Vec<u8>,
    pub trailers: H,
    pub end: BodyEnd,
    /// the sender allows another message on this connection
    pub ka: bool,
    pub expect: bool,
    pub upgrade: bool,
    pub start: usize,
    pub head_end: usize,
    pub pos: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tail {
    /// nothing (but blank lines) left
    Idle,
    /// an unfinished head
    PartialHead,
    /// a head that can never become valid; true if its text up to a blank line is present
    BadHead(Bad, bool),
    /// no message may be read after the last one
    Stopped,
}

struct Raw {
    first: Vec<u8>,
    lines: Vec<(Vec<u8>, Vec<u8>)>,
    end: usize,
}
enum Head<T> {
    Full(T),
    Partial,
    Bad(Bad),
}

/// is a blank-line terminator present at or after `pos`
fn has_terminator(b: &[u8]) -> bool {
    let b = &b[b.iter().take_while(|c| matches!(c, b'\r' | b'\n')).count()..];
    b.windows(4).any(|w| w == b"\r\n\r\n") || b.windows(2).any(|w| w == b"\n\n") || b.windows(3).any(|w| w == b"\n\r\n")
}

macro_rules! need {
    ($b:expr, $i:expr) => {
        match $b.get($i) {
            Some(c) => *c,
            None => return Head::Partial,
        }
    };
}

fn skip_blank(b: &[u8], mut i: usize) -> Head<usize> {
    loop {
        match b.get(i) {
            None => return Head::Partial,
            Some(b'\n') => i += 1,
            Some(b'\r') => {
                if need!(b, i + 1) != b'\n' {
                    return Head::Bad(Bad::Syntax);
                }
                i += 2;
            }
            Some(_) => return Head::Full(i),
        }
    }
}
/// CRLF or LF at i: position after it
fn newline(b: &[u8], i: usize) -> Head<usize> {
    match need!(b, i) {
        b'\n' => Head::Full(i + 1),
        b'\r' => {
            if need!(b, i + 1) == b'\n' {
                Head::Full(i + 2)
            } else {
                Head::Bad(Bad::Syntax)
            }
        }
        _ => Head::Bad(Bad::Syntax),
    }
}
macro_rules! get {
    ($e:expr) => {
        match $e {
            Head::Full(x) => x,
            Head::Partial => return Head::Partial,
            Head::Bad(k) => return Head::Bad(k),
        }
    };
}

/// the end of a line that is ignored, from a byte that must not be there
fn rest_of_line(b: &[u8], mut i: usize) -> Head<usize> {
    loop {
        match need!(b, i) {
            b'\r' => return if need!(b, i + 1) == b'\n' { Head::Full(i + 2) } else { Head::Bad(Bad::Syntax) },
            b'\n' => return Head::Full(i + 1),
            0 => return Head::Bad(Bad::Syntax),
            _ => i += 1,
        }
    }
}

fn fields(b: &[u8], mut i: usize, cfg: &RefCfg, max: usize) -> Head<(Vec<(Vec<u8>, Vec<u8>)>, usize)> {
    let mut out: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    'lines: loop {
        let c = need!(b, i);
        if c == b'\r' || c == b'\n' {
            let e = get!(newline(b, i));
            return Head::Full((out, e));
        }
        let ns = i;
        while is_tchar(need!(b, i)) {
            i += 1;
        }
        let ne = i;
        if cfg.spaces_after_name && ne > ns {
            while matches!(need!(b, i), b' ' | b'\t') {
                i += 1;
            }
        }
        if ns == ne || need!(b, i) != b':' {
            if cfg.ignore_invalid {
                i = get!(rest_of_line(b, i));
                continue;
            }
            return Head::Bad(Bad::Syntax);
        }
        i += 1;
        let mut val: Vec<u8> = vec![];
        loop {
            let vs = i;
            while is_vchar(need!(b, i)) {
                i += 1;
            }
            let piece = trim(&b[vs..i]);
            if cfg.ignore_invalid && !matches!(need!(b, i), b'\r' | b'\n') {
                i = get!(rest_of_line(b, i));
                continue 'lines;
            }
            i = get!(newline(b, i));
            if cfg.obs_fold {
                if !val.is_empty() {
                    val.push(b' ');
                }
                val.extend_from_slice(piece);
                if matches!(need!(b, i), b' ' | b'\t') {
                    continue;
                }
            } else {
                val = piece.to_vec();
            }
            break;
        }
        if out.len() == max {
            return Head::Bad(Bad::TooLarge);
        }
        while val.last() == Some(&b' ') {
            val.pop();
        }
        out.push((b[ns..ne].to_vec(), val));
    }
}

/// no status line at all: HTTP/0.9
fn no_status_line(b: &[u8], pos: usize) -> bool {
    let Head::Full(i) = skip_blank(b, pos) else { return false };
    match version(b, i) {
        Head::Full(_) => b.get(i + 8).is_some_and(|c| *c != b' '),
        Head::Bad(_) => true,
        Head::Partial => false,
    }
}

fn version(b: &[u8], i: usize) -> Head<u8> {
    for (k, c) in b"HTTP/1.".iter().enumerate() {
        if need!(b, i + k) != *c {
            return Head::Bad(Bad::Syntax);
        }
    }
    match need!(b, i + 7) {
        b'0' => Head::Full(10),
        b'1' => Head::Full(11),
        _ => Head::Bad(Bad::Syntax),
    }
}

fn request_head(b: &[u8], pos: usize, cfg: &RefCfg) -> Head<(Vec<u8>, Vec<u8>, u8, Raw)> {
    let mut i = get!(skip_blank(b, pos));
    let ms = i;
    while is_tchar(need!(b, i)) {
        i += 1;
    }
    if i == ms || need!(b, i) != b' ' {
        return Head::Bad(Bad::Syntax);
    }
    let method = b[ms..i].to_vec();
    i += 1;
    if cfg.multi_space {
        while need!(b, i) == b' ' {
            i += 1;
        }
    }
    let us = i;
    while {
        let c = need!(b, i);
        c > 0x20 && c != 0x7f
    } {
        i += 1;
    }
    if i == us || need!(b, i) != b' ' || std::str::from_utf8(&b[us..i]).is_err() {
        return Head::Bad(Bad::Syntax);
    }
    let target = b[us..i].to_vec();
    i += 1;
    if cfg.multi_space {
        while need!(b, i) == b' ' {
            i += 1;
        }
    }
    let v = get!(version(b, i));
    i = get!(newline(b, i + 8));
    let (lines, end) = get!(fields(b, i, cfg, cfg.max_headers));
    Head::Full((method, target, v, Raw { first: b[ms..us].to_vec(), lines, end }))
}

fn status_head(b: &[u8], pos: usize, cfg: &RefCfg) -> Head<(u16, Vec<u8>, u8, Raw)> {
    let mut i = get!(skip_blank(b, pos));
    let s0 = i;
    let v = get!(version(b, i));
    i += 8;
    if need!(b, i) != b' ' {
        return Head::Bad(Bad::Syntax);
    }
    i += 1;
    let mut code = 0u16;
    for _ in 0..3 {
        let c = need!(b, i);
        if !c.is_ascii_digit() {
            return Head::Bad(Bad::Syntax);
        }
        code = code * 10 + (c - b'0') as u16;
        i += 1;
    }
    let mut reason = vec![];
    match need!(b, i) {
        b' ' => {
            let rs = i + 1;
            i = rs;
            while is_vchar(need!(b, i)) {
                i += 1;
            }
            reason = b[rs..i].to_vec();
            i = get!(newline(b, i));
            if reason.iter().any(|c| *c >= 0x80) {
                reason.clear();
            }
        }
        b'\r' | b'\n' => i = get!(newline(b, i)),
        _ => return Head::Bad(Bad::Syntax),
    }
    let (lines, end) = get!(fields(b, i, cfg, cfg.max_headers));
    if code < 100 {
        return Head::Bad(Bad::Syntax);
    }
    Head::Full((code, reason, v, Raw { first: b[s0..s0 + 8].to_vec(), lines, end }))
}

fn lower(n: &[u8]) -> String {
    String::from_utf8_lossy(n).to_ascii_lowercase()
}
fn digits(v: &[u8]) -> Option<Option<u64>> {
    // None: not digits; Some(None): overflow
    if v.is_empty() || !v.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut n: u64 = 0;
    for c in v {
        n = match n.checked_mul(10).and_then(|x| x.checked_add((c - b'0') as u64)) {
            Some(x) => x,
            None => return Some(None),
        };
    }
    Some(Some(n))
}
/// tokens of one list-valued line; a line with obs-text is not usable as a token list
fn tokens(v: &[u8]) -> Vec<Vec<u8>> {
    if v.iter().any(|c| *c >= 0x80) {
        return vec![];
    }
    v.split(|c| *c == b',').map(|t| String::from_utf8_lossy(t).trim().as_bytes().to_ascii_lowercase()).collect()
}

/// connection options of one line
fn options(v: &[u8]) -> Vec<Vec<u8>> {
    v.split(|c| *c == b',').map(|t| crate::wire::trim(t).to_ascii_lowercase()).collect()
}

/// Body lengths this large are refused as too large
pub const MAX_LEN: u64 = u64::MAX - 2;

/// Connection persistence asked for by one message
pub fn wants_ka(version: u8, h: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let mut close = false;
    let mut keep = false;
    for (n, v) in h {
        if n.eq_ignore_ascii_case(b"connection") {
            for t in options(v) {
                close |= t == b"close";
                keep |= t == b"keep-alive";
            }
        }
    }
    !close && (version == 11 || keep)
}
/// Connection fields whose combination is contradictory (both close and keep-alive)
pub fn ka_ambiguous(h: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let t: Vec<Vec<u8>> = h.iter().filter(|(n, _)| n.eq_ignore_ascii_case(b"connection")).flat_map(|(_, v)| options(v)).collect();
    t.iter().any(|x| x == b"close") && t.iter().any(|x| x == b"keep-alive")
}

const CHUNK_EXT_LIMIT: u64 = 16 * 1024;
const TRAILER_LIMIT: usize = 16 * 1024;

/// Decode a chunked body at `pos`.
pub fn chunked(b: &[u8], pos: usize, max_trailers: usize, body: &mut Vec<u8>, trailers: &mut H) -> (BodyEnd, usize) {
    let mut i = pos;
    let mut ext = 0u64;
    macro_rules! c {
        ($i:expr) => {
            match b.get($i) {
                Some(c) => *c,
                None => return (BodyEnd::Truncated, b.len()),
            }
        };
    }
    macro_rules! bad {
        ($i:expr) => {
            return (BodyEnd::Malformed($i), $i)
        };
    }
    loop {
        let mut size: u64 = 0;
        let mut nd = 0;
        while c!(i).is_ascii_hexdigit() {
            let d = (b[i] as char).to_digit(16).unwrap() as u64;
            size = match size.checked_mul(16).and_then(|s| s.checked_add(d)) {
                Some(s) => s,
                None => bad!(i),
            };
            i += 1;
            nd += 1;
        }
        if nd == 0 {
            bad!(i);
        }
        while matches!(c!(i), b' ' | b'\t') {
            i += 1;
        }
        if c!(i) == b';' {
            i += 1;
            while c!(i) != b'\r' {
                if b[i] == b'\n' {
                    bad!(i);
                }
                ext += 1;
                if ext >= CHUNK_EXT_LIMIT {
                    bad!(i);
                }
                i += 1;
            }
        }
        if c!(i) != b'\r' {
            bad!(i);
        }
        if c!(i + 1) != b'\n' {
            bad!(i + 1);
        }
        i += 2;
        if size == 0 {
            break;
        }
        let avail = (b.len() - i) as u64;
        let k = size.min(avail) as usize;
        body.extend_from_slice(&b[i..i + k]);
        i += k;
        if (k as u64) < size {
            return (BodyEnd::Truncated, i);
        }
        if c!(i) != b'\r' {
            bad!(i);
        }
        if c!(i + 1) != b'\n' {
            bad!(i + 1);
        }
        i += 2;
    }
    // trailer section: CRLF-terminated lines until an empty one
    let ts = i;
    let mut lines = 0usize;
    loop {
        if c!(i) == b'\r' {
            if c!(i + 1) != b'\n' {
                bad!(i + 1);
            }
            i += 2;
            break;
        }
        while c!(i) != b'\r' {
            i += 1;
            if i - ts >= TRAILER_LIMIT {
                bad!(i);
            }
        }
        if c!(i + 1) != b'\n' {
            bad!(i + 1);
        }
        i += 2;
        lines += 1;
        if lines > max_trailers {
            bad!(i);
        }
        if i - ts >= TRAILER_LIMIT {
            bad!(i);
        }
    }
    if i - 2 > ts {
        let cfg = RefCfg::default();
        match fields(&b[..i], ts, &cfg, lines) {
            Head::Full((ls, e)) if e == i => {
                for (n, v) in ls {
                    trailers.push((lower(&n), v));
                }
            }
            // a bare LF hid a blank line or extra fields inside one line
            _ => return (BodyEnd::Malformed(i), i),
        }
    }
    (BodyEnd::Complete, i)
}

fn blank(pos: usize) -> RefMsg {
    RefMsg {
        method: vec![],
        target: vec![],
        status: 0,
        reason: vec![],
        version: 11,
        headers: vec![],
        raw: vec![],
        fr: Fr::None,
        body: vec![],
        trailers: vec![],
        end: BodyEnd::Complete,
        ka: true,
        expect: false,
        upgrade: false,
        start: pos,
        head_end: pos,
        pos,
    }
}

fn read_body(b: &[u8], m: &mut RefMsg, cfg: &RefCfg, eof_clean: bool) {
    let i = m.head_end;
    match m.fr {
        Fr::None => m.pos = i,
        Fr::Length(n) => {
            let k = n.min((b.len() - i) as u64) as usize;
            m.body = b[i..i + k].to_vec();
            m.pos = i + k;
            if (k as u64) < n {
                m.end = BodyEnd::Truncated;
            }
        }
        Fr::Close => {
            m.body = b[i..].to_vec();
            m.pos = b.len();
            if !eof_clean {
                m.end = BodyEnd::Truncated;
            }
        }
        Fr::Chunked => {
            let mut body = vec![];
            let mut tr = vec![];
            let (e, p) = chunked(b, i, cfg.max_trailers, &mut body, &mut tr);
            m.body = body;
            m.trailers = tr;
            m.end = e;
            m.pos = p;
        }
    }
}

pub struct RefStream {
    pub msgs: Vec<RefMsg>,
    pub tail: Tail,
    /// where the tail starts
    pub tail_pos: usize,
}

fn decide_request(m: &mut RefMsg) -> Result<(), Bad> {
    let mut te_lines: Vec<Vec<u8>> = vec![];
    let mut seen_te = false;
    let mut cl: Option<u64> = None;
    let mut any_cl = false;
    let mut h: H = vec![];
    let v11 = m.version == 11;
    for (n, v) in &m.raw {
        let name = lower(n);
        match name.as_str() {
            "transfer-encoding" => {
                if !v11 {
                    return Err(Bad::Syntax);
                }
                seen_te = true;
                te_lines.push(v.clone());
            }
            "content-length" => {
                any_cl = true;
                if seen_te {
                    continue;
                }
                match digits(v) {
                    None | Some(None) => return Err(Bad::Syntax),
                    Some(Some(x)) => {
                        if let Some(p) = cl {
                            if p != x {
                                return Err(Bad::Syntax);
                            }
                            continue;
                        }
                        if x > MAX_LEN {
                            return Err(Bad::TooLarge);
                        }
                        cl = Some(x);
                    }
                }
            }
            "expect" => m.expect = v.eq_ignore_ascii_case(b"100-continue"),
            "upgrade" => m.upgrade = v11,
            _ => {}
        }
        h.push((name, v.clone()));
    }
    if m.method == b"CONNECT" {
        m.upgrade = true;
    }
    m.ka = wants_ka(m.version, &m.raw);
    if seen_te {
        h.retain(|(n, _)| n != "content-length");
        let last = te_lines.last().unwrap();
        let fin = tokens(last).pop().unwrap_or_default();
        if fin != b"chunked" {
            return Err(Bad::Syntax);
        }
        m.fr = Fr::Chunked;
        if any_cl {
            m.ka = false;
        }
    } else if let Some(n) = cl {
        m.fr = if n == 0 { Fr::None } else { Fr::Length(n) };
    }
    m.headers = h;
    if m.fr == Fr::None || !v11 {
        m.expect = false;
    }
    Ok(())
}

/// Everything a server must make of `b`, input ending after it.
pub fn requests(b: &[u8], cfg: &RefCfg, max_uri: usize) -> RefStream {
    let mut msgs: Vec<RefMsg> = vec![];
    let mut pos = 0;
    loop {
        if let Some(l) = msgs.last() {
            if !l.ka || l.end != BodyEnd::Complete {
                return RefStream { msgs, tail: Tail::Stopped, tail_pos: pos };
            }
        }
        match request_head(b, pos, cfg) {
            Head::Partial => {
                let rest = &b[pos..];
                let blank_only = rest.iter().all(|c| *c == b'\r' || *c == b'\n');
                let tail = if blank_only { Tail::Idle } else { Tail::PartialHead };
                return RefStream { msgs, tail, tail_pos: pos };
            }
            Head::Bad(k) => {
                let t = has_terminator(&b[pos..]);
                return RefStream { msgs, tail: Tail::BadHead(k, t), tail_pos: pos };
            }
            Head::Full((method, target, v, raw)) => {
                let _ = &raw.first;
                let mut m = blank(pos);
                m.method = method;
                m.target = target;
                m.version = v;
                m.raw = raw.lines;
                m.head_end = raw.end;
                if m.target.len() > max_uri {
                    return RefStream { msgs, tail: Tail::BadHead(Bad::UriTooLong, true), tail_pos: pos };
                }
                if http::Uri::try_from(&m.target[..]).is_err() {
                    return RefStream { msgs, tail: Tail::BadHead(Bad::Syntax, true), tail_pos: pos };
                }
                if let Err(k) = decide_request(&mut m) {
                    return RefStream { msgs, tail: Tail::BadHead(k, true), tail_pos: pos };
                }
                read_body(b, &mut m, cfg, false);
                pos = m.pos;
                msgs.push(m);
            }
        }
    }
}

#[derive(Debug, Clone)]
pub enum RespOut {
    /// the final response, with the interim ones before it
    Final(Box<RefMsg>, Vec<RefMsg>),
    /// input ends inside the head (or before it)
    Partial(Vec<RefMsg>),
    /// text after which no valid response can come; true if a terminator is present
    Bad(Bad, bool, Vec<RefMsg>),
}

/// The next response at `pos` for a request with `method`. `eof` tells whether input ends cleanly after `b`.
pub fn response(b: &[u8], pos: usize, method: &[u8], cfg: &RefCfg, eof: bool) -> RespOut {
    let mut pos = pos;
    let mut interim = vec![];
    loop {
        if cfg.h09 && no_status_line(b, pos) {
            let mut m = blank(pos);
            m.status = 200;
            m.version = 9;
            m.reason = b"OK".to_vec();
            m.head_end = pos;
            m.pos = pos;
            m.upgrade = method == b"CONNECT";
            m.fr = if m.upgrade || method == b"HEAD" { Fr::None } else { Fr::Close };
            read_body(b, &mut m, cfg, eof);
            return RespOut::Final(Box::new(m), interim);
        }
        match status_head(b, pos, cfg) {
            Head::Partial => return RespOut::Partial(interim),
            Head::Bad(k) => return RespOut::Bad(k, has_terminator(&b[pos..]), interim),
            Head::Full((code, reason, v, raw)) => {
                let mut m = blank(pos);
                m.status = code;
                m.reason = reason;
                m.version = v;
                m.raw = raw.lines;
                m.head_end = raw.end;
                m.pos = raw.end;
                m.headers = m.raw.iter().map(|(n, v)| (lower(n), v.clone())).collect();
                m.ka = wants_ka(v, &m.raw);
                if (100..200).contains(&code) && code != 101 {
                    pos = m.pos;
                    interim.push(m);
                    continue;
                }
                let te: Vec<&Vec<u8>> = m.headers.iter().filter(|(n, _)| n == "transfer-encoding").map(|(_, v)| v).collect();
                let cl: Vec<&Vec<u8>> = m.headers.iter().filter(|(n, _)| n == "content-length").map(|(_, v)| v).collect();
                if code == 101 || (method == b"CONNECT" && (200..300).contains(&code)) {
                    m.upgrade = true;
                    m.fr = Fr::None;
                } else if code == 204 || code == 304 || method == b"HEAD" {
                    m.fr = Fr::None;
                } else if let Some(last) = te.last() {
                    if v == 10 {
                        return RespOut::Bad(Bad::Syntax, true, interim);
                    }
                    let fin = tokens(last).pop().unwrap_or_default();
                    m.fr = if fin == b"chunked" { Fr::Chunked } else { Fr::Close };
                } else if !cl.is_empty() {
                    let mut n: Option<u64> = None;
                    for line in cl {
                        if line.iter().any(|c| *c >= 0x80) {
                            return RespOut::Bad(Bad::Syntax, true, interim);
                        }
                        for t in line.split(|c| *c == b',') {
                            match digits(trim(t)) {
                                Some(Some(x)) if n.is_none() || n == Some(x) => n = Some(x),
                                _ => return RespOut::Bad(Bad::Syntax, true, interim),
                            }
                        }
                    }
                    let n = n.unwrap();
                    if n > MAX_LEN {
                        return RespOut::Bad(Bad::TooLarge, true, interim);
                    }
                    m.fr = if n == 0 { Fr::None } else { Fr::Length(n) };
                } else {
                    m.fr = Fr::Close;
                }
                read_body(b, &mut m, cfg, eof);
                return RespOut::Final(Box::new(m), interim);
            }
        }
    }
}
