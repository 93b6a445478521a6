//! HTTP/2 frames and header compression, written from the RFCs, independent of the `h2` crate.
use crate::huff;
use std::collections::VecDeque;
use std::sync::OnceLock;

pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";

pub mod k {
    pub const DATA: u8 = 0;
    pub const HEADERS: u8 = 1;
    pub const PRIORITY: u8 = 2;
    pub const RST: u8 = 3;
    pub const SETTINGS: u8 = 4;
    pub const PUSH: u8 = 5;
    pub const PING: u8 = 6;
    pub const GOAWAY: u8 = 7;
    pub const WINDOW: u8 = 8;
    pub const CONT: u8 = 9;
}
pub mod code {
    pub const NO_ERROR: u32 = 0;
    pub const PROTOCOL: u32 = 1;
    pub const INTERNAL: u32 = 2;
    pub const FLOW: u32 = 3;
    pub const REFUSED: u32 = 7;
    pub const CANCEL: u32 = 8;
    pub const COMPRESSION: u32 = 9;
    pub const CALM: u32 = 11;
}
pub const END_STREAM: u8 = 1;
pub const END_HEADERS: u8 = 4;
pub const ACK: u8 = 1;

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub kind: u8,
    pub flags: u8,
    pub sid: u32,
    pub payload: Vec<u8>,
}
impl Frame {
    pub fn show(&self) -> String {
        let n = ["DATA", "HEADERS", "PRIORITY", "RST", "SETTINGS", "PUSH", "PING", "GOAWAY", "WINDOW", "CONT"];
        let extra = match self.kind {
            k::RST | k::WINDOW if self.payload.len() == 4 => format!(" {}", be32(&self.payload)),
            k::GOAWAY if self.payload.len() >= 8 => format!(" last={} code={}", be32(&self.payload), be32(&self.payload[4..])),
            _ => format!(" {}B", self.payload.len()),
        };
        format!("{}[{}]{}{}", n.get(self.kind as usize).unwrap_or(&"?"), self.sid, extra, if self.flags != 0 { format!(" fl={:x}", self.flags) } else { String::new() })
    }
}
pub fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

pub fn frame(kind: u8, flags: u8, sid: u32, payload: &[u8]) -> Vec<u8> {
    let n = payload.len();
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, kind, flags];
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(payload);
    v
}
pub fn settings(list: &[(u16, u32)]) -> Vec<u8> {
    let mut p = vec![];
    for (i, v) in list {
        p.extend_from_slice(&i.to_be_bytes());
        p.extend_from_slice(&v.to_be_bytes());
    }
    frame(k::SETTINGS, 0, 0, &p)
}
pub fn settings_ack() -> Vec<u8> {
    frame(k::SETTINGS, ACK, 0, &[])
}
pub fn window(sid: u32, n: u32) -> Vec<u8> {
    frame(k::WINDOW, 0, sid, &n.to_be_bytes())
}
pub fn rst(sid: u32, code: u32) -> Vec<u8> {
    frame(k::RST, 0, sid, &code.to_be_bytes())
}
pub fn goaway(last: u32, code: u32) -> Vec<u8> {
    let mut p = last.to_be_bytes().to_vec();
    p.extend_from_slice(&code.to_be_bytes());
    frame(k::GOAWAY, 0, 0, &p)
}
pub fn ping(ack: bool, b: [u8; 8]) -> Vec<u8> {
    frame(k::PING, ack as u8, 0, &b)
}
pub fn data(sid: u32, b: &[u8], end: bool) -> Vec<u8> {
    frame(k::DATA, end as u8, sid, b)
}
pub fn headers(sid: u32, block: &[u8], end: bool) -> Vec<u8> {
    // split into CONTINUATIONs when needed
    let first = block.len().min(16_384);
    let all = first == block.len();
    let mut v = frame(k::HEADERS, end as u8 | if all { END_HEADERS } else { 0 }, sid, &block[..first]);
    let mut at = first;
    while at < block.len() {
        let n = (block.len() - at).min(16_384);
        v.extend(frame(k::CONT, if at + n == block.len() { END_HEADERS } else { 0 }, sid, &block[at..at + n]));
        at += n;
    }
    v
}

/// Takes the complete frames off the front of `buf`.
pub fn take_frames(buf: &mut Vec<u8>) -> Vec<Frame> {
    let mut out = vec![];
    let mut at = 0;
    while buf.len() - at >= 9 {
        let b = &buf[at..];
        let n = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
        if b.len() < 9 + n {
            break;
        }
        out.push(Frame { kind: b[3], flags: b[4], sid: be32(&b[5..]) & 0x7fff_ffff, payload: b[9..9 + n].to_vec() });
        at += 9 + n;
    }
    buf.drain(..at);
    out
}

// ---------------------------------------------------------------- HPACK

pub type Fields = Vec<(Vec<u8>, Vec<u8>)>;

const STATIC: [(&str, &str); 61] = [
    (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"), (":scheme", "http"),
    (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"), (":status", "304"), (":status", "400"),
    (":status", "404"), (":status", "500"), ("accept-charset", ""), ("accept-encoding", "gzip, deflate"), ("accept-language", ""),
    ("accept-ranges", ""), ("accept", ""), ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""),
    ("cache-control", ""), ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""),
    ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""), ("expect", ""),
    ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""), ("if-none-match", ""), ("if-range", ""),
    ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""), ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""),
    ("proxy-authorization", ""), ("range", ""), ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""),
    ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""), ("www-authenticate", ""),
];

fn huff_tree() -> &'static Vec<[i32; 2]> {
    static T: OnceLock<Vec<[i32; 2]>> = OnceLock::new();
    T.get_or_init(|| {
        // positive: next node; negative: -(symbol+1); 0: nothing
        let mut t: Vec<[i32; 2]> = vec![[0, 0]];
        for s in 0..256usize {
            let (c, l) = (huff::CODES[s], huff::LENS[s]);
            let mut n = 0usize;
            for i in (0..l).rev() {
                let bit = (c >> i & 1) as usize;
                if i == 0 {
                    t[n][bit] = -(s as i32 + 1);
                } else {
                    if t[n][bit] == 0 {
                        t.push([0, 0]);
                        t[n][bit] = (t.len() - 1) as i32;
                    }
                    n = t[n][bit] as usize;
                }
            }
        }
        t
    })
}
pub fn unhuff(b: &[u8]) -> Result<Vec<u8>, String> {
    let t = huff_tree();
    let mut out = vec![];
    let (mut n, mut depth, mut ones) = (0usize, 0, true);
    for byte in b {
        for i in (0..8).rev() {
            let bit = (byte >> i & 1) as usize;
            ones &= bit == 1;
            depth += 1;
            match t[n][bit] {
                0 => return Err("invalid Huffman code".into()),
                s if s < 0 => {
                    out.push((-s - 1) as u8);
                    n = 0;
                    depth = 0;
                    ones = true;
                }
                m => n = m as usize,
            }
        }
    }
    if depth >= 8 || !ones {
        return Err("invalid Huffman padding".into());
    }
    Ok(out)
}
pub fn huff(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u64, 0u32);
    for s in b {
        acc = acc << huff::LENS[*s as usize] | huff::CODES[*s as usize] as u64;
        n += huff::LENS[*s as usize] as u32;
        while n >= 8 {
            out.push((acc >> (n - 8)) as u8);
            n -= 8;
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 {
        out.push((acc << (8 - n) | (1 << (8 - n)) - 1) as u8);
    }
    out
}

#[derive(Default)]
pub struct HpackDec {
    dynt: VecDeque<(Vec<u8>, Vec<u8>)>,
    size: usize,
    max: usize,
    pub limit: usize,
}
impl HpackDec {
    pub fn new(limit: usize) -> Self {
        HpackDec { dynt: VecDeque::new(), size: 0, max: limit, limit }
    }
    fn evict(&mut self) {
        while self.size > self.max {
            let (n, v) = self.dynt.pop_back().expect("entry");
            self.size -= n.len() + v.len() + 32;
        }
    }
    fn get(&self, i: usize) -> Result<(Vec<u8>, Vec<u8>), String> {
        if i == 0 {
            return Err("index 0".into());
        }
        if i <= 61 {
            let (n, v) = STATIC[i - 1];
            return Ok((n.as_bytes().to_vec(), v.as_bytes().to_vec()));
        }
        self.dynt.get(i - 62).cloned().ok_or(format!("index {i} beyond the table"))
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<Fields, String> {
        let mut out = vec![];
        let mut at = 0;
        let mut fields_seen = false;
        while at < b.len() {
            let f = b[at];
            if f & 0x80 != 0 {
                let i = int(b, &mut at, 7)?;
                out.push(self.get(i)?);
                fields_seen = true;
            } else if f & 0xe0 == 0x20 {
                if fields_seen {
                    return Err("table size update after a field".into());
                }
                let n = int(b, &mut at, 5)?;
                if n > self.limit {
                    return Err(format!("table size {n} above the limit {}", self.limit));
                }
                self.max = n;
                self.evict();
            } else {
                let add = f & 0x40 != 0;
                let i = int(b, &mut at, if add { 6 } else { 4 })?;
                let name = if i > 0 { self.get(i)?.0 } else { string(b, &mut at)? };
                let value = string(b, &mut at)?;
                if add {
                    self.size += name.len() + value.len() + 32;
                    self.dynt.push_front((name.clone(), value.clone()));
                    self.evict();
                }
                out.push((name, value));
                fields_seen = true;
            }
        }
        Ok(out)
    }
}
fn int(b: &[u8], at: &mut usize, bits: u32) -> Result<usize, String> {
    let m = (1usize << bits) - 1;
    let mut v = *b.get(*at).ok_or("truncated")? as usize & m;
    *at += 1;
    if v < m {
        return Ok(v);
    }
    let mut sh = 0;
    loop {
        let c = *b.get(*at).ok_or("truncated")? as usize;
        *at += 1;
        v += (c & 0x7f) << sh;
        sh += 7;
        if c & 0x80 == 0 {
            return Ok(v);
        }
        if sh > 28 {
            return Err("integer too long".into());
        }
    }
}
fn string(b: &[u8], at: &mut usize) -> Result<Vec<u8>, String> {
    let h = *b.get(*at).ok_or("truncated")? & 0x80 != 0;
    let n = int(b, at, 7)?;
    let s = b.get(*at..*at + n).ok_or("truncated string")?;
    *at += n;
    if h {
        unhuff(s)
    } else {
        Ok(s.to_vec())
    }
}
fn put_int(out: &mut Vec<u8>, top: u8, bits: u32, mut v: usize) {
    let m = (1usize << bits) - 1;
    if v < m {
        out.push(top | v as u8);
        return;
    }
    out.push(top | m as u8);
    v -= m;
    while v >= 128 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn put_str(out: &mut Vec<u8>, s: &[u8], h: bool) {
    if h {
        let e = huff(s);
        put_int(out, 0x80, 7, e.len());
        out.extend(e);
    } else {
        put_int(out, 0, 7, s.len());
        out.extend_from_slice(s);
    }
}
/// Literal fields, never indexed into the dynamic table. `style`: bit 0 Huffman, bit 1 static names,
/// bit 2 never-indexed.
pub fn encode(fields: &[(Vec<u8>, Vec<u8>)], style: u8) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in fields {
        let idx = if style & 2 != 0 { STATIC.iter().position(|e| e.0.as_bytes() == &n[..]) } else { None };
        let top = if style & 4 != 0 { 0x10 } else { 0 };
        match idx {
            Some(i) => put_int(&mut out, top, 4, i + 1),
            None => {
                out.push(top);
                put_str(&mut out, n, style & 1 != 0);
            }
        }
        put_str(&mut out, v, style & 1 != 0);
    }
    out
}
pub fn fields(l: &[(&str, &str)]) -> Fields {
    l.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect()
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn round() {
        for s in 0..8u8 {
            let f = fields(&[(":method", "GET"), ("x-a", "hello, \u{e9}!"), ("cookie", ""), ("date", &"z".repeat(400))]);
            let e = encode(&f, s);
            assert_eq!(HpackDec::new(4096).decode(&e).unwrap(), f);
        }
        let all: Vec<u8> = (0..=255).collect();
        assert_eq!(unhuff(&huff(&all)).unwrap(), all);
        // RFC 7541 C.4.1
        let e = [0x82u8, 0x86, 0x84, 0x41, 0x8c, 0xf1, 0xe3, 0xc2, 0xe5, 0xf2, 0x3a, 0x6b, 0xa0, 0xab, 0x90, 0xf4, 0xff];
        let d = HpackDec::new(4096).decode(&e).unwrap();
        assert_eq!(d, fields(&[(":method", "GET"), (":scheme", "http"), (":path", "/"), (":authority", "www.example.com")]));
    }
}
