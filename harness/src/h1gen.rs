//! Generators of HTTP/1 byte streams: valid, ambiguous and broken.
use crate::src::{payload, Src};

pub const METHODS: &[&str] = &["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "M-SEARCH", "X", "!#$%&'*+", "get", "PROPFINDPROPFINDPROPFIND"];
const NAMES: &[&str] = &["X-A", "x-b", "Accept", "Host", "Cookie", "X-Long-Header-Name-With-Many-Parts", "a", "Date", "Via", "X_9~", "Content-Type", "TE", "X-A"];
const VALUES: &[&[u8]] = &[b"1", b"", b"text/plain", b"a, b, c", b"with space", b"tab\there", b"\xe9\xff", b"\"q;=\"", b"chunked", b"close", b"0", b"localhost", b"trailers", b"Thu, 01 Jan 1970 00:00:00 GMT"];

#[derive(Clone, Copy)]
pub struct Style {
    /// out of 256: how often something illegal or ambiguous is generated per place
    pub weird: u32,
    pub lf: bool,
    pub trailers: bool,
    pub connect: bool,
}
impl Style {
    pub fn normal() -> Self {
        Style { weird: 20, lf: true, trailers: true, connect: true }
    }
    pub fn clean() -> Self {
        Style { weird: 0, lf: true, trailers: true, connect: true }
    }
}

pub fn nl(s: &mut Src, st: Style, out: &mut Vec<u8>) {
    if st.lf && s.chance(24) {
        out.push(b'\n')
    } else {
        out.extend_from_slice(b"\r\n")
    }
}

pub fn header(s: &mut Src, st: Style, out: &mut Vec<u8>, name: &[u8], value: &[u8]) {
    out.extend_from_slice(name);
    if st.weird > 0 && s.chance(st.weird / 6) {
        out.push(b' ');
    }
    out.push(b':');
    match s.weighted(&[6, 2, 1, 1]) {
        0 => out.push(b' '),
        1 => {}
        2 => out.extend_from_slice(b" \t "),
        _ => out.extend_from_slice(b"\t"),
    }
    out.extend_from_slice(value);
    match s.weighted(&[8, 1, 1]) {
        0 => {}
        1 => out.push(b' '),
        _ => out.extend_from_slice(b"\t "),
    }
    nl(s, st, out);
}

fn cased(s: &mut Src, n: &str) -> Vec<u8> {
    match s.weighted(&[5, 2, 1, 1]) {
        0 => n.as_bytes().to_vec(),
        1 => n.to_ascii_lowercase().into_bytes(),
        2 => n.to_ascii_uppercase().into_bytes(),
        _ => n.bytes().enumerate().map(|(i, b)| if i % 2 == 0 { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect(),
    }
}

pub fn target(s: &mut Src, method: &str) -> Vec<u8> {
    if method == "CONNECT" {
        return s.pick(&[&b"example.com:443"[..], b"h:1", b"127.0.0.1:80"]).to_vec();
    }
    match s.weighted(&[6, 3, 2, 1, 1, 1, 1]) {
        0 => b"/".to_vec(),
        1 => format!("/p{}/q?a={}&b", s.below(100), s.below(10)).into_bytes(),
        2 => b"http://example.com/abs?x".to_vec(),
        3 => b"*".to_vec(),
        4 => format!("/{}", "long/".repeat(s.range(1, 120))).into_bytes(),
        5 => "/caf\u{e9}/%20\"".as_bytes().to_vec(),
        _ => s.pick(&[&b"foo"[..], b"/a#frag", b"//x", b"http://", b"/\x7e|^", b"\xff\xfe", b"h:99999", b"/{}"]).to_vec(),
    }
}

/// Chunk-encode `data`; returns the encoding.
pub fn chunk_encode(s: &mut Src, st: Style, data: &[u8], trailers: &[(Vec<u8>, Vec<u8>)], out: &mut Vec<u8>) {
    let mut i = 0;
    while i < data.len() {
        let left = data.len() - i;
        let n = match s.weighted(&[3, 3, 1]) {
            0 => left,
            1 => 1 + s.below(left.min(40)),
            _ => 1 + s.below(left),
        };
        chunk_size(s, st, n, out);
        out.extend_from_slice(&data[i..i + n]);
        i += n;
        if st.weird > 0 && s.chance(st.weird / 4) {
            out.extend_from_slice(s.pick(&[&b"\n"[..], b"\r", b"", b"x\r\n", b" \r\n", b"\r\r\n", b"\n\r"]));
        } else {
            out.extend_from_slice(b"\r\n");
        }
    }
    chunk_size(s, st, 0, out);
    for (n, v) in trailers {
        out.extend_from_slice(n);
        out.push(b':');
        if !s.chance(60) {
            out.push(b' ');
        }
        out.extend_from_slice(v);
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"\r\n");
}

pub fn chunk_size(s: &mut Src, st: Style, n: usize, out: &mut Vec<u8>) {
    if st.weird > 0 && s.chance(st.weird / 3) {
        let w: &[u8] = *s.pick(&[&b"\r\n"[..], b" 5\r\n", b"g\r\n", b"0x4\r\n", b"-1\r\n", b"+4\r\n", b"10000000000000005\r\n", b"ffffffffffffffff\r\n", b"fffffffffffffffff\r\n", b"5\n", b"5 5\r\n", b"5\r\r\n", b"5;a\nb\r\n", b";\r\n", b"00000000000000000000005\r\n", b"1e\xff\r\n", b"5\x00\r\n"]);
        out.extend_from_slice(w);
        return;
    }
    let h = match s.weighted(&[5, 2, 1]) {
        0 => format!("{n:x}"),
        1 => format!("{n:X}"),
        _ => format!("{:0w$x}", n, w = s.range(1, 12)),
    };
    out.extend_from_slice(h.as_bytes());
    match s.weighted(&[10, 1, 1, 1, 1]) {
        0 => {}
        1 => out.extend_from_slice(b" "),
        2 => out.extend_from_slice(b";ext=val"),
        3 => out.extend_from_slice(b" \t;a=\"b;c\";d"),
        _ => {
            out.push(b';');
            let k = s.range(0, 60);
            out.extend(payload(7, k).iter().map(|b| if *b == b'\r' || *b == b'\n' { b'x' } else { *b }));
        }
    }
    out.extend_from_slice(b"\r\n");
}

pub fn gen_trailers(s: &mut Src) -> Vec<(Vec<u8>, Vec<u8>)> {
    let n = s.weighted(&[5, 3, 2, 1]);
    (0..n)
        .map(|i| {
            let name = s.pick(&["X-T", "x-sum", "Etag", "X-T", "Server-Timing"]).as_bytes().to_vec();
            let v = match s.below(4) {
                0 => format!("v{i}").into_bytes(),
                1 => b"".to_vec(),
                2 => b"a b, c".to_vec(),
                _ => b"\xe9t\xe9".to_vec(),
            };
            (name, v)
        })
        .collect()
}

pub fn body_size(s: &mut Src) -> usize {
    match s.weighted(&[2, 6, 3, 2, 1]) {
        0 => 0,
        1 => s.range(1, 30),
        2 => s.range(30, 400),
        3 => *s.pick(&[15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193]),
        _ => s.range(400, 20000),
    }
}

/// Framing fields plus body bytes.
fn framing(s: &mut Src, st: Style, head: &mut Vec<u8>, body: &mut Vec<u8>, response: bool) -> &'static str {
    let n = body_size(s);
    let data = payload(s.u8(), n);
    let cln = |s: &mut Src| cased(s, "Content-Length");
    let ten = |s: &mut Src| cased(s, "Transfer-Encoding");
    let weird = st.weird > 0 && s.chance(st.weird * 3);
    if !weird {
        return match s.weighted(&[4, 5, 5]) {
            0 => {
                if response {
                    body.extend_from_slice(&data);
                }
                "plain"
            }
            1 => {
                let name = cln(s);
                let v = if s.chance(16) { format!("{:08}", n) } else { n.to_string() };
                header(s, st, head, &name, v.as_bytes());
                body.extend_from_slice(&data);
                "length"
            }
            _ => {
                let name = ten(s);
                let v: &[u8] = *s.pick(&[&b"chunked"[..], b"chunked", b"chunked", b"Chunked", b"gzip, chunked", b"gzip,CHUNKED", b"gzip ,\tchunked"]);
                header(s, st, head, &name, v);
                let tr = if st.trailers && s.chance(90) { gen_trailers(s) } else { vec![] };
                chunk_encode(s, st, &data, &tr, body);
                "chunked"
            }
        };
    }
    match s.below(9) {
        0 => {
            // repeated, equal or not
            let other = *s.pick(&[0usize, 0, 1, n.wrapping_add(1), n.saturating_sub(1)]);
            let k = s.range(2, 3);
            let name = cln(s);
            for i in 0..k {
                let v = if i + 1 == k && s.chance(128) { n + other } else { n };
                header(s, st, head, &name, v.to_string().as_bytes());
            }
            body.extend_from_slice(&data);
            "dup-length"
        }
        1 => {
            let v: Vec<u8> = match s.below(12) {
                0 => format!("+{n}").into_bytes(),
                1 => format!("-{n}").into_bytes(),
                2 => format!("{n},{n}").into_bytes(),
                3 => format!("{n}, {}", n + 1).into_bytes(),
                4 => format!("{n} {n}").into_bytes(),
                5 => b"".to_vec(),
                6 => format!("0x{n:x}").into_bytes(),
                7 => b"18446744073709551615".to_vec(),
                8 => b"18446744073709551616".to_vec(),
                9 => b"99999999999999999999999".to_vec(),
                10 => format!("{n}\u{e9}").into_bytes(),
                _ => format!("{n};").into_bytes(),
            };
            let name = cln(s);
            header(s, st, head, &name, &v);
            body.extend_from_slice(&data);
            "bad-length"
        }
        2 | 3 => {
            // both fields, either order
            let (a, b) = (cln(s), ten(s));
            let len = if s.chance(128) { n } else { s.below(2 * n + 2) };
            let first = s.chance(128);
            if first {
                header(s, st, head, &a, len.to_string().as_bytes());
            }
            if s.chance(40) {
                header(s, st, head, b"X-Mid", b"1");
            }
            header(s, st, head, &b, b"chunked");
            if !first {
                header(s, st, head, &a, len.to_string().as_bytes());
            }
            chunk_encode(s, st, &data, &[], body);
            "length+chunked"
        }
        4 | 5 => {
            let name = ten(s);
            let v: &[u8] = *s.pick(&[&b"gzip"[..], b"chunked, gzip", b"identity", b"", b"chunked;q=1", b"xchunked", b"chunked,", b"chunked, identity", b"chunked\xe9", b"\x0bchunked"]);
            header(s, st, head, &name, v);
            chunk_encode(s, st, &data, &[], body);
            "bad-te"
        }
        6 => {
            // several TE lines
            let name = ten(s);
            let k = s.range(2, 3);
            for _ in 0..k {
                let v: &[u8] = *s.pick(&[&b"chunked"[..], b"gzip", b"chunked", b"identity"]);
                header(s, st, head, &name, v);
            }
            chunk_encode(s, st, &data, &[], body);
            "multi-te"
        }
        7 => {
            // declared length and actual bytes differ
            let name = cln(s);
            let d = *s.pick(&[1usize, 2, 5, 100]);
            let v = if s.chance(128) { n + d } else { n.saturating_sub(d) };
            header(s, st, head, &name, v.to_string().as_bytes());
            body.extend_from_slice(&data);
            "wrong-length"
        }
        _ => {
            // the body of one message looks like another message
            let inner = b"GET /smuggled HTTP/1.1\r\nHost: x\r\nX-Smuggled: 1\r\n\r\n";
            let name = cln(s);
            header(s, st, head, &name, inner.len().to_string().as_bytes());
            if s.chance(128) {
                let t = ten(s);
                header(s, st, head, &t, b"chunked");
                body.extend_from_slice(b"0\r\n\r\n");
            }
            body.extend_from_slice(inner);
            "smuggle"
        }
    }
}

fn misc_headers(s: &mut Src, st: Style, out: &mut Vec<u8>) {
    let n = s.weighted(&[3, 4, 3, 2, 1]);
    let n = if n == 4 { s.range(4, 30) } else { n };
    for _ in 0..n {
        let name = *s.pick(NAMES);
        let name = cased(s, name);
        let v: &[u8] = s.pick(VALUES);
        header(s, st, out, &name, v);
        if st.weird > 0 && s.chance(st.weird / 8) {
            out.extend_from_slice(s.pick(&[&b" folded\r\n"[..], b"nocolon\r\n", b": noname\r\n", b"bad name: x\r\n", b"x: a\x00b\r\n", b"x: a\rb\r\n", b"\tx: y\r\n", b"x\x80: y\r\n"]));
        }
    }
}

fn connection(s: &mut Src, st: Style, out: &mut Vec<u8>) {
    let k = match s.weighted(&[6, 3, 1]) {
        0 => 0,
        1 => 1,
        _ => 2,
    };
    for _ in 0..k {
        let v: &[u8] = *s.pick(&[&b"keep-alive"[..], b"close", b"Close", b"Keep-Alive", b"upgrade", b"keep-alive, upgrade", b"x, close", b"closed", b"", b"close , te", b"TE"]);
        let n = cased(s, "Connection");
        header(s, st, out, &n, v);
    }
}

/// One request; returns a label of its framing.
pub fn request(s: &mut Src, st: Style, out: &mut Vec<u8>) -> &'static str {
    for _ in 0..s.weighted(&[12, 1, 1]) {
        nl(s, st, out);
    }
    let m = loop {
        let m = *s.pick(METHODS);
        if m == "CONNECT" && !st.connect {
            break "GET";
        }
        break m;
    };
    out.extend_from_slice(m.as_bytes());
    out.push(b' ');
    let t = target(s, m);
    out.extend_from_slice(&t);
    out.push(b' ');
    if st.weird > 0 && s.chance(st.weird / 4) {
        out.extend_from_slice(s.pick(&[&b"HTTP/1.2"[..], b"HTTP/2.0", b"http/1.1", b"HTTP/1.1 ", b"HTTP/11", b"", b" HTTP/1.1"]));
    } else if s.chance(44) {
        out.extend_from_slice(b"HTTP/1.0");
    } else {
        out.extend_from_slice(b"HTTP/1.1");
    }
    nl(s, st, out);
    let mut body = vec![];
    misc_headers(s, st, out);
    let order = s.chance(128);
    if order {
        connection(s, st, out);
    }
    let l = framing(s, st, out, &mut body, false);
    if !order {
        connection(s, st, out);
    }
    if s.chance(24) {
        let v = s.clone_pick(&[&b"100-continue"[..], b"100-Continue", b"200-ok"]);
        header(s, st, out, b"Expect", v);
    }
    if s.chance(16) {
        header(s, st, out, b"Upgrade", b"websocket");
    }
    if s.chance(60) {
        misc_headers(s, st, out);
    }
    nl(s, st, out);
    out.extend_from_slice(&body);
    l
}

impl Src<'_> {
    pub fn clone_pick<'t>(&mut self, xs: &[&'t [u8]]) -> &'t [u8] {
        xs[self.below(xs.len())]
    }
}

/// One response (status line, fields, body); body bytes are written even where they do not belong when `weird`.
pub fn response(s: &mut Src, st: Style, out: &mut Vec<u8>, method: &str) -> &'static str {
    let status: u16 = match s.weighted(&[8, 1, 1, 1, 2, 1]) {
        0 => 200,
        1 => 204,
        2 => 304,
        3 => 206,
        4 => *s.pick(&[201, 301, 400, 404, 418, 500, 503]),
        _ => *s.pick(&[205, 299, 599, 600, 999]),
    };
    status_line(s, st, out, status);
    let mut body = vec![];
    misc_headers(s, st, out);
    connection(s, st, out);
    let l = framing(s, st, out, &mut body, true);
    if s.chance(40) {
        misc_headers(s, st, out);
    }
    nl(s, st, out);
    let bodyless = status == 204 || status == 304 || method == "HEAD" || (method == "CONNECT" && (200..300).contains(&status));
    if !bodyless || (st.weird > 0 && s.chance(st.weird * 2)) {
        out.extend_from_slice(&body);
    }
    l
}
pub fn status_line(s: &mut Src, st: Style, out: &mut Vec<u8>, status: u16) {
    if st.weird > 0 && s.chance(st.weird / 4) {
        out.extend_from_slice(s.pick(&[&b"HTTP/1.2 200 OK"[..], b"HTTP/2 200", b"HTTP/1.1  200 OK", b"HTTP/1.1 20 OK", b"HTTP/1.1 2000 OK", b"HTTP/1.1", b"hello", b"HTTP/1.1 200\tOK", b"HTTP/1.1 000 X", b"HTTP/1.1 099 X"]));
        nl(s, st, out);
        return;
    }
    out.extend_from_slice(if s.chance(44) { b"HTTP/1.0 " } else { b"HTTP/1.1 " });
    out.extend_from_slice(status.to_string().as_bytes());
    match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => out.extend_from_slice(b" OK"),
        1 => {}
        2 => out.extend_from_slice(b" "),
        3 => out.extend_from_slice(b" Some Other  Reason!"),
        _ => out.extend_from_slice(b" obs \xe9"),
    }
    nl(s, st, out);
}

pub fn interim(s: &mut Src, st: Style, out: &mut Vec<u8>) -> u16 {
    let code = *s.pick(&[100u16, 103, 102, 100, 199, 103]);
    out.extend_from_slice(format!("HTTP/1.1 {code}{}", s.pick(&[" Continue", "", " ", " Early Hints"])).as_bytes());
    nl(s, st, out);
    let n = s.below(3);
    for i in 0..n {
        let v = format!("</s{}>; rel=preload", i);
        header(s, st, out, b"Link", v.as_bytes());
    }
    if s.chance(30) {
        header(s, st, out, b"Content-Length", b"7");
    }
    nl(s, st, out);
    code
}

/// Byte-level edits.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = s.range(1, 3);
    const BYTES: &[u8] = b"\r\n \t:;,0159afFxHGT/.\x00\x7f\x80\xff-+";
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let p = s.below(b.len());
        match s.below(7) {
            0 => b[p] = *s.pick(BYTES),
            1 => {
                b.remove(p);
            }
            2 => b.insert(p, *s.pick(BYTES)),
            3 => {
                let e = (p + 1 + s.below(12)).min(b.len());
                b.drain(p..e);
            }
            4 => {
                let e = (p + 1 + s.below(40)).min(b.len());
                let c = b[p..e].to_vec();
                for (i, x) in c.into_iter().enumerate() {
                    b.insert(e + i, x);
                }
            }
            5 => b[p] ^= 1 << s.below(8),
            _ => {
                // an edit next to a line end
                let q = b.iter().enumerate().skip(p).find(|(_, c)| **c == b'\n').map(|(i, _)| i).unwrap_or(p);
                match s.below(4) {
                    0 => {
                        b.remove(q);
                    }
                    1 => b.insert(q, *s.pick(b"\r\n \t")),
                    2 => b[q] = *s.pick(b"\r \t\x0b"),
                    _ => {
                        if q > 0 {
                            b.remove(q - 1);
                        }
                    }
                }
            }
        }
    }
}

/// forms that are only taken with a leniency option
pub fn spice(s: &mut Src, cx: &mut crate::engine::Cx, b: &mut Vec<u8>, response: bool) {
    if response && s.chance(16) {
        cx.label("no-status-line");
        *b = s.pick(&[&b"hello"[..], b"\r\nhello", b"HTTP", b"HTTP/2.0 200 OK\r\n\r\n", b"HTTP/1.2 200 OK\r\n\r\nx", b"HTTP/1.1\r\n\r\n", b"<html>\r\n\r\n</html>", b"h", b"ICY 200 OK\r\n\r\n"]).to_vec();
        return;
    }
    for _ in 0..s.weighted(&[2, 4, 3, 2]) {
        // a line end, mostly of a head
        let ends: Vec<usize> = (1..b.len()).filter(|i| b[*i - 1] == b'\n').take(12).collect();
        if ends.is_empty() {
            return;
        }
        let p = *s.pick(&ends);
        match s.below(if response { 7 } else { 5 }) {
            0 => {
                cx.label("junk-line");
                let l = *s.pick(&[
                    &b"no colon here\r\n"[..], b": no name\r\n", b"b@d: 1\r\n", b"nocolon\r\n", b" leading: space\r\n", b"\tx\r\n", b"na me: x\r\n", b"Name : x\r\n", b"\xff: x\r\n", b"junk\n", b"(x): y\n", b"x\r y: 1\r\n", b"a\0b: 1\r\n", b"x: a\x01b\r\n", b"Content-Length : 3\r\n", b"Transfer-Encoding : chunked\r\n",
                    b"Content-Length\r\n", b"=\r\n",
                ]);
                for (i, c) in l.iter().enumerate() {
                    b.insert(p + i, *c);
                }
            }
            1 if !response => {
                cx.label("wide-space");
                // more spaces at a space of the request line
                let e = b.iter().position(|c| *c == b'\n').unwrap_or(b.len());
                let sp: Vec<usize> = (0..e).filter(|i| b[*i] == b' ').collect();
                if !sp.is_empty() {
                    let at = *s.pick(&sp);
                    for _ in 0..s.range(1, 3) {
                        b.insert(at, if s.chance(20) { b'\t' } else { b' ' });
                    }
                }
            }
            2 | 3 => {
                cx.label("space-before-colon");
                let sp: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b':').take(12).collect();
                if !sp.is_empty() {
                    let at = *s.pick(&sp);
                    for _ in 0..s.range(1, 2) {
                        b.insert(at, *s.pick(b" \t "));
                    }
                }
            }
            _ => {
                cx.label("fold");
                // a folded line: continued, or split at a space
                if s.chance(128) {
                    let l = *s.pick(&[&b" more\r\n"[..], b"\tmore, x\r\n", b"  \r\n", b" \n", b" a: b\r\n", b" 5\r\n", b"   chunked \r\n", b" close\r\n"]);
                    for (i, c) in l.iter().enumerate() {
                        b.insert(p + i, *c);
                    }
                } else {
                    let sp: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b':' || b[*i] == b',').take(12).collect();
                    if !sp.is_empty() {
                        let at = *s.pick(&sp) + 1;
                        let l = *s.pick(&[&b"\r\n "[..], b"\n\t", b"\r\n  \t", b" \r\n \r\n "]);
                        for (i, c) in l.iter().enumerate() {
                            b.insert(at + i, *c);
                        }
                    }
                }
            }
        }
    }
}
