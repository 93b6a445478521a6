//! A scripted HTTP/2 peer that checks every frame hyper sends.
use crate::h2wire::*;
use crate::sim::*;
use std::collections::{BTreeMap, VecDeque};

pub const CONN_HEADERS: &[&str] = &["connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade"];

#[derive(Clone, Debug, Default)]
pub struct PStream {
    /// header blocks before the data: interim ones and the final one, or the request
    pub heads: Vec<Fields>,
    pub data: Vec<u8>,
    pub data_frames: usize,
    pub trailers: Option<Fields>,
    /// hyper ended its side
    pub ended: bool,
    /// hyper reset the stream
    pub reset: Option<u32>,
    /// this side ended / reset
    pub my_end: bool,
    pub my_reset: Option<u32>,
    /// what hyper may still send
    pub room: i64,
    /// what this side may still send
    pub credit: i64,
    pub sent: usize,
    /// waiting for credit
    pub queue: VecDeque<(Vec<u8>, bool)>,
    /// trailers to send once the queue is empty
    pub tail: Option<Fields>,
    /// granted so far by hyper through updates of this stream
    pub granted: u64,
    /// data received and not yet granted back
    pub owed: u32,
    pub head_req: bool,
}
impl PStream {
    pub fn head(&self) -> Option<&Fields> {
        self.heads.last().filter(|h| status(h).is_none_or(|s| s >= 200))
    }
    pub fn done(&self) -> bool {
        self.ended || self.reset.is_some()
    }
}
pub fn field<'a>(f: &'a Fields, n: &str) -> Option<&'a [u8]> {
    f.iter().find(|e| e.0 == n.as_bytes()).map(|e| &e.1[..])
}
pub fn all<'a>(f: &'a Fields, n: &str) -> Vec<&'a [u8]> {
    f.iter().filter(|e| e.0 == n.as_bytes()).map(|e| &e.1[..]).collect()
}
pub fn status(f: &Fields) -> Option<u16> {
    field(f, ":status").and_then(|v| std::str::from_utf8(v).ok()?.parse().ok())
}
pub fn regular(f: &Fields) -> Fields {
    f.iter().filter(|e| !e.0.starts_with(b":")).cloned().collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Grant {
    /// give back everything at once
    Always,
    /// only what the test grants
    Manual,
}

pub struct Peer {
    /// this side is the server
    pub server: bool,
    inb: Vec<u8>,
    preface: usize,
    dec: HpackDec,
    cont: Option<(u32, u8, Vec<u8>)>,
    pub streams: BTreeMap<u32, PStream>,
    pub next_sid: u32,
    /// hyper's settings
    pub their_window: i64,
    pub their_frame: usize,
    pub their_streams: Option<u32>,
    pub their_list: Option<u32>,
    pub their_connect: bool,
    pub settings_seen: usize,
    pub raw: BTreeMap<u16, u32>,
    /// SETTINGS of this side: windows in force after each acknowledgement
    pending: VecDeque<(Option<u32>, Option<u32>)>,
    pub my_window: i64,
    pub my_frame: usize,
    pub conn_room: i64,
    pub conn_credit: i64,
    pub conn_owed: u32,
    pub conn_granted: u64,
    pub received: u64,
    pub sent: u64,
    pub goaways: Vec<(u32, u32)>,
    pub pings: Vec<[u8; 8]>,
    pub pongs: usize,
    pub log: Vec<String>,
    pub out: Vec<u8>,
    /// (otherwise they are taken up by `take_settings`)
    pub auto_settings: bool,
    pub held_settings: VecDeque<Frame>,
    applying: bool,
    pub auto_ping: bool,
    pub grant: Grant,
    /// check Content-Length against the body
    pub check_len: bool,
    pub max_sid: u32,
    pub huff: u8,
    pub my_goaway: Option<u32>,
    /// connection windows this small are not used for pieces
    pub silly: i64,
    pub first_frame: bool,
}
pub type PR<T = ()> = Result<T, (&'static str, String)>;

impl Peer {
    pub fn new(server: bool) -> Peer {
        Peer {
            server,
            inb: vec![],
            preface: if server { PREFACE.len() } else { 0 },
            dec: HpackDec::new(4096),
            cont: None,
            streams: BTreeMap::new(),
            next_sid: if server { 2 } else { 1 },
            their_window: 65_535,
            their_frame: 16_384,
            their_streams: None,
            their_list: None,
            their_connect: false,
            settings_seen: 0,
            raw: BTreeMap::new(),
            pending: VecDeque::new(),
            my_window: 65_535,
            my_frame: 16_384,
            conn_room: 65_535,
            conn_credit: 65_535,
            conn_owed: 0,
            conn_granted: 0,
            received: 0,
            sent: 0,
            goaways: vec![],
            pings: vec![],
            pongs: 0,
            log: vec![],
            out: vec![],
            auto_settings: true,
            held_settings: VecDeque::new(),
            applying: false,
            auto_ping: true,
            grant: Grant::Always,
            check_len: true,
            max_sid: 0,
            huff: 0,
            my_goaway: None,
            silly: 0,
            first_frame: true,
        }
    }
    /// preface (as a client) and SETTINGS
    pub fn hello(&mut self, list: &[(u16, u32)]) {
        if !self.server {
            self.out.extend_from_slice(PREFACE);
        }
        self.settings(list);
    }
    pub fn settings(&mut self, list: &[(u16, u32)]) {
        let w = list.iter().rev().find(|e| e.0 == 4).map(|e| e.1);
        let f = list.iter().rev().find(|e| e.0 == 5).map(|e| e.1);
        self.pending.push_back((w, f));
        self.out.extend(settings(list));
    }
    /// apply and acknowledge the oldest SETTINGS held back
    pub fn take_settings(&mut self) -> PR<bool> {
        let Some(f) = self.held_settings.pop_front() else { return Ok(false) };
        self.applying = true;
        let r = self.frame(f);
        self.applying = false;
        r.map(|_| true)
    }
    pub fn headers(&mut self, sid: u32, f: &Fields, end: bool) {
        let b = encode(f, self.huff);
        self.out.extend(headers(sid, &b, end));
        let (room, credit) = (self.my_window, self.their_window);
        let s = self.streams.entry(sid).or_insert_with(|| PStream { room, credit, ..PStream::default() });
        s.my_end |= end;
        if field(f, ":method") == Some(b"HEAD") {
            s.head_req = true;
        }
    }
    /// a new request
    pub fn open(&mut self, f: &Fields, end: bool) -> u32 {
        let sid = self.next_sid;
        self.next_sid += 2;
        self.headers(sid, f, end);
        sid
    }
    /// data sent as windows allow
    pub fn send(&mut self, sid: u32, b: &[u8], end: bool) {
        if let Some(s) = self.streams.get_mut(&sid) {
            s.queue.push_back((b.to_vec(), end));
        }
        self.pump_queues();
    }
    pub fn trailers(&mut self, sid: u32, f: &Fields) {
        if let Some(s) = self.streams.get_mut(&sid) {
            s.tail = Some(f.clone());
        }
        self.pump_queues();
    }
    pub fn reset(&mut self, sid: u32, code: u32) {
        self.out.extend(rst(sid, code));
        if let Some(s) = self.streams.get_mut(&sid) {
            s.my_reset = Some(code);
            s.queue.clear();
            s.tail = None;
        }
    }
    pub fn goaway(&mut self, last: u32, code: u32) {
        self.out.extend(goaway(last, code));
        self.my_goaway = Some(last);
    }
    pub fn give(&mut self, sid: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.out.extend(window(sid, n));
        if sid == 0 {
            self.conn_room += n as i64;
        } else if let Some(s) = self.streams.get_mut(&sid) {
            s.room += n as i64;
        }
    }
    /// give back what was received on a stream (and the connection)
    pub fn give_back(&mut self, sid: u32) {
        let n = self.streams.get_mut(&sid).map(|s| std::mem::take(&mut s.owed)).unwrap_or(0);
        self.give(sid, n);
        let n = std::mem::take(&mut self.conn_owed);
        self.give(0, n);
    }
    pub fn pump_queues(&mut self) {
        let frame_max = self.their_frame;
        let mut out = vec![];
        let mut sent = 0u64;
        for (sid, s) in self.streams.iter_mut() {
            if s.reset.is_some() || s.my_reset.is_some() {
                s.queue.clear();
                s.tail = None;
                continue;
            }
            while let Some((b, end)) = s.queue.front_mut() {
                let n = (b.len() as i64).min(s.credit.max(0)).min(self.conn_credit.max(0)).min(frame_max as i64) as usize;
                if n == 0 && !b.is_empty() || (self.conn_credit < self.silly && b.len() as i64 > self.conn_credit) {
                    break;
                }
                let rest = b.split_off(n);
                let piece = std::mem::replace(b, rest);
                let last = b.is_empty();
                let fin = last && *end;
                s.credit -= n as i64;
                self.conn_credit -= n as i64;
                s.sent += n;
                sent += n as u64;
                out.extend(data(*sid, &piece, fin));
                s.my_end |= fin;
                if last {
                    s.queue.pop_front();
                }
            }
            if s.queue.is_empty() {
                if let Some(t) = s.tail.take() {
                    out.extend(headers(*sid, &encode(&t, self.huff), true));
                    s.my_end = true;
                }
            }
        }
        self.sent += sent;
        self.out.extend(out);
    }

    /// Everything hyper wrote, in order.
    pub fn process(&mut self, b: &[u8]) -> PR {
        self.inb.extend_from_slice(b);
        if self.preface > 0 {
            let n = self.preface.min(self.inb.len());
            let at = PREFACE.len() - self.preface;
            if self.inb[..n] != PREFACE[at..at + n] {
                return Err(("preface", "the connection preface is wrong".into()));
            }
            self.inb.drain(..n);
            self.preface -= n;
            if self.preface > 0 {
                return Ok(());
            }
        }
        for f in take_frames(&mut self.inb) {
            if self.log.len() < 400 {
                self.log.push(f.show());
            }
            self.frame(f)?;
        }
        self.pump_queues();
        Ok(())
    }
    /// bytes of an unfinished frame
    pub fn partial(&self) -> usize {
        self.inb.len()
    }
    fn frame(&mut self, f: Frame) -> PR {
        let bad = |t: String| -> PR { Err(("illegal-frame", t)) };
        if f.payload.len() > self.my_frame.max(16_384) {
            return bad(format!("frame of {} bytes: {}", f.payload.len(), f.show()));
        }
        if let Some((sid, _, _)) = &self.cont {
            if f.kind != k::CONT || f.sid != *sid {
                return bad(format!("{} inside a header block", f.show()));
            }
        }
        if std::mem::take(&mut self.first_frame) && f.kind != k::SETTINGS {
            return bad(format!("first frame is {}", f.show()));
        }
        match f.kind {
            k::SETTINGS => {
                if f.sid != 0 || f.payload.len() % 6 != 0 {
                    return bad(f.show());
                }
                if f.flags & ACK != 0 {
                    match self.pending.pop_front() {
                        None => return bad("SETTINGS acknowledged without need".into()),
                        Some((w, fr)) => {
                            if let Some(w) = w {
                                let d = w as i64 - self.my_window;
                                self.my_window = w as i64;
                                for s in self.streams.values_mut() {
                                    s.room += d;
                                }
                            }
                            if let Some(fr) = fr {
                                self.my_frame = fr as usize;
                            }
                        }
                    }
                    return Ok(());
                }
                self.settings_seen += 1;
                if !self.auto_settings && !self.applying {
                    self.settings_seen -= 1;
                    self.held_settings.push_back(f);
                    return Ok(());
                }
                for c in f.payload.chunks(6) {
                    let (i, v) = (u16::from_be_bytes([c[0], c[1]]), be32(&c[2..]));
                    self.raw.insert(i, v);
                    match i {
                        2 if v > 1 => return bad("ENABLE_PUSH".into()),
                        2 if v == 1 && !self.server => return bad("a server enables push".into()),
                        3 => self.their_streams = Some(v),
                        4 => {
                            if v > 0x7fff_ffff {
                                return bad("INITIAL_WINDOW_SIZE".into());
                            }
                            let d = v as i64 - self.their_window;
                            self.their_window = v as i64;
                            for s in self.streams.values_mut() {
                                s.credit += d;
                            }
                        }
                        5 => {
                            if !(16_384..=16_777_215).contains(&v) {
                                return bad("MAX_FRAME_SIZE".into());
                            }
                            self.their_frame = v as usize;
                        }
                        6 => self.their_list = Some(v),
                        8 => self.their_connect = v == 1,
                        _ => {}
                    }
                }
                self.out.extend(settings_ack());
            }
            k::PING => {
                if f.sid != 0 || f.payload.len() != 8 {
                    return bad(f.show());
                }
                let mut b = [0; 8];
                b.copy_from_slice(&f.payload);
                if f.flags & ACK != 0 {
                    self.pongs += 1;
                } else {
                    self.pings.push(b);
                    if self.auto_ping {
                        self.out.extend(ping(true, b));
                    }
                }
            }
            k::GOAWAY => {
                if f.sid != 0 || f.payload.len() < 8 {
                    return bad(f.show());
                }
                let last = be32(&f.payload) & 0x7fff_ffff;
                if let Some((l, _)) = self.goaways.last() {
                    if last > *l {
                        return bad(format!("GOAWAY raises the last stream from {l} to {last}"));
                    }
                }
                self.goaways.push((last, be32(&f.payload[4..])));
            }
            k::WINDOW => {
                if f.payload.len() != 4 {
                    return bad(f.show());
                }
                let n = (be32(&f.payload) & 0x7fff_ffff) as i64;
                if n == 0 {
                    return bad(f.show());
                }
                if f.sid == 0 {
                    self.conn_credit += n;
                    self.conn_granted += n as u64;
                    if self.conn_credit > 0x7fff_ffff {
                        return bad("connection window overflow".into());
                    }
                } else {
                    let Some(s) = self.streams.get_mut(&f.sid) else { return bad(format!("{} on an idle stream", f.show())) };
                    s.credit += n;
                    s.granted += n as u64;
                    if s.credit > 0x7fff_ffff {
                        return bad("stream window overflow".into());
                    }
                }
            }
            k::RST => {
                if f.payload.len() != 4 {
                    return bad(f.show());
                }
                let Some(s) = self.streams.get_mut(&f.sid) else { return bad(format!("{} on an idle stream", f.show())) };
                s.reset = s.reset.or(Some(be32(&f.payload)));
                s.queue.clear();
                s.tail = None;
            }
            k::DATA => {
                let n = f.payload.len() as i64;
                self.received += n as u64;
                self.conn_room -= n;
                if self.conn_room < 0 && n > 0 {
                    return Err(("overrun", format!("{} bytes more than the connection window allows", -self.conn_room)));
                }
                if f.flags & 8 != 0 {
                    return bad("padding".into());
                }
                let Some(s) = self.streams.get_mut(&f.sid) else { return bad(format!("{} on an idle stream", f.show())) };
                if s.ended || s.reset.is_some() {
                    return bad(format!("{} after the end of the stream", f.show()));
                }
                s.room -= n;
                if s.room < 0 && n > 0 {
                    return Err(("overrun", format!("{} bytes more than the window of stream {} allows", -s.room, f.sid)));
                }
                if s.head().is_none() {
                    return bad(format!("{} before the headers", f.show()));
                }
                s.data.extend_from_slice(&f.payload);
                s.data_frames += 1;
                s.owed += n as u32;
                self.conn_owed += n as u32;
                if f.flags & END_STREAM != 0 {
                    s.ended = true;
                    self.ended(f.sid)?;
                }
                if self.grant == Grant::Always {
                    self.give_back(f.sid);
                }
            }
            k::HEADERS => {
                if f.flags & 0x8 != 0 {
                    return bad("padding".into());
                }
                let p = if f.flags & 0x20 != 0 { f.payload.get(5..).map(|x| x.to_vec()).unwrap_or_default() } else { f.payload.clone() };
                self.cont = Some((f.sid, f.flags, p));
                if f.flags & END_HEADERS != 0 {
                    self.block()?;
                }
            }
            k::CONT => {
                match &mut self.cont {
                    None => return bad("CONTINUATION without HEADERS".into()),
                    Some((_, _, b)) => b.extend_from_slice(&f.payload),
                }
                if f.flags & END_HEADERS != 0 {
                    self.block()?;
                }
            }
            k::PRIORITY => {}
            k::PUSH => return bad("PUSH_PROMISE".into()),
            _ => {}
        }
        Ok(())
    }
    fn block(&mut self) -> PR {
        let (sid, flags, b) = self.cont.take().expect("block");
        let f = self.dec.decode(&b).map_err(|e| ("illegal-frame", format!("header block: {e}")))?;
        let bad = |t: String| -> PR { Err(("illegal-headers", t)) };
        let mut pseudo = true;
        for (n, v) in &f {
            if n.starts_with(b":") {
                if !pseudo {
                    return bad("a pseudo field after a regular one".into());
                }
            } else {
                pseudo = false;
                if n.is_empty() || n.iter().any(|c| c.is_ascii_uppercase() || *c <= b' ' || *c >= 0x7f) {
                    return bad(format!("field name {:?}", String::from_utf8_lossy(n)));
                }
                if CONN_HEADERS.contains(&&*String::from_utf8_lossy(n)) {
                    return Err(("connection-header", format!("the field {:?} is on the wire", String::from_utf8_lossy(n))));
                }
                if n == b"te" && (self.server && v != b"trailers" || !self.server) {
                    return Err(("connection-header", format!("te: {:?} is on the wire", String::from_utf8_lossy(v))));
                }
            }
            if v.iter().any(|c| matches!(c, 0 | b'\r' | b'\n')) {
                return bad("field value".into());
            }
        }
        let end = flags & END_STREAM != 0;
        let known = self.streams.contains_key(&sid);
        if !known {
            if !self.server {
                return bad(format!("HEADERS on stream {sid}, which was never opened"));
            }
            if sid % 2 == 0 || sid <= self.max_sid {
                return bad(format!("new stream {sid} after {}", self.max_sid));
            }
            self.max_sid = sid;
            let (room, credit) = (self.my_window, self.their_window);
            self.streams.insert(sid, PStream { room, credit, ..PStream::default() });
        }
        let server = self.server;
        let s = self.streams.get_mut(&sid).expect("stream");
        if s.ended || s.reset.is_some() {
            return bad(format!("HEADERS after the end of stream {sid}"));
        }
        let have = s.head().is_some();
        if have {
            if !end {
                return bad("trailers without END_STREAM".into());
            }
            if f.iter().any(|e| e.0.starts_with(b":")) {
                return bad("pseudo field in trailers".into());
            }
            s.trailers = Some(f);
            s.ended = true;
            return self.ended(sid);
        }
        let want = |n: &str| all(&f, n).len();
        if server {
            let connect = field(&f, ":method") == Some(b"CONNECT");
            if want(":method") != 1 || want(":status") != 0 {
                return bad(format!("request pseudo fields: {f:?}"));
            }
            let proto = want(":protocol") == 1;
            if connect && !proto {
                if want(":authority") != 1 || want(":path") + want(":scheme") != 0 {
                    return bad(format!("CONNECT pseudo fields: {f:?}"));
                }
            } else if want(":path") != 1 || want(":scheme") != 1 || want(":authority") > 1 {
                return bad(format!("request pseudo fields: {f:?}"));
            }
            s.head_req = field(&f, ":method") == Some(b"HEAD");
        } else {
            if want(":status") != 1 || f.iter().filter(|e| e.0.starts_with(b":")).count() != 1 {
                return bad(format!("response pseudo fields: {f:?}"));
            }
        }
        if !server && status(&f).is_some_and(|c| c < 200) && end {
            return bad("an interim response ends the stream".into());
        }
        s.heads.push(f);
        if end {
            s.ended = true;
            return self.ended(sid);
        }
        Ok(())
    }
    fn ended(&self, sid: u32) -> PR {
        if !self.check_len {
            return Ok(());
        }
        let s = &self.streams[&sid];
        let Some(h) = s.head() else { return Ok(()) };
        let cl = all(h, "content-length");
        let bodyless = !self.server && (s.head_req || matches!(status(h), Some(304)));
        for c in cl {
            let ok = std::str::from_utf8(c).ok().and_then(|c| c.parse::<u64>().ok()).is_some_and(|n| n == s.data.len() as u64 || bodyless && s.data.is_empty());
            if !ok {
                return Err(("length", format!("content-length {:?} but {} bytes of data on stream {sid}", String::from_utf8_lossy(c), s.data.len())));
            }
        }
        Ok(())
    }
    pub fn show(&self) -> String {
        let n = self.log.len();
        self.log[n.saturating_sub(40)..].join(" ")
    }
}

/// Exchange bytes until nothing more happens.
pub fn pump(ex: &mut Exec, io: &IoHandle, p: &mut Peer) -> PR {
    loop {
        if ex.run() == Stall::Spinning {
            return Err(("spin", format!("no end of activity; frames: {}", p.show())));
        }
        let b = drain(&io.tx);
        let quiet = b.is_empty() && p.out.is_empty();
        p.process(&b)?;
        if quiet && p.out.is_empty() {
            return Ok(());
        }
        let o = std::mem::take(&mut p.out);
        feed(&io.rx, &o);
    }
}
/// A few steps, with or without letting bytes across.
pub fn nudge(ex: &mut Exec, io: &IoHandle, p: &mut Peer, steps: usize) -> PR {
    let o = std::mem::take(&mut p.out);
    feed(&io.rx, &o);
    ex.run_steps(steps);
    let b = drain(&io.tx);
    p.process(&b)
}
