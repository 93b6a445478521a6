//! HTTP/2: header blocks carry no connection-specific fields and describe the body truthfully.
use super::c19::{gen_headers, gen_trailers};
use crate::body::{BodyPlan, Hint, Step};
use crate::cli::{self, ReqPlan};
use crate::dates;
use crate::engine::*;
use crate::h2::{self, H2Cfg};
use crate::h2peer::*;
use crate::h2wire::*;
use crate::sim::*;
use crate::src::Src;
use crate::srv::*;
use crate::{ensure, fail};
use http::{HeaderMap, HeaderName, HeaderValue};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C22",
        run,
        quick: 500_000,
        thorough: 10_000_000,
        max_len: 500,
        rule: "a case is 1-4 messages with generated headers, trailers, content-lengths and body size hints sent by a hyper HTTP/2 client or server to a raw peer that decodes every header block; non-trivial when a message has a field that may not be sent or a content-length is added",
        must_labels: &["server", "client", "named", "two-lines", "obs-text-line", "te", "te-ok", "trailers-bad", "trailers-ok", "head-body", "no-content-body", "cl-added", "cl-user", "cl-none", "date-user", "date-auto", "date-off", "large"],
    }
}

const FORBIDDEN: &[&str] = &["connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade"];

fn bad_fields(s: &mut Src, cx: &mut Cx, out: &mut Vec<(String, Vec<u8>)>, te_ok: bool) {
    let lines = s.weighted(&[3, 4, 2, 1]);
    cx.label_if(lines > 1, "two-lines");
    for _ in 0..lines {
        let mut v: Vec<u8> = vec![];
        for k in 0..s.weighted(&[1, 4, 3, 1]) {
            if k > 0 {
                v.push(b',');
            }
            v.extend_from_slice(*s.pick(&[&b""[..], b" ", b"\t", b"  "]));
            if s.chance(20) {
                v.extend_from_slice(b"\xff\x80");
                cx.label("obs-text-line");
            } else {
                let t = *s.pick(&["close", "keep-alive", "x-a", "X-A", "x-b", "accept", "cookie", "te", "x-gone", "content-length", "Date", "upgrade", "x a", ""]);
                v.extend_from_slice(t.as_bytes());
                cx.label("named");
            }
            v.extend_from_slice(*s.pick(&[&b""[..], b"", b" "]));
        }
        let a = v.iter().position(|c| *c != b' ' && *c != b'\t').unwrap_or(v.len());
        let v = v[a..].to_vec();
        out.push(("connection".into(), v));
        cx.nontrivial = true;
    }
    for (n, vs) in [("keep-alive", &["timeout=5", ""][..]), ("proxy-connection", &["keep-alive", "close"]), ("transfer-encoding", &["chunked", "gzip, chunked"]), ("upgrade", &["h2c", "websocket"])] {
        if s.chance(50) {
            cx.nontrivial = true;
            for _ in 0..s.range(1, 2) {
                out.push((n.into(), s.pick(vs).as_bytes().to_vec()));
            }
        }
    }
    if s.chance(70) {
        if te_ok && s.chance(128) {
            cx.label("te-ok");
            for _ in 0..s.range(1, 2) {
                out.push(("te".into(), b"trailers".to_vec()));
            }
        } else {
            cx.label("te");
            cx.nontrivial = true;
            for _ in 0..s.range(1, 3) {
                out.push(("te".into(), s.pick(&["trailers", "gzip", "trailers, deflate", "Trailers", ""]).as_bytes().to_vec()));
            }
        }
    }
    // any order
    for i in (1..out.len()).rev() {
        out.swap(i, s.below(i + 1));
    }
}
/// What may be left, and whether the TE lines are all right
fn strip(h: &[(String, Vec<u8>)], request: bool) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m = grouped(h);
    let named: Vec<String> = m.get("connection").into_iter().flatten().flat_map(|v| v.split(|c| *c == b',').map(|t| String::from_utf8_lossy(t).trim().to_ascii_lowercase()).collect::<Vec<_>>()).collect();
    m.retain(|n, v| !FORBIDDEN.contains(&n.as_str()) && !named.contains(n) && (n != "te" || request && v.iter().all(|v| v == b"trailers")));
    m
}
fn on_wire(f: &Fields) -> BTreeMap<String, Vec<Vec<u8>>> {
    let l: Vec<(String, Vec<u8>)> = regular(f).into_iter().map(|(n, v)| (String::from_utf8_lossy(&n).into_owned(), v)).collect();
    grouped(&l)
}
fn trailer_map(l: &[(String, Vec<u8>)]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in l {
        m.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    m
}

struct Msg {
    headers: Vec<(String, Vec<u8>)>,
    body: BodyPlan,
    trailers: Option<Vec<(String, Vec<u8>)>>,
    user_cl: bool,
    method: String,
    status: u16,
}

fn gen(s: &mut Src, cx: &mut Cx, srv: bool) -> Msg {
    let mut headers = gen_headers(s);
    let method = s.pick(&["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO"]).to_string();
    let status = *s.pick(&[200u16, 200, 201, 204, 206, 304, 404, 500, 205]);
    if s.chance(20) {
        cx.label("large");
        for i in 0..60 {
            headers.push((format!("x-big-{i}"), vec![b'a' + (i % 26) as u8; 500]));
        }
    }
    let mut body = BodyPlan::gen(s, false);
    for st in body.steps.iter_mut() {
        if let Step::Data(d, _) = st {
            d.truncate(300);
        }
    }
    let len = body.len();
    let bodyless = srv && (method == "HEAD" || status == 204 || status == 304);
    let mut trailers = None;
    if s.chance(80) {
        let mut t: Vec<(String, Vec<u8>)> = header_list(&gen_trailers(s));
        if s.chance(128) {
            cx.label("trailers-bad");
            bad_fields(s, cx, &mut t, false);
            t.push(("x-t".into(), b"1".to_vec()));
        } else {
            cx.label("trailers-ok");
        }
        body.steps.push(Step::Trailers(trailer_map(&t)));
        trailers = Some(t);
    }
    let user_cl = s.chance(60) && status != 204;
    if user_cl {
        cx.label("cl-user");
        let n = if srv && (method == "HEAD" || status == 304) { *s.pick(&[0usize, 5, 1 << 40]) } else { len };
        for _ in 0..if s.chance(20) { 2 } else { 1 } {
            headers.push(("content-length".into(), n.to_string().into_bytes()));
        }
    }
    if srv && s.chance(50) {
        cx.label("date-user");
        headers.push(("date".into(), s.pick(&["Tue, 15 Nov 1994 08:12:31 GMT", "now", ""]).as_bytes().to_vec()));
    }
    if s.chance(180) {
        bad_fields(s, cx, &mut headers, !srv);
    }
    cx.label_if(bodyless && method == "HEAD" && len > 0, "head-body");
    cx.label_if(bodyless && method != "HEAD" && len > 0, "no-content-body");
    Msg { headers, body, trailers, user_cl, method, status }
}

fn judge(cx: &mut Cx, i: usize, srv: bool, m: &Msg, date: bool, since: Option<std::time::SystemTime>, st: &PStream, log: &dyn Fn() -> String) -> R {
    let Some(h) = st.head() else { fail!("missing", "message {i} never came: {}", log()) };
    let mut want = strip(&m.headers, !srv);
    let mut have = on_wire(h);
    let no_content = srv && matches!(m.status, 204 | 304);
    let bodyless = no_content || srv && m.method == "HEAD";
    // content-length
    let (wcl, hcl) = (want.remove("content-length"), have.remove("content-length"));
    let len = m.body.len().to_string().into_bytes();
    match &wcl {
        Some(v) => ensure!(hcl.as_ref() == Some(v), "content-length", "message {i}: content-length {:?} was set, {:?} is on the wire: {}", v, hcl, log()),
        None => {
            let known = m.body.exact();
            let added = hcl.as_ref().map(|v| v.len() == 1 && v[0] == len);
            ensure!(added != Some(false), "content-length", "message {i}: content-length {hcl:?} for {} bytes: {}", m.body.len(), log());
            if !known || no_content {
                ensure!(hcl.is_none(), "content-length", "message {i}: content-length {hcl:?} where none is known: {}", log());
                cx.label("cl-none");
            } else if m.body.len() > 0 || !srv && !matches!(m.method.as_str(), "GET" | "HEAD" | "DELETE") {
                ensure!(hcl.is_some(), "content-length", "message {i}: no content-length for {} bytes: {}", m.body.len(), log());
                cx.label("cl-added");
                cx.nontrivial = true;
            } else if !srv {
                ensure!(hcl.is_none(), "content-length", "message {i}: content-length {hcl:?} for no body: {}", log());
            }
        }
    }
    let (wd, hd) = (want.remove("date"), have.remove("date"));
    if wd.is_some() || !srv || !date {
        ensure!(wd == hd, "date", "message {i}: date {wd:?} was set, {hd:?} is on the wire: {}", log());
        cx.label_if(srv && wd.is_none(), "date-off");
    } else {
        let ok = hd.as_ref().is_some_and(|v| v.len() == 1 && std::str::from_utf8(&v[0]).ok().and_then(|t| httpdate::parse_http_date(t).ok().map(|d| httpdate::fmt_http_date(d) == t)) == Some(true));
        ensure!(ok, "date", "message {i}: date {hd:?}: {}", log());
        cx.label("date-auto");
        let d = hd.as_ref().map(|v| v[0].clone()).unwrap_or_default();
        ensure!(since.is_none_or(|t| dates::current(&d, t)), "date", "message {i}: date {:?} is not the current time", crate::src::show(&d));
    }
    let te = have.get("te").cloned();
    if te.is_some() && !want.contains_key("te") {
        // what is left of several lines is legal
        have.remove("te");
    }
    ensure!(want == have, "headers", "message {i}: the fields on the wire are {have:?}, not {want:?}: {}", log());
    if srv {
        ensure!(status(h) == Some(m.status), "status", "message {i}: {:?}", status(h));
    } else {
        ensure!(field(h, ":method") == Some(m.method.as_bytes()), "method", "message {i}: {:?}", field(h, ":method"));
    }
    // body and trailers
    ensure!(st.ended && st.reset.is_none(), "unended", "message {i} did not end: ended={} reset={:?}: {}", st.ended, st.reset, log());
    if bodyless {
        ensure!(st.data.is_empty() && st.data_frames == 0, "body", "message {i}, which has no body, came with {} bytes: {}", st.data.len(), log());
        return Ok(());
    }
    ensure!(st.data == m.body.data(), "body", "message {i}: {} of {} bytes: {}", st.data.len(), m.body.len(), log());
    let wt = m.trailers.as_ref().map(|t| strip(t, false));
    let ht = st.trailers.as_ref().map(on_wire);
    // known to be at its end before the trailers were asked for
    ensure!(wt == ht || ht.is_none() && m.body.steps.is_empty(), "trailers", "message {i}: the trailers on the wire are {ht:?}, not {wt:?}: {}", log());
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> R {
    let srv = s.chance(128);
    cx.label(if srv { "server" } else { "client" });
    let cfg = H2Cfg { no_date: s.chance(80), ..H2Cfg::default() };
    let n = s.range(1, 4);
    let ic = IoCfg::plain();
    let mut msgs: Vec<Msg> = vec![];
    for _ in 0..n {
        let mut m = gen(s, cx, srv);
        // trailers after a body of known length: is_end_stream must not be true before them
        if m.body.hint == Hint::Exact && m.trailers.is_some() && m.user_cl {
            m.body.hint = Hint::Lower;
        }
        msgs.push(m);
    }
    cx.describe(|| {
        let l: Vec<String> = msgs.iter().map(|m| format!("{} {} {:?} body={} trailers={:?}", m.method, m.status, m.headers.iter().map(|(n, v)| format!("{n}: {}", crate::src::show(v))).collect::<Vec<_>>(), m.body.show(), m.trailers.as_ref().map(|t| t.iter().map(|(n, v)| format!("{n}: {}", crate::src::show(v))).collect::<Vec<_>>()))).collect();
        format!("{} {} {}", if srv { "server" } else { "client" }, cfg.show(), l.join(" || "))
    });
    let mut ex = Exec::new(Plan::gen(s, 4));
    let since = if srv && dates::rare(s, 64) {
        cx.label("time-passes");
        Some(dates::age())
    } else {
        None
    };
    let (io, h) = scripted(&ex.events, &ic);
    let mut peer = Peer::new(!srv);
    peer.huff = s.u8();
    peer.hello(&[]);
    let fix = |e: (&'static str, String)| Fail::new(e.0, e.1);
    if srv {
        let l: Vec<RespPlan> = msgs
            .iter()
            .map(|m| {
                let mut p = RespPlan::simple();
                p.version = http::Version::HTTP_2;
                p.status = m.status;
                p.headers = m.headers.clone();
                p.body = m.body.clone();
                p
            })
            .collect();
        let pf: PlanFn = Rc::new(move |i, _| l[i].clone());
        let sp = h2::serve(&mut ex, &cfg, io, pf);
        for (i, m) in msgs.iter().enumerate() {
            let f = super::c20::req_fields(&m.method, &format!("/{i}"), &[]);
            peer.open(&f, true);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
        }
        ensure!(sp.end.borrow().is_none(), "ended", "the connection ended: {:?} {}", sp.end.borrow(), peer.show());
    } else {
        let cp = h2::connect(&mut ex, &cfg, io);
        pump(&mut ex, &h, &mut peer).map_err(fix)?;
        for (i, m) in msgs.iter().enumerate() {
            let mut q = ReqPlan::get();
            q.method = m.method.clone();
            q.uri = format!("http://a.test/{i}");
            q.headers = m.headers.clone();
            q.body = m.body.clone();
            q.ready = false;
            cli::concurrent(&mut ex, &cp.env, vec![q]);
            pump(&mut ex, &h, &mut peer).map_err(fix)?;
        }
        ensure!(cp.env.end.borrow().is_none(), "ended", "the connection ended: {:?} {}", cp.env.end.borrow(), peer.show());
    }
    for (i, m) in msgs.iter().enumerate() {
        let Some(st) = peer.streams.get(&(2 * i as u32 + 1)) else { fail!("missing", "message {i} never came: {}", peer.show()) };
        judge(cx, i, srv, m, !cfg.no_date, since, st, &|| peer.show())?;
    }
    Ok(())
}
