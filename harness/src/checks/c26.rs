//! Header fields, spelling, reason phrases and parser leniency.
use crate::body::*;
use crate::cli::{CCall, Cli, CliCfg, Sender};
use crate::engine::*;
use crate::ensure;
use crate::refh1::RefMsg;
use crate::sim::*;
use crate::src::{show, Src};
use crate::srv::*;
use crate::wire;
use http::{HeaderMap, HeaderName, HeaderValue};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C26",
        run,
        quick: 900_000,
        thorough: 30_000_000,
        max_len: 400,
        rule: "a case is one of: an HTTP/1 server or client with generated leniency options reading a generated stream into which the forms these options are about were put (compared with the reference reader under the same options), or a proxy made of a hyper server and a hyper client with generated spelling options forwarding 1-3 exchanges whose heads as written are compared field by field; non-trivial when a message with a body, several messages or a framing error is involved, or the proxy forwarded an exchange",
        must_labels: &["junk-line", "wide-space", "space-before-colon", "fold", "no-status-line", "own-reason", "proxy", "spelling-kept", "title-case", "lower-case", "repeated", "added", "removed", "trailers-spelled", "reason-kept", "reason-set"],
    }
}
fn run(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(3) {
        2 => {
            cx.label("proxy");
            proxy(s, cx)
        }
        0 => {
            cx.label("server-leniency");
            super::c01::drive(s, cx, None, true)
        }
        _ => {
            cx.label("client-leniency");
            if s.chance(128) {
                super::c02::drive(s, cx, None, true)
            } else {
                super::c02::drive(s, cx, Some(reason), true)
            }
        }
    }
}
fn reason(i: usize, c: &CCall, m: &RefMsg, cx: &mut Cx) -> R {
    let Some(r) = c.resp() else { return Ok(()) };
    let canon = http::StatusCode::from_u16(m.status).ok().and_then(|s| s.canonical_reason()).map(|r| r.as_bytes().to_vec());
    let want = if canon.as_ref() == Some(&m.reason) { None } else { Some(m.reason.clone()) };
    cx.label_if(want.is_some(), "own-reason");
    ensure!(r.reason == want, "reason", "response {i} ({}): reason {:?}, expected {:?}", m.status, r.reason.as_ref().map(|r| show(r)), want.as_ref().map(|r| show(r)));
    Ok(())
}

type Lines = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Clone, Debug)]
enum Edit {
    Remove(String),
    Append(String, Vec<u8>),
}
#[derive(Clone, Debug)]
struct Leg {
    lines: Lines,
    edits: Vec<Edit>,
    keep_ext: bool,
    /// body bytes; chunked?, trailers
    body: Option<(Vec<u8>, bool, Lines)>,
    reason: Vec<u8>,
    set_reason: Option<Vec<u8>>,
}

fn spelled(s: &mut Src, name: &str) -> Vec<u8> {
    match s.below(5) {
        0 => name.as_bytes().to_vec(),
        1 => title(name.as_bytes()),
        2 => name.to_uppercase().into_bytes(),
        _ => name.bytes().map(|c| if s.chance(100) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn title(n: &[u8]) -> Vec<u8> {
    let mut up = true;
    n.iter()
        .map(|c| {
            let x = if up { c.to_ascii_uppercase() } else { *c };
            up = *c == b'-';
            x
        })
        .collect()
}
const NAMES: &[&str] = &["x-a", "x-b", "x-bread", "set-cookie", "accept", "cookie", "x_under", "x--double", "-x", "x-", "server", "a", "x-long-name-with-many-parts", "etag", "via", "x1-2y", "!#$%&'*+.^_`|~", "cache-control", "pragma", "www-authenticate", "content-type", "dnt"];
const VALUES: &[&[u8]] = &[b"1", b"", b"a b", b"a, b", b"obs\xe9\xff", b"x\ty", b"two  spaces", b"\"q\"", b"keep-alive", b"a: b"];

fn leg(s: &mut Src, cx: &mut Cx, request: bool) -> Leg {
    let mut l = Leg { lines: vec![], edits: vec![], keep_ext: !s.chance(50), body: None, reason: vec![], set_reason: None };
    let mut names: Vec<&str> = vec![];
    for _ in 0..s.range(0, 8) {
        let n = if !names.is_empty() && s.chance(100) { *s.pick(&names) } else { *s.pick(NAMES) };
        names.push(n);
        l.lines.push((spelled(s, n), s.pick(VALUES).to_vec()));
    }
    if !request && s.chance(40) {
        names.push("date");
        l.lines.push((spelled(s, "date"), b"Thu, 01 Jan 1970 00:00:00 GMT".to_vec()));
    }
    if request {
        l.lines.insert(0, (spelled(s, "host"), b"a.test".to_vec()));
        if s.chance(100) {
            l.lines.push((spelled(s, "te"), b"trailers".to_vec()));
        }
    }
    match s.below(3) {
        0 => {}
        1 => {
            let n = *s.pick(&[1usize, 5, 300]);
            l.lines.push((spelled(s, "content-length"), n.to_string().into_bytes()));
            l.body = Some((vec![b'b'; n], false, vec![]));
        }
        _ => {
            l.lines.push((spelled(s, "transfer-encoding"), b"chunked".to_vec()));
            let mut t = vec![];
            if s.chance(128) {
                l.lines.push((spelled(s, "trailer"), b"x-t, x-sum-two".to_vec()));
                t.push((spelled(s, "x-t"), b"1".to_vec()));
                if s.chance(128) {
                    t.push((spelled(s, "x-sum-two"), b"2".to_vec()));
                }
            }
            l.body = Some((vec![b'c'; *s.pick(&[0usize, 1, 300])], true, t));
        }
    }
    if !request && l.body.is_none() {
        l.lines.push((spelled(s, "content-length"), b"0".to_vec()));
    }
    names.sort();
    names.dedup();
    if !names.is_empty() && s.chance(60) {
        cx.label("removed");
        let i = s.below(names.len());
        l.edits.push(Edit::Remove(names.remove(i).to_string()));
    }
    if s.chance(80) {
        cx.label("added");
        let n = if !names.is_empty() && s.chance(128) { s.pick(&names).to_string() } else { "x-added-here".to_string() };
        l.edits.push(Edit::Append(n, s.pick(VALUES).to_vec()));
    }
    if !request {
        l.reason = s.pick(&[&b"OK"[..], b"OK", b"Custom", b"", b"ok", b"With  two spaces", b"tab\there", b"Created"]).to_vec();
        if s.chance(60) {
            cx.label("reason-set");
            l.set_reason = Some(s.pick(&[&b"Mine"[..], b"", b"OK", b"obs\xe9"]).to_vec());
        }
    }
    l
}
impl Leg {
    fn bytes(&self, first: &[u8]) -> Vec<u8> {
        let mut v = first.to_vec();
        v.extend_from_slice(b"\r\n");
        let put = |v: &mut Vec<u8>, l: &Lines| {
            for (n, x) in l {
                v.extend_from_slice(n);
                v.extend_from_slice(b": ");
                v.extend_from_slice(x);
                v.extend_from_slice(b"\r\n");
            }
            v.extend_from_slice(b"\r\n");
        };
        put(&mut v, &self.lines);
        if let Some((b, chunked, t)) = &self.body {
            if *chunked {
                if !b.is_empty() {
                    v.extend_from_slice(format!("{:x}\r\n", b.len()).as_bytes());
                    v.extend_from_slice(b);
                    v.extend_from_slice(b"\r\n");
                }
                v.extend_from_slice(b"0\r\n");
                put(&mut v, t);
            } else {
                v.extend_from_slice(b);
            }
        }
        v
    }
    fn edit(&self, h: &mut HeaderMap) {
        for e in &self.edits {
            match e {
                Edit::Remove(n) => {
                    h.remove(n.as_str());
                }
                Edit::Append(n, v) => {
                    h.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
                }
            }
        }
    }
    /// by name: values in order, and the spelling received for each
    fn expect(&self) -> BTreeMap<String, Vec<(Option<Vec<u8>>, Vec<u8>)>> {
        let mut m: BTreeMap<String, Vec<(Option<Vec<u8>>, Vec<u8>)>> = BTreeMap::new();
        for (n, v) in &self.lines {
            m.entry(String::from_utf8_lossy(n).to_ascii_lowercase()).or_default().push((Some(n.clone()), v.clone()));
        }
        for e in &self.edits {
            match e {
                Edit::Remove(n) => {
                    m.remove(n);
                }
                Edit::Append(n, v) => m.entry(n.clone()).or_default().push((None, v.clone())),
            }
        }
        m
    }
    /// `rx` keeps spellings, `tx` uses them
    fn judge(&self, cx: &mut Cx, what: &str, got: &wire::Msg, rx: bool, tx: bool, title_case: bool, added: &[&str]) -> R {
        let want = self.expect();
        let mut have: BTreeMap<String, Lines> = BTreeMap::new();
        for (n, v) in &got.headers {
            have.entry(String::from_utf8_lossy(n).to_ascii_lowercase()).or_default().push((n.clone(), v.clone()));
        }
        let plain = |n: &str| if title_case { title(n.as_bytes()) } else { n.as_bytes().to_vec() };
        cx.label(if title_case { "title-case" } else { "lower-case" });
        for (n, l) in &have {
            let Some(w) = want.get(n) else {
                ensure!(added.contains(&n.as_str()), "field-added", "{what}: field {n} was not there: {:?}", show_lines(&got.headers));
                for (sp, _) in l {
                    // (one the service removed and hyper adds itself may be spelled as received)
                    let was = self.lines.iter().any(|(k, _)| k == sp);
                    ensure!(*sp == plain(n) || was, "spelling", "{what}: {:?} written for {:?}: {:?}", show(sp), show(&plain(n)), show_lines(&got.headers));
                }
                continue;
            };
            if n == "transfer-encoding" || n == "content-length" {
                // (one line is enough)
                ensure!(l.len() == 1, "values", "{what}: {n} {:?}", show_lines(&got.headers));
            } else {
                let (a, b): (Vec<&Vec<u8>>, Vec<&Vec<u8>>) = (l.iter().map(|x| &x.1).collect(), w.iter().map(|x| &x.1).collect());
                ensure!(a == b, "values", "{what}: field {n}: {:?}, expected {:?}", a.iter().map(|x| show(x)).collect::<Vec<_>>(), b.iter().map(|x| show(x)).collect::<Vec<_>>());
                cx.label_if(a.len() > 1, "repeated");
            }
            for ((sp, _), (orig, _)) in l.iter().zip(w) {
                let mut ok = *sp == plain(n);
                if let (Some(o), true, true) = (orig, rx, self.keep_ext) {
                    // (a writer not told to preserve spellings may still know them)
                    ok = sp == o || !tx && ok;
                    cx.label_if(tx && *o != plain(n), "spelling-kept");
                }
                ensure!(ok, "spelling", "{what}: {:?} written, received as {:?} (kept {rx}, {}, used {tx}), title case {title_case}: {:?}", show(sp), orig.as_ref().map(|o| show(o)), self.keep_ext, show_lines(&got.headers));
            }
        }
        for n in want.keys() {
            ensure!(have.contains_key(n), "field-lost", "{what}: field {n} is missing: {:?}", show_lines(&got.headers));
        }
        if let Some((b, _, t)) = &self.body {
            ensure!(got.body == *b, "body", "{what}: body of {} bytes instead of {}", got.body.len(), b.len());
            for (n, v) in &got.trailers {
                let low = String::from_utf8_lossy(n).to_ascii_lowercase();
                cx.label("trailers-spelled");
                ensure!(*n == plain(&low), "spelling", "{what}: trailer {:?} written, title case {title_case}", show(n));
                ensure!(t.iter().any(|(a, b)| a.eq_ignore_ascii_case(n) && b == v), "values", "{what}: trailer {:?}", show(n));
            }
        }
        Ok(())
    }
}
fn show_lines(l: &[(Vec<u8>, Vec<u8>)]) -> Vec<String> {
    l.iter().map(|(n, v)| format!("{}: {}", show(n), show(v))).collect()
}

fn proxy(s: &mut Src, cx: &mut Cx) -> R {
    let mut scfg = SrvCfg::plain();
    scfg.title_case = s.chance(100);
    scfg.preserve_case = s.chance(170);
    scfg.date = s.chance(128);
    let mut ccfg = CliCfg::plain();
    ccfg.title_case = s.chance(100);
    ccfg.preserve_case = s.chance(170);
    let n = s.range(1, 3);
    let ex: Vec<(Leg, Leg)> = (0..n).map(|_| (leg(s, cx, true), leg(s, cx, false))).collect();
    cx.describe(|| {
        let l: Vec<String> = ex.iter().map(|(a, b)| format!("{:?} {:?} keep={} body={:?} -> {:?} {:?} keep={} reason={:?}/{:?} body={:?}", show_lines(&a.lines), a.edits, a.keep_ext, a.body.as_ref().map(|b| (b.0.len(), b.1, b.2.len())), show_lines(&b.lines), b.edits, b.keep_ext, show(&b.reason), b.set_reason.as_ref().map(|r| show(r)), b.body.as_ref().map(|b| (b.0.len(), b.1, b.2.len())))).collect();
        format!("proxy server title={} preserve={} client title={} preserve={} {}", scfg.title_case, scfg.preserve_case, ccfg.title_case, ccfg.preserve_case, l.join(" || "))
    });
    let mut e = Exec::new(Plan::gen(s, 6));
    let ic = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let (io_a, front) = scripted(&e.events, &ic);
    let ic = IoCfg { cap: usize::MAX, ..IoCfg::gen(s) };
    let (io_b, back) = scripted(&e.events, &ic);
    let part = Cli::start_on(&mut e, &ccfg, io_b);
    let sender = part.env.sender.clone();
    let legs = Rc::new(ex.clone());
    let at = Rc::new(RefCell::new(0usize));
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let ev = e.events.clone();
    let er = errs.clone();
    let svc = hyper::service::service_fn(move |r: http::Request<hyper::body::Incoming>| {
        let i = {
            let mut a = at.borrow_mut();
            *a += 1;
            *a - 1
        };
        let (sender, legs, ev, er) = (sender.clone(), legs.clone(), ev.clone(), er.clone());
        async move {
            let Some((q, p)) = legs.get(i) else { return Err(SvcErr) };
            let echo = |b: hyper::body::Incoming| {
                let mut x = PlanBody::new(&ev, vec![], Hint::Exact, true);
                x.echo = Some(Echo { from: b, seen: Rc::new(|_| {}) });
                x
            };
            let (mut h, b) = r.into_parts();
            q.edit(&mut h.headers);
            if !q.keep_ext {
                h.extensions = Default::default();
            }
            let req = http::Request::from_parts(h, echo(b));
            let ready = std::future::poll_fn(|cx| match sender.borrow_mut().as_mut() {
                Some(s) => s.poll_ready(cx),
                None => std::task::Poll::Pending,
            })
            .await;
            if let Err(e) = ready {
                er.borrow_mut().push(format!("not ready: {e:?}"));
                return Err(SvcErr);
            }
            let f = match sender.borrow_mut().as_mut() {
                Some(Sender::H1(s)) => s.send_request(req),
                _ => return Err(SvcErr),
            };
            match f.await {
                Ok(r) => {
                    let (mut h, b) = r.into_parts();
                    p.edit(&mut h.headers);
                    if !p.keep_ext {
                        h.extensions = Default::default();
                    }
                    if let Some(x) = &p.set_reason {
                        h.extensions.insert(hyper::ext::ReasonPhrase::try_from(x.as_slice()).expect("reason"));
                    }
                    Ok(http::Response::from_parts(h, echo(b)))
                }
                Err(e) => {
                    er.borrow_mut().push(format!("{e:?}"));
                    Err(SvcErr)
                }
            }
        }
    });
    let c = scfg.builder(&e.clock).serve_connection(io_a, svc);
    let end: Rc<RefCell<Option<String>>> = Default::default();
    let end2 = end.clone();
    e.spawn(async move {
        let r = c.await;
        *end2.borrow_mut() = Some(format!("{r:?}"));
    });
    for (i, (q, p)) in ex.iter().enumerate() {
        let b = q.bytes(b"POST /p HTTP/1.1");
        let segs = gen_cuts(s, &b);
        ensure!(play(&mut e, &front, None, &segs), "spin", "no end of activity");
        let fwd = drain(&back.tx);
        let m = match wire::request(&fwd, 0) {
            Ok(wire::P::Msg(m)) if m.complete && m.end == fwd.len() => m,
            x => crate::fail!("not-forwarded", "request {i} was forwarded as {x:?}: {:?}, errors {:?}, server {:?}", show(&fwd), errs.borrow(), end.borrow()),
        };
        q.judge(cx, &format!("request {i}"), &m, scfg.preserve_case, ccfg.preserve_case, ccfg.title_case, &["content-length", "transfer-encoding", "host"])?;
        let b = p.bytes(&[b"HTTP/1.1 200 ", &p.reason[..]].concat());
        let segs = gen_cuts(s, &b);
        ensure!(play(&mut e, &back, None, &segs), "spin", "no end of activity");
        let got = drain(&front.tx);
        let m = match wire::response(&got, 0, b"POST", false) {
            Ok(wire::P::Msg(m)) if m.complete && m.end == got.len() => m,
            x => crate::fail!("not-forwarded", "response {i} was forwarded as {x:?}: {:?}, errors {:?}, server {:?}", show(&got), errs.borrow(), end.borrow()),
        };
        cx.nontrivial = true;
        p.judge(cx, &format!("response {i}"), &m, ccfg.preserve_case, scfg.preserve_case, scfg.title_case, &["content-length", "transfer-encoding", "date", "connection"])?;
        let dates = m.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(b"date")).count();
        let sent = p.expect().get("date").map_or(0, |v| v.len());
        ensure!(dates == sent.max(scfg.date as usize), "date", "response {i}: {dates} dates (received {sent}, option {}): {:?}", scfg.date, show_lines(&m.headers));
        let want = match (&p.set_reason, p.keep_ext) {
            (Some(r), _) => r.clone(),
            (None, true) => p.reason.clone(),
            (None, false) => b"OK".to_vec(),
        };
        cx.label_if(p.set_reason.is_none() && p.keep_ext && p.reason != b"OK", "reason-kept");
        ensure!(m.reason == want, "reason", "response {i}: reason {:?}, expected {:?}", show(&m.reason), show(&want));
    }
    Ok(())
}
