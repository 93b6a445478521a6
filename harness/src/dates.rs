//! Whether automatic Date fields are current.
use crate::sim::*;
use crate::src::Src;
use crate::srv::*;
use std::rc::Rc;
use std::time::{Duration, SystemTime};

/// Waiting takes real time, so few cases do it.
pub fn rare(s: &mut Src, n: usize) -> bool {
    s.u8() == 0xff && s.below(n) == n - 1
}
/// Long enough for another second to begin.
pub fn wait() -> SystemTime {
    std::thread::sleep(Duration::from_millis(1050));
    SystemTime::now()
}
/// Have hyper render a date on this thread, and let it become old.
pub fn age() -> SystemTime {
    let pf: PlanFn = Rc::new(|_, _| RespPlan::simple());
    let mut srv = Srv::start(&SrvCfg::plain(), &IoCfg::plain(), Plan::none(), pf);
    feed(&srv.io.rx, b"GET / HTTP/1.1\r\n\r\n");
    srv.ex.run();
    wait()
}
/// A message written between `since` and now carries the second it was written in.
pub fn current(date: &[u8], since: SystemTime) -> bool {
    let Some(t) = std::str::from_utf8(date).ok().and_then(|t| httpdate::parse_http_date(t).ok()) else { return false };
    t + Duration::from_millis(1001) >= since && t <= SystemTime::now()
}
