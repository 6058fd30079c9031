//! A simulated web site: what each URL serves, and how badly.
use crate::ctx::*;
use crate::rt::*;
use crate::simnet::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Beh {
    Whole,
    Chunked,
    /// no length: the end of the connection ends the body
    Close,
    /// in small pieces, well inside every timeout
    Pieces,
    Status(u16),
    Truncated,
    ChunkTruncated,
    /// reset in the middle of the body
    Reset,
    ResetFirst,
    /// nothing at all, or nothing after half of the body
    Stall,
    StallMiddle,
    Garbage,
    FinFirst,
}
impl Beh {
    pub fn good(self) -> bool {
        matches!(self, Beh::Whole | Beh::Chunked | Beh::Close | Beh::Pieces)
    }
}
pub const BAD: &[Beh] = &[
    Beh::Status(404),
    Beh::Status(500),
    Beh::Status(403),
    Beh::Truncated,
    Beh::ChunkTruncated,
    Beh::Reset,
    Beh::ResetFirst,
    Beh::Stall,
    Beh::StallMiddle,
    Beh::Garbage,
    Beh::FinFirst,
];
pub fn choose_beh(bad: u64, of: u64) -> Beh {
    if wc(bad, of) {
        *pick(BAD)
    } else {
        [Beh::Whole, Beh::Chunked, Beh::Close, Beh::Pieces][w(4) as usize]
    }
}

#[derive(Clone)]
pub struct Page {
    pub bodies: Vec<Vec<u8>>,
    pub ctype: String,
    pub beh: Beh,
    /// sent instead of a body
    pub redirect: Option<(u16, String)>,
    /// requests answered
    pub hits: usize,
    /// which body the last request got
    pub last: usize,
}
#[derive(Default)]
pub struct Site {
    pub pages: BTreeMap<String, Page>, // "host/path"
    pub unknown: usize,
}
pub type SiteRef = Rc<RefCell<Site>>;

fn halves(b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (b[..b.len() / 2].to_vec(), b[b.len() / 2..].to_vec())
}

pub fn answer(beh: Beh, ctype: &str, body: &[u8], delay: u64) -> Vec<Act> {
    let ok = format!("HTTP/1.1 200 OK\r\nContent-Type: {}\r\n", ctype);
    let full = |b: &[u8]| {
        let mut v = format!("{}Content-Length: {}\r\n\r\n", ok, body.len()).into_bytes();
        v.extend(b);
        v
    };
    let chunk = |b: &[u8]| {
        let mut v = format!("{:x}\r\n", b.len()).into_bytes();
        v.extend(b);
        v.extend(b"\r\n");
        v
    };
    let (a, z) = halves(body);
    match beh {
        Beh::Whole => vec![Act::Send(delay, full(body))],
        Beh::Pieces => {
            let all = full(body);
            let n = (all.len() / 7).max(1);
            all.chunks(n).map(|c| Act::Send(delay, c.to_vec())).collect()
        }
        Beh::Chunked => {
            let mut h = format!("{}Transfer-Encoding: chunked\r\n\r\n", ok).into_bytes();
            h.extend(chunk(if a.is_empty() { &z } else { &a }));
            let mut t = vec![];
            if !a.is_empty() && !z.is_empty() {
                t.extend(chunk(&z));
            }
            t.extend(b"0\r\n\r\n");
            vec![Act::Send(delay, h), Act::Send(delay, t)]
        }
        Beh::Close => {
            let mut h = format!("{}Connection: close\r\n\r\n", ok).into_bytes();
            h.extend(&a);
            vec![Act::Send(delay, h), Act::Send(delay, z), Act::Fin(delay)]
        }
        Beh::Status(s) => {
            count("net_status");
            let mut v = format!("HTTP/1.1 {} X\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", s, ctype, body.len()).into_bytes();
            v.extend(body);
            vec![Act::Send(delay, v)]
        }
        Beh::Truncated => {
            count("net_truncated");
            vec![Act::Send(delay, full(&a)), Act::Fin(delay)]
        }
        Beh::ChunkTruncated => {
            count("net_truncated");
            let mut h = format!("{}Transfer-Encoding: chunked\r\n\r\n", ok).into_bytes();
            h.extend(chunk(if a.is_empty() { b"x" } else { &a }));
            vec![Act::Send(delay, h), Act::Fin(delay)]
        }
        Beh::Reset => {
            count("net_reset");
            vec![Act::Send(delay, full(&a)), Act::Reset(delay)]
        }
        Beh::ResetFirst => {
            count("net_reset");
            vec![Act::Reset(delay)]
        }
        Beh::Stall => {
            count("net_stall");
            vec![]
        }
        Beh::StallMiddle => {
            count("net_stall");
            vec![Act::Send(delay, full(&a))]
        }
        Beh::Garbage => {
            count("net_garbage");
            vec![Act::Send(delay, b"\x00\xffnot http at all\r\n\r\n".to_vec()), Act::Fin(delay)]
        }
        Beh::FinFirst => {
            count("net_fin");
            vec![Act::Fin(delay)]
        }
    }
}

/// Install an empty site; pages are added by the property.
pub fn install() -> SiteRef {
    god(|| {
        let site: SiteRef = Rc::new(RefCell::new(Site::default()));
        let s = site.clone();
        sim().net.conn_plan = Some(Box::new(|_, _| ConnPlan::Accept(2_000_000)));
        sim().net.dns_plan = Some(Box::new(|_| DnsPlan::Ok(1_000_000)));
        sim().net.server = Some(Box::new(move |q: &Req| {
            let mut st = s.borrow_mut();
            let key = format!("{}{}", q.host, q.path);
            let delay = [0u64, 1_000_000, 40_000_000, 900_000_000][fdraw(4) as usize];
            match st.pages.get_mut(&key) {
                None => {
                    st.unknown += 1;
                    answer(Beh::Status(404), "text/plain", b"nothing here", delay)
                }
                Some(p) => {
                    p.hits += 1;
                    if let Some((code, to)) = &p.redirect {
                        let v = format!("HTTP/1.1 {} Moved\r\nLocation: {}\r\nContent-Length: 0\r\n\r\n", code, to);
                        return vec![Act::Send(delay, v.into_bytes())];
                    }
                    let k = if p.bodies.len() > 1 { fdraw(p.bodies.len() as u64) as usize } else { 0 };
                    p.last = k;
                    answer(p.beh, &p.ctype, &p.bodies[k], delay)
                }
            }
        }));
        site
    })
}
pub fn add(site: &SiteRef, key: &str, ctype: &str, bodies: Vec<Vec<u8>>, beh: Beh) {
    god(|| {
        site.borrow_mut().pages.insert(
            key.to_string(),
            Page { bodies, ctype: ctype.to_string(), beh, redirect: None, hits: 0, last: 0 },
        );
    })
}
/// Refused, unreachable, black-holed or slow connections, per host.
pub fn conn(host: &str, plan: ConnPlan) {
    god(|| {
        let ip = ip_of(host);
        let mut old = sim().net.conn_plan.take();
        sim().net.conn_plan = Some(Box::new(move |i, p| {
            if i == ip {
                return plan;
            }
            match &mut old {
                Some(f) => f(i, p),
                None => ConnPlan::Accept(0),
            }
        }));
    })
}
pub fn dns(host: &str, plan: DnsPlan) {
    let host = god(|| host.to_string());
    god(move || {
        let mut old = sim().net.dns_plan.take();
        sim().net.dns_plan = Some(Box::new(move |h| {
            if h == host {
                if !matches!(plan, DnsPlan::Ok(_)) {
                    count("dns_failure");
                }
                return plan;
            }
            match &mut old {
                Some(f) => f(h),
                None => DnsPlan::Ok(0),
            }
        }));
    })
}
