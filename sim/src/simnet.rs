//! Simulated sockets, epoll, eventfd, DNS and HTTP servers.
use crate::choice::S;
use crate::rt::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CState {
    Idle,
    Connecting,
    Connected,
    Failed,
}

pub struct Sock {
    pub of: usize,
    pub state: CState,
    pub err: i32,
    pub rx: VecDeque<u8>,
    pub rx_eof: bool,
    pub rx_reset: bool,
    pub tx: Vec<u8>,
    pub tx_parsed: usize,
    pub peer: (u32, u16),
    pub closed: bool,
    pub wr_shut: bool,
    pub v6: bool,
}

#[derive(Clone, Debug)]
pub struct EpItem {
    pub events: u32,
    pub data: u64,
    pub pending: u32,
    pub of: usize,
}
pub struct Epoll {
    pub items: BTreeMap<i32, EpItem>,
}

/// What a server does with one request on one connection.
#[derive(Clone, Debug)]
pub enum Act {
    Send(u64, Vec<u8>),
    Fin(u64),
    Reset(u64),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub host: String,
    pub path: String,
    pub method: String,
    pub head: String,
    pub at: u64,
    pub port: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ConnPlan {
    Accept(u64),
    Refuse(u64),
    Blackhole,
    Unreach,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DnsPlan {
    Ok(u64),
    NoName(u64),
    TryAgain(u64),
}

pub struct Net {
    pub socks: Vec<Sock>,
    pub epolls: Vec<Epoll>,
    pub events: Vec<u64>, // eventfd counters
    pub hosts: BTreeMap<String, u32>,
    pub requests: Vec<Req>,
    pub server: Option<Box<dyn FnMut(&Req) -> Vec<Act>>>,
    pub conn_plan: Option<Box<dyn FnMut(u32, u16) -> ConnPlan>>,
    pub dns_plan: Option<Box<dyn FnMut(&str) -> DnsPlan>>,
    pub short_recv: u64, // per 256
}

impl Net {
    pub fn new() -> Net {
        Net {
            socks: vec![],
            epolls: vec![],
            events: vec![],
            hosts: BTreeMap::new(),
            requests: vec![],
            server: None,
            conn_plan: None,
            dns_plan: None,
            short_recv: 0,
        }
    }
    pub fn epoll_has_pending(&self, e: usize) -> bool {
        self.epolls[e].items.values().any(|i| i.pending != 0)
    }
}

pub fn ip_of(host: &str) -> u32 {
    let s = sim();
    if let Ok(a) = host.parse::<std::net::Ipv4Addr>() {
        return u32::from(a);
    }
    let n = s.net.hosts.len() as u32;
    *s.net.hosts.entry(host.to_string()).or_insert(0x0a00_0001 + n)
}

pub fn sock_bits(k: &Sock) -> u32 {
    let mut b = 0u32;
    if k.state == CState::Connected && !k.wr_shut {
        b |= libc::EPOLLOUT as u32;
    }
    if !k.rx.is_empty() || k.rx_eof || k.rx_reset {
        b |= libc::EPOLLIN as u32;
    }
    if k.rx_eof {
        b |= libc::EPOLLRDHUP as u32;
    }
    if k.rx_reset || k.state == CState::Failed {
        b |= (libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLIN | libc::EPOLLOUT) as u32;
    }
    if k.state == CState::Idle {
        b |= (libc::EPOLLHUP | libc::EPOLLOUT) as u32;
    }
    b
}

pub fn bits_of(of: usize) -> u32 {
    let s = sim();
    match &s.ofs[of].of {
        Of::Sock(k) => sock_bits(&s.net.socks[*k]),
        Of::Event(e) => (if s.net.events[*e] > 0 { libc::EPOLLIN as u32 } else { 0 }) | libc::EPOLLOUT as u32,
        _ => 0,
    }
}

/// An edge happened on open file `of`.
pub fn edge(of: usize) {
    let b = bits_of(of);
    let s = sim();
    for ep in &mut s.net.epolls {
        for it in ep.items.values_mut() {
            if it.of == of {
                it.pending |= b & (it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
            }
        }
    }
}

pub fn start_connect(k: usize, ip: u32, port: u16) -> i32 {
    let s = sim();
    s.net.socks[k].peer = (ip, port);
    let mut plan = s.net.conn_plan.take();
    let p = match &mut plan {
        Some(f) => f(ip, port),
        None => ConnPlan::Unreach,
    };
    sim().net.conn_plan = plan;
    let s = sim();
    s.net.socks[k].state = CState::Connecting;
    match p {
        ConnPlan::Unreach => {
            s.net.socks[k].state = CState::Failed;
            count("net_unreachable");
            return libc::ENETUNREACH;
        }
        ConnPlan::Accept(d) => at(
            d,
            Box::new(move || {
                let s = sim();
                s.net.socks[k].state = CState::Connected;
                log("net_connected", k as u64, 0);
                edge(s.net.socks[k].of);
            }),
        ),
        ConnPlan::Refuse(d) => {
            count("net_refused");
            at(
                d,
                Box::new(move || {
                    let s = sim();
                    s.net.socks[k].state = CState::Failed;
                    s.net.socks[k].err = libc::ECONNREFUSED;
                    log("net_refused", k as u64, 0);
                    edge(s.net.socks[k].of);
                }),
            )
        }
        ConnPlan::Blackhole => {
            count("net_blackhole");
            // kernel gives up after about two minutes
            at(
                127_000_000_000,
                Box::new(move || {
                    let s = sim();
                    s.net.socks[k].state = CState::Failed;
                    s.net.socks[k].err = libc::ETIMEDOUT;
                    edge(s.net.socks[k].of);
                }),
            )
        }
    }
    libc::EINPROGRESS
}

/// Bytes from the client arrived at the server.
pub fn server_input(k: usize) {
    loop {
        let s = sim();
        let sk = &mut s.net.socks[k];
        let pend = &sk.tx[sk.tx_parsed..];
        let pos = pend.windows(4).position(|w| w == b"\r\n\r\n");
        let pos = match pos {
            Some(p) => p,
            None => return,
        };
        let head = String::from_utf8_lossy(&pend[..pos]).to_string();
        sk.tx_parsed += pos + 4;
        let mut host = String::new();
        for l in head.lines() {
            if l.len() > 5 && l[..5].eq_ignore_ascii_case("host:") {
                host = l[5..].trim().to_string();
            }
        }
        let first = head.lines().next().unwrap_or("").to_string();
        let mut it = first.split(' ');
        let method = it.next().unwrap_or("").to_string();
        let path = it.next().unwrap_or("").to_string();
        let port = sk.peer.1;
        let req = Req { host, path, method, head, at: s.now, port };
        note(&format!("server: {} {}{}", req.method, req.host, req.path));
        s.net.requests.push(req.clone());
        let mut srv = s.net.server.take();
        let acts = match &mut srv {
            Some(f) => f(&req),
            None => vec![Act::Reset(0)],
        };
        sim().net.server = srv;
        let mut t = 0u64;
        for a in acts {
            match a {
                Act::Send(d, b) => {
                    t += d;
                    at(
                        t,
                        Box::new(move || {
                            let s = sim();
                            let sk = &mut s.net.socks[k];
                            if sk.closed || sk.rx_reset || sk.rx_eof {
                                return;
                            }
                            sk.rx.extend(b.iter());
                            log("net_data", k as u64, b.len() as u64);
                            edge(sim().net.socks[k].of);
                        }),
                    );
                }
                Act::Fin(d) => {
                    t += d;
                    at(
                        t,
                        Box::new(move || {
                            let s = sim();
                            let sk = &mut s.net.socks[k];
                            if sk.closed {
                                return;
                            }
                            sk.rx_eof = true;
                            log("net_fin", k as u64, 0);
                            edge(sim().net.socks[k].of);
                        }),
                    );
                }
                Act::Reset(d) => {
                    t += d;
                    at(
                        t,
                        Box::new(move || {
                            let s = sim();
                            let sk = &mut s.net.socks[k];
                            if sk.closed {
                                return;
                            }
                            sk.rx_reset = true;
                            sk.rx.clear();
                            log("net_reset", k as u64, 0);
                            edge(sim().net.socks[k].of);
                        }),
                    );
                }
            }
        }
    }
}

pub fn epoll_collect(e: usize, max: usize) -> Vec<(u32, u64)> {
    let s = sim();
    let mut fds: Vec<i32> = s.net.epolls[e].items.iter().filter(|(_, i)| i.pending != 0).map(|(f, _)| *f).collect();
    // order of readiness events is not guaranteed
    if fds.len() > 1 {
        let r = s.streams[S::S as usize].draw(fds.len() as u64) as usize;
        fds.rotate_left(r);
    }
    let mut out = vec![];
    for fd in fds.into_iter().take(max) {
        let it = s.net.epolls[e].items.get_mut(&fd).unwrap();
        out.push((it.pending, it.data));
        it.pending = 0;
    }
    out
}
