//! Network world: one real system on a real socket, and scripted peers that speak the wire protocol by hand.
//! Time is manual; after every step the system is given the chance to do all it has to do.
use crate::core_world::discard_logger;
use bytes::{Bytes, BytesMut};
use kompact::net::SessionId;
use kompact::prelude::*;
use kompact_net::*;
use serde_json::{Value, json};
use std::any::Any;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const TICK: u64 = 5000;

#[derive(Debug, Clone)]
pub struct Blob(pub u64, pub usize);
impl Serialisable for Blob {
    fn ser_id(&self) -> SerId {
        7001
    }
    fn size_hint(&self) -> Option<usize> {
        Some(16 + self.1)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.0);
        buf.put_u64(self.1 as u64);
        let v: Vec<u8> = (0..self.1).map(|i| (self.0 as usize).wrapping_mul(31).wrapping_add(i) as u8).collect();
        buf.put_slice(&v);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<Blob> for Blob {
    const SER_ID: SerId = 7001;
    fn deserialise(buf: &mut dyn Buf) -> Result<Blob, SerError> {
        if buf.remaining() < 16 {
            return Err(SerError::invalid_data("short"));
        }
        let n = buf.get_u64();
        let k = buf.get_u64() as usize;
        if buf.remaining() != k {
            return Err(SerError::invalid_data("length"));
        }
        for i in 0..k {
            if buf.get_u8() != (n as usize).wrapping_mul(31).wrapping_add(i) as u8 {
                return Err(SerError::invalid_data("content"));
            }
        }
        Ok(Blob(n, k))
    }
}
#[derive(Debug, Clone)]
pub struct Tok(pub u64);
impl Serialisable for Tok {
    fn ser_id(&self) -> SerId {
        7002
    }
    fn size_hint(&self) -> Option<usize> {
        Some(8)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.0);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<Tok> for Tok {
    const SER_ID: SerId = 7002;
    fn deserialise(buf: &mut dyn Buf) -> Result<Tok, SerError> {
        Ok(Tok(buf.get_u64()))
    }
}

/// what the observing component saw
#[derive(Debug, Clone)]
pub enum Seen {
    St(NetworkStatus),
    Dl(i64, Option<u128>),
}
#[derive(Debug)]
pub enum NMsg {
    Send(ActorPath, u64, usize, i64),
    Bar(ActorPath, u64),
    Req(NetworkStatusRequest),
}
#[derive(ComponentDefinition)]
pub struct N {
    pub ctx: ComponentContext<Self>,
    pub net: RequiredPort<NetworkStatusPort>,
    pub log: Arc<Mutex<Vec<Seen>>>,
    pub bar: Sender<u64>,
}
ignore_lifecycle!(N);
impl Require<NetworkStatusPort> for N {
    fn handle(&mut self, e: NetworkStatus) -> HandlerResult {
        self.log.lock().unwrap().push(Seen::St(e));
        Handled::OK
    }
}
impl Actor for N {
    type Message = NMsg;
    fn receive_local(&mut self, m: NMsg) -> HandlerResult {
        match m {
            NMsg::Send(dst, n, k, how) => match how {
                1 => dst.tell_serialised(Blob(n, k), self).expect("buffers"),
                2 => {
                    let c = self.ctx.preserialise(&Blob(n, k)).expect("buffers");
                    dst.tell_preserialised(c, self).expect("buffers");
                }
                _ => dst.tell(Blob(n, k), self),
            },
            NMsg::Bar(dst, n) => dst.tell(Tok(n), self),
            NMsg::Req(r) => self.net.trigger(r),
        }
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let s = m.session().map(|s| s.as_u128());
        if *m.ser_id() == 7002 {
            if let Ok(t) = m.try_deserialise::<Tok, Tok>() {
                let _ = self.bar.send(t.0);
            }
        } else {
            let n = m.try_deserialise::<Blob, Blob>().map(|b| b.0 as i64).unwrap_or(-1);
            self.log.lock().unwrap().push(Seen::Dl(n, s));
        }
        Handled::OK
    }
}

// ------------------------------------------------------------------ sockets
fn sockaddr(a: SocketAddr) -> (libc::sockaddr_storage, libc::socklen_t) {
    let mut s: libc::sockaddr_storage = unsafe { std::mem::zeroed() };
    match a {
        SocketAddr::V4(a) => {
            let p = &mut s as *mut _ as *mut libc::sockaddr_in;
            unsafe {
                (*p).sin_family = libc::AF_INET as u16;
                (*p).sin_port = a.port().to_be();
                (*p).sin_addr.s_addr = u32::from(*a.ip()).to_be();
            }
            (s, std::mem::size_of::<libc::sockaddr_in>() as u32)
        }
        SocketAddr::V6(a) => {
            let p = &mut s as *mut _ as *mut libc::sockaddr_in6;
            unsafe {
                (*p).sin6_family = libc::AF_INET6 as u16;
                (*p).sin6_port = a.port().to_be();
                (*p).sin6_addr.s6_addr = a.ip().octets();
            }
            (s, std::mem::size_of::<libc::sockaddr_in6>() as u32)
        }
    }
}
fn setopt(fd: RawFd, opt: i32, v: i32) {
    unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, opt, &v as *const _ as *const _, 4) };
}
/// a bound stream socket that does not listen yet
fn bound(a: SocketAddr) -> RawFd {
    unsafe {
        let fam = if a.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 };
        let fd = libc::socket(fam, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0);
        setopt(fd, libc::SO_REUSEADDR, 1);
        let (s, l) = sockaddr(a);
        assert_eq!(libc::bind(fd, &s as *const _ as *const _, l), 0, "bind {:?}: {}", a, std::io::Error::last_os_error());
        fd
    }
}
/// the descriptor of this process whose socket goes from `me` to `you`
pub fn find_fd(me: SocketAddr, you: SocketAddr) -> Option<RawFd> {
    for e in std::fs::read_dir("/proc/self/fd").ok()? {
        let fd: RawFd = match e.ok()?.file_name().to_str()?.parse() {
            Ok(x) => x,
            Err(_) => continue,
        };
        let s = std::mem::ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(fd) });
        if s.local_addr().ok() == Some(me) && s.peer_addr().ok() == Some(you) {
            return Some(fd);
        }
    }
    None
}
pub fn shrink(fd: RawFd, send: bool) {
    setopt(fd, if send { libc::SO_SNDBUF } else { libc::SO_RCVBUF }, 2048);
}

// ------------------------------------------------------------------ frames by hand
fn frame(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = 0xC0A1BA11u32.to_be_bytes().to_vec();
    v.extend((body.len() as u32).to_be_bytes());
    v.push(ty);
    v.extend(body);
    v
}
fn addr_bytes(a: SocketAddr) -> Vec<u8> {
    let mut v = vec![];
    match a.ip() {
        IpAddr::V4(i) => {
            v.push(4);
            v.extend(i.octets());
        }
        IpAddr::V6(i) => {
            v.push(6);
            v.extend(i.octets());
        }
    }
    v.extend(a.port().to_be_bytes());
    v
}
fn addr_of(b: &[u8]) -> Option<(SocketAddr, usize)> {
    let n = match b.first()? {
        4 => 4,
        6 => 16,
        _ => return None,
    };
    if b.len() < n + 3 {
        return None;
    }
    let ip: IpAddr = if n == 4 {
        let x: [u8; 4] = b[1..5].try_into().unwrap();
        x.into()
    } else {
        let x: [u8; 16] = b[1..17].try_into().unwrap();
        x.into()
    };
    Some((SocketAddr::new(ip, u16::from_be_bytes([b[n + 1], b[n + 2]])), n + 3))
}

struct Peer {
    addr: SocketAddr,
    lst: Option<TcpListener>,
    held: RawFd,
    auto: bool,
    small: bool,
}
struct Conn {
    st: TcpStream,
    p: usize,
    /// whom the peer claims to be
    claim: usize,
    out: bool,
    sid: i64,
    inb: Vec<u8>,
    junk: bool,
    /// the system closed it
    ended: bool,
    /// this side is gone
    gone: bool,
    half: bool,
    stalled: bool,
    rest: Option<(Vec<u8>, Value)>,
    hello: bool,
    start: bool,
    bye: bool,
    done: (bool, bool, bool),
}
struct W {
    sys: Option<KompactSystem>,
    timer: kompact::timer::ManualTimer,
    n: ActorRef<NMsg>,
    npath: ActorPath,
    sut: SocketAddr,
    log: Arc<Mutex<Vec<Seen>>>,
    bar: Receiver<u64>,
    bars: u64,
    peers: Vec<Peer>,
    conns: Vec<Conn>,
    sids: HashMap<u128, i64>,
    v6: bool,
    slow: bool,
    t: Vec<Value>,
}
fn sid_of(k: i64) -> u128 {
    if k < 1000 { k as u128 } else { u128::MAX - (4000 - k as u128) }
}

impl W {
    fn ip(&self, x: i64) -> IpAddr {
        if self.v6 {
            std::net::Ipv6Addr::from(x as u128).into()
        } else {
            std::net::Ipv4Addr::from((127u32 << 24) + (1 << 16) + x as u32).into()
        }
    }
    fn sid(&mut self, s: u128) -> i64 {
        if s < 1000 {
            s as i64
        } else if s > u128::MAX - 4000 {
            4000 - (u128::MAX - s) as i64
        } else {
            let n = 1000 + self.sids.len() as i64;
            *self.sids.entry(s).or_insert(n)
        }
    }
    fn who(&self, a: SocketAddr) -> i64 {
        if a == self.sut {
            return 0;
        }
        self.peers.iter().position(|p| p.addr == a).map(|i| i as i64 + 1).unwrap_or(-1)
    }
    /// a round trip through dispatcher, network thread and component
    fn barrier(&mut self) {
        self.bars += 1;
        let me = self.bars;
        let sp = SystemPath::with_socket(Transport::Udp, self.sut);
        let path = match &self.npath {
            ActorPath::Unique(u) => ActorPath::Unique(UniquePath::with_system(sp, u.id())),
            ActorPath::Named(n) => ActorPath::Named(NamedPath::with_system(sp, n.path_ref().to_vec())),
        };
        for _ in 0..20 {
            self.n.tell(NMsg::Bar(path.clone(), me));
            let end = Instant::now() + Duration::from_millis(400);
            loop {
                match self.bar.recv_timeout(end.saturating_duration_since(Instant::now())) {
                    Ok(x) if x == me => return,
                    Ok(_) => continue,
                    Err(_) => break,
                }
            }
        }
        panic!("the network does not answer");
    }
    /// reads whatever arrived; true if anything did
    fn read_all(&mut self, acc: &mut Vec<(usize, TcpStream)>, was: usize) -> bool {
        let mut any = false;
        for (i, p) in self.peers.iter().enumerate() {
            if let Some(l) = &p.lst {
                while let Ok((s, _)) = l.accept() {
                    s.set_nonblocking(true).unwrap();
                    acc.push((i, s));
                    any = true;
                }
            }
        }
        for c in self.conns.iter_mut() {
            if c.gone || c.stalled || c.ended {
                continue;
            }
            let mut b = [0u8; 65536];
            loop {
                match c.st.read(&mut b) {
                    Ok(0) => {
                        c.ended = true;
                        any = true;
                        break;
                    }
                    Ok(n) => {
                        c.inb.extend(&b[..n]);
                        any = true;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        c.ended = true;
                        any = true;
                        break;
                    }
                }
            }
        }
        any || self.log.lock().unwrap().len() != was
    }
    fn settle(&mut self, mut ev: Value, long: bool) {
        let mut acc = vec![];
        let was: Vec<bool> = self.conns.iter().map(|c| c.ended).collect();
        let mut quiet = 0;
        let mut patience = Instant::now();
        while quiet < if long { 12 } else { 3 } {
            let before = self.log.lock().unwrap().len();
            if self.sys.is_some() {
                self.barrier();
            }
            if self.slow {
                std::thread::sleep(Duration::from_millis(if long { 60 } else { 40 }));
            } else if long {
                std::thread::sleep(Duration::from_millis(4));
            }
            if self.read_all(&mut acc, before) {
                quiet = 0;
                patience = Instant::now();
            } else if patience.elapsed() < Duration::from_secs(3) && self.conns.iter().any(|c| c.inside()) {
                // the rest of a frame is on its way
                std::thread::sleep(Duration::from_millis(2));
            } else {
                quiet += 1
            }
        }
        let mut st = vec![];
        let mut dl = vec![];
        let seen = std::mem::take(&mut *self.log.lock().unwrap());
        for s in seen {
            let mut x = json!({"k": "", "p": 0, "s": 0, "x": 0, "l": 0});
            let mut put = |k: &str, p: Option<SystemPath>, s: Option<SessionId>| {
                x["k"] = json!(k);
                if let Some(p) = p {
                    x["p"] = json!(self.who(p.socket_address()));
                }
                s
            };
            let sid = match s {
                Seen::Dl(n, s) => {
                    let s = s.map(|s| self.sid(s)).unwrap_or(0);
                    dl.push(json!({"n": n, "s": s}));
                    continue;
                }
                Seen::St(s) => match s {
                    NetworkStatus::ConnectionEstablished(p, s) => put("est", Some(p), Some(s)),
                    NetworkStatus::ConnectionLost(p, s) => put("lost", Some(p), Some(s)),
                    NetworkStatus::ConnectionClosed(p, s) => put("closed", Some(p), Some(s)),
                    NetworkStatus::ConnectionDropped(p) => put("drop", Some(p), None),
                    NetworkStatus::BlockedSystem(p) => put("bsys", Some(p), None),
                    NetworkStatus::AllowedSystem(p) => put("asys", Some(p), None),
                    NetworkStatus::BlockedIp(i) => {
                        put("bip", None, None);
                        x["x"] = json!(num(i));
                        None
                    }
                    NetworkStatus::AllowedIp(i) => {
                        put("aip", None, None);
                        x["x"] = json!(num(i));
                        None
                    }
                    NetworkStatus::BlockedIpNet(i) => {
                        put("bnet", None, None);
                        x["x"] = json!(num(i.network()));
                        x["l"] = json!(plen(&i));
                        None
                    }
                    NetworkStatus::AllowedIpNet(i) => {
                        put("anet", None, None);
                        x["x"] = json!(num(i.network()));
                        x["l"] = json!(plen(&i));
                        None
                    }
                    NetworkStatus::SoftConnectionLimitExceeded => put("soft", None, None),
                    NetworkStatus::HardConnectionLimitReached => put("hard", None, None),
                    NetworkStatus::CriticalNetworkFailure => put("crit", None, None),
                },
            };
            if let Some(s) = sid {
                x["s"] = json!(self.sid(s.as_u128()));
            }
            st.push(x);
        }
        let mut fr = vec![];
        for i in 0..self.conns.len() {
            for (k, n, s) in self.frames(i) {
                let s = s.map(|s| self.sid(s)).unwrap_or(0);
                fr.push(json!({"c": i + 1, "k": k, "n": n, "s": s}));
            }
        }
        let mut end = vec![];
        for (i, c) in self.conns.iter_mut().enumerate() {
            if c.ended && !was[i] {
                end.push(i + 1);
                if !c.inb.is_empty() && !c.junk {
                    fr.push(json!({"c": i + 1, "k": "cut", "n": 0, "s": 0}));
                }
            }
        }
        acc.sort_by_key(|a| a.0);
        let mut nw = vec![];
        for (p, st) in acc {
            nw.push(json!({"c": self.conns.len() + 1, "p": p + 1}));
            self.conns.push(Conn::new(st, p, true, 0));
        }
        ev["st"] = json!(st);
        ev["dl"] = json!(dl);
        ev["fr"] = json!(fr);
        ev["end"] = json!(end);
        ev["nw"] = json!(nw);
        self.t.push(ev);
    }
    fn frames(&mut self, i: usize) -> Vec<(String, i64, Option<u128>)> {
        let mut out = vec![];
        loop {
            let me = self.npath.clone();
            let c = &mut self.conns[i];
            if c.junk || c.inb.len() < 9 {
                break;
            }
            let h = &c.inb[..9];
            let len = u32::from_be_bytes(h[4..8].try_into().unwrap()) as usize;
            let ty = h[8];
            if h[..4] != 0xC0A1BA11u32.to_be_bytes() {
                c.junk = true;
                out.push(("junk".into(), 0, None));
                break;
            }
            if c.inb.len() < 9 + len {
                break;
            }
            let body: Vec<u8> = c.inb[9..9 + len].to_vec();
            c.inb.drain(..9 + len);
            let (k, n, s): (&str, i64, Option<u128>) = match ty {
                2 => {
                    let p = self.peers[self.conns[i].claim].addr;
                    let mut b = Bytes::from(body);
                    let r = (|| -> Result<i64, SerError> {
                        let src = ActorPath::deserialise(&mut b)?;
                        let dst = ActorPath::deserialise(&mut b)?;
                        if b.remaining() < 8 || b.get_u64() != 7001 || src != me || dst.system().socket_address() != p {
                            return Ok(-2);
                        }
                        Ok(Blob::deserialise(&mut b)?.0 as i64)
                    })();
                    ("data", r.unwrap_or(-3), None)
                }
                4 => {
                    let c = &mut self.conns[i];
                    c.hello = true;
                    ("hello", addr_of(&body).filter(|x| x.1 == body.len()).map(|x| self.who(x.0)).unwrap_or(-2), None)
                }
                5 => {
                    self.conns[i].start = true;
                    match addr_of(&body).filter(|x| x.1 + 16 == body.len()) {
                        Some((a, n)) => ("start", self.who(a), Some(u128::from_be_bytes(body[n..].try_into().unwrap()))),
                        None => ("start", -2, None),
                    }
                }
                6 => ("ack", 0, None),
                7 => {
                    self.conns[i].bye = true;
                    ("bye", 0, None)
                }
                _ => ("junk", ty as i64, None),
            };
            out.push((k.into(), n, s));
        }
        out
    }
    fn pick(&self, p: usize, out: bool, k: usize) -> Option<usize> {
        let v: Vec<usize> = (0..self.conns.len()).rev().filter(|i| self.conns[*i].p == p && self.conns[*i].out == out && !self.conns[*i].gone && !self.conns[*i].half && !self.conns[*i].ended).collect();
        if v.is_empty() { None } else { Some(v[k % v.len()]) }
    }
    /// sends a frame on connection i (perhaps only the first part of it)
    fn send(&mut self, i: usize, f: &Value, cut: usize) {
        let k = f["k"].as_str().unwrap();
        let q = f["q"].as_u64().unwrap_or(0) as usize;
        let p = self.conns[i].p;
        let own = self.peers[if q == 0 { p } else { q - 1 }].addr;
        let mut ev = json!({"e": "op", "o": "f", "k": k, "c": i + 1, "p": if q == 0 { p + 1 } else { q }, "s": 0, "n": 0});
        let by = match k {
            "hello" => {
                self.conns[i].done.0 = true;
                frame(4, &addr_bytes(own))
            }
            "start" => {
                let s = f["s"].as_i64().filter(|s| *s != 0).unwrap_or(self.conns[i].sid);
                ev["s"] = json!(s);
                if !self.conns[i].done.0 {
                    self.conns[i].claim = if q == 0 { p } else { q - 1 };
                }
                self.conns[i].done.0 = true;
                let mut b = addr_bytes(own);
                b.extend(sid_of(s).to_be_bytes());
                frame(5, &b)
            }
            "ack" => {
                self.conns[i].done.1 = true;
                frame(6, &[])
            }
            "bye" => {
                self.conns[i].done.2 = true;
                frame(7, &[])
            }
            "data" => {
                let n = f["n"].as_u64().unwrap();
                let k = f["z"].as_u64().unwrap_or(0) as usize;
                ev["n"] = json!(n);
                let mut b = BytesMut::with_capacity(k + 400);
                let src = ActorPath::Named(NamedPath::with_system(SystemPath::with_socket(Transport::Tcp, self.peers[p].addr), vec!["peer".into()]));
                src.serialise(&mut b).unwrap();
                self.npath.serialise(&mut b).unwrap();
                b.put_u64(7001);
                Blob(n, k).serialise(&mut b).unwrap();
                frame(2, &b)
            }
            "bad" => frame(2, &[1, 2, 3]),
            _ => vec![0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12],
        };
        if cut > 0 && by.len() > 1 {
            let cut = 1 + cut % (by.len() - 1);
            self.put(i, &by[..cut]);
            self.conns[i].rest = Some((by[cut..].to_vec(), ev));
            self.settle(json!({"e": "op", "o": "part", "c": i + 1, "k": k}), false);
        } else {
            self.put(i, &by);
            self.settle(ev, false);
        }
    }
    fn put(&mut self, i: usize, b: &[u8]) {
        let s = &mut self.conns[i].st;
        let _ = s.set_nonblocking(false);
        let _ = s.set_write_timeout(Some(Duration::from_secs(5)));
        let _ = s.write_all(b);
        let _ = s.set_nonblocking(true);
    }
    fn complete(&mut self, i: usize) {
        if let Some((b, ev)) = self.conns[i].rest.take() {
            self.put(i, &b);
            self.settle(ev, false);
        }
    }
    fn req(&mut self, r: NetworkStatusRequest, ev: Value) {
        self.n.tell(NMsg::Req(r));
        self.settle(ev, false);
    }
    fn spath(&self, p: usize) -> SystemPath {
        SystemPath::with_socket(Transport::Tcp, self.peers[p].addr)
    }
    fn op(&mut self, o: &Value) {
        let k = o["o"].as_str().unwrap();
        let p = o["p"].as_u64().map(|x| x as usize).unwrap_or(1) - 1;
        let x = o["x"].as_i64().unwrap_or(0);
        let l = o["l"].as_u64().unwrap_or(32) as u8;
        let net = |w: &W| -> ipnet::IpNet { ipnet::IpNet::new(w.ip(x), if w.v6 { l + 96 } else { l }).unwrap().trunc() };
        let mut ev = json!({"e": "op", "o": k, "p": p + 1});
        match k {
            "snd" => {
                let dst = ActorPath::Named(NamedPath::with_system(self.spath(p), vec!["x".into()]));
                ev["n"] = o["n"].clone();
                self.n.tell(NMsg::Send(dst, o["n"].as_u64().unwrap(), o["z"].as_u64().unwrap_or(0) as usize, o["how"].as_i64().unwrap_or(0)));
                self.settle(ev, false);
            }
            "conn" => self.req(NetworkStatusRequest::ConnectSystem(self.spath(p)), ev),
            "disc" => self.req(NetworkStatusRequest::DisconnectSystem(self.spath(p)), ev),
            "bsys" => self.req(NetworkStatusRequest::BlockSystem(self.spath(p)), ev),
            "asys" => self.req(NetworkStatusRequest::AllowSystem(self.spath(p)), ev),
            "bip" | "aip" => {
                ev["x"] = json!(x);
                ev["l"] = json!(32);
                let i = self.ip(x);
                self.req(if k == "bip" { NetworkStatusRequest::BlockIp(i) } else { NetworkStatusRequest::AllowIp(i) }, ev)
            }
            "bnet" | "anet" => {
                let i = net(self);
                ev["x"] = json!(num(i.network()));
                ev["l"] = json!(l);
                self.req(if k == "bnet" { NetworkStatusRequest::BlockIpNet(i) } else { NetworkStatusRequest::AllowIpNet(i) }, ev)
            }
            "tick" => {
                self.timer.advance_by(Duration::from_millis(TICK));
                self.settle(ev, false);
            }
            "listen" => {
                let on = o["on"].as_bool().unwrap();
                if on == self.peers[p].lst.is_some() {
                    return;
                }
                ev["on"] = json!(on);
                self.listen(p, on);
                self.settle(ev, false);
            }
            "auto" => {
                self.peers[p].auto = o["on"].as_bool().unwrap();
            }
            "dial" => {
                let a = self.peers[p].addr;
                let fd = bound(SocketAddr::new(a.ip(), 0));
                if self.peers[p].small {
                    shrink(fd, false);
                }
                let (s, n) = sockaddr(self.sut);
                let r = unsafe { libc::connect(fd, &s as *const _ as *const _, n) };
                let st = unsafe { TcpStream::from_raw_fd(fd) };
                if r != 0 {
                    panic!("the system does not accept connections");
                }
                st.set_nonblocking(true).unwrap();
                let sid = o["s"].as_i64().unwrap_or(0);
                self.conns.push(Conn::new(st, p, false, sid));
                ev["c"] = json!(self.conns.len());
                self.settle(ev, false);
            }
            "f" | "fin" | "rst" | "stall" | "flow" => {
                let Some(i) = self.pick(p, o["d"].as_str().unwrap() == "o", o["i"].as_u64().unwrap_or(0) as usize) else { return };
                ev["c"] = json!(i + 1);
                match k {
                    "f" => {
                        if self.conns[i].rest.is_some() {
                            return self.complete(i);
                        }
                        self.send(i, &o["f"], o["cut"].as_u64().unwrap_or(0) as usize)
                    }
                    "fin" => {
                        let _ = self.conns[i].st.shutdown(std::net::Shutdown::Write);
                        self.conns[i].half = true;
                        self.settle(ev, false);
                    }
                    "rst" => {
                        let c = &mut self.conns[i];
                        let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe { libc::setsockopt(c.st.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32) };
                        c.gone = true;
                        let fresh = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                        let dummy = TcpStream::connect(fresh.local_addr().unwrap()).unwrap();
                        drop(std::mem::replace(&mut c.st, dummy));
                        self.settle(ev, false);
                    }
                    "stall" => {
                        if self.conns[i].stalled {
                            return;
                        }
                        self.conns[i].stalled = true;
                        let (a, b) = (self.conns[i].st.local_addr(), self.conns[i].st.peer_addr());
                        if let (Ok(a), Ok(b)) = (a, b) {
                            if let Some(fd) = find_fd(b, a) {
                                shrink(fd, true);
                            }
                        }
                        self.settle(ev, false);
                    }
                    _ => {
                        if !self.conns[i].stalled {
                            return;
                        }
                        self.conns[i].stalled = false;
                        setopt(self.conns[i].st.as_raw_fd(), libc::SO_RCVBUF, 1 << 18);
                        if let (Ok(a), Ok(b)) = (self.conns[i].st.local_addr(), self.conns[i].st.peer_addr()) {
                            if let Some(fd) = find_fd(b, a) {
                                setopt(fd, libc::SO_SNDBUF, 1 << 18);
                            }
                        }
                        self.settle(ev, true);
                    }
                }
            }
            x => panic!("op {}", x),
        }
    }
    fn listen(&mut self, p: usize, on: bool) {
        let pe = &mut self.peers[p];
        if on {
            unsafe { assert_eq!(libc::listen(pe.held, 64), 0) };
            let l = unsafe { TcpListener::from_raw_fd(pe.held) };
            l.set_nonblocking(true).unwrap();
            pe.lst = Some(l);
        } else {
            pe.lst = None;
            pe.held = bound(pe.addr);
            if pe.small {
                shrink(pe.held, false);
            }
        }
    }
    /// what well-behaved peers do by themselves
    fn auto(&mut self) {
        for _ in 0..200 {
            let mut todo = None;
            for (i, c) in self.conns.iter().enumerate() {
                if !self.peers[c.p].auto || c.gone || c.half || c.ended || c.rest.is_some() {
                    continue;
                }
                if c.out && !c.done.0 {
                    todo = Some((i, "hello"));
                } else if c.out && c.start && !c.done.1 {
                    todo = Some((i, "ack"));
                } else if !c.out && c.hello && !c.done.0 {
                    todo = Some((i, "start"));
                } else if c.bye && !c.done.2 {
                    todo = Some((i, "bye"));
                } else {
                    continue;
                }
                break;
            }
            match todo {
                Some((i, k)) => self.send(i, &json!({"k": k}), 0),
                None => return,
            }
        }
    }
}
impl Conn {
    /// whether a frame has arrived in part only
    fn inside(&self) -> bool {
        if self.gone || self.stalled || self.ended || self.junk {
            return false;
        }
        let mut i = 0;
        while i < self.inb.len() {
            if self.inb.len() < i + 9 {
                return true;
            }
            i += 9 + u32::from_be_bytes(self.inb[i + 4..i + 8].try_into().unwrap()) as usize;
        }
        i > self.inb.len()
    }
    fn new(st: TcpStream, p: usize, out: bool, sid: i64) -> Conn {
        // what is written must leave at once
        let _ = st.set_nodelay(true);
        Conn { st, p, claim: p, out, sid, inb: vec![], junk: false, ended: false, gone: false, half: false, stalled: false, rest: None, hello: false, start: false, bye: false, done: (false, false, false) }
    }
}
fn num(i: IpAddr) -> i64 {
    match i {
        IpAddr::V4(i) => {
            let x = u32::from(i);
            if x >> 16 == (127 << 8) + 1 { (x & 0xffff) as i64 } else { -1 }
        }
        IpAddr::V6(i) => {
            let x = u128::from(i);
            if x < 65536 { x as i64 } else { -1 }
        }
    }
}
fn plen(n: &ipnet::IpNet) -> i64 {
    n.prefix_len() as i64 - if n.max_prefix_len() == 128 { 96 } else { 0 }
}

pub fn run(sc: &Value) -> Vec<Value> {
    let v6 = sc["v6"].as_bool().unwrap_or(false);
    let mut conf = KompactConfig::default();
    conf.threads(1).logger(discard_logger());
    let timer = kompact::default_components::install_manual_timer(&mut conf);
    let mut nc = NetworkConfig::new(if v6 { "[::1]:0" } else { "127.0.0.1:0" }.parse().unwrap());
    nc.set_connection_retry_interval(TICK);
    nc.set_max_connection_retry_attempts(sc["max"].as_u64().unwrap() as u8);
    nc.set_soft_connection_limit(sc["soft"].as_u64().unwrap() as u32);
    nc.set_hard_connection_limit(sc["hard"].as_u64().unwrap() as u32);
    conf.system_components(DeadletterBox::new, nc.build());
    let sys = conf.build().wait().expect("system");
    let log = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = channel();
    let l2 = log.clone();
    let n = sys.create(move || N { ctx: ComponentContext::uninitialised(), net: RequiredPort::uninitialised(), log: l2, bar: tx });
    n.on_definition(|c| sys.connect_network_status_port(&mut c.net));
    let npath = sys.register(&n).wait_timeout(Duration::from_secs(5)).expect("in time").expect("registered");
    sys.start_notify(&n).wait_timeout(Duration::from_secs(5)).expect("started");
    let sut = sys.system_path().socket_address();
    let mut w = W { n: n.actor_ref(), npath, sut, log, bar: rx, bars: 0, peers: vec![], conns: vec![], sids: HashMap::new(), v6, slow: std::env::var("KV_SLOW").is_ok(), t: vec![], timer, sys: Some(sys) };
    let mut pp = vec![];
    for p in sc["peers"].as_array().unwrap() {
        let x = p["x"].as_i64().unwrap();
        let fd = bound(SocketAddr::new(w.ip(x), 0));
        let small = p["small"].as_bool().unwrap_or(false);
        if small {
            shrink(fd, false);
        }
        let s = std::mem::ManuallyDrop::new(unsafe { TcpListener::from_raw_fd(fd) });
        w.peers.push(Peer { addr: s.local_addr().unwrap(), lst: None, held: fd, auto: p["auto"].as_bool().unwrap_or(false), small });
        let on = p["on"].as_bool().unwrap_or(true);
        if on {
            w.listen(w.peers.len() - 1, true);
        }
        pp.push(json!({"x": x, "on": on}));
    }
    w.t.push(json!({"e": "cfg", "max": sc["max"], "soft": sc["soft"], "hard": sc["hard"], "peers": pp}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for o in sc["ops"].as_array().unwrap() {
            w.op(o);
            w.auto();
        }
        if sc["down"].as_bool().unwrap_or(true) {
            let sys = w.sys.take().unwrap();
            sys.shutdown().wait_timeout(Duration::from_secs(10)).expect("in time").expect("shutdown");
            for c in w.conns.iter_mut() {
                c.stalled = false;
            }
            w.settle(json!({"e": "op", "o": "down"}), true);
        }
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        w.t.push(json!({"e": "dead", "why": m}));
    }
    if let Some(sys) = w.sys.take() {
        sys.shutdown().wait_timeout(Duration::from_secs(10)).ok();
    }
    for p in &w.peers {
        if p.lst.is_none() {
            unsafe { libc::close(p.held) };
        }
    }
    w.t
}
pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
