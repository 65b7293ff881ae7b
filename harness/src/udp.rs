//! Datagram world: one real system on a real UDP socket, and raw peers that send it whatever they like.
use crate::core_world::discard_logger;
use crate::net::Blob;
use kompact::net::buffers::BufferConfig;
use kompact::prelude::*;
use kompact_net::*;
use serde_json::{Value, json};
use std::net::{IpAddr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// so many bytes of a datagram are written down
const HEAD: usize = 200;

#[derive(Default)]
struct Log {
    dl: Vec<Value>,
    nosend: Vec<u64>,
}
type L = Arc<Mutex<Log>>;
#[derive(Debug)]
enum UMsg {
    Send(ActorPath, u64, usize, i64),
    Hold(bool),
    Fwd(ActorPath),
}
#[derive(ComponentDefinition)]
struct U {
    ctx: ComponentContext<Self>,
    name: &'static str,
    log: L,
    hold: bool,
    held: Vec<NetMessage>,
    fwd: Option<ActorPath>,
    bar: Option<std::sync::mpsc::Sender<i64>>,
}
ignore_lifecycle!(U);
impl U {
    fn new(name: &'static str, log: L) -> U {
        U { ctx: ComponentContext::uninitialised(), name, log, hold: false, held: vec![], fwd: None, bar: None }
    }
}
/// the wire form of a path, by hand
fn path_bytes(p: &ActorPath) -> Vec<u8> {
    let s = p.system();
    let t = match s.protocol() {
        Transport::Local => 0,
        Transport::Tcp => 1,
        Transport::Udp => 2,
    };
    let a = s.socket_address();
    let mut v = vec![t | if a.is_ipv6() { 32 } else { 0 } | if matches!(p, ActorPath::Named(_)) { 128 } else { 0 }];
    match a.ip() {
        IpAddr::V4(i) => v.extend(i.octets()),
        IpAddr::V6(i) => v.extend(i.octets()),
    }
    v.extend(a.port().to_be_bytes());
    match p {
        ActorPath::Unique(u) => v.extend(u.id().as_bytes()),
        ActorPath::Named(n) => {
            let n = n.path_ref().join("/");
            v.extend((n.len() as u16).to_be_bytes());
            v.extend(n.as_bytes());
        }
    }
    v
}
fn saw(log: &L, to: &str, m: &NetMessage) {
    let s = m.session().is_some();
    let src = path_bytes(m.sender());
    let n = m.peek();
    log.lock().unwrap().dl.push(json!({"to": to, "src": src, "n": n, "s": s}));
}
trait Peek {
    fn peek(&self) -> i64;
}
impl Peek for NetMessage {
    fn peek(&self) -> i64 {
        // reading takes the message; a copy of it is read
        match self.try_clone() {
            Ok(c) => c.try_deserialise::<Blob, Blob>().map(|b| (b.0 & 0x3fff_ffff) as i64).unwrap_or(-1),
            Err(_) => -2,
        }
    }
}
impl Actor for U {
    type Message = UMsg;
    fn receive_local(&mut self, m: UMsg) -> HandlerResult {
        match m {
            UMsg::Send(dst, n, k, how) => {
                let r = match how {
                    1 => dst.tell_serialised(Blob(n, k), self).is_ok(),
                    2 => match self.ctx.preserialise(&Blob(n, k)) {
                        Ok(c) => dst.tell_preserialised(c, self).is_ok(),
                        Err(_) => false,
                    },
                    _ => {
                        dst.tell(Blob(n, k), self);
                        true
                    }
                };
                if !r {
                    self.log.lock().unwrap().nosend.push(n);
                }
            }
            UMsg::Hold(h) => {
                self.hold = h;
                if !h {
                    self.held.clear();
                }
            }
            UMsg::Fwd(p) => self.fwd = Some(p),
        }
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        if let Some(p) = &self.fwd {
            p.forward_with_original_sender(m, self);
            return Handled::OK;
        }
        if let Some(b) = &self.bar {
            let _ = b.send(m.peek());
            return Handled::OK;
        }
        saw(&self.log, self.name, &m);
        if self.hold {
            self.held.push(m);
        }
        Handled::OK
    }
}
#[derive(ComponentDefinition)]
struct Dead {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
    log: L,
}
impl ComponentLifecycle for Dead {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            p.complete().unwrap();
        }
        Handled::OK
    }
}
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        saw(&self.log, "dead", &m);
        Handled::OK
    }
}

struct W {
    sys: KompactSystem,
    log: L,
    u: ActorRef<UMsg>,
    sut: SocketAddr,
    /// what the targets are called in a datagram
    names: Vec<(String, Vec<u8>)>,
    peers: Vec<UdpSocket>,
    addrs: Vec<SocketAddr>,
    t: Vec<Value>,
    slow: bool,
    /// how many deliveries and datagrams there should be by now, as far as the script knows
    want: (usize, usize),
    got: (usize, usize),
    own: UdpSocket,
    bars: u64,
    bar: std::sync::mpsc::Receiver<i64>,
}
pub fn pat(n: u64, i: usize) -> u8 {
    (n as usize).wrapping_mul(31).wrapping_add(i) as u8
}
impl W {
    fn ppath(&self, p: i64) -> ActorPath {
        let a: SocketAddr = match p {
            // where nothing can be sent to
            -1 => SocketAddr::new(self.sut.ip(), 0),
            -2 => if self.sut.is_ipv4() { "[::1]:9".parse().unwrap() } else { "127.0.0.1:9".parse().unwrap() },
            p => self.addrs[p as usize - 1],
        };
        ActorPath::Named(NamedPath::with_system(SystemPath::with_socket(Transport::Udp, a), vec!["x".into()]))
    }
    fn message(&self, m: &Value, src: &[u8]) -> Vec<u8> {
        let n = m["n"].as_u64().unwrap();
        let z = m["z"].as_u64().unwrap() as usize;
        let to = m["to"].as_str().unwrap();
        let mut b = src.to_vec();
        b.extend(&self.names.iter().find(|x| x.0 == to).unwrap().1);
        b.extend(m["sid"].as_u64().unwrap_or(7001).to_be_bytes());
        b.extend(n.to_be_bytes());
        b.extend((z as u64).to_be_bytes());
        b.extend((0..z).map(|i| pat(n, i)));
        if let Some(i) = m["flip"].as_u64() {
            let l = b.len();
            b[l - 1 - (i as usize % z)] ^= 1;
        }
        let mut v = 0xC0A1BA11u32.to_be_bytes().to_vec();
        if let Some(i) = m["magic"].as_u64() {
            v[i as usize % 4] ^= 1;
        }
        v.extend(((b.len() as i64 + m["flen"].as_i64().unwrap_or(0)).max(0) as u32).to_be_bytes());
        v.push(m["ty"].as_u64().unwrap_or(2) as u8);
        v.extend(b);
        if let Some(c) = m["cut"].as_u64() {
            let l = v.len();
            v.truncate(l - 1 - c as usize % (l - 1));
        }
        if let Some(e) = m["set"].as_array() {
            for x in e {
                let l = v.len();
                v[x[0].as_u64().unwrap() as usize % l] = x[1].as_u64().unwrap() as u8;
            }
        }
        v
    }
    fn act(&mut self, a: &Value, ins: &mut Vec<Value>, outs: &mut Vec<Value>) {
        if let Some(d) = a.get("i") {
            let p = d["p"].as_u64().unwrap() as usize - 1;
            let src = path_bytes(&ActorPath::Named(NamedPath::with_system(SystemPath::with_socket(Transport::Udp, self.addrs[p]), vec!["peer".into()])));
            let mut v = vec![];
            let mut flip = false;
            for m in d["ms"].as_array().unwrap() {
                if let Some(b) = m["b"].as_array() {
                    v.extend(b.iter().map(|x| x.as_u64().unwrap() as u8));
                } else {
                    flip |= m["flip"].is_u64();
                    v.extend(self.message(m, &src));
                }
            }
            self.peers[p].send_to(&v, self.sut).expect("send");
            ins.push(json!({"len": v.len(), "b": v[..v.len().min(HEAD)], "flip": flip}));
            let w = &d["want"];
            self.want.0 += w[0].as_u64().unwrap() as usize;
            self.want.1 += w[1].as_u64().unwrap() as usize;
        } else {
            let s = &a["s"];
            let p = s["p"].as_i64().unwrap();
            let (n, z) = (s["n"].as_u64().unwrap(), s["z"].as_u64().unwrap() as usize);
            self.u.tell(UMsg::Send(self.ppath(p), n, z, s["how"].as_i64().unwrap()));
            outs.push(json!({"p": p, "n": n, "k": z}));
            self.want.1 += s["want"].as_u64().unwrap() as usize;
        }
    }
    fn barrier(&mut self) -> bool {
        self.bars += 1;
        let src = path_bytes(&ActorPath::Named(NamedPath::with_system(SystemPath::with_socket(Transport::Udp, self.own.local_addr().unwrap()), vec!["b".into()])));
        let m = self.message(&json!({"to": "b", "n": self.bars, "z": 0}), &src);
        let _ = self.own.send_to(&m, self.sut);
        let end = Instant::now() + Duration::from_millis(if self.slow { 2000 } else { 500 });
        while let Ok(n) = self.bar.recv_timeout(end.saturating_duration_since(Instant::now())) {
            if n == self.bars as i64 {
                return true;
            }
        }
        false
    }
    fn settle(&mut self, mut ev: Value, firm: bool) {
        let mut rx = vec![];
        let mut dl = vec![];
        let mut nosend = vec![];
        let mut at = Instant::now();
        let limit = Duration::from_millis(if self.slow { 8000 } else { 2500 });
        let mut b = vec![0u8; 70000];
        let mut last = false;
        let mut tries = 0;
        loop {
            let mut any = false;
            for p in 0..self.peers.len() {
                while let Ok((n, from)) = self.peers[p].recv_from(&mut b) {
                    any = true;
                    let d = &b[..n];
                    // where the content of a message begins, if it is one
                    let at = d.windows(8).position(|w| w == 7001u64.to_be_bytes()).map(|i| i + 8);
                    let ok = match at {
                        Some(i) if n >= i + 16 => {
                            let m = u64::from_be_bytes(d[i..i + 8].try_into().unwrap());
                            d[i + 16..].iter().enumerate().all(|(j, x)| *x == pat(m, j))
                        }
                        _ => false,
                    };
                    rx.push(json!({"p": p + 1, "len": n, "b": d[..n.min(HEAD)], "ok": ok && from == self.sut}));
                }
            }
            {
                let mut l = self.log.lock().unwrap();
                any |= !l.dl.is_empty();
                dl.append(&mut l.dl);
                nosend.append(&mut l.nosend);
            }
            if any {
                at = Instant::now();
                last = false;
                continue;
            }
            let enough = !firm || (self.got.0 + dl.len() >= self.want.0 && self.got.1 + rx.len() + nosend.len() >= self.want.1);
            if enough {
                // everything before this one has been read
                if firm && tries < 4 {
                    tries += 1;
                    if self.barrier() {
                        tries = 4;
                    }
                    continue;
                }
                if last {
                    break;
                }
                last = true;
                std::thread::sleep(Duration::from_millis(if self.slow { 30 } else if firm { 1 } else { 10 }));
            } else {
                if at.elapsed() > limit {
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        self.got.0 += dl.len();
        self.got.1 += rx.len() + nosend.len();
        self.want = if firm { self.got } else { (self.want.0.max(self.got.0), self.want.1.max(self.got.1)) };
        ev["dl"] = json!(dl);
        ev["rx"] = json!(rx);
        ev["no"] = json!(nosend);
        for k in ["in", "out"] {
            if ev.get(k).is_none() {
                ev[k] = json!([]);
            }
        }
        self.t.push(ev);
    }
}

pub fn run(sc: &Value) -> Vec<Value> {
    let v6 = sc["v6"].as_bool().unwrap_or(false);
    let any: SocketAddr = if v6 { "[::1]:0" } else { "127.0.0.1:0" }.parse().unwrap();
    let mut conf = KompactConfig::default();
    conf.threads(1).logger(discard_logger());
    let mut nc = NetworkConfig::new(any);
    nc.set_connection_retry_interval(30);
    nc.set_max_connection_retry_attempts(250);
    if let Some(c) = sc["chunk"].as_u64() {
        let mut b = BufferConfig::default();
        b.chunk_size(c as usize);
        b.initial_chunk_count(2);
        b.max_chunk_count(sc["most"].as_u64().unwrap() as usize);
        nc.set_buffer_config(b);
    }
    let log: L = Default::default();
    let l2 = log.clone();
    conf.system_components(move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), log: l2.clone() }, nc.build());
    let sys = conf.build().wait().expect("system");
    let sut = sys.system_path().socket_address();
    let mut peers = vec![];
    let mut addrs = vec![];
    for _ in 0..sc["peers"].as_u64().unwrap() {
        let s = UdpSocket::bind(any).unwrap();
        s.set_nonblocking(true).unwrap();
        addrs.push(s.local_addr().unwrap());
        peers.push(s);
    }
    let t = Duration::from_secs(5);
    let mut names = vec![];
    let mut refs = vec![];
    let mut me = vec![];
    let (tx, bar) = std::sync::mpsc::channel();
    for name in ["u", "v", "f", "b"] {
        let l = log.clone();
        let b = if name == "b" { Some(tx.clone()) } else { None };
        let c = sys.create(move || { let mut u = U::new(name, l); u.bar = b; u });
        let p = sys.register(&c).wait_timeout(t).expect("in time").expect("registered");
        sys.register_by_alias(&c, name).wait_timeout(t).expect("in time").expect("registered");
        sys.start_notify(&c).wait_timeout(t).expect("started");
        if name == "u" {
            me = path_bytes(&p);
        }
        let usys = SystemPath::with_socket(Transport::Udp, sut);
        if let ActorPath::Unique(u) = &p {
            names.push((format!("{}#", name), path_bytes(&ActorPath::Unique(UniquePath::with_system(usys.clone(), u.id())))));
        }
        names.push((name.to_string(), path_bytes(&ActorPath::Named(NamedPath::with_system(usys, vec![name.into()])))));
        refs.push(c.actor_ref());
    }
    let usys = SystemPath::with_socket(Transport::Udp, sut);
    names.push(("nobody".into(), path_bytes(&ActorPath::Named(NamedPath::with_system(usys.clone(), vec!["nobody".into()])))));
    names.push(("nobody#".into(), path_bytes(&ActorPath::Unique(UniquePath::with_system(usys, uuid::Uuid::from_u128(77))))));
    let mut w = W { sys, log, u: refs[0].clone(), sut, names, peers, addrs, t: vec![], slow: std::env::var("KV_SLOW").is_ok(), want: (0, 0), got: (0, 0), own: UdpSocket::bind(any).unwrap(), bars: 0, bar };
    refs[2].tell(UMsg::Fwd(w.ppath(1)));
    let to: Vec<Value> = w.names.iter().map(|(n, b)| json!({"b": b, "to": n.trim_end_matches('#')})).collect();
    let pp: Vec<Value> = (0..w.peers.len()).map(|p| json!(path_bytes(&w.ppath(p as i64 + 1)))).collect();
    w.t.push(json!({"e": "cfg", "me": me, "to": to, "peers": pp, "chunk": sc["chunk"].as_u64().unwrap_or(128000), "tight": sc["chunk"].is_u64()}));
    let mut firm = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for o in sc["ops"].as_array().unwrap() {
            match o["o"].as_str().unwrap() {
                "go" => {
                    let (mut i, mut x) = (vec![], vec![]);
                    for a in o["a"].as_array().unwrap() {
                        w.act(a, &mut i, &mut x);
                    }
                    w.settle(json!({"e": "go", "in": i, "out": x}), firm);
                }
                "hold" => {
                    firm = !o["on"].as_bool().unwrap();
                    refs[0].tell(UMsg::Hold(!firm));
                    refs[1].tell(UMsg::Hold(!firm));
                    w.settle(json!({"e": "hold", "on": !firm}), firm);
                }
                x => panic!("op {}", x),
            }
        }
        std::thread::sleep(Duration::from_millis(5));
        w.settle(json!({"e": "go"}), firm);
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        w.t.push(json!({"e": "dead", "why": m}));
    }
    w.sys.shutdown().wait_timeout(Duration::from_secs(10)).ok();
    w.t
}
pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
