//! Frame world: a byte stream cut in any way is fed to a real DecodeBuffer; frames are encoded by the real encoders.
use crate::bufs::{Alloc, pattern};
use bytes::{Buf, BufMut, BytesMut};
use kompact::net::buffers::{BufferConfig, BufferPool, ChunkLease, DecodeBuffer, EncodeBuffer};
use kompact::net::frames::{Data, Frame, FramingError, Hello, Start};
use kompact::net::SessionId;
use serde_json::{Value, json};
use std::net::{IpAddr, SocketAddr};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

pub fn stream_of(ps: &Value) -> Vec<u8> {
    let mut o = vec![];
    for p in ps.as_array().unwrap() {
        if let Some(b) = p.get("b") {
            o.extend(b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8));
        } else {
            let n = p["n"].as_u64().unwrap();
            let s = p["seed"].as_u64().unwrap();
            o.extend((0..n).map(|i| pattern(s, i)));
        }
    }
    o
}
fn ip_bytes(a: &SocketAddr) -> Vec<u8> {
    match a.ip() {
        IpAddr::V4(x) => x.octets().to_vec(),
        IpAddr::V6(x) => x.octets().to_vec(),
    }
}
fn jb(b: &[u8]) -> Value {
    json!(b)
}
struct Held {
    lease: ChunkLease,
    was: Vec<u8>,
}
struct D {
    pool: BufferPool,
    dec: DecodeBuffer,
    by: Vec<u8>,
    fed: usize,
    held: Vec<Held>,
}
impl D {
    fn swap(&mut self, log: &mut Vec<Value>) -> bool {
        match self.pool.get_buffer() {
            None => {
                log.push(json!({"e":"swap","r":"none"}));
                false
            }
            Some(mut b) => {
                let r = catch_unwind(AssertUnwindSafe(|| self.dec.swap_buffer(&mut b)));
                self.pool.return_buffer(b);
                log.push(json!({"e":"swap","r": if r.is_ok() { "ok" } else { "panic" }}));
                r.is_ok()
            }
        }
    }
    /// feeds at most n bytes, as one read would
    fn feed(&mut self, n: usize, log: &mut Vec<Value>) -> bool {
        for _ in 0..3 {
            let left = self.by.len() - self.fed;
            if let Some(w) = self.dec.get_writeable() {
                let k = n.min(w.len()).min(left);
                w[..k].copy_from_slice(&self.by[self.fed..self.fed + k]);
                self.dec.advance_writeable(k);
                self.fed += k;
                log.push(json!({"e":"feed","n":k}));
                return true;
            }
            // the owner of the buffer drains it before swapping
            if !self.drain(log) || !self.swap(log) {
                return false;
            }
        }
        log.push(json!({"e":"feed","n":-1}));
        false
    }
    fn get(&mut self, log: &mut Vec<Value>) -> &'static str {
        let r = catch_unwind(AssertUnwindSafe(|| self.dec.get_frame()));
        match r {
            Err(_) => {
                log.push(json!({"e":"get","r":"panic"}));
                "panic"
            }
            Ok(Err(FramingError::NoData)) => {
                log.push(json!({"e":"get","r":"nodata"}));
                "nodata"
            }
            Ok(Err(_)) => {
                log.push(json!({"e":"get","r":"err"}));
                "err"
            }
            Ok(Ok(f)) => {
                match f {
                    Frame::Data(d) => {
                        let lease = d.payload();
                        let was = catch_unwind(AssertUnwindSafe(|| lease.create_byte_clone().to_vec()));
                        let Ok(was) = was else {
                            log.push(json!({"e":"get","r":"panic"}));
                            return "panic";
                        };
                        let n = was.len();
                        let (b, ats): (Vec<u8>, Vec<usize>) = if n <= 64 {
                            (was.clone(), vec![])
                        } else {
                            let mut a = vec![];
                            if n <= self.by.len() {
                                for o in 0..=self.by.len() - n {
                                    if self.by[o] == was[0] && self.by[o..o + n] == was[..] {
                                        a.push(o);
                                        if a.len() > 50 {
                                            break;
                                        }
                                    }
                                }
                            }
                            (vec![], a)
                        };
                        log.push(json!({"e":"get","r":"data","n":n,"b":jb(&b),"ats":ats}));
                        self.held.push(Held { lease, was });
                    }
                    Frame::Hello(h) => {
                        log.push(json!({"e":"get","r":"hello","ip":jb(&ip_bytes(&h.addr())),"port":h.addr().port(),"id":[]}));
                    }
                    Frame::Start(h) => {
                        log.push(json!({"e":"get","r":"start","ip":jb(&ip_bytes(&h.addr())),"port":h.addr().port(),"id":jb(&h.id().as_u128().to_be_bytes())}));
                    }
                    Frame::Ack() => log.push(json!({"e":"get","r":"ack"})),
                    Frame::Bye() => log.push(json!({"e":"get","r":"bye"})),
                }
                "frame"
            }
        }
    }
    fn drain(&mut self, log: &mut Vec<Value>) -> bool {
        loop {
            match self.get(log) {
                "frame" => (),
                "nodata" => return true,
                _ => return false,
            }
        }
    }
    fn check(&mut self, log: &mut Vec<Value>) {
        let bad = self.held.iter().filter(|h| h.lease.create_byte_clone()[..] != h.was[..]).count();
        log.push(json!({"e":"chk","bad":bad,"n":self.held.len()}));
    }
}

fn encode(o: &Value, log: &mut Vec<Value>, alloc: &Arc<Alloc>) {
    let addr = |o: &Value| {
        let ip: Vec<u8> = o["ip"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let ip: IpAddr = if ip.len() == 4 { IpAddr::from(<[u8; 4]>::try_from(ip).unwrap()) } else { IpAddr::from(<[u8; 16]>::try_from(ip).unwrap()) };
        SocketAddr::new(ip, o["port"].as_u64().unwrap() as u16)
    };
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128);
    cfg.encode_buf_min_free_space(0);
    let a: Arc<dyn kompact::net::buffers::ChunkAllocator> = alloc.clone();
    let mut enc = EncodeBuffer::with_config(&cfg, &Some(a));
    let mut frame = match o["k"].as_str().unwrap() {
        "ack" => Frame::Ack(),
        "bye" => Frame::Bye(),
        "hello" => Frame::Hello(Hello::new(addr(o))),
        "start" => {
            let id: Vec<u8> = o["id"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            Frame::Start(Start::new(addr(o), SessionId::from_u128(u128::from_be_bytes(id.try_into().unwrap()))))
        }
        _ => {
            let b: Vec<u8> = o["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let skip = o["skip"].as_u64().unwrap() as usize;
            let mut e = enc.get_buffer_encoder().unwrap();
            e.put_slice(&vec![77u8; o["pre"].as_u64().unwrap() as usize]);
            let _ = e.get_chunk_lease();
            e.put_slice(&vec![78u8; skip]);
            e.put_slice(&b);
            let mut l = e.get_chunk_lease().unwrap_or_else(|_| ChunkLease::empty());
            drop(e);
            l.advance(skip);
            Frame::Data(Data::new(l))
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let len = frame.encoded_len();
        let mut dst = BytesMut::new().limit(100_000);
        frame.encode_into(&mut dst).map(|_| (len, dst.into_inner().to_vec()))
    }));
    let (r, len, by) = match r {
        Ok(Ok((l, b))) => ("ok", l, b),
        Ok(Err(_)) => ("err", 0, vec![]),
        Err(_) => ("panic", 0, vec![]),
    };
    log.push(json!({"e":"fenc","f":o,"r":r,"len":len,"by":jb(&by)}));
}

pub fn run(sc: &Value) -> Vec<Value> {
    let c = &sc["cfg"];
    let alloc = Alloc::new(c["cs"].as_u64().unwrap() as usize);
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(c["cs"].as_u64().unwrap() as usize);
    cfg.initial_chunk_count(c["init"].as_u64().unwrap() as usize);
    cfg.max_chunk_count(c["max"].as_u64().unwrap() as usize);
    cfg.encode_buf_min_free_space(c["free"].as_u64().unwrap() as usize);
    let a: Arc<dyn kompact::net::buffers::ChunkAllocator> = alloc.clone();
    let mut pool = BufferPool::with_config(&cfg, &Some(a));
    let dec = DecodeBuffer::new(pool.get_buffer().unwrap(), &cfg);
    let mut log = vec![json!({"e":"cfg","ps":sc["ps"]})];
    let mut d = D { pool, dec, by: stream_of(&sc["ps"]), fed: 0, held: vec![] };
    let mut dead = false;
    for o in sc["ops"].as_array().unwrap() {
        if dead {
            break;
        }
        let n = o[1].as_u64().unwrap_or(0) as usize;
        match o[0].as_str().unwrap() {
            "f" => dead = !d.feed(n, &mut log),
            "g" => dead = d.get(&mut log) == "panic",
            "G" => dead = !d.drain(&mut log),
            "h" => {
                let r = catch_unwind(AssertUnwindSafe(|| d.dec.has_frame()));
                log.push(json!({"e":"has","r": match r { Err(_) => "panic", Ok(Err(_)) => "err", Ok(Ok(true)) => "yes", Ok(Ok(false)) => "no" }}));
            }
            "s" => dead = !d.drain(&mut log) || !d.swap(&mut log),
            "d" => {
                if !d.held.is_empty() {
                    let i = n % d.held.len();
                    d.held.remove(i);
                }
            }
            "c" => d.check(&mut log),
            "e" => encode(&o[1], &mut log, &alloc),
            x => panic!("op {}", x),
        }
    }
    // everything that is left
    while !dead && d.fed < d.by.len() {
        dead = !d.drain(&mut log) || !d.feed(100_000, &mut log);
    }
    if !dead {
        d.drain(&mut log);
    }
    d.check(&mut log);
    drop(d);
    drop(alloc);
    log
}

pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
