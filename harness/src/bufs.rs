//! Buffer world: histories of writing, holding, sharing and dropping on real EncodeBuffers, BufferPools and DecodeBuffers,
//! over an allocator that hands out recognisable memory and notices what is released when.
use bytes::{Buf, BufMut};
use kompact::net::buffers::*;
use kompact::net::frames::{Frame, FramingError};
use kompact::prelude::ser_helpers::{embed_msg, preserialise_msg, serialise_msg, serialise_msg_with_preserialised};
use kompact::prelude::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

pub fn pattern(s: u64, i: u64) -> u8 {
    ((s * 31 + i * 7 + (i / 251) * 13 + (i / 63001) * 29) % 256) as u8
}

// ------------------------------------------------------------------ allocator
struct TChunk {
    mem: *mut u8,
    len: usize,
    id: usize,
}
impl Chunk for TChunk {
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.mem
    }
    fn len(&self) -> usize {
        self.len
    }
}
#[derive(Default)]
struct AState {
    chunks: Vec<(usize, usize)>, // address, releases
    news: Vec<usize>,
    rels: Vec<usize>,
}
pub struct Alloc {
    size: usize,
    st: Mutex<AState>,
}
impl std::fmt::Debug for Alloc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Alloc")
    }
}
impl Alloc {
    pub fn new(size: usize) -> Arc<Alloc> {
        Arc::new(Alloc { size, st: Mutex::new(AState::default()) })
    }
    fn locate(&self, p: *const u8) -> (i64, i64) {
        let st = self.st.lock().unwrap();
        for (i, (a, _)) in st.chunks.iter().enumerate() {
            if (p as usize) >= *a && (p as usize) < *a + self.size {
                return (i as i64 + 1, (p as usize - *a) as i64);
            }
        }
        (0, 0)
    }
    fn kept(&self) -> bool {
        self.st.lock().unwrap().chunks.iter().any(|c| c.1 == 0)
    }
    fn news(&self) -> Value {
        let mut st = self.st.lock().unwrap();
        let n = std::mem::take(&mut st.news);
        let r = std::mem::take(&mut st.rels);
        json!([n, r])
    }
}
impl ChunkAllocator for Alloc {
    fn get_chunk(&self) -> *mut dyn Chunk {
        let mem = Box::leak(vec![0u8; self.size].into_boxed_slice());
        let mut st = self.st.lock().unwrap();
        st.chunks.push((mem.as_ptr() as usize, 0));
        let id = st.chunks.len();
        st.news.push(id);
        Box::into_raw(Box::new(TChunk { mem: mem.as_mut_ptr(), len: self.size, id }))
    }
    unsafe fn release(&self, ptr: *mut dyn Chunk) {
        // the memory stays, so that a later look at it is harmless and shows that it is gone
        let c = unsafe { &mut *(ptr as *mut TChunk) };
        let mut st = self.st.lock().unwrap();
        st.rels.push(c.id);
        st.chunks[c.id - 1].1 += 1;
        unsafe { std::ptr::write_bytes(c.mem, 0xDD, c.len) };
    }
}
impl Drop for Alloc {
    fn drop(&mut self) {
        // the last owner is gone: give the memory back
        for (a, rel) in &self.st.lock().unwrap().chunks {
            if *rel > 0 {
                drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(*a as *mut u8, self.size)) });
            }
        }
    }
}

// ------------------------------------------------------------------ messages written in different ways
#[derive(Debug, Clone)]
struct Msg {
    n: usize,
    seed: u64,
    way: String,
    hint: i64,
}
fn write_way(b: &mut dyn BufMut, way: &str, seed: u64, n: usize) -> Result<(), SerError> {
    let data: Vec<u8> = (0..n as u64).map(|i| pattern(seed, i)).collect();
    match way {
        "slice" => b.put_slice(&data),
        "bytes1" => {
            for x in &data {
                b.put_u8(*x);
            }
        }
        "u64" => {
            let mut c = data.chunks_exact(8);
            for x in c.by_ref() {
                b.put_u64(u64::from_be_bytes(x.try_into().unwrap()));
            }
            b.put_slice(c.remainder());
        }
        "parts" => {
            let mut i = 0;
            let mut k = 1;
            while i < n {
                let j = (i + k).min(n);
                b.put_slice(&data[i..j]);
                i = j;
                k = k * 3 % 101 + 1;
            }
        }
        "put" => {
            // content that comes in two pieces
            let k = n / 3;
            let mut b = b;
            <&mut dyn BufMut as BufMut>::put(&mut b, bytes::Bytes::copy_from_slice(&data[..k]).chain(bytes::Bytes::copy_from_slice(&data[k..])));
        }
        "fill" => b.put_bytes(pattern(seed, 0), n),
        "writer" => {
            use std::io::Write;
            let mut w = b.writer();
            w.write_all(&data).map_err(|_| SerError::unknown("writer"))?;
        }
        "raw" => {
            // the way the trait describes for writing in place
            let mut i = 0;
            while i < n {
                let c = b.chunk_mut();
                let k = c.len().min(n - i);
                if k == 0 {
                    b.put_u8(data[i]);
                    i += 1;
                    continue;
                }
                c[..k].copy_from_slice(&data[i..i + k]);
                unsafe { b.advance_mut(k) };
                i += k;
            }
        }
        "fail" => {
            b.put_slice(&data);
            return Err(SerError::unknown("told to"));
        }
        x => panic!("way {}", x),
    }
    Ok(())
}
fn expect_way(way: &str, seed: u64, n: usize) -> Vec<u8> {
    if way == "fill" { vec![pattern(seed, 0); n] } else { (0..n as u64).map(|i| pattern(seed, i)).collect() }
}
impl Serialisable for Msg {
    fn ser_id(&self) -> SerId {
        4711
    }
    fn size_hint(&self) -> Option<usize> {
        if self.hint < 0 { None } else { Some(self.hint as usize) }
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        write_way(buf, &self.way, self.seed, self.n)
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Err(self)
    }
}

// ------------------------------------------------------------------ handles
enum H {
    Lease(ChunkLease),
    Ref(ChunkRef),
}
impl H {
    fn bytes(&self) -> Vec<u8> {
        match self {
            H::Lease(l) => l.create_byte_clone().to_vec(),
            H::Ref(r) => {
                let mut r = r.clone();
                let mut o = Vec::with_capacity(r.remaining());
                while r.has_remaining() {
                    let k = r.chunk().len();
                    if k == 0 {
                        break;
                    }
                    o.extend_from_slice(r.chunk());
                    r.advance(k);
                }
                o
            }
        }
    }
    fn rem(&self) -> usize {
        match self {
            H::Lease(l) => l.remaining(),
            H::Ref(r) => r.remaining(),
        }
    }
    fn adv(&mut self, k: usize) {
        match self {
            H::Lease(l) => l.advance(k),
            H::Ref(r) => r.advance(k),
        }
    }
    fn segs(&mut self, a: &Alloc) -> Vec<[i64; 3]> {
        let mut o: Vec<[i64; 3]> = vec![];
        let mut put = |c: &[u8]| {
            let (id, off) = a.locate(c.as_ptr());
            o.push([id, off, off + c.len() as i64]);
        };
        match self {
            H::Ref(r) => {
                let mut r = r.clone();
                while r.has_remaining() && !r.chunk().is_empty() {
                    let k = r.chunk().len();
                    put(r.chunk());
                    r.advance(k);
                }
            }
            H::Lease(l) => {
                // a lease cannot be cloned; the walk over its pieces moves the position of a bitwise copy, which is never dropped
                // SAFETY: the original is not used while the copy is
                let mut c = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(l) });
                while c.has_remaining() && !c.chunk().is_empty() {
                    let k = c.chunk().len();
                    put(c.chunk());
                    c.advance(k);
                }
            }
        }
        o
    }
}
struct Live {
    h: H,
    was: Vec<u8>,
}

struct W {
    enc: Option<EncodeBuffer>,
    ea: Arc<Alloc>,
    pool: Option<BufferPool>,
    pa: Arc<Alloc>,
    out: BTreeMap<i64, BufferChunk>,
    decs: Vec<Option<(DecodeBuffer, Vec<u8>, usize)>>,
    live: BTreeMap<i64, Live>,
    cfg: BufferConfig,
    src: ActorPath,
}
impl W {
    fn bad(&self) -> i64 {
        self.live.values().filter(|l| catch_unwind(AssertUnwindSafe(|| l.h.bytes() != l.was)).unwrap_or(true)).count() as i64
    }
    /// the event, with what happened to memory meanwhile
    fn ev(&mut self, mut v: Value, log: &mut Vec<Value>) {
        v["ea"] = self.ea.news();
        v["pa"] = self.pa.news();
        v["bad"] = json!(self.bad());
        log.push(v);
    }
    fn add(&mut self, id: i64, mut h: H, was: Option<Vec<u8>>, e: bool) -> (Value, i64) {
        let segs = h.segs(if e { &self.ea } else { &self.pa });
        let now = h.bytes();
        let diff = match &was {
            Some(w) => (w[..] != now[..]) as i64,
            None => 0,
        };
        self.live.insert(id, Live { h, was: now });
        (json!(segs), diff)
    }
}
fn sys_path(seg: usize) -> ActorPath {
    let s = SystemPath::new(Transport::Tcp, "127.0.0.1".parse().unwrap(), 8000);
    ActorPath::Named(NamedPath::with_system(s, vec!["x".repeat(seg)]))
}

fn op(w: &mut W, o: &Value, log: &mut Vec<Value>) {
    let i = |k: &str| o[k].as_i64().unwrap_or(-1);
    match o["o"].as_str().unwrap() {
        // ---------------- encode buffer
        "enc" => {
            let (id, n, seed, way) = (i("id"), i("n") as usize, i("seed") as u64, o["way"].as_str().unwrap().to_string());
            let api = o["api"].as_str().unwrap();
            let src = w.src.clone();
            let msg = Msg { n, seed, way: way.clone(), hint: i("hint") };
            let content = match o["of"].as_i64() {
                Some(f) => match w.live.get(&f).map(|l| &l.h) {
                    Some(H::Ref(r)) => Some(r.clone()),
                    _ => return,
                },
                None => None,
            };
            let Some(enc) = w.enc.as_mut() else { return };
            let body = expect_way(&way, seed, n);
            let mut path = vec![];
            src.serialise(&mut path).unwrap();
            let frame = |b: &[u8]| {
                let mut f = vec![0xC0, 0xA1, 0xBA, 0x11];
                f.extend((b.len() as u32).to_be_bytes());
                f.push(2);
                f.extend(b);
                f
            };
            let paths = |id: Option<u64>, b: &[u8]| {
                let mut f = path.clone();
                f.extend(&path);
                if let Some(i) = id {
                    f.extend(i.to_be_bytes());
                }
                f.extend(b);
                f
            };
            let held = content.as_ref().map(|c| H::Ref(c.clone()).bytes());
            let full: Vec<u8> = match api {
                "put" | "put2" => body.clone(),
                "msg" => frame(&paths(Some(4711), &body)),
                "pre" => [&4711u64.to_be_bytes()[..], &body[..]].concat(),
                "withpre" => frame(&paths(None, held.as_ref().unwrap())),
                "embed" => frame(&paths(Some(4711), held.as_ref().unwrap_or(&body))),
                x => panic!("api {}", x),
            };
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<H, SerError> {
                let mut e = enc.get_buffer_encoder()?;
                match api {
                    "put" => {
                        write_way(&mut e, &way, seed, n)?;
                        e.get_chunk_lease().map(H::Lease)
                    }
                    "put2" => {
                        // two leases from one encoder, the first one is dropped
                        e.put_slice(&[1, 2, 3]);
                        let first = e.get_chunk_lease()?;
                        write_way(&mut e, &way, seed, n)?;
                        drop(first);
                        e.get_chunk_lease().map(H::Lease)
                    }
                    "msg" => serialise_msg(&src, &src, &msg, &mut e).map(H::Lease),
                    "pre" => preserialise_msg(&msg, &mut e).map(H::Ref),
                    "withpre" => serialise_msg_with_preserialised(&src, &src, content.clone().unwrap(), &mut e).map(H::Ref),
                    _ => {
                        let m = match &content {
                            Some(c) => kompact::messaging::NetMessage::with_chunk_ref(4711, src.clone(), src.clone(), c.clone()),
                            None => kompact::messaging::NetMessage::with_box(4711, src.clone(), src.clone(), Box::new(msg)),
                        };
                        embed_msg(m, &mut e).map(H::Ref)
                    }
                }
            }));
            let own = full.len() - content.as_ref().map(|c| c.remaining()).unwrap_or(0);
            // what must fit at once: what is written, or what is asked for beforehand
            let need = if api == "put" || api == "put2" || api == "withpre" || api == "embed" || way == "fail" || i("hint") < 0 {
                (own + if api == "put2" { 3 } else { 0 }).max(if api == "msg" { 100 } else { 0 })
            } else {
                own.max(i("hint") as usize + 40 + own.saturating_sub(n))
            };
            drop(content);
            let mut v = json!({"e":"enc","id":id,"n":full.len(),"own":own,"need":need,"way":way,"segs":[],"diff":0,"of":i("of")});
            match r {
                Ok(Ok(h)) => {
                    let (s, d) = w.add(id, h, Some(full), true);
                    v["segs"] = s;
                    v["diff"] = json!(d);
                    v["r"] = json!("ok");
                }
                Ok(Err(e)) if e.kind() == SerErrorKind::NoBuffersAvailable => v["r"] = json!("nobuf"),
                Ok(Err(_)) => v["r"] = json!("err"),
                Err(_) => v["r"] = json!("panic"),
            }
            w.ev(v, log);
        }
        "eswap" => {
            let Some(enc) = w.enc.as_mut() else { return };
            let r = catch_unwind(AssertUnwindSafe(|| enc.swap_buffer()));
            w.ev(json!({"e":"eswap","r": match r { Err(_) => "panic", Ok(Ok(())) => "ok", Ok(Err(_)) => "nobuf" }}), log);
        }
        "edrop" => {
            if w.enc.take().is_none() {
                return;
            }
            w.ev(json!({"e":"edrop"}), log);
        }
        // ---------------- handles
        "clone" => {
            let (id, of) = (i("id"), i("of"));
            let Some(Live { h: H::Ref(r), .. }) = w.live.get(&of) else { return };
            let r = r.clone();
            let e = w.src_of(of);
            let (s, _) = w.add(id, H::Ref(r), None, e);
            w.ev(json!({"e":"clone","id":id,"of":of,"segs":s}), log);
        }
        "toref" => {
            let of = i("of");
            let Some(Live { h: H::Lease(_), .. }) = w.live.get(&of) else { return };
            let e = w.src_of(of);
            let Some(Live { h: H::Lease(l), was }) = w.live.remove(&of) else { return };
            match catch_unwind(AssertUnwindSafe(|| l.into_chunk_ref())) {
                Ok(r) => {
                    let (s, d) = w.add(of, H::Ref(r), Some(was), e);
                    w.ev(json!({"e":"toref","of":of,"segs":s,"diff":d}), log);
                }
                Err(_) => w.ev(json!({"e":"panic","what":"toref"}), log),
            }
        }
        "join" => {
            // lease `a` becomes the front (way tail) or the back (way head) of a chain with ref `b`
            let (a, b, id) = (i("a"), i("b"), i("id"));
            let e = w.src_of(a);
            if e != w.src_of(b) || a == b {
                return;
            }
            let (Some(Live { h: H::Lease(_), .. }), Some(Live { h: H::Ref(_), .. })) = (w.live.get(&a), w.live.get(&b)) else { return };
            let Some(Live { h: H::Lease(l), was: wa }) = w.live.remove(&a) else { return };
            let Some(Live { h: H::Ref(r), was: wb }) = w.live.remove(&b) else { return };
            let tail = o["way"] == "tail";
            let exp = if tail { [wa, wb].concat() } else { [wb, wa].concat() };
            match catch_unwind(AssertUnwindSafe(|| if tail { l.into_chunk_ref_with_tail(r) } else { l.into_chunk_ref_with_head(r) })) {
                Ok(r) => {
                    let (s, d) = w.add(id, H::Ref(r), Some(exp), e);
                    w.ev(json!({"e":"join","a":a,"b":b,"id":id,"tail":tail,"segs":s,"diff":d}), log);
                }
                Err(_) => w.ev(json!({"e":"panic","what":"join"}), log),
            }
        }
        "read" => {
            let (of, k) = (i("of"), i("k") as usize);
            let e = w.src_of(of);
            let Some(l) = w.live.get_mut(&of) else { return };
            let k = k.min(l.h.rem());
            l.h.adv(k);
            let exp = l.was.split_off(k);
            let Some(Live { h, .. }) = w.live.remove(&of) else { return };
            match catch_unwind(AssertUnwindSafe(|| w.add(of, h, Some(exp), e))) {
                Ok((s, d)) => w.ev(json!({"e":"read","of":of,"k":k,"segs":s,"diff":d}), log),
                Err(_) => w.ev(json!({"e":"panic","what":"read"}), log),
            }
        }
        "drop" => {
            let of = i("of");
            if w.live.remove(&of).is_none() {
                return;
            }
            w.ev(json!({"e":"drop","of":of}), log);
        }
        // ---------------- pool
        "get" => {
            let Some(p) = w.pool.as_mut() else { return };
            let r = catch_unwind(AssertUnwindSafe(|| p.get_buffer()));
            let v = match r {
                Err(_) => json!({"e":"panic","what":"get"}),
                Ok(None) => json!({"e":"get","c":0}),
                Ok(Some(mut c)) => {
                    // where is it
                    let l = c.get_lease(0, 1);
                    let (id, _) = w.pa.locate(l.chunk().as_ptr());
                    drop(l);
                    w.out.insert(id, c);
                    json!({"e":"get","c":id})
                }
            };
            w.ev(v, log);
        }
        "lease" => {
            let (id, c, a, b) = (i("id"), i("c"), i("a") as usize, i("b") as usize);
            let Some(ch) = w.out.get_mut(&c) else { return };
            let l = ch.get_lease(a, b);
            let (s, _) = w.add(id, H::Lease(l), None, false);
            w.ev(json!({"e":"lease","id":id,"c":c,"segs":s,"a":a,"b":b}), log);
        }
        "ret" => {
            let c = i("c");
            if w.pool.is_none() {
                return;
            }
            let Some(ch) = w.out.remove(&c) else { return };
            w.pool.as_mut().unwrap().return_buffer(ch);
            w.ev(json!({"e":"ret","c":c}), log);
        }
        "lose" => {
            let c = i("c");
            if w.out.remove(&c).is_none() {
                return;
            }
            w.ev(json!({"e":"lose","c":c}), log);
        }
        "sizes" => {
            let Some(p) = w.pool.as_ref() else { return };
            let (a, b) = p.get_pool_sizes();
            w.ev(json!({"e":"sizes","all":a,"idle":b}), log);
        }
        "pdrop" => {
            if w.pool.take().is_none() {
                return;
            }
            w.ev(json!({"e":"pdrop"}), log);
        }
        // ---------------- decode buffers on the pool
        "dnew" => {
            let d = i("d") as usize;
            let c = i("c");
            // a decoder is given a chunk of which nobody holds anything
            let pa = w.pa.clone();
            if w.live.range_mut(1000..).any(|(_, l)| l.h.segs(&pa).iter().any(|s| s[0] == c)) {
                return;
            }
            let Some(ch) = w.out.remove(&c) else { return };
            while w.decs.len() <= d {
                w.decs.push(None);
            }
            let old = w.decs[d].take();
            let lost = old.is_some();
            drop(old);
            w.decs[d] = Some((DecodeBuffer::new(ch, &w.cfg), vec![], 0));
            w.ev(json!({"e":"dnew","d":d,"c":c,"lost":lost}), log);
        }
        "ddrop" => {
            let d = i("d") as usize;
            let Some(x) = w.decs.get_mut(d) else { return };
            if x.take().is_none() {
                return;
            }
            w.ev(json!({"e":"ddrop","d":d}), log);
        }
        "dfeed" => {
            // one more data frame of n bytes goes into the stream of the decoder, at most k bytes are fed
            let (d, n, k, seed) = (i("d") as usize, i("n"), i("k") as usize, i("seed") as u64);
            let Some(Some((dec, by, fed))) = w.decs.get_mut(d) else { return };
            if n >= 0 {
                by.extend([0xC0, 0xA1, 0xBA, 0x11]);
                by.extend((n as u32).to_be_bytes());
                by.push(2);
                by.extend((0..n as u64).map(|x| pattern(seed, x)));
            }
            let Some(wr) = dec.get_writeable() else {
                w.ev(json!({"e":"dfeed","d":d,"c":0,"a":0,"b":0}), log);
                return;
            };
            let m = k.min(wr.len()).min(by.len() - *fed);
            let p = wr.as_ptr();
            wr[..m].copy_from_slice(&by[*fed..*fed + m]);
            dec.advance_writeable(m);
            *fed += m;
            let (c, a) = w.pa.locate(p);
            w.ev(json!({"e":"dfeed","d":d,"c":c,"a":a,"b":a + m as i64}), log);
        }
        "dget" => {
            let (d, id) = (i("d") as usize, i("id"));
            let Some(Some((dec, by, _))) = w.decs.get_mut(d) else { return };
            let r = catch_unwind(AssertUnwindSafe(|| dec.get_frame()));
            let v = match r {
                Err(_) => json!({"e":"panic","what":"dget"}),
                Ok(Err(FramingError::NoData)) => json!({"e":"dget","d":d,"r":"nodata","id":id,"segs":[],"diff":0}),
                Ok(Ok(Frame::Data(f))) => {
                    // the frames come in order
                    let n = u32::from_be_bytes(by[4..8].try_into().unwrap()) as usize;
                    let exp: Vec<u8> = by[9..9 + n].to_vec();
                    by.drain(..9 + n);
                    w.decs[d].as_mut().unwrap().2 -= 9 + n;
                    let (s, df) = w.add(id, H::Lease(f.payload()), Some(exp), false);
                    json!({"e":"dget","d":d,"r":"ok","id":id,"segs":s,"diff":df})
                }
                _ => json!({"e":"dget","d":d,"r":"err","id":id,"segs":[],"diff":0}),
            };
            w.ev(v, log);
        }
        "dswap" => {
            let d = i("d") as usize;
            let (Some(Some((dec, _, _))), Some(pool)) = (w.decs.get_mut(d), w.pool.as_mut()) else { return };
            // as its user must: everything that is complete has been taken out
            let r = catch_unwind(AssertUnwindSafe(|| {
                if dec.has_frame().unwrap_or(true) {
                    return -1;
                }
                match pool.get_buffer() {
                    None => 0,
                    Some(mut c) => {
                        let l = c.get_lease(0, 1);
                        let (id, _) = w.pa.locate(l.chunk().as_ptr());
                        drop(l);
                        dec.swap_buffer(&mut c);
                        pool.return_buffer(c);
                        id
                    }
                }
            }));
            match r {
                Ok(-1) => (),
                Ok(c) => w.ev(json!({"e":"dswap","d":d,"c":c}), log),
                Err(_) => w.ev(json!({"e":"panic","what":"dswap"}), log),
            }
        }
        x => panic!("op {}", x),
    }
}
impl W {
    /// is the handle one of the encode buffer
    fn src_of(&self, id: i64) -> bool {
        id < 1000
    }
}

fn run(sc: &Value) -> Vec<Value> {
    if sc["sys"] == true {
        return run_sys(sc);
    }
    let c = &sc["cfg"];
    let u = |k: &str| c[k].as_u64().unwrap() as usize;
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(u("cs"));
    cfg.initial_chunk_count(u("init"));
    cfg.max_chunk_count(u("max"));
    cfg.encode_buf_min_free_space(u("free"));
    let ea = Alloc::new(u("cs"));
    let pa = Alloc::new(u("cs"));
    let e: Arc<dyn ChunkAllocator> = ea.clone();
    let p: Arc<dyn ChunkAllocator> = pa.clone();
    let mut w = W {
        enc: Some(EncodeBuffer::with_config(&cfg, &Some(e))),
        pool: Some(BufferPool::with_config(&cfg, &Some(p))),
        ea,
        pa,
        out: BTreeMap::new(),
        decs: vec![],
        live: BTreeMap::new(),
        cfg,
        src: sys_path(u("seg")),
    };
    let mut log = vec![];
    w.ev(json!({"e":"cfg","cs":c["cs"],"max":c["max"],"free":c["free"],"init":c["init"]}), &mut log);
    for o in sc["ops"].as_array().unwrap() {
        op(&mut w, o, &mut log);
        if log.last().map(|v| v["e"] == "panic").unwrap_or(false) {
            break;
        }
    }
    // take everything apart, in the order the scenario says
    for x in sc["end"].as_array().unwrap() {
        match x.as_str().unwrap() {
            "e" => op(&mut w, &json!({"o":"edrop"}), &mut log),
            "p" => op(&mut w, &json!({"o":"pdrop"}), &mut log),
            "d" => {
                for d in 0..w.decs.len() {
                    op(&mut w, &json!({"o":"ddrop","d":d}), &mut log);
                }
            }
            "c" => {
                let cs: Vec<i64> = w.out.keys().cloned().collect();
                for c in cs {
                    op(&mut w, &json!({"o":"lose","c":c}), &mut log);
                }
            }
            _ => {
                let hs: Vec<i64> = w.live.keys().cloned().collect();
                for h in hs {
                    op(&mut w, &json!({"o":"drop","of":h}), &mut log);
                }
            }
        }
    }
    w.ev(json!({"e":"end","lax":false}), &mut log);
    log
}

// ------------------------------------------------------------------ components
#[derive(ComponentDefinition)]
struct Writer {
    ctx: ComponentContext<Self>,
    cfg: BufferConfig,
    alloc: Arc<Alloc>,
    tx: std::sync::mpsc::Sender<(i64, Option<ChunkRef>)>,
}
ignore_lifecycle!(Writer);
impl Actor for Writer {
    type Message = (i64, Msg);
    fn receive_local(&mut self, (id, m): Self::Message) -> HandlerResult {
        if id < 0 {
            let a: Arc<dyn ChunkAllocator> = self.alloc.clone();
            self.ctx.init_buffers(Some(self.cfg.clone()), Some(a));
            let _ = self.tx.send((id, None));
        } else {
            let r = self.ctx.preserialise(&m).ok();
            let _ = self.tx.send((id, r));
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
/// the dispatcher handles what the component left, and is asked something afterwards; it looks after things once it knows an actor
fn ask_dispatcher(s: &KompactSystem, wait: std::time::Duration) {
    let d = s.create(move || Writer {
        ctx: ComponentContext::uninitialised(),
        cfg: BufferConfig::default(),
        alloc: Alloc::new(1),
        tx: std::sync::mpsc::channel().0,
    });
    let _ = s.register(&d).wait_timeout(wait);
}
/// a component with buffers of its own dies while its data is still held
fn run_sys(sc: &Value) -> Vec<Value> {
    let c = &sc["cfg"];
    let u = |k: &str| c[k].as_u64().unwrap() as usize;
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(u("cs"));
    cfg.initial_chunk_count(u("init"));
    cfg.max_chunk_count(u("max"));
    cfg.encode_buf_min_free_space(u("free"));
    let ea = Alloc::new(u("cs"));
    let mut kc = KompactConfig::default();
    kc.threads(1);
    if sc["net"] == true {
        kc.system_components(DeadletterBox::new, kompact_net::NetworkConfig::default().build());
    }
    let sys = kc.build().wait().expect("system");
    let (tx, rx) = std::sync::mpsc::channel();
    let (cf, al) = (cfg.clone(), ea.clone());
    let comp = sys.create(move || Writer { ctx: ComponentContext::uninitialised(), cfg: cf, alloc: al, tx });
    sys.start(&comp);
    let mut w = W {
        enc: None,
        pool: None,
        pa: Alloc::new(u("cs")),
        ea,
        out: BTreeMap::new(),
        decs: vec![],
        live: BTreeMap::new(),
        cfg,
        src: sys_path(1),
    };
    let wait = std::time::Duration::from_secs(20);
    comp.actor_ref().tell((-1, Msg { n: 0, seed: 0, way: "slice".into(), hint: -1 }));
    let _ = rx.recv_timeout(wait);
    let mut log = vec![];
    w.ev(json!({"e":"cfg","cs":c["cs"],"max":c["max"],"free":c["free"],"init":c["init"]}), &mut log);
    let mut comp = Some(comp);
    let mut sys = Some(sys);
    for o in sc["ops"].as_array().unwrap() {
        match o["o"].as_str().unwrap() {
            "enc" => {
                let Some(cm) = comp.as_ref() else { continue };
                let (id, n, seed) = (o["id"].as_i64().unwrap(), o["n"].as_u64().unwrap() as usize, o["seed"].as_u64().unwrap());
                cm.actor_ref().tell((id, Msg { n, seed, way: "slice".into(), hint: n as i64 }));
                let mut v = json!({"e":"enc","id":id,"n":n + 8,"own":n + 8,"need":n + 48,"way":"slice","segs":[],"diff":0,"of":-1});
                match rx.recv_timeout(wait) {
                    Ok((_, Some(r))) => {
                        let mut full = 4711u64.to_be_bytes().to_vec();
                        full.extend(expect_way("slice", seed, n));
                        let (s, d) = w.add(id, H::Ref(r), Some(full), true);
                        v["segs"] = s;
                        v["diff"] = json!(d);
                        v["r"] = json!("ok");
                    }
                    Ok((_, None)) => v["r"] = json!("nobuf"),
                    Err(_) => v["r"] = json!("panic"),
                }
                w.ev(v, &mut log);
            }
            "kill" => {
                let Some(cm) = comp.take() else { continue };
                let Some(s) = sys.as_ref() else { continue };
                let f = s.kill_notify(cm);
                let _ = f.wait_timeout(wait);
                ask_dispatcher(s, wait);
                w.ev(json!({"e":"gone"}), &mut log);
            }
            "down" => {
                comp.take();
                if let Some(s) = sys.take() {
                    let _ = s.shutdown().wait();
                    w.ev(json!({"e":"gone"}), &mut log);
                }
            }
            _ => op(&mut w, o, &mut log),
        }
    }
    // what a dispatcher looks after when it is shut down stays with it: otherwise it gets the time to find it unused
    let patient = sys.is_some();
    if let (Some(s), Some(cm)) = (sys.as_ref(), comp.take()) {
        if patient {
            let _ = s.kill_notify(cm).wait_timeout(wait);
            ask_dispatcher(s, wait);
        }
    }
    if !patient {
        if let Some(s) = sys.take() {
            let _ = s.shutdown().wait();
        }
    }
    w.ev(json!({"e":"gone"}), &mut log);
    let hs: Vec<i64> = w.live.keys().cloned().collect();
    for h in hs {
        op(&mut w, &json!({"o":"drop","of":h}), &mut log);
    }
    if patient {
        let t = std::time::Instant::now();
        while w.ea.kept() && t.elapsed() < wait {
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        if let Some(s) = sys.take() {
            let _ = s.shutdown().wait();
        }
    }
    w.ev(json!({"e":"end","lax":!patient}), &mut log);
    log
}

pub fn each(input: &str, output: &str, f: fn(&Value) -> Vec<Value>) {
    use std::io::{BufRead, Write};
    let i = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    for line in i.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario");
        let log = f(&sc);
        writeln!(out, "{}", serde_json::to_string(&json!({"id": sc["id"], "t": log})).unwrap()).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
pub fn main(input: &str, output: &str) {
    each(input, output, run)
}
