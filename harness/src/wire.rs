//! Wire world: actor paths (text, wire form, building), values, and whole messages on every way they can be sent.
use kompact::messaging::{DispatchData, DispatchEnvelope, NetMessage, SerialisedFrame};
use kompact::net::buffers::{BufferConfig, BufferPool, DecodeBuffer, EncodeBuffer};
use kompact::net::frames::Frame;
use kompact::prelude::*;
use kompact::prelude_bench::{validate_insert_path, validate_lookup_path};
use kompact::serde_serialisers::Serde;
use kompact::prelude::ser_helpers::{deserialise_bytes, deserialise_chunk_ref};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;
use std::sync::mpsc::{Receiver as Rx, Sender as Tx, channel};
use std::time::Duration;
use uuid::Uuid;

// ------------------------------------------------------------------ values
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct St {
    a: u32,
    b: Box<V>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Num(i8, i16, i32, u16, u32, u64, f32, f64);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct NewT(u16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum V {
    Unit,
    Bool(bool),
    U8(u8),
    I64(i64),
    Str(String),
    Seq(Vec<V>),
    Map(BTreeMap<u8, V>),
    Opt(Option<Box<V>>),
    Tup(u16, Box<V>),
    St { a: u32, b: Box<V> },
    Ch(char),
    Struct(St),
    Num(Num),
    New(NewT),
}
impl SerialisationId for V {
    const SER_ID: SerId = 102;
}
/// tokens of a value, see Wire.tla
fn v_from(t: &[i64], p: &mut usize) -> V {
    let k = t[*p];
    *p += 1;
    fn arr<const K: usize>(v: Vec<u8>) -> [u8; K] {
        v.try_into().unwrap()
    }
    let n = |k: usize, p: &mut usize| {
        let r: Vec<u8> = t[*p..*p + k].iter().map(|x| *x as u8).collect();
        *p += k;
        r
    };
    match k {
        0 => V::Unit,
        1 => V::Bool(n(1, p)[0] != 0),
        2 => V::U8(n(1, p)[0]),
        3 => V::I64(i64::from_be_bytes(arr(n(8, p)))),
        4 => {
            let l = t[*p] as usize;
            *p += 1;
            V::Str(String::from_utf8(n(l, p)).unwrap())
        }
        5 => {
            let l = t[*p] as usize;
            *p += 1;
            V::Seq((0..l).map(|_| v_from(t, p)).collect())
        }
        6 => {
            let l = t[*p] as usize;
            *p += 1;
            V::Map(
                (0..l)
                    .map(|_| {
                        let k = n(1, p)[0];
                        (k, v_from(t, p))
                    })
                    .collect(),
            )
        }
        7 => {
            let s = n(1, p)[0];
            V::Opt(if s == 0 { None } else { Some(Box::new(v_from(t, p))) })
        }
        8 => {
            let a = u16::from_be_bytes(arr(n(2, p)));
            V::Tup(a, Box::new(v_from(t, p)))
        }
        9 => {
            let a = u32::from_be_bytes(arr(n(4, p)));
            V::St { a, b: Box::new(v_from(t, p)) }
        }
        10 => V::Ch(char::from_u32(u32::from_be_bytes(arr(n(4, p)))).unwrap()),
        11 => {
            let a = u32::from_be_bytes(arr(n(4, p)));
            V::Struct(St { a, b: Box::new(v_from(t, p)) })
        }
        12 => V::Num(Num(
            n(1, p)[0] as i8,
            i16::from_be_bytes(arr(n(2, p))),
            i32::from_be_bytes(arr(n(4, p))),
            u16::from_be_bytes(arr(n(2, p))),
            u32::from_be_bytes(arr(n(4, p))),
            u64::from_be_bytes(arr(n(8, p))),
            f32::from_be_bytes(arr(n(4, p))),
            f64::from_be_bytes(arr(n(8, p))),
        )),
        13 => V::New(NewT(u16::from_be_bytes(arr(n(2, p))))),
        x => panic!("token {}", x),
    }
}
fn v_to(v: &V, o: &mut Vec<i64>) {
    fn put(o: &mut Vec<i64>, b: &[u8]) {
        o.extend(b.iter().map(|x| *x as i64));
    }
    match v {
        V::Unit => o.push(0),
        V::Bool(b) => o.extend([1, *b as i64]),
        V::U8(b) => o.extend([2, *b as i64]),
        V::I64(b) => {
            o.push(3);
            put(o, &b.to_be_bytes())
        }
        V::Str(s) => {
            o.extend([4, s.len() as i64]);
            put(o, s.as_bytes())
        }
        V::Seq(s) => {
            o.extend([5, s.len() as i64]);
            for x in s {
                v_to(x, o)
            }
        }
        V::Map(s) => {
            o.extend([6, s.len() as i64]);
            for (k, x) in s {
                o.push(*k as i64);
                v_to(x, o)
            }
        }
        V::Opt(None) => o.extend([7, 0]),
        V::Opt(Some(x)) => {
            o.extend([7, 1]);
            v_to(x, o)
        }
        V::Tup(a, b) => {
            o.push(8);
            put(o, &a.to_be_bytes());
            v_to(b, o)
        }
        V::St { a, b } => {
            o.push(9);
            put(o, &a.to_be_bytes());
            v_to(b, o)
        }
        V::Ch(c) => {
            o.push(10);
            put(o, &(*c as u32).to_be_bytes())
        }
        V::Struct(St { a, b }) => {
            o.push(11);
            put(o, &a.to_be_bytes());
            v_to(b, o)
        }
        V::Num(n) => {
            o.push(12);
            o.push(n.0 as u8 as i64);
            put(o, &n.1.to_be_bytes());
            put(o, &n.2.to_be_bytes());
            put(o, &n.3.to_be_bytes());
            put(o, &n.4.to_be_bytes());
            put(o, &n.5.to_be_bytes());
            put(o, &n.6.to_be_bytes());
            put(o, &n.7.to_be_bytes());
        }
        V::New(n) => {
            o.push(13);
            put(o, &n.0.to_be_bytes());
        }
    }
}

macro_rules! raw {
    ($t:ident, $id:expr, |$buf:ident, $v:ident| $read:expr) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $t(pub Vec<u8>);
        impl Serialisable for $t {
            fn ser_id(&self) -> SerId {
                $id
            }
            fn size_hint(&self) -> Option<usize> {
                // only a hint
                Some(self.0.len() / 2)
            }
            fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
                for c in self.0.chunks(7) {
                    buf.put_slice(c);
                }
                Ok(())
            }
            fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
                Ok(self)
            }
        }
        impl Deserialiser<$t> for $t {
            const SER_ID: SerId = $id;
            fn deserialise(buf: &mut dyn Buf) -> Result<$t, SerError> {
                let mut $v = vec![];
                let $buf = buf;
                $read;
                Ok($t($v))
            }
        }
    };
}
raw!(RawA, 100, |buf, v| while buf.has_remaining() {
    v.push(buf.get_u8());
});
raw!(RawB, 101, |buf, v| while !buf.chunk().is_empty() {
    let n = buf.chunk().len();
    v.extend_from_slice(buf.chunk());
    buf.advance(n);
});
/// the bytes of a path, written down independently of the code under test
fn path_bytes(p: &Value) -> Vec<i64> {
    let ip = p["ip"].as_array().unwrap();
    let h = if p["k"] == "n" { 128 } else { 0 } + if ip.len() == 16 { 32 } else { 0 } + p["t"].as_i64().unwrap();
    let port = p["port"].as_i64().unwrap();
    let mut o = vec![h];
    o.extend(ints_of(&p["ip"]));
    o.extend([port / 256, port % 256]);
    if p["k"] == "n" {
        let n: Vec<String> = p["segs"].as_array().unwrap().iter().map(str_of).collect();
        let n = n.join("/");
        o.extend([n.len() as i64 / 256, n.len() as i64 % 256]);
        o.extend(jb(n.as_bytes()));
    } else {
        o.extend(ints_of(&p["id"]));
    }
    o
}
fn bytes_path(b: &[i64]) -> Value {
    let l = if b[0] % 128 >= 32 { 16 } else { 4 };
    let (ip, r) = b[1..].split_at(l);
    let (port, r) = r.split_at(2);
    let (k, id, segs) = if b[0] < 128 {
        ("u", r.to_vec(), vec![])
    } else if r.len() == 2 {
        ("n", vec![], vec![])
    } else {
        ("n", vec![], r[2..].split(|x| *x == 47).map(|s| s.to_vec()).collect())
    };
    json!({"t": b[0] % 32, "ip": ip, "port": port[0] * 256 + port[1], "k": k, "id": id, "segs": segs})
}
fn jspath(s: SystemPath) -> Vec<i64> {
    let v = jpath(&UniquePath::with_system(s, Uuid::nil()).into());
    let mut b = path_bytes(&v);
    b.truncate(b.len() - 16);
    b
}
/// writes something and then refuses
#[derive(Debug, Clone)]
pub struct Bad(pub Vec<u8>);
impl Serialisable for Bad {
    fn ser_id(&self) -> SerId {
        103
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_slice(&self.0);
        Err(SerError::invalid_data("never serialisable"))
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}

fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn ints_of(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn str_of(v: &Value) -> String {
    String::from_utf8(bytes_of(v)).expect("utf8")
}
fn jv(ty: &str, b: Vec<i64>) -> Value {
    json!({"ty": ty, "b": b})
}
fn jb(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}

// ------------------------------------------------------------------ paths
fn proto(n: i64) -> Transport {
    match n {
        0 => Transport::Local,
        1 => Transport::Tcp,
        _ => Transport::Udp,
    }
}
fn sys_of(v: &Value) -> SystemPath {
    let ip = bytes_of(&v["ip"]);
    let ip: IpAddr = if ip.len() == 4 {
        let a: [u8; 4] = ip.try_into().unwrap();
        a.into()
    } else {
        let a: [u8; 16] = ip.try_into().unwrap();
        a.into()
    };
    SystemPath::new(proto(v["t"].as_i64().unwrap()), ip, v["port"].as_u64().unwrap() as u16)
}
fn path_of(v: &Value) -> ActorPath {
    let s = sys_of(v);
    if v["k"] == "u" {
        let id: [u8; 16] = bytes_of(&v["id"]).try_into().unwrap();
        ActorPath::Unique(UniquePath::with_system(s, Uuid::from_bytes(id)))
    } else {
        let segs: Vec<String> = v["segs"].as_array().unwrap().iter().map(str_of).collect();
        ActorPath::Named(NamedPath::with_system(s, segs))
    }
}
pub fn jpath(p: &ActorPath) -> Value {
    let t = match p.protocol() {
        Transport::Local => 0,
        Transport::Tcp => 1,
        Transport::Udp => 2,
    };
    let ip = match p.address() {
        IpAddr::V4(i) => jb(&i.octets()),
        IpAddr::V6(i) => jb(&i.octets()),
    };
    let port = p.system().port();
    match p {
        ActorPath::Unique(u) => json!({"t":t,"ip":ip,"port":port,"k":"u","id":jb(u.id().as_bytes()),"segs":[]}),
        ActorPath::Named(n) => {
            json!({"t":t,"ip":ip,"port":port,"k":"n","id":[],"segs":n.path_ref().iter().map(|s| jb(s.as_bytes())).collect::<Vec<_>>()})
        }
    }
}
/// what the standard library and the uuid library say about the pieces of the text
fn facts(tx: &str) -> (Value, Value) {
    let none = json!({"ok": false, "ip": [], "port": 0});
    let rest = match tx.find("://") {
        Some(i) => &tx[i + 3..],
        None => return (none, json!([])),
    };
    let a = rest.split(['/', '#']).next().unwrap();
    let sk = match SocketAddr::from_str(a) {
        Ok(s) => {
            let ip = match s.ip() {
                IpAddr::V4(i) => jb(&i.octets()),
                IpAddr::V6(i) => jb(&i.octets()),
            };
            json!({"ok": true, "ip": ip, "port": s.port()})
        }
        Err(_) => none,
    };
    let uu = match rest.find('#') {
        Some(i) => match Uuid::from_str(&rest[i + 1..]) {
            Ok(u) => jb(u.as_bytes()),
            Err(_) => vec![],
        },
        None => vec![],
    };
    (sk, json!(uu))
}
fn nopath() -> Value {
    json!({"t":0,"ip":[0,0,0,0],"port":0,"k":"n","id":[],"segs":[]})
}
/// (outcome, path): ok | err | panic
fn pres<E>(f: impl FnOnce() -> Result<ActorPath, E>) -> (&'static str, Value) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(p)) => ("ok", jpath(&p)),
        Ok(Err(_)) => ("err", nopath()),
        Err(_) => ("panic", nopath()),
    }
}
fn parse_ev(tx: &str, how: &str, orig: Option<&Value>) -> Value {
    let (sk, uu) = facts(tx);
    let (r, q) = match how {
        "named" => pres(|| NamedPath::from_str(tx).map(ActorPath::Named)),
        "unique" => pres(|| UniquePath::from_str(tx).map(ActorPath::Unique)),
        "try" => pres(|| ActorPath::try_from(tx.to_string())),
        _ => pres(|| ActorPath::from_str(tx)),
    };
    let mut e = json!({"e":"text","how":how,"tx":jb(tx.as_bytes()),"sk":sk,"uu":uu,"r":r,"q":q,"own":orig.is_some()});
    e["p"] = orig.cloned().unwrap_or_else(nopath);
    e
}

// ------------------------------------------------------------------ the sending component and the capturing dispatcher
type Job = Box<dyn FnOnce(&mut Snd) + Send>;
pub struct JobMsg(Job);
impl std::fmt::Debug for JobMsg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "job")
    }
}
#[derive(ComponentDefinition)]
pub struct Snd {
    ctx: ComponentContext<Self>,
}
ignore_lifecycle!(Snd);
impl Actor for Snd {
    type Message = JobMsg;
    fn receive_local(&mut self, m: JobMsg) -> HandlerResult {
        (m.0)(self);
        Handled::OK
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
static CAP: std::sync::Mutex<Option<Tx<DispatchEnvelope>>> = std::sync::Mutex::new(None);
#[derive(ComponentDefinition)]
pub struct Cap {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
}
impl ComponentLifecycle for Cap {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            let _ = p.complete();
        }
        Handled::OK
    }
}
impl Actor for Cap {
    type Message = DispatchEnvelope;
    fn receive_local(&mut self, m: DispatchEnvelope) -> HandlerResult {
        if let DispatchEnvelope::Registration(_) = m {
            return Handled::OK;
        }
        if let Some(t) = CAP.lock().unwrap().as_ref() {
            let _ = t.send(m);
        }
        Handled::OK
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Dispatcher for Cap {
    fn system_path(&mut self) -> SystemPath {
        SystemPath::new(Transport::Tcp, "10.1.2.3".parse().unwrap(), 4321)
    }
}
struct World {
    sys: KompactSystem,
    snd: std::sync::Arc<Component<Snd>>,
    rx: Rx<DispatchEnvelope>,
    enc: EncodeBuffer,
    /// messages kept undecoded, by slot, with what they hold according to the events
    kept: BTreeMap<i64, NetMessage>,
    pre: BTreeMap<i64, ChunkRef>,
    /// buffers that messages still refer to
    keep: Vec<Box<dyn Any>>,
}
fn bufcfg(v: &Value) -> BufferConfig {
    let mut c = BufferConfig::default();
    if let Some(b) = v.as_array() {
        c.chunk_size(b[0].as_u64().unwrap() as usize);
        c.initial_chunk_count(b[1].as_u64().unwrap() as usize);
        c.max_chunk_count(b[2].as_u64().unwrap() as usize);
        c.encode_buf_min_free_space(b[3].as_u64().unwrap() as usize);
    } else {
        c.chunk_size(4000);
        c.max_chunk_count(50);
    }
    c
}
impl World {
    fn new(sc: &Value) -> World {
        let (tx, rx) = channel();
        *CAP.lock().unwrap() = Some(tx);
        let mut conf = KompactConfig::default();
        conf.logger(crate::core_world::discard_logger());
        conf.threads(1);
        conf.system_components(DeadletterBox::new, |p| Cap { ctx: ComponentContext::uninitialised(), ready: Some(p) });
        let sys = conf.build().wait().expect("system");
        let snd = sys.create(|| Snd { ctx: ComponentContext::uninitialised() });
        sys.start_notify(&snd).wait_timeout(Duration::from_secs(10)).expect("start");
        let bc = bufcfg(&sc["buf"]);
        let b2 = bc.clone();
        let w = World { sys, snd, rx, enc: EncodeBuffer::with_config(&bc, &None), kept: BTreeMap::new(), pre: BTreeMap::new(), keep: vec![] };
        w.on(move |s| s.ctx.init_buffers(Some(b2), None));
        w
    }
    fn on<R: Send + 'static>(&self, f: impl FnOnce(&mut Snd) -> R + Send + 'static) -> R {
        let (tx, rx) = channel();
        self.snd.actor_ref().tell(JobMsg(Box::new(move |s| {
            let r = catch_unwind(AssertUnwindSafe(|| f(s)));
            let _ = tx.send(r);
        })));
        match rx.recv_timeout(Duration::from_secs(20)).expect("component runs the job") {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    fn own(&self) -> ActorPath {
        self.on(|s| s.actor_path())
    }
}

/// a sender of any type of value, without repeating the ways
macro_rules! with_val {
    ($v:expr, |$x:ident| $b:expr) => {{
        let ty = $v["ty"].as_str().unwrap().to_string();
        let b = ints_of(&$v["b"]);
        let by: Vec<u8> = b.iter().map(|x| *x as u8).collect();
        match ty.as_str() {
            "str" => {
                let $x = String::from_utf8(by).unwrap();
                $b
            }
            "u64" => {
                let $x = u64::from_be_bytes(by.try_into().unwrap());
                $b
            }
            "unit" => {
                let $x = ();
                $b
            }
            "rawa" => {
                let $x = RawA(by);
                $b
            }
            "rawb" => {
                let $x = RawB(by);
                $b
            }
            "apath" => {
                let $x = path_of(&bytes_path(&b));
                $b
            }
            "spath" => {
                let mut b = b.clone();
                b.extend([0; 16]);
                let $x = sys_of(&bytes_path(&b));
                $b
            }
            "bad" => {
                let $x = Bad(by);
                $b
            }
            "serde" => {
                let $x: SerialisableValue<V, Serde> = (v_from(&b, &mut 0), Serde).into();
                $b
            }
            t => panic!("type {}", t),
        }
    }};
}

fn boxed(v: &Value) -> Box<dyn Serialisable> {
    with_val!(v, |x| Box::new(x) as Box<dyn Serialisable>)
}
/// outcome of reading as a type
fn outcome<T, M>(r: Result<T, UnpackError<M>>, ty: &str, f: impl FnOnce(T) -> Vec<i64>) -> (String, Value, Option<M>) {
    match r {
        Ok(t) => ("ok".into(), jv(ty, f(t)), None),
        Err(UnpackError::NoIdMatch(m)) => ("nomatch".into(), jv(ty, vec![]), Some(m)),
        Err(UnpackError::NoCast(_)) => ("nocast".into(), jv(ty, vec![]), None),
        Err(UnpackError::DeserError(_)) => ("err".into(), jv(ty, vec![]), None),
    }
}
fn sval(v: V) -> Vec<i64> {
    let mut o = vec![];
    v_to(&v, &mut o);
    o
}
fn read_as(m: NetMessage, ty: &str, via: &str) -> (String, Value, Option<NetMessage>, Value) {
    let np = json!({"s": nopath(), "d": nopath()});
    macro_rules! go {
        ($t:ty, $d:ty, $f:expr) => {{
            match via {
                "into" => match m.try_into_deserialised::<$t, $d>() {
                    Ok(dm) => {
                        let sd = json!({"s": jpath(&dm.sender), "d": jpath(&dm.receiver)});
                        ("ok".to_string(), jv(ty, $f(dm.content)), None, sd)
                    }
                    Err(e) => {
                        let (a, b, c) = outcome::<$t, NetMessage>(Err(e), ty, $f);
                        (a, b, c, np)
                    }
                },
                "data" => {
                    let NetMessage { sender, receiver, data, session } = m;
                    let (a, b, c) = outcome(data.try_deserialise::<$t, $d>(), ty, $f);
                    (a, b, c.map(|data| NetMessage { sender, receiver, data, session }), np)
                }
                _ => {
                    let (a, b, c) = outcome(m.try_deserialise::<$t, $d>(), ty, $f);
                    (a, b, c, np)
                }
            }
        }};
    }
    match ty {
        "str" => go!(String, String, |s: String| jb(s.as_bytes())),
        "u64" => go!(u64, u64, |s: u64| jb(&s.to_be_bytes())),
        "unit" => go!((), (), |_s: ()| vec![]),
        "rawa" => go!(RawA, RawA, |s: RawA| jb(&s.0)),
        "rawb" => go!(RawB, RawB, |s: RawB| jb(&s.0)),
        "serde" => go!(V, Serde, sval),
        "apath" => go!(ActorPath, ActorPath, |p: ActorPath| path_bytes(&jpath(&p))),
        "spath" => go!(SystemPath, SystemPath, jspath),
        t => panic!("type {}", t),
    }
}
/// the lists of alternatives that are compiled in
fn match_list(m: NetMessage, list: i64) -> (Value, String, Value) {
    let l;
    let r = match list {
        0 => {
            l = json!(["str", "u64", "unit", "serde"]);
            match_deser!(m {
                msg(x): String => ("ok", jv("str", jb(x.as_bytes()))),
                msg(x): u64 => ("ok", jv("u64", jb(&x.to_be_bytes()))),
                msg(_x): () => ("ok", jv("unit", vec![])),
                msg(x): V [using Serde] => ("ok", jv("serde", sval(x))),
                err(_e) => ("err", jv("", vec![])),
                default(_) => ("default", jv("", vec![])),
            })
        }
        1 => {
            l = json!(["rawb", "rawa", "serde"]);
            match_deser!(m {
                msg(x): RawB => ("ok", jv("rawb", jb(&x.0))),
                msg(x): RawA => ("ok", jv("rawa", jb(&x.0))),
                msg(x): V [using Serde] => ("ok", jv("serde", sval(x))),
                err(_e) => ("err", jv("", vec![])),
                default(_) => ("default", jv("", vec![])),
            })
        }
        2 => {
            l = json!(["u64"]);
            match_deser!(m {
                msg(x): u64 [using u64] => ("ok", jv("u64", jb(&x.to_be_bytes()))),
                err(_e) => ("err", jv("", vec![])),
                default(_) => ("default", jv("", vec![])),
            })
        }
        _ => {
            l = json!(["apath", "serde", "rawa", "str", "spath"]);
            match_deser!(m {
                msg(x): ActorPath => ("ok", jv("apath", path_bytes(&jpath(&x)))),
                msg(x): V [using Serde] => ("ok", jv("serde", sval(x))),
                msg(x): RawA [using RawA] => ("ok", jv("rawa", jb(&x.0))),
                msg(x): String [using String] => ("ok", jv("str", jb(x.as_bytes()))),
                msg(x): SystemPath => ("ok", jv("spath", jspath(x))),
                err(_e) => ("err", jv("", vec![])),
                default(_) => ("default", jv("", vec![])),
            })
        }
    };
    (l, r.0.to_string(), r.1)
}

fn all_bytes(f: &SerialisedFrame) -> Vec<u8> {
    // reads without consuming: a lease cannot be cloned
    match f {
        SerialisedFrame::ChunkLease(c) => c.create_byte_clone().to_vec(),
        SerialisedFrame::ChunkRef(c) => {
            let mut c = c.clone();
            let mut o = vec![];
            while c.has_remaining() {
                o.push(c.get_u8());
            }
            o
        }
        SerialisedFrame::Bytes(b) => b.to_vec(),
    }
}
/// what the other side does with the bytes of a frame
fn receive(by: &[u8], chunk: usize, keep: &mut Vec<Box<dyn Any>>) -> Result<NetMessage, String> {
    let (r, p, d) = receive_in(by, chunk);
    keep.push(Box::new((p, d)));
    r
}
fn receive_in(by: &[u8], chunk: usize) -> (Result<NetMessage, String>, BufferPool, DecodeBuffer) {
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(chunk.max(200));
    cfg.max_chunk_count(20_000_000 / chunk.max(200));
    let mut pool = BufferPool::with_config(&cfg, &None);
    let mut dec = DecodeBuffer::new(pool.get_buffer().unwrap(), &cfg);
    let mut off = 0;
    let r = loop {
        match dec.get_frame() {
            Ok(Frame::Data(d)) => break deserialise_chunk_lease(d.payload()).map_err(|_| "deser".to_string()),
            Ok(_) => break Err("frame".into()),
            Err(kompact::net::frames::FramingError::NoData) => {
                if off == by.len() {
                    break Err("short".into());
                }
                match dec.get_writeable() {
                    None => {
                        let mut b = pool.get_buffer().unwrap();
                        dec.swap_buffer(&mut b);
                        pool.return_buffer(b);
                    }
                    Some(w) => {
                        let n = w.len().min(by.len() - off);
                        w[..n].copy_from_slice(&by[off..off + n]);
                        off += n;
                        dec.advance_writeable(n);
                    }
                }
            }
            Err(_) => break Err("framing".into()),
        }
    };
    (r, pool, dec)
}

fn op(w: &mut World, o: &Value, log: &mut Vec<Value>) {
    match o["o"].as_str().unwrap() {
        "path" => {
            let p = path_of(&o["p"]);
            let tx = p.to_string();
            log.push(parse_ev(&tx, "own", Some(&o["p"])));
            let mut by: Vec<u8> = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| p.serialise(&mut by)));
            log.push(json!({"e":"enc","p":o["p"],"by":jb(&by),"r": match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" }}));
            by.extend(bytes_of(&o["suf"]));
            dec_ev(&by, log);
            // comparing
            let q = path_of(&o["p2"]);
            log.push(json!({"e":"peq","p":o["p"],"p2":o["p2"],"r": p == q, "t": tx == q.to_string()}));
            let mut s = path_of(&o["p"]);
            match o["set"].as_i64().unwrap_or(-1) {
                0 => s.via_local(),
                1 => s.via_tcp(),
                2 => s.via_udp(),
                _ => (),
            }
            log.push(json!({"e":"setp","p":o["p"],"set":o["set"],"q":jpath(&s)}));
        }
        "parse" => {
            let tx = str_of(&o["tx"]);
            log.push(parse_ev(&tx, o["how"].as_str().unwrap(), None));
        }
        "dec" => dec_ev(&bytes_of(&o["by"]), log),
        "build" => {
            // names and where they may become part of a path
            let segs: Vec<String> = o["segs"].as_array().unwrap().iter().map(str_of).collect();
            let arg = str_of(&o["arg"]);
            let base = path_of(&o["p"]);
            let way = o["way"].as_str().unwrap();
            let (r, q) = pres(|| -> Result<ActorPath, PathParseError> {
                match way {
                    "vec" => sys_of(&o["p"]).into_named_with_vec(segs.clone()).map(ActorPath::Named),
                    "str" => sys_of(&o["p"]).into_named_with_string(&arg).map(ActorPath::Named),
                    "push" => {
                        let mut n = base.clone().unwrap_named();
                        n.push(arg.clone())?;
                        Ok(n.into())
                    }
                    "append" => base.clone().unwrap_named().append(&arg).map(ActorPath::Named),
                    "insert" => validate_insert_path(&segs).map(|_| path_of(&nopath())),
                    "lookup" => validate_lookup_path(&segs).map(|_| path_of(&nopath())),
                    x => panic!("way {}", x),
                }
            });
            log.push(json!({"e":"build","way":way,"p":o["p"],"segs":o["segs"],"arg":o["arg"],"r":r,"q":q}));
        }
        "big" => {
            // long names: the length of the name has to fit
            let n = o["n"].as_u64().unwrap() as usize;
            let k = o["k"].as_u64().unwrap() as usize;
            let name = "x".repeat(n);
            let p: ActorPath = NamedPath::with_system(sys_of(&o["p"]), vec![name; k]).into();
            let mut by: Vec<u8> = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| p.serialise(&mut by)));
            let ok = matches!(r, Ok(Ok(())));
            let (d, same) = if ok {
                let mut b: &[u8] = &by;
                match catch_unwind(AssertUnwindSafe(|| ActorPath::deserialise(&mut b))) {
                    Ok(Ok(q)) => ("ok", q == p && q.to_string() == p.to_string() && b.is_empty()),
                    Ok(Err(_)) => ("err", false),
                    Err(_) => ("panic", false),
                }
            } else {
                ("err", false)
            };
            log.push(json!({"e":"big","n":n,"k":k,"r": match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" },"d":d,"same":same}));
        }
        "val" => {
            let mut by: Vec<u8> = vec![];
            let b = boxed(&o["v"]);
            let r = catch_unwind(AssertUnwindSafe(|| b.serialise(&mut by)));
            let r = match r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            log.push(json!({"e":"venc","v":o["v"],"by":jb(&by),"id":b.ser_id() as i64,"r":r}));
            if r == "ok" {
                vdec_ev(o["v"]["ty"].as_str().unwrap(), &by, log);
            }
            if b.size_hint().is_some() {
                // the same by the helpers that make the buffer themselves; the hint may be wrong
                let r = catch_unwind(AssertUnwindSafe(|| b.serialised().map(|x| (x.ser_id as i64, x.data.to_vec()))));
                log.push(match r {
                    Ok(Ok((id, by))) => json!({"e":"venc","v":o["v"],"by":jb(&by),"id":id,"r":"ok"}),
                    Ok(Err(_)) => json!({"e":"venc","v":o["v"],"by":[],"id":b.ser_id() as i64,"r":"err"}),
                    Err(_) => json!({"e":"venc","v":o["v"],"by":[],"id":b.ser_id() as i64,"r":"panic"}),
                });
                let id = b.ser_id() as i64;
                let (s, d): (ActorPath, ActorPath) = ("tcp://127.0.0.1:1/s".parse().unwrap(), "udp://127.0.0.2:2/d".parse().unwrap());
                let r = catch_unwind(AssertUnwindSafe(|| kompact::prelude::ser_helpers::serialise_to_msg(s.clone(), d.clone(), b)));
                log.push(match r {
                    Ok(Ok(m)) if m.sender == s && m.receiver == d => {
                        let id = *m.ser_id() as i64;
                        match m.data.try_deserialise_unchecked::<RawA, RawA>() {
                            Ok(x) => json!({"e":"venc","v":o["v"],"by":jb(&x.0),"id":id,"r":"ok"}),
                            Err(_) => json!({"e":"venc","v":o["v"],"by":[],"id":id,"r":"err"}),
                        }
                    }
                    Ok(Ok(_)) => json!({"e":"venc","v":o["v"],"by":[],"id":id,"r":"paths"}),
                    Ok(Err(_)) => json!({"e":"venc","v":o["v"],"by":[],"id":id,"r":"err"}),
                    Err(_) => json!({"e":"venc","v":o["v"],"by":[],"id":id,"r":"panic"}),
                });
            }
        }
        "vdec" => vdec_ev(o["ty"].as_str().unwrap(), &bytes_of(&o["by"]), log),
        "mdec" => {
            let by = bytes_of(&o["by"]);
            let via = o["via"].as_str().unwrap();
            let mut keep: Vec<EncodeBuffer> = vec![];
            let mut lease = |b: &[u8]| {
                let mut c = BufferConfig::default();
                c.chunk_size(128);
                c.encode_buf_min_free_space(8);
                let mut e = EncodeBuffer::with_config(&c, &None);
                let mut x = e.get_buffer_encoder().unwrap();
                x.put_slice(b);
                let l = x.get_chunk_lease().unwrap_or_else(|_| ChunkLease::empty());
                drop(x);
                keep.push(e);
                l
            };
            let r = catch_unwind(AssertUnwindSafe(|| match via {
                "lease" => deserialise_chunk_lease(lease(&by)),
                "ref" => deserialise_chunk_ref(lease(&by).into_chunk_ref()),
                _ => deserialise_bytes(by.clone().into()),
            }));
            let (r, m) = match r {
                Ok(Ok(m)) => ("ok", Some(m)),
                Ok(Err(_)) => ("err", None),
                Err(_) => ("panic", None),
            };
            let mut e = json!({"e":"mdec","by":jb(&by),"r":r,"s":nopath(),"d":nopath(),"id":0,"v":jv("rawa",vec![])});
            if let Some(m) = m {
                e["s"] = jpath(&m.sender);
                e["d"] = jpath(&m.receiver);
                let id = *m.ser_id();
                e["id"] = json!([(id >> 32) as i64 & 0x7fffffff, (id & 0x7fffffff) as i64]);
                if let Ok(x) = catch_unwind(AssertUnwindSafe(|| m.try_deserialise_unchecked::<RawA, RawA>())) {
                    if let Ok(x) = x {
                        e["v"] = jv("rawa", jb(&x.0));
                    }
                } else {
                    e["r"] = json!("panic");
                }
            }
            log.push(e);
        }
        "pre" => {
            let v = o["v"].clone();
            let r = catch_unwind(AssertUnwindSafe(|| w.on(move |s| with_val!(v, |x| s.ctx.preserialise(&x).map_err(|_| ())))));
            let r = match r {
                Ok(Ok(c)) => {
                    w.pre.insert(o["slot"].as_i64().unwrap(), c);
                    "ok"
                }
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            log.push(json!({"e":"pre","v":o["v"],"slot":o["slot"],"r":r}));
        }
        "dropp" => {
            w.pre.remove(&o["slot"].as_i64().unwrap());
            log.push(json!({"e":"dropp","slot":o["slot"]}));
        }
        "drop" => {
            w.kept.remove(&o["m"].as_i64().unwrap());
            log.push(json!({"e":"drop","m":o["m"]}));
        }
        "msg" | "fwd" => {
            let dst = path_of(&o["dst"]);
            let from = if o["from"].is_object() { Some(path_of(&o["from"])) } else { None };
            let way = o["way"].as_str().unwrap().to_string();
            let v = o["v"].clone();
            let m = o["m"].as_i64().unwrap();
            let mut ev = json!({"e":"sent","way":way,"m":m,"src":o["src"],"slot":o["slot"],"dst":o["dst"],"hasfrom":from.is_some(),
                "from": from.as_ref().map(jpath).unwrap_or_else(nopath),"v":o["v"],"r":"ok"});
            let f2 = from.clone();
            let d2 = dst.clone();
            let r: Result<Result<(), ()>, _> = if o["o"] == "fwd" {
                let msg = match w.kept.remove(&o["src"].as_i64().unwrap()) {
                    Some(m) => m,
                    None => return,
                };
                catch_unwind(AssertUnwindSafe(|| {
                    w.on(move |s| {
                        match f2 {
                            Some(f) => d2.forward_with_sender(msg, s, f),
                            None => d2.forward_with_original_sender(msg, s),
                        }
                        Ok(())
                    })
                }))
            } else if way == "tpre" {
                let c = match w.pre.get(&o["slot"].as_i64().unwrap()) {
                    Some(c) => c.clone(),
                    None => return,
                };
                catch_unwind(AssertUnwindSafe(|| {
                    w.on(move |s| match f2 {
                        Some(f) => d2.tell_preserialised_with_sender(c, s, f).map_err(|_| ()),
                        None => d2.tell_preserialised(c, s).map_err(|_| ()),
                    })
                }))
            } else if way == "tser" {
                catch_unwind(AssertUnwindSafe(|| {
                    w.on(move |s| {
                        with_val!(v, |x| match f2 {
                            Some(f) => d2.tell_serialised_with_sender(x, s, f).map_err(|_| ()),
                            None => d2.tell_serialised(x, s).map_err(|_| ()),
                        })
                    })
                }))
            } else {
                catch_unwind(AssertUnwindSafe(|| {
                    w.on(move |s| {
                        let b = boxed(&v);
                        match f2 {
                            Some(f) => d2.tell_with_sender(b, s, f),
                            None => d2.tell(b, s),
                        }
                        Ok(())
                    })
                }))
            };
            let rs = match &r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            ev["r"] = json!(rs);
            let env = if rs == "ok" { w.rx.recv_timeout(Duration::from_secs(5)).ok() } else { w.rx.try_recv().ok() };
            let (es, ed, data) = match env {
                Some(DispatchEnvelope::Msg { src, dst, msg }) => (src, dst, msg),
                Some(DispatchEnvelope::ForwardedMsg { msg }) => (msg.sender.clone(), msg.receiver.clone(), DispatchData::NetMessage(msg)),
                _ => {
                    ev["es"] = nopath();
                    ev["ed"] = nopath();
                    ev["env"] = json!(false);
                    log.push(ev);
                    return;
                }
            };
            ev["es"] = jpath(&es);
            ev["ed"] = jpath(&ed);
            ev["env"] = json!(true);
            log.push(ev);
            let chunk = o["chunk"].as_u64().unwrap_or(4000) as usize;
            // the dispatcher delivers it here or puts it on the wire
            let got = match o["then"].as_str().unwrap() {
                "local" => catch_unwind(AssertUnwindSafe(|| data.into_local().map_err(|_| "ser".to_string()))),
                _ => {
                    let enc = &mut w.enc;
                    let fr = catch_unwind(AssertUnwindSafe(|| {
                        let mut e = enc.get_buffer_encoder()?;
                        data.into_serialised(&mut e)
                    }));
                    match fr {
                        Ok(Ok(mut f)) => {
                            let by = all_bytes(&f);
                            let ln = f.len();
                            if o["then"] == "udp" {
                                f.make_contiguous();
                            }
                            let by2 = if o["then"] == "udp" { f.bytes().to_vec() } else { by.clone() };
                            log.push(json!({"e":"frame","m":m,"by":jb(&by),"ln":ln,"same":by == by2}));
                            let keep = &mut w.keep;
                            catch_unwind(AssertUnwindSafe(|| receive(&by, chunk, keep)))
                        }
                        Ok(Err(_)) => Ok(Err("ser".into())),
                        Err(e) => Err(e),
                    }
                }
            };
            let mut e = json!({"e":"got","m":m,"then":o["then"],"r":"ok","s":nopath(),"d":nopath(),"id":0,"ss":0});
            match got {
                Ok(Ok(mut msg)) => {
                    e["s"] = jpath(&msg.sender);
                    e["d"] = jpath(&msg.receiver);
                    e["id"] = json!(*msg.ser_id() as i64);
                    let ss = o["ss"].as_u64().unwrap_or(0);
                    if ss > 0 {
                        msg.set_session(SessionId::from_u128(ss as u128));
                    }
                    e["ss"] = json!(ss);
                    w.kept.insert(m, msg);
                }
                Ok(Err(x)) => e["r"] = json!(if x == "ser" { "err" } else { "lost" }),
                Err(_) => e["r"] = json!("panic"),
            }
            log.push(e);
        }
        "clone" => {
            let (m, n) = (o["m"].as_i64().unwrap(), o["n"].as_i64().unwrap());
            if let Some(x) = w.kept.get(&m) {
                let r = match catch_unwind(AssertUnwindSafe(|| x.try_clone())) {
                    Ok(Ok(c)) => {
                        w.kept.insert(n, c);
                        "ok"
                    }
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                log.push(json!({"e":"clone","m":m,"n":n,"r":r}));
            }
        }
        "read" => {
            let m = o["m"].as_i64().unwrap();
            if let Some(x) = w.kept.remove(&m) {
                let ty = o["ty"].as_str().unwrap();
                let via = o["via"].as_str().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| read_as(x, ty, via)));
                let mut e = json!({"e":"read","m":m,"ty":ty,"via":via,"r":"panic","v":jv(ty,vec![]),"s":nopath(),"d":nopath(),"ss":0});
                if let Ok((r, v, back, sd)) = r {
                    e["r"] = json!(r);
                    e["v"] = v;
                    e["s"] = sd["s"].clone();
                    e["d"] = sd["d"].clone();
                    if let Some(b) = back {
                        e["s"] = jpath(&b.sender);
                        e["d"] = jpath(&b.receiver);
                        e["ss"] = json!(b.session().map(|s| s.as_u128() as i64).unwrap_or(0));
                        w.kept.insert(m, b);
                    }
                }
                log.push(e);
            }
        }
        "match" => {
            let m = o["m"].as_i64().unwrap();
            if let Some(x) = w.kept.remove(&m) {
                let l = o["list"].as_i64().unwrap();
                match catch_unwind(AssertUnwindSafe(|| match_list(x, l))) {
                    Ok((l, r, v)) => log.push(json!({"e":"match","m":m,"list":l,"r":r,"v":v})),
                    Err(_) => log.push(json!({"e":"match","m":m,"list":[],"r":"panic","v":jv("",vec![])})),
                }
            }
        }
        x => panic!("op {}", x),
    }
}
fn dec_ev(by: &[u8], log: &mut Vec<Value>) {
    let mut b: &[u8] = by;
    let (r, q) = pres(|| ActorPath::deserialise(&mut b));
    let used = by.len() - b.len();
    log.push(json!({"e":"dec","by":jb(by),"r":r,"q":q,"used":used}));
    let mut b: &[u8] = by;
    let (r, q) = pres(|| SystemPath::deserialise(&mut b).map(|s| ActorPath::Named(NamedPath::with_system(s, vec![]))));
    log.push(json!({"e":"sdec","by":jb(by),"r":r,"q":q}));
}
fn vdec_ev(ty: &str, by: &[u8], log: &mut Vec<Value>) {
    let mut b: &[u8] = by;
    let d: &mut dyn Buf = &mut b;
    let r = catch_unwind(AssertUnwindSafe(|| match ty {
        "str" => String::deserialise(d).map(|s| jb(s.as_bytes())),
        "u64" => u64::deserialise(d).map(|s| jb(&s.to_be_bytes())),
        "unit" => <()>::deserialise(d).map(|_| vec![]),
        "rawa" => RawA::deserialise(d).map(|s| jb(&s.0)),
        "rawb" => RawB::deserialise(d).map(|s| jb(&s.0)),
        "apath" => ActorPath::deserialise(d).map(|p| path_bytes(&jpath(&p))),
        "spath" => SystemPath::deserialise(d).map(jspath),
        "serde" => <Serde as Deserialiser<V>>::deserialise(d).map(sval),
        t => panic!("type {}", t),
    }));
    let used = by.len() - b.len();
    let (r, v) = match r {
        Ok(Ok(v)) => ("ok", v),
        Ok(Err(_)) => ("err", vec![]),
        Err(_) => ("panic", vec![]),
    };
    log.push(json!({"e":"vdec","ty":ty,"by":jb(by),"r":r,"v":jv(ty,v),"used":used}));
}

pub fn main(input: &str, output: &str) {
    use std::io::{BufRead, Write};
    let f = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    let mut world: Option<(String, World)> = None;
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario");
        // one world per buffer configuration, unless messages are to be kept from one scenario to the next
        let key = sc["buf"].to_string();
        if sc["fresh"] == true || world.as_ref().map(|w| w.0 != key).unwrap_or(true) {
            if let Some((_, w)) = world.take() {
                let World { sys, kept, pre, enc, keep, .. } = w;
                drop((kept, pre));
                drop((enc, keep));
                let _ = sys.shutdown().wait();
            }
            world = Some((key, World::new(&sc)));
        }
        let w = &mut world.as_mut().unwrap().1;
        w.kept.clear();
        w.pre.clear();
        w.keep.clear();
        while w.rx.try_recv().is_ok() {}
        let mut log = vec![json!({"e":"cfg","own":jpath(&w.own()),"tight":sc["tight"] == true})];
        for o in sc["ops"].as_array().unwrap() {
            op(w, o, &mut log);
        }
        writeln!(out, "{}", serde_json::to_string(&json!({"id": sc["id"], "t": log})).unwrap()).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
