//! Routing world: registrations, routing policies and messages to named, unique and routing paths; through whole systems
//! (local or network dispatcher, messages from the same or from another system) or on an actor store alone.
use kompact::lookup::{ActorLookup, ActorStore, InsertResult, LookupResult};
use kompact::messaging::{NetMessage, PathResolvable, RegistrationError};
use kompact::prelude::*;
use kompact::routing::groups::*;
use kompact_net::NetworkConfig;
use serde_json::{Value, json};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::mpsc::{Sender as Tx, channel};
use std::sync::{Arc, Mutex, Weak};
use std::time::{Duration, Instant};

const WAIT: Duration = Duration::from_secs(6);

/// a message that can be copied
#[derive(Debug, Clone)]
struct Mc(u64);
/// a message that can only be copied by serialising it
#[derive(Debug)]
struct Mn(u64);
macro_rules! msgty {
    ($t:ident, $id:expr, $cl:expr) => {
        impl Serialisable for $t {
            fn ser_id(&self) -> SerId {
                $id
            }
            fn size_hint(&self) -> Option<usize> {
                Some(8)
            }
            fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
                buf.put_u64(self.0);
                Ok(())
            }
            fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
                Ok(self)
            }
            fn cloned(&self) -> Option<Box<dyn Serialisable>> {
                let f: fn(&$t) -> Option<Box<dyn Serialisable>> = $cl;
                f(self)
            }
        }
        impl Deserialiser<$t> for $t {
            const SER_ID: SerId = $id;
            fn deserialise(buf: &mut dyn Buf) -> Result<$t, SerError> {
                if buf.remaining() < 8 {
                    return Err(SerError::invalid_data("short"));
                }
                Ok($t(buf.get_u64()))
            }
        }
    };
}
msgty!(Mc, 7001, |m| Some(Box::new(m.clone())));
msgty!(Mn, 7002, |_| None);

struct Got {
    m: u64,
    who: i64,
    from: String,
    to: String,
}
type Log = Arc<Mutex<Vec<Got>>>;

fn note(log: &Log, who: i64, msg: NetMessage) {
    let (from, to) = (msg.sender.to_string(), msg.receiver.to_string());
    let m = match_deser! {
        msg {
            msg(x): Mc => x.0,
            msg(x): Mn => x.0,
            err(_e) => 999_999_999,
            default(_) => 999_999_998,
        }
    };
    log.lock().unwrap().push(Got { m, who, from, to });
}

pub enum Do {
    Flush(Tx<()>),
    Send { to: ActorPath, m: u64, src: ActorPath, pre: bool, done: Tx<bool> },
}
impl std::fmt::Debug for Do {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Do")
    }
}

#[derive(ComponentDefinition)]
struct R {
    ctx: ComponentContext<Self>,
    id: i64,
    log: Log,
}
ignore_lifecycle!(R);
impl Actor for R {
    type Message = Do;
    fn receive_local(&mut self, d: Do) -> HandlerResult {
        match d {
            Do::Flush(t) => {
                let _ = t.send(());
            }
            Do::Send { to, m, src, pre, done } => {
                let r = if pre {
                    self.ctx
                        .preserialise(&Mc(m))
                        .and_then(|c| to.tell_preserialised_with_sender(c, self, src))
                } else {
                    to.tell_serialised_with_sender(Mc(m), self, src)
                };
                let _ = done.send(r.is_ok());
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        note(&self.log, self.id, msg);
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
struct Dead {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
    log: Log,
}
impl ComponentLifecycle for Dead {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            let _ = p.complete();
        }
        Handled::OK
    }
}
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        note(&self.log, -1, msg);
        Handled::OK
    }
}

/// a policy of both kinds: transparent messages are broadcast
#[derive(Debug)]
struct Both {
    b: BroadcastRouting,
    r: Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync>,
}
impl RoutingPolicy<DynActorRef, NetMessage> for Both {
    fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &kompact::KompactLogger) {
        self.b.route(members, msg, logger)
    }
    fn boxed_clone(&self) -> Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync> {
        Box::new(Both { b: self.b, r: self.r.boxed_clone() })
    }
    fn broadcast(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        Some(&self.b)
    }
    fn select(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        Some(&*self.r)
    }
}
fn policy(k: &str) -> StorePolicy {
    match k {
        "rr" => RoundRobinRouting::default().into(),
        "hash" => SenderDefaultHashBucketRouting::default().into(),
        "fh" => {
            let p: FieldHashBucketRouting<NetMessage, ActorPath, DefaultHasherBuilder> =
                FieldHashBucketRouting::new(DefaultHasherBuilder, |m| &m.receiver);
            p.into()
        }
        "bc" => BroadcastRouting.into(),
        "both" => Both { b: BroadcastRouting, r: Box::new(RoundRobinRouting::default()) }.into(),
        x => panic!("policy {}", x),
    }
}

fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn segs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn coded(v: &[String]) -> Value {
    json!(v.iter().map(|s| codes(s)).collect::<Vec<_>>())
}
fn split(s: &str) -> Vec<String> {
    s.split('/').map(|x| x.to_string()).collect()
}

struct W {
    sys: KompactSystem,
    rem: Option<KompactSystem>,
    sync: Option<Arc<Component<R>>>,
    comps: BTreeMap<i64, Arc<Component<R>>>,
    ids: BTreeMap<i64, ActorPath>,
    log: Log,
    /// (event index, message id, expected sender, expected receiver)
    open: Vec<(usize, u64, String, String)>,
    remsent: bool,
    pend: Vec<(usize, KFuture<Result<ActorPath, RegistrationError>>, Option<ActorPath>)>,
    t: Vec<Value>,
    n: u64,
    hung: bool,
    store: ActorStore,
    isstore: bool,
    dlref: Option<DynActorRef>,
}

fn system(log: &Log, net: bool) -> KompactSystem {
    let mut conf = KompactConfig::default();
    conf.threads(1).logger(crate::core_world::discard_logger());
    let l = log.clone();
    let dead = move |p: KPromise<()>| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), log: l.clone() };
    if net {
        conf.system_components(dead, NetworkConfig::new("127.0.0.1:0".parse().unwrap()).build());
    } else {
        conf.system_components(dead, LocalDispatcher::new);
    }
    conf.build().wait().expect("system")
}

impl W {
    fn err(r: &RegistrationError) -> &'static str {
        match r {
            RegistrationError::DuplicateEntry => "dup",
            RegistrationError::InvalidPath(_) => "inv",
            #[allow(unreachable_patterns)]
            _ => "other",
        }
    }
    fn comp(&mut self, c: i64) -> Arc<Component<R>> {
        if let Some(x) = self.comps.get(&c) {
            return x.clone();
        }
        let log = self.log.clone();
        let x = self.sys.create(move || R { ctx: ComponentContext::uninitialised(), id: c, log });
        self.sys.start(&x);
        let path = self.sys.actor_path_for(&x);
        self.ids.insert(c, path);
        self.comps.insert(c, x.clone());
        x
    }
    fn settle(&mut self) {
        for (i, f, want) in std::mem::take(&mut self.pend) {
            match f.wait_timeout(WAIT) {
                Ok(Ok(p)) => {
                    self.t[i]["r"] = json!("ok");
                    match p {
                        ActorPath::Named(np) => {
                            self.t[i]["q"] = coded(np.path_ref());
                            self.t[i]["same"] = json!((*np.system() == self.sys.system_path()) as i64);
                        }
                        p => self.t[i]["same"] = json!((Some(p) == want) as i64),
                    }
                }
                Ok(Err(e)) => self.t[i]["r"] = json!(Self::err(&e)),
                Err(_) => {
                    self.t[i]["r"] = json!("lost");
                    self.hung = true;
                }
            }
        }
    }
    fn wait_for(&self, m: u64) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < WAIT {
            if self.log.lock().unwrap().iter().any(|g| g.m == m) {
                return true;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
        false
    }
    /// the dispatcher and the dead letter box have handled what was sent so far
    fn sync_keep(&mut self) {
        self.n += 1;
        let m = 1_000_000 + self.n;
        self.sys.deadletter_path().tell(Mc(m), &self.sys);
        if !self.wait_for(m) {
            self.hung = true;
        }
    }
    /// everything sent so far has arrived wherever it goes
    fn sync(&mut self) {
        self.settle();
        if self.hung {
            return;
        }
        if self.remsent {
            self.n += 1;
            let m = 1_000_000 + self.n;
            let to = self.sys.actor_path_for(self.sync.as_ref().unwrap());
            to.tell(Mc(m), self.rem.as_ref().unwrap());
            if !self.wait_for(m) {
                self.hung = true;
            }
            self.remsent = false;
        }
        if !self.isstore {
            // through the dispatcher and the dead letter box
            self.sync_keep();
        } else if let Some(d) = &self.dlref {
            self.n += 1;
            let m = 1_000_000 + self.n;
            d.tell(NetMessage::with_box(7001, self.sys.deadletter_path(), self.sys.deadletter_path(), Box::new(Mc(m))));
            if !self.wait_for(m) {
                self.hung = true;
            }
        }
        let (tx, rx) = channel();
        for c in self.comps.values() {
            c.actor_ref().tell(Do::Flush(tx.clone()));
        }
        for _ in 0..self.comps.len() {
            if rx.recv_timeout(WAIT).is_err() {
                self.hung = true;
            }
        }
        let log = std::mem::take(&mut *self.log.lock().unwrap());
        let mut bad = 0;
        for g in &log {
            if g.m >= 1_000_000 && g.m < 900_000_000 {
                continue;
            }
            match self.open.iter().find(|o| o.1 == g.m) {
                None => bad += 1,
                Some((i, _, from, to)) => {
                    if *from != g.from || *to != g.to {
                        self.t[*i]["bad"] = json!(self.t[*i]["bad"].as_i64().unwrap() + 1);
                    }
                    if g.who < 0 {
                        self.t[*i]["d"] = json!(self.t[*i]["d"].as_i64().unwrap() + 1);
                    } else {
                        self.t[*i]["g"].as_array_mut().unwrap().push(json!(g.who));
                    }
                }
            }
        }
        self.open.clear();
        if bad > 0 {
            self.t.push(json!({"e":"stray","n":bad}));
        }
    }
    fn path(&self, o: &Value) -> Option<ActorPath> {
        let mut sp = self.sys.system_path();
        if o["lp"].as_i64() == Some(1) {
            sp = SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0);
        }
        if let Some(c) = o["c"].as_i64() {
            return match self.ids.get(&c) {
                Some(ActorPath::Unique(u)) => Some(sp.into_unique(u.id()).into()),
                _ => None,
            };
        }
        Some(if segs(&o["p"]).is_empty() { NamedPath::with_system(sp, vec![]).into() } else { sp.into_named_with_vec(segs(&o["p"])).expect("lookup path").into() })
    }
    fn op(&mut self, o: &Value) {
        let k = o["o"].as_str().unwrap();
        if self.remsent && k != "snd" {
            self.sync(); // messages from elsewhere overtake what is done here
            if self.hung {
                return;
            }
        }
        match k {
            "new" => {
                self.comp(o["c"].as_i64().unwrap());
            }
            "uni" => {
                let id = o["c"].as_i64().unwrap();
                let (c, f) = if o["car"].as_i64() == Some(1) && !self.comps.contains_key(&id) {
                    let log = self.log.clone();
                    let (x, f) = self.sys.create_and_register(move || R { ctx: ComponentContext::uninitialised(), id, log });
                    self.sys.start(&x);
                    self.ids.insert(id, self.sys.actor_path_for(&x));
                    self.comps.insert(id, x.clone());
                    (x, f)
                } else {
                    let c = self.comp(id);
                    let f = self.sys.register(&c);
                    (c, f)
                };
                self.t.push(json!({"e":"uni","c":id,"r":"","same":0}));
                let want = self.sys.actor_path_for(&c);
                self.pend.push((self.t.len() - 1, f, Some(want)));
            }
            "ali" => {
                let text = o["x"].as_str().unwrap();
                let c = self.comp(o["c"].as_i64().unwrap());
                let upd = o["u"].as_i64() == Some(1);
                let f = if upd { self.sys.update_alias_registration(&c, text) } else { self.sys.register_by_alias(&c, text) };
                self.t.push(json!({"e":"ali","c":o["c"],"p":coded(&split(text)),"u":upd as i64,"r":"","q":[],"same":0}));
                self.pend.push((self.t.len() - 1, f, None));
            }
            "pol" => {
                let text = o["x"].as_str().unwrap();
                let upd = o["u"].as_i64() == Some(1);
                let f = self.sys.set_routing_policy(policy(o["k"].as_str().unwrap()), text, upd);
                self.t.push(json!({"e":"pol","k":o["k"],"p":coded(&split(text)),"u":upd as i64,"r":"","q":[],"same":0}));
                self.pend.push((self.t.len() - 1, f, None));
            }
            "race" => {
                self.sync();
                let cs: Vec<i64> = o["cs"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                let text = o["x"].as_str().unwrap().to_string();
                let comps: Vec<_> = cs.iter().map(|c| self.comp(*c)).collect();
                let bar = Arc::new(std::sync::Barrier::new(cs.len()));
                let hs: Vec<_> = comps
                    .into_iter()
                    .map(|c| {
                        let (sys, text, bar) = (self.sys.clone(), text.clone(), bar.clone());
                        std::thread::spawn(move || {
                            bar.wait();
                            let f = sys.register_by_alias(&c, text);
                            match f.wait_timeout(WAIT) {
                                Ok(Ok(_)) => "ok",
                                Ok(Err(e)) => W::err(&e),
                                Err(_) => "lost",
                            }
                        })
                    })
                    .collect();
                let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                self.t.push(json!({"e":"race","p":coded(&split(&text)),"cs":cs,"rs":rs}));
            }
            "snd" => {
                let Some(to) = self.path(o) else { return };
                self.n += 1;
                let m = self.n;
                let s = o["s"].as_i64().unwrap();
                let rem = o["rem"].as_i64() == Some(1) && self.rem.is_some();
                if rem && !self.remsent {
                    self.sync(); // what was registered so far is confirmed
                    if self.hung {
                        return;
                    }
                }
                if !rem && self.remsent {
                    self.sync();
                }
                let src: ActorPath = NamedPath::new(to.protocol(), "10.1.1.1".parse().unwrap(), 4000 + s as u16, vec!["snd".into()]).into();
                self.t.push(json!({"e":"snd","c":o["c"].as_i64().unwrap_or(-1),
                    "p": if o["c"].is_i64() { json!([]) } else { coded(&segs(&o["p"])) },
                    "s": s, "lp": o["lp"].as_i64().unwrap_or(0), "g":[], "d":0, "bad":0}));
                self.open.push((self.t.len() - 1, m, src.to_string(), to.to_string()));
                let boxed = |k: i64| -> Box<dyn Serialisable> { if k == 0 { Box::new(Mc(m)) } else { Box::new(Mn(m)) } };
                let mode = o["m"].as_i64().unwrap();
                let ser = || {
                    let mut v = vec![];
                    Mc(m).serialise(&mut v).unwrap();
                    bytes::Bytes::from(v)
                };
                if self.isstore {
                    let msg = match mode {
                        0 | 1 => NetMessage::with_box(7001 + mode as u64, src, to.clone(), boxed(mode)),
                        _ => NetMessage::with_bytes(7001, src, to.clone(), ser()),
                    };
                    match self.store.get_by_actor_path(&to) {
                        LookupResult::Ref(r) => r.tell(msg),
                        LookupResult::Group(g) => g.route(msg, self.sys.logger()),
                        _ => self.dlref.as_ref().unwrap().tell(msg),
                    }
                    return;
                }
                let sys = if rem {
                    self.remsent = true;
                    self.rem.as_ref().unwrap()
                } else {
                    &self.sys
                };
                match mode {
                    0 | 1 => to.tell_with_sender(boxed(mode), sys, src),
                    2 => to.forward_with_sender(NetMessage::with_bytes(7001, sys.deadletter_path(), sys.deadletter_path(), ser()), sys, src),
                    3 => to.forward_with_original_sender(NetMessage::with_box(7001, src, sys.deadletter_path(), boxed(0)), sys),
                    _ if !rem => {
                        let Some(c) = self.comps.values().next() else { return to.tell_with_sender(boxed(0), sys, src) };
                        let (tx, rx) = channel();
                        c.actor_ref().tell(Do::Send { to, m, src, pre: mode == 5, done: tx });
                        let _ = rx.recv_timeout(WAIT);
                    }
                    _ => to.tell_with_sender(boxed(0), sys, src),
                }
            }
            "kill" => {
                self.sync();
                if let Some(c) = self.comps.remove(&o["c"].as_i64().unwrap()) {
                    let w: Weak<Component<R>> = Arc::downgrade(&c);
                    if self.sys.kill_notify(c).wait_timeout(WAIT).is_err() {
                        self.hung = true;
                    }
                    let t0 = Instant::now();
                    while w.upgrade().is_some() && t0.elapsed() < Duration::from_secs(3) {
                        std::thread::sleep(Duration::from_micros(50));
                    }
                    self.t.push(json!({"e":"kill","c":o["c"]}));
                }
            }
            // wait until the registrations of ended components have been collected
            "reap" => {
                self.sync();
                let c = o["c"].as_i64().unwrap();
                let Some(to) = self.ids.get(&c).cloned() else { return };
                let t0 = Instant::now();
                let mut r = 0;
                while r == 0 && t0.elapsed() < Duration::from_secs(12) {
                    std::thread::sleep(Duration::from_millis(100));
                    self.n += 1;
                    let m = 1_000_000 + self.n;
                    to.tell(Mc(m), &self.sys);
                    self.sync_keep();
                    if self.log.lock().unwrap().iter().any(|g| g.m == m && g.who < 0) {
                        r = 1;
                    }
                }
                self.t.push(json!({"e":"reap","c":c,"r":r}));
            }
            "sync" => self.sync(),
            // -------- the store alone
            "ins" | "setp" => {
                let p = segs(&o["p"]);
                let how = o["how"].as_i64().unwrap_or(0);
                let mut pr = match how {
                    0 => PathResolvable::Segments(p.clone()),
                    1 => PathResolvable::Alias(p.join("/")),
                    _ => PathResolvable::Path(self.sys.system_path().into_named_with_vec(p.clone()).unwrap().into()),
                };
                let held = self.store.contains(&pr);
                let r = if k == "ins" {
                    let c = self.comp(o["c"].as_i64().unwrap());
                    if let Some(1) = o["uni"].as_i64() {
                        pr = PathResolvable::ActorId(c.id());
                    }
                    let held = self.store.contains(&pr);
                    (self.store.insert(pr, c.actor_ref().dyn_ref()), held)
                } else {
                    (self.store.set_routing_policy(&p, policy(o["k"].as_str().unwrap())), held)
                };
                let prev = match r.0 {
                    Ok(InsertResult::None) => "none",
                    Ok(InsertResult::Ref(_)) => "ref",
                    Ok(InsertResult::Policy(_)) => "pol",
                    Err(_) => "inv",
                };
                self.t.push(json!({"e":k,"c":o["c"].as_i64().unwrap_or(-1),"k":o["k"].as_str().unwrap_or(""),"p":coded(&p),
                    "uni":o["uni"].as_i64().unwrap_or(0),"held":r.1 as i64,"prev":prev}));
            }
            "rem" => {
                self.sync();
                let c = self.comp(o["c"].as_i64().unwrap());
                let n = self.store.remove(c.actor_ref().dyn_ref());
                self.t.push(json!({"e":"rem","c":o["c"],"n":n}));
            }
            "remu" => {
                let c = self.comp(o["c"].as_i64().unwrap());
                let b = self.store.remove_by_uuid(&c.id());
                self.t.push(json!({"e":"remu","c":o["c"],"b":b as i64}));
            }
            "remn" => {
                let p = segs(&o["p"]);
                let b = self.store.remove_by_named_path(&p);
                self.t.push(json!({"e":"remn","p":coded(&p),"b":b as i64}));
            }
            "clean" => {
                self.sync();
                let n = self.store.cleanup();
                self.t.push(json!({"e":"clean","n":n}));
            }
            // the dispatchers replace their store by a copy
            "copy" => self.store = self.store.clone(),
            x => panic!("op {}", x),
        }
    }
}

fn run(sc: &Value) -> Vec<Value> {
    let log: Log = Default::default();
    let isstore = sc["store"].as_i64() == Some(1);
    let net = sc["net"].as_i64() == Some(1);
    let sys = system(&log, net && !isstore);
    let mut w = W {
        sys,
        rem: None,
        sync: None,
        comps: BTreeMap::new(),
        ids: BTreeMap::new(),
        log: log.clone(),
        open: vec![],
        remsent: false,
        pend: vec![],
        t: vec![json!({"e":"cfg","imp":cfg!(feature = "implicit") as i64,"store":isstore as i64})],
        n: 0,
        hung: false,
        store: ActorStore::new(),
        isstore,
        dlref: None,
    };
    if isstore {
        let d = w.sys.deadletter_ref().dyn_ref();
        w.store.insert(PathResolvable::System, d.clone()).unwrap();
        w.dlref = Some(d);
    }
    if net && sc["remote"].as_i64() == Some(1) {
        let other: Log = Default::default();
        w.rem = Some(system(&other, true));
        let l = log.clone();
        let (c, f) = w.sys.create_and_register(move || R { ctx: ComponentContext::uninitialised(), id: 0, log: l });
        w.sys.start(&c);
        f.wait_timeout(WAIT).expect("sync component").expect("registered");
        w.sync = Some(c);
    }
    for o in sc["ops"].as_array().unwrap() {
        if w.hung {
            break;
        }
        w.op(o);
    }
    if !w.hung {
        w.sync();
    }
    if w.hung {
        w.t.push(json!({"e":"hang"}));
    }
    let t = std::mem::take(&mut w.t);
    let hung = w.hung;
    if hung {
        std::mem::forget(w);
        return t;
    }
    let W { sys, rem, sync, comps, .. } = w;
    drop((sync, comps));
    if let Some(r) = rem {
        let _ = r.shutdown().wait();
    }
    let _ = sys.shutdown().wait();
    t
}

pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
