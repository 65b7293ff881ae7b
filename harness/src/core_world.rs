//! Deterministic single-threaded world: real components, a scheduler that only queues, a manual timer.
//! Scenario ops are executed by the driver or inside handlers; everything observable is logged.
use kompact::prelude::*;
use kompact::runtime::{Scheduler, SchedulerShutdownError};
use kompact::component::SchedulingDecision;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- log
#[derive(Serialize, Clone, Debug)]
pub struct E {
    pub e: &'static str,
    pub c: i64,
    pub k: String,
    pub i: i64,
    pub j: i64,
    pub s: i64,
    pub r: String,
}
pub static LOG: Mutex<Vec<E>> = Mutex::new(Vec::new());
pub static GEN: AtomicU64 = AtomicU64::new(0);
pub static LOGON: AtomicBool = AtomicBool::new(false);
pub static NONX: AtomicU64 = AtomicU64::new(0); // number of events other than xb/xe

pub fn ev(e: &'static str, c: i64, k: &str, i: i64, j: i64, s: i64, r: &str) {
    if !LOGON.load(Ordering::SeqCst) {
        return;
    }
    if e != "xb" && e != "xe" {
        NONX.fetch_add(1, Ordering::SeqCst);
    }
    let mut log = LOG.lock().unwrap();
    if e == "xe" && log.last().map(|l| l.e == "xb" && l.c == c).unwrap_or(false) {
        log.pop(); // an execution in which nothing happened
        return;
    }
    log.push(E { e, c, k: k.to_string(), i, j, s, r: r.to_string() });
}

// ---------------------------------------------------------------- scenario language
fn ok() -> Res {
    Res::Ok
}
#[derive(Clone, Debug, Deserialize)]
pub struct Script {
    #[serde(default)]
    pub ops: Vec<Op>,
    #[serde(default = "ok")]
    pub r: Res,
}
impl Default for Script {
    fn default() -> Self {
        Script { ops: vec![], r: Res::Ok }
    }
}
#[derive(Clone, Debug, Deserialize)]
pub struct Fut {
    #[serde(default)]
    pub pre: Vec<Op>,
    #[serde(default)]
    pub p: u32,
    #[serde(default)]
    pub post: Vec<Op>,
    #[serde(default = "ok")]
    pub r: Res,
}
#[derive(Clone, Debug, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Res {
    Ok,
    Benign,
    Recov,
    Unrec,
    Shutdown,
    Panic,
    Block { f: u32, fut: Box<Fut> },
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "o", rename_all = "lowercase")]
pub enum Op {
    Send { to: usize, m: u32, #[serde(default)] via: u8, #[serde(default)] sc: Box<Script> },
    Trig { port: usize, i: u32, #[serde(default)] sc: Box<Script> },
    Sched { t: u32, d: u64, #[serde(default)] p: u64, #[serde(default)] sc: Box<Script> },
    Cancel { t: u32 },
    Spawn { f: u32, fut: Fut },
    Fire { p: u32 },
    Dropp { p: u32 },
    Ask { a: u32, to: usize, #[serde(default)] via: u8, #[serde(default)] sc: Box<Script> },
    Reply { a: u32, v: u32 },
    Dropask { a: u32 },
    Fwd { a: u32, to: usize, #[serde(default)] sc: Box<Script> },
    Ctl { to: usize, cmd: String, #[serde(default)] n: u32 },
    Setrec { c: usize, tag: u32 },
    Eq { c: usize, d: usize },
    // driver only
    New { c: usize, #[serde(default)] kind: String, #[serde(default)] start: Vec<Script>, #[serde(default)] stop: Vec<Script>, #[serde(default)] kill: Script },
    Conn { ch: u32, a: usize, b: usize, port: usize, #[serde(default)] kind: String },
    Disc { ch: u32 },
    Trigd { c: usize, port: usize, i: u32, #[serde(default)] sc: Box<Script> },
    Adv { d: u64 },
    Exec { #[serde(default)] k: usize },
    Drain,
    Rel { c: usize },
    Sleep { ms: u64 },
    Par { threads: Vec<Vec<Op>> },
}

// ---------------------------------------------------------------- probe component
#[derive(Clone, Debug)]
pub struct PEv {
    src: usize,
    i: u32,
    sc: Arc<Script>,
}
pub struct PA;
impl Port for PA {
    type Indication = PEv;
    type Request = PEv;
}
pub struct PB;
impl Port for PB {
    type Indication = PEv;
    type Request = PEv;
}
#[derive(Debug)]
pub struct AskReq {
    a: u32,
    src: usize,
    sc: Arc<Script>,
}
#[derive(Debug)]
pub enum M {
    T { src: usize, i: u32, sc: Arc<Script> },
    A(Ask<AskReq, u32>),
}
#[derive(Debug)]
pub struct Wrapped(usize, u32, Arc<Script>);
impl From<Wrapped> for M {
    fn from(w: Wrapped) -> M {
        M::T { src: w.0, i: w.1, sc: w.2 }
    }
}
#[derive(Debug)]
pub struct Wrapped2(usize, u32, Arc<Script>);
fn conv(w: Wrapped2) -> M {
    M::T { src: w.0, i: w.1, sc: w.2 }
}
impl From<Ask<AskReq, u32>> for M {
    fn from(a: Ask<AskReq, u32>) -> M {
        M::A(a)
    }
}
/// a message the way the dispatcher hands it to a component: as a network message, by a dynamic reference
#[derive(Debug)]
struct NetM(usize, u32, Arc<Script>);
impl Serialisable for NetM {
    fn ser_id(&self) -> SerId {
        4711
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
    fn serialise(&self, _: &mut dyn bytes::BufMut) -> Result<(), SerError> {
        Err(SerError::invalid_data("only local"))
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<NetM> for NetM {
    const SER_ID: SerId = 4711;
    fn deserialise(_: &mut dyn bytes::Buf) -> Result<NetM, SerError> {
        Err(SerError::invalid_data("only local"))
    }
}
fn netmsg(m: NetM) -> NetMessage {
    let p: ActorPath = "local://127.0.0.1:0/nobody".parse().expect("path");
    NetMessage::with_box(4711, p.clone(), p, Box::new(m))
}
#[derive(Debug)]
struct MyErr(String);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MyErr {}

#[derive(ComponentDefinition)]
pub struct Probe {
    ctx: ComponentContext<Self>,
    pa: ProvidedPort<PA>,
    pb: ProvidedPort<PB>,
    ra: RequiredPort<PA>,
    rb: RequiredPort<PB>,
    id: usize,
    generation: u64,
    start: VecDeque<Script>,
    stop: VecDeque<Script>,
    kill: Script,
    timers: HashMap<u32, ScheduledTimer>,
    asks: HashMap<u32, Ask<AskReq, u32>>,
    busy: Arc<AtomicUsize>,
    tid: Option<std::thread::ThreadId>,
    dedicated: bool,
    plain: u64, // unsynchronised counter: visibility of effects between handlers
    shadow: Arc<AtomicU64>,
}
pub static OVERLAP: AtomicU64 = AtomicU64::new(0);
pub static PACE: AtomicU64 = AtomicU64::new(0); // stress: busy work in handlers (ns)

impl Probe {
    fn lev(&self, e: &'static str, k: &str, i: i64, j: i64, s: i64, r: &str) {
        if self.generation == GEN.load(Ordering::SeqCst) {
            ev(e, self.id as i64, k, i, j, s, r)
        }
    }
    fn enter(&mut self) {
        if self.busy.fetch_add(1, Ordering::SeqCst) != 0 {
            self.lev("overlap", "", 0, 0, 0, "");
        }
        let t = std::thread::current().id();
        if self.dedicated {
            match self.tid {
                None => self.tid = Some(t),
                Some(x) if x == t => (),
                Some(_) => self.lev("thread", "", 0, 0, 0, ""),
            }
        }
        crate::mt::point("handler");
        if self.plain != self.shadow.load(Ordering::Relaxed) {
            self.lev("stale", "", 0, 0, 0, "");
        }
        self.plain += 1;
        self.shadow.store(self.plain, Ordering::Relaxed);
        let p = PACE.load(Ordering::Relaxed);
        if p > 0 {
            let t0 = std::time::Instant::now();
            while (t0.elapsed().as_nanos() as u64) < p {
                std::hint::spin_loop()
            }
        }
    }
    fn leave(&mut self) {
        self.busy.fetch_sub(1, Ordering::SeqCst);
    }
    fn run(&mut self, k: &str, i: i64, j: i64, s: i64, sc: &Script) -> HandlerResult {
        self.enter();
        self.lev("hb", k, i, j, s, "");
        run_ops(self, &sc.ops);
        self.finish("he", k, i, &sc.r)
    }
    fn finish(&mut self, e: &'static str, k: &str, i: i64, r: &Res) -> HandlerResult {
        let (name, f) = match r {
            Res::Ok => ("ok", 0),
            Res::Benign => ("benign", 0),
            Res::Recov => ("recov", 0),
            Res::Unrec => ("unrec", 0),
            Res::Shutdown => ("shutdown", 0),
            Res::Panic => ("panic", 0),
            Res::Block { f, .. } => ("block", *f as i64),
        };
        self.lev(e, k, i, f, 0, name);
        self.leave();
        let err = || MyErr(format!("F{}-{}-{}", self.id, name, i));
        match r {
            Res::Ok => Handled::OK,
            Res::Benign => Err(HandlerError::benign(err())),
            Res::Recov => Err(HandlerError::recoverable(err())),
            Res::Unrec => Err(HandlerError::unrecoverable(err())),
            Res::Shutdown => Handled::SHUTDOWN,
            Res::Panic => panic!("F{}-{}-{}", self.id, name, i),
            Res::Block { f, fut } => {
                let (f, fut) = (*f, fut.clone());
                Handled::block_on(self, move |acc| run_fut(acc, f, *fut))
            }
        }
    }
}
async fn run_fut(mut acc: ComponentDefinitionAccess<Probe>, f: u32, fut: Fut) -> HandlerResult {
    acc.enter();
    acc.lev("fb", "", f as i64, 0, 0, "");
    run_ops(&mut acc, &fut.pre);
    if fut.p != 0 {
        acc.lev("fw", "", f as i64, fut.p as i64, 0, "");
        acc.leave();
        let fu = if acc.generation == GEN.load(Ordering::SeqCst) { take_future(fut.p) } else { None };
        let r = match fu {
            Some(fu) => fu.await.is_ok(),
            None => false,
        };
        acc.enter();
        acc.lev("fr", "", f as i64, fut.p as i64, 0, if r { "ok" } else { "err" });
        run_ops(&mut acc, &fut.post);
    }
    acc.finish("fe", "", f as i64, &fut.r)
}

impl ComponentLifecycle for Probe {
    fn on_start(&mut self) -> HandlerResult {
        let sc = self.start.pop_front().unwrap_or_default();
        self.run("start", 0, 0, 0, &sc)
    }
    fn on_stop(&mut self) -> HandlerResult {
        let sc = self.stop.pop_front().unwrap_or_default();
        self.run("stop", 0, 0, 0, &sc)
    }
    fn on_kill(&mut self) -> HandlerResult {
        let sc = self.kill.clone();
        self.run("kill", 0, 0, 0, &sc)
    }
}
impl Actor for Probe {
    type Message = M;
    fn receive_local(&mut self, msg: M) -> HandlerResult {
        match msg {
            M::T { src, i, sc } => self.run("msg", i as i64, 0, src as i64, &sc),
            M::A(ask) => {
                let (a, src, sc) = (ask.request().a, ask.request().src, ask.request().sc.clone());
                self.asks.insert(a, ask);
                self.run("ask", a as i64, 0, src as i64, &sc)
            }
        }
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        match msg.try_deserialise::<NetM, NetM>() {
            Ok(NetM(src, i, sc)) => self.run("msg", i as i64, 0, src as i64, &sc),
            Err(_) => {
                self.lev("net", "", 0, 0, 0, "");
                Handled::OK
            }
        }
    }
}
impl Provide<PA> for Probe {
    fn handle(&mut self, e: PEv) -> HandlerResult {
        self.run("port", e.i as i64, 0, e.src as i64, &e.sc)
    }
}
impl Provide<PB> for Probe {
    fn handle(&mut self, e: PEv) -> HandlerResult {
        self.run("port", e.i as i64, 1, e.src as i64, &e.sc)
    }
}
impl Require<PA> for Probe {
    fn handle(&mut self, e: PEv) -> HandlerResult {
        self.run("port", e.i as i64, 2, e.src as i64, &e.sc)
    }
}
impl Require<PB> for Probe {
    fn handle(&mut self, e: PEv) -> HandlerResult {
        self.run("port", e.i as i64, 3, e.src as i64, &e.sc)
    }
}

// ---------------------------------------------------------------- shared tables
pub struct Tables {
    pub comps: HashMap<usize, Arc<Component<Probe>>>,
    pub refs: HashMap<usize, ActorRef<M>>,
    pub held: HashMap<usize, ActorRefStrong<M>>,
    pub ids: HashMap<uuid::Uuid, usize>,
    pub ports: HashMap<usize, (ProvidedRef<PA>, ProvidedRef<PB>, RequiredRef<PA>, RequiredRef<PB>)>,
    pub prom: HashMap<u32, KPromise<()>>,
    pub futs: HashMap<u32, KFuture<()>>,
    pub notes: Vec<(u32, KFuture<()>)>,
    pub askf: Vec<(u32, KFuture<u32>)>,
    pub chans: HashMap<u32, Box<dyn Channel + Send>>,
    pub system: Option<KompactSystem>,
}
pub static T: Mutex<Option<Tables>> = Mutex::new(None);
pub fn with<R>(f: impl FnOnce(&mut Tables) -> R) -> R {
    let mut g = T.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(|| Tables {
        comps: HashMap::new(),
        refs: HashMap::new(),
        held: HashMap::new(),
        ids: HashMap::new(),
        ports: HashMap::new(),
        prom: HashMap::new(),
        futs: HashMap::new(),
        notes: vec![],
        askf: vec![],
        chans: HashMap::new(),
        system: None,
    }))
}
fn ensure(t: &mut Tables, p: u32, made: &mut HashSet<u32>) {
    if made.insert(p) {
        let (pr, fu) = promise::<()>();
        t.prom.insert(p, pr);
        t.futs.insert(p, fu);
    }
}
pub static MADE: Mutex<Option<HashSet<u32>>> = Mutex::new(None);
fn with_prom<R>(p: u32, f: impl FnOnce(&mut Tables) -> R) -> R {
    let mut made = MADE.lock().unwrap();
    let made = made.get_or_insert_with(HashSet::new);
    with(|t| {
        ensure(t, p, made);
        f(t)
    })
}
fn take_future(p: u32) -> Option<KFuture<()>> {
    with_prom(p, |t| t.futs.remove(&p))
}
pub fn comp(c: usize) -> Option<Arc<Component<Probe>>> {
    with(|t| t.comps.get(&c).cloned())
}

// ---------------------------------------------------------------- ops
fn run_ops(cd: &mut Probe, ops: &[Op]) {
    for o in ops {
        run_op(Some(cd), 0, o);
    }
}
struct R(i64, String);

/// `me`: the component executing, or None for the driver (then `drv` is the id to log: 0, or -n for stress threads)
pub fn run_op(me: Option<&mut Probe>, drv: i64, op: &Op) {
    let who = me.as_ref().map(|p| p.id as i64).unwrap_or(drv);
    let live = me.as_ref().map(|p| p.generation == GEN.load(Ordering::SeqCst)).unwrap_or(true);
    if !live {
        return;
    }
    let src = who.unsigned_abs() as usize + if who < 0 { 1000 } else { 0 };
    match op {
        Op::Send { to, m, via, sc } => {
            let (r, h) = with(|t| (t.refs.get(to).cloned(), t.held.get(to).cloned()));
            let Some(r) = r else { return };
            let sc = Arc::new((**sc).clone());
            ev("send", src as i64, "", *m as i64, *to as i64, *via as i64, "");
            match via {
                1 => match h {
                    Some(h) => h.tell(M::T { src, i: *m, sc }),
                    None => match r.hold() {
                        Some(h) => h.tell(M::T { src, i: *m, sc }),
                        None => (),
                    },
                },
                2 => r.recipient::<Wrapped>().tell(Wrapped(src, *m, sc)),
                3 => r.recipient_with::<Wrapped2>(conv).tell(Wrapped2(src, *m, sc)),
                4 => match comp(*to) {
                    Some(c) => c.actor_ref().tell(M::T { src, i: *m, sc }),
                    None => r.tell(M::T { src, i: *m, sc }),
                },
                5 => match r.hold() {
                    Some(h) => h.weak_ref().clone().tell(M::T { src, i: *m, sc }),
                    None => r.tell(M::T { src, i: *m, sc }),
                },
                // as the dispatcher does it
                6 => r.dyn_ref().enqueue(netmsg(NetM(src, *m, sc))),
                7 => match h.or_else(|| r.hold()) {
                    Some(h) => h.dyn_ref().enqueue(netmsg(NetM(src, *m, sc))),
                    None => r.tell(M::T { src, i: *m, sc }),
                },
                _ => r.tell(M::T { src, i: *m, sc }),
            }
        }
        Op::Trig { port, i, sc } => {
            let Some(p) = me else { return };
            let e = PEv { src: p.id * 4 + port, i: *i, sc: Arc::new((**sc).clone()) };
            ev("trig", who, "", *i as i64, *port as i64, 0, "");
            match port {
                0 => p.pa.trigger(e),
                1 => p.pb.trigger(e),
                2 => p.ra.trigger(e),
                _ => p.rb.trigger(e),
            }
        }
        Op::Trigd { c, port, i, sc } => {
            let Some(a) = with(|t| t.ports.get(c).cloned()) else { return };
            let sys = with(|t| t.system.clone()).unwrap();
            let e = PEv { src: src, i: *i, sc: Arc::new((**sc).clone()) };
            ev("trigd", src as i64, "", *i as i64, *port as i64, *c as i64, "");
            match port {
                0 => sys.trigger_r(e, &a.0),
                1 => sys.trigger_r(e, &a.1),
                2 => sys.trigger_i(e, &a.2),
                _ => sys.trigger_i(e, &a.3),
            }
        }
        Op::Sched { t, d, p, sc } => {
            let Some(me) = me else { return };
            ev("sched", who, "", *t as i64, *d as i64, *p as i64, "");
            let (tt, sc) = (*t, sc.clone());
            let h = if *p == 0 {
                me.schedule_once(Duration::from_millis(*d), move |cd: &mut Probe, _| cd.run("tmo", tt as i64, 0, 0, &sc))
            } else {
                me.schedule_periodic(Duration::from_millis(*d), Duration::from_millis(*p), move |cd: &mut Probe, _| {
                    cd.run("tmo", tt as i64, 0, 0, &sc)
                })
            };
            me.timers.insert(*t, h);
        }
        Op::Cancel { t } => {
            let Some(me) = me else { return };
            if let Some(h) = me.timers.remove(t) {
                ev("cancel", who, "", *t as i64, 0, 0, "");
                me.cancel_timer(h);
            }
        }
        Op::Spawn { f, fut } => {
            let Some(me) = me else { return };
            ev("spawn", who, "", *f as i64, 0, 0, "");
            let (f, fut) = (*f, fut.clone());
            me.spawn_local(move |acc| run_fut(acc, f, fut));
        }
        Op::Fire { p } => {
            let pr = with_prom(*p, |t| t.prom.remove(p));
            if let Some(pr) = pr {
                ev("fire", src as i64, "", *p as i64, 0, 0, "ok");
                let _ = pr.complete();
            }
        }
        Op::Dropp { p } => {
            let pr = with_prom(*p, |t| t.prom.remove(p));
            if let Some(pr) = pr {
                ev("fire", src as i64, "", *p as i64, 0, 0, "err");
                drop(pr);
            }
        }
        Op::Ask { a, to, via, sc } => {
            let Some(r) = with(|t| t.refs.get(to).cloned()) else { return };
            let req = AskReq { a: *a, src, sc: Arc::new((**sc).clone()) };
            ev("ask", src as i64, "", *a as i64, *to as i64, 0, "");
            let f = if *via == 1 && r.hold().is_some() {
                r.hold().unwrap().ask_with(|p| M::A(Ask::new(p, req)))
            } else {
                r.ask_with(|p| M::A(Ask::new(p, req)))
            };
            with(|t| t.askf.push((*a, f)));
        }
        Op::Reply { a, v } => {
            let Some(me) = me else { return };
            if let Some(ask) = me.asks.remove(a) {
                ev("reply", who, "", *a as i64, *v as i64, 0, "");
                let r = ask.reply(*v);
                ev("replied", who, "", *a as i64, *v as i64, 0, if r.is_ok() { "ok" } else { "err" });
            }
        }
        Op::Dropask { a } => {
            let Some(me) = me else { return };
            if let Some(ask) = me.asks.remove(a) {
                ev("dropask", who, "", *a as i64, 0, 0, "");
                drop(ask);
            }
        }
        Op::Fwd { a, to, sc } => {
            let Some(me) = me else { return };
            let Some(r) = with(|t| t.refs.get(to).cloned()) else { return };
            if let Some(mut ask) = me.asks.remove(a) {
                ev("fwd", who, "", *a as i64, *to as i64, 0, "");
                ask.request_mut().sc = Arc::new((**sc).clone());
                ask.request_mut().src = src;
                r.tell(M::A(ask));
            }
        }
        Op::Ctl { to, cmd, n } => {
            if cmd == "suicide" {
                let Some(me) = me else { return };
                ev("ctl", src as i64, "kill", 0, who, 0, "");
                me.ctx.suicide();
                return;
            }
            let Some(a) = comp(*to) else { return };
            ev("ctl", src as i64, cmd, *n as i64, *to as i64, 0, "");
            macro_rules! go {
                ($s:expr) => {{
                    let s = $s;
                    match (cmd.as_str(), *n) {
                        ("start", 0) => s.start(&a),
                        ("stop", 0) => s.stop(&a),
                        ("kill", 0) => s.kill(a),
                        ("start", n) => {
                            let f = s.start_notify(&a);
                            with(|t| t.notes.push((n, f)))
                        }
                        ("stop", n) => {
                            let f = s.stop_notify(&a);
                            with(|t| t.notes.push((n, f)))
                        }
                        (_, n) => {
                            let f = s.kill_notify(a);
                            with(|t| t.notes.push((n, f)))
                        }
                    }
                }};
            }
            match me {
                Some(me) => go!(me.ctx.system()),
                None => go!(with(|t| t.system.clone()).unwrap()),
            }
        }
        Op::Setrec { c, tag } => {
            let c = *c;
            let tag = *tag;
            let g = GEN.load(Ordering::SeqCst);
            let rec = move |ctx: FaultContext| {
                let known = with(|t| t.ids.get(&ctx.component_id).copied()).unwrap_or(0);
                let what = match &ctx.fault {
                    Fault::Panic(p) => p.downcast_ref::<String>().cloned().unwrap_or_default(),
                    Fault::Handler(h) => format!("{}", h),
                };
                let ok = what.starts_with(&format!("F{}-", c));
                if g == GEN.load(Ordering::SeqCst) {
                    let kind = if what.contains("-panic-") { "panic" } else if what.contains("-recov-") { "recov" } else { "?" };
                    ev("rec", known as i64, kind, tag as i64, c as i64, 0, if ok { "ok" } else { "bad" });
                }
                ctx.recover_with(move |ctx, _s, _l| {
                    let known = with(|t| t.ids.get(&ctx.component_id).copied()).unwrap_or(0);
                    if g == GEN.load(Ordering::SeqCst) {
                        ev("recact", known as i64, "", tag as i64, c as i64, 0, "");
                    }
                })
            };
            match me {
                Some(me) => {
                    if c != me.id {
                        return;
                    }
                    ev("setrec", c as i64, "", tag as i64, 0, 0, "");
                    me.ctx.set_recovery_function(rec)
                }
                None => {
                    let Some(a) = comp(c) else { return };
                    ev("setrec", c as i64, "", tag as i64, 0, 0, "");
                    a.set_recovery_function(rec)
                }
            }
        }
        Op::Eq { c, d } => {
            let (Some(a), Some(b)) = with(|t| (t.refs.get(c).cloned(), t.refs.get(d).cloned())) else { return };
            let mut v = vec![a == b];
            if let (Some(x), Some(y)) = (a.hold(), b.hold()) {
                v.push(x == y);
                v.push(x.weak_ref() == b);
                v.push(a.recipient::<Wrapped>() == b.recipient::<Wrapped>());
                v.push(a.recipient_with::<Wrapped2>(conv) == b.recipient_with::<Wrapped2>(conv));
            }
            let x = v.iter().filter(|b| **b).count();
            let r = if x == v.len() { "t" } else if x == 0 { "f" } else { "mixed" };
            ev("eq", *c as i64, "", 0, *d as i64, 0, r);
        }
        _ => run_driver_op(op),
    }
}

fn boxed<C: Channel + Send + 'static>(c: C) -> Box<dyn Channel + Send> {
    Channel::boxed(c)
}

fn run_driver_op(op: &Op) {
    match op {
        Op::New { c, kind, start, stop, kill } => {
            let sys = with(|t| t.system.clone()).unwrap();
            let dedicated = kind == "ded";
            let (c, start, stop, kill) = (*c, start.clone(), stop.clone(), kill.clone());
            let make = move || Probe {
                ctx: ComponentContext::uninitialised(),
                pa: ProvidedPort::uninitialised(),
                pb: ProvidedPort::uninitialised(),
                ra: RequiredPort::uninitialised(),
                rb: RequiredPort::uninitialised(),
                id: c,
                generation: GEN.load(Ordering::SeqCst),
                start: start.into(),
                stop: stop.into(),
                kill,
                timers: HashMap::new(),
                asks: HashMap::new(),
                busy: Arc::new(AtomicUsize::new(0)),
                tid: None,
                dedicated,
                plain: 0,
                shadow: Arc::new(AtomicU64::new(0)),
            };
            ev("new", c as i64, kind, 0, 0, 0, "");
            let a = if dedicated { sys.create_dedicated(make) } else { sys.create(make) };
            with(|t| {
                t.ids.insert(a.id(), c);
                t.refs.insert(c, a.actor_ref());
                t.ports.insert(c, (a.provided_ref(), a.provided_ref(), a.required_ref(), a.required_ref()));
                if kind == "held" {
                    t.held.insert(c, a.actor_ref().hold().unwrap());
                }
                t.comps.insert(c, a);
            });
        }
        Op::Conn { ch, a, b, port, kind } => {
            let (Some(ca), Some(cb)) = (comp(*a), comp(*b)) else { return };
            if ca.is_faulty() || cb.is_faulty() {
                return; // cannot be locked any more
            }
            // a provides, b requires
            ev("conn", *a as i64, kind, *ch as i64, *b as i64, *port as i64, "");
            macro_rules! go {
                ($P:ty) => {{
                    match kind.as_str() {
                        "" | "two" => {
                            // a component that is executing right now cannot be connected: try again
                            let mut r = biconnect_components::<$P, _, _>(&ca, &cb);
                            for _ in 0..200 {
                                match r {
                                    Err(TryDualLockError::LeftWouldBlock) | Err(TryDualLockError::RightWouldBlock) => {
                                        std::thread::sleep(Duration::from_millis(1));
                                        r = biconnect_components::<$P, _, _>(&ca, &cb);
                                    }
                                    _ => break,
                                }
                            }
                            boxed(r.expect("connect"))
                        },
                        "p2r" => {
                            let r: RequiredRef<$P> = cb.required_ref();
                            boxed(<Arc<Component<Probe>> as LockingProvideRef<$P, Probe>>::connect_to_required(&ca, r))
                        }
                        _ => {
                            let r: ProvidedRef<$P> = ca.provided_ref();
                            boxed(<Arc<Component<Probe>> as LockingRequireRef<$P, Probe>>::connect_to_provided(&cb, r))
                        }
                    }
                }};
            }
            let c: Box<dyn Channel + Send> = if *port == 0 { go!(PA) } else { go!(PB) };
            with(|t| t.chans.insert(*ch, c));
        }
        Op::Disc { ch } => {
            let c = with(|t| t.chans.remove(ch));
            if let Some(c) = c {
                let r = c.disconnect_by_ref();
                ev("disc", 0, "", *ch as i64, 0, 0, if r.is_ok() { "ok" } else { "err" });
                drop(c);
            }
        }
        Op::Adv { d } => {
            ev("adv", 0, "", *d as i64, 0, 0, "");
            let t = with(|t| t.system.as_ref().map(|s| TIMERS.with(|m| m.borrow().get(&(s as *const _ as usize)).cloned()))).flatten();
            let _ = t;
            let tm = CURTIMER.lock().unwrap().clone();
            if let Some(tm) = tm {
                tm.advance_by(Duration::from_millis(*d));
            }
        }
        Op::Exec { k } => {
            exec_one(*k);
        }
        Op::Drain => drain(),
        Op::Rel { c } => {
            let a = with(|t| t.comps.remove(c));
            let h = with(|t| t.held.remove(c));
            if a.is_some() {
                ev("rel", *c as i64, "", 0, 0, 0, "");
            }
            drop(a);
            drop(h);
        }
        Op::Sleep { ms } => std::thread::sleep(Duration::from_millis(*ms)),
        Op::Par { threads } => {
            let hs: Vec<_> = threads
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, ops)| {
                    std::thread::spawn(move || {
                        for o in &ops {
                            guarded(-(i as i64) - 1, o);
                        }
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
        }
        _ => (),
    }
}
thread_local! { static TIMERS: std::cell::RefCell<HashMap<usize, ManualTimerT>> = std::cell::RefCell::new(HashMap::new()); }
type ManualTimerT = kompact::timer::ManualTimer;
pub static CURTIMER: Mutex<Option<ManualTimerT>> = Mutex::new(None);

pub fn guarded(drv: i64, op: &Op) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_op(None, drv, op)));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        ev("crash", drv, &m.replace('"', "'"), 0, 0, 0, "");
    }
}

// ---------------------------------------------------------------- deterministic scheduler
pub static RUNQ: Mutex<VecDeque<Arc<dyn CoreContainer>>> = Mutex::new(VecDeque::new());
static AUTO: AtomicBool = AtomicBool::new(false);
pub static POISON: AtomicBool = AtomicBool::new(false);

#[derive(Clone)]
struct DetScheduler;
impl Scheduler for DetScheduler {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        RUNQ.lock().unwrap().push_back(c);
    }
    fn shutdown_async(&self) {}
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        Ok(())
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        POISON.store(true, Ordering::SeqCst);
        ev("poison", 0, "", 0, 0, 0, "");
    }
    fn spawn(&self, future: futures::future::BoxFuture<'static, ()>) {
        std::thread::spawn(move || futures::executor::block_on(future));
    }
}

pub fn watch() {
    let mut done = vec![];
    with(|t| {
        let mut i = 0;
        while i < t.notes.len() {
            match futures::FutureExt::now_or_never(&mut t.notes[i].1) {
                Some(r) => {
                    let (n, _) = t.notes.swap_remove(i);
                    done.push(("n", n, if r.is_ok() { "ok" } else { "err" }, 0));
                }
                None => i += 1,
            }
        }
        let mut i = 0;
        while i < t.askf.len() {
            match futures::FutureExt::now_or_never(&mut t.askf[i].1) {
                Some(r) => {
                    let (n, _) = t.askf.swap_remove(i);
                    done.push(("a", n, if r.is_ok() { "ok" } else { "err" }, r.unwrap_or(0)));
                }
                None => i += 1,
            }
        }
    });
    done.sort();
    for (e, n, r, v) in done {
        ev(e, 0, "", n as i64, v as i64, 0, r);
    }
}

fn idx(c: &Arc<dyn CoreContainer>) -> i64 {
    with(|t| t.ids.get(&c.id()).copied()).unwrap_or(0) as i64
}

pub fn exec_one(k: usize) -> bool {
    let c = {
        let mut q = RUNQ.lock().unwrap();
        if q.is_empty() {
            return false;
        }
        let n = q.len();
        q.remove(k % n)
    };
    let Some(c) = c else { return false };
    let me = idx(&c);
    loop {
        let xlog = me != 0 && !MT.load(Ordering::SeqCst);
        if xlog {
            ev("xb", me, "", 0, 0, 0, "");
        }
        let d = c.execute();
        let name = match d {
            SchedulingDecision::Schedule => "sched",
            SchedulingDecision::Resume => "resume",
            SchedulingDecision::NoWork => "nowork",
            SchedulingDecision::Blocked => "blocked",
            SchedulingDecision::AlreadyScheduled => "already",
        };
        if xlog {
            ev("xe", me, name, 0, 0, 0, "");
        }
        match d {
            SchedulingDecision::Schedule => {
                RUNQ.lock().unwrap().push_back(c.clone());
                break;
            }
            SchedulingDecision::Resume => continue,
            _ => break,
        }
    }
    drop(c);
    if !MT.load(Ordering::SeqCst) {
        watch();
    }
    true
}
pub static MT: AtomicBool = AtomicBool::new(false);

pub fn settle() {
    // run until nothing changes: a whole round over the queue without any observable event
    let mut idle = 0;
    for _ in 0..20000 {
        let n = RUNQ.lock().unwrap().len();
        if n == 0 {
            break;
        }
        let sysmore = RUNQ.lock().unwrap().iter().any(|c| idx(c) == 0);
        let before = NONX.load(Ordering::SeqCst);
        for _ in 0..n {
            exec_one(0);
        }
        if NONX.load(Ordering::SeqCst) == before && !sysmore {
            idle += 1;
            if idle >= 100 {
                break;
            }
        } else {
            idle = 0;
        }
    }
}

pub fn drain() {
    settle();
    watch();
    quiet();
}

pub fn quiet() {
    let st: Vec<(usize, &'static str)> = with(|t| {
        let mut v: Vec<_> = t
            .comps
            .iter()
            .map(|(c, a)| {
                let s = if a.is_active() {
                    "active"
                } else if a.is_destroyed() {
                    "dead"
                } else if a.is_faulty() {
                    "faulty"
                } else {
                    "other"
                };
                (*c, s)
            })
            .collect();
        v.sort();
        v
    });
    for (c, s) in st {
        ev("st", c as i64, s, 0, 0, 0, "");
    }
    let rq: Vec<i64> = RUNQ.lock().unwrap().iter().map(idx).collect();
    for c in rq {
        if c != 0 {
            ev("rq", c, "", 0, 0, 0, "");
        }
    }
    ev("q", 0, "", 0, 0, 0, "");
}

pub struct Sys {
    pub sys: KompactSystem,
    pub timer: ManualTimerT,
}

pub fn discard_logger() -> kompact::KompactLogger {
    use slog::Drain;
    let d = slog_async::Async::new(slog::Discard).chan_size(1024).build().fuse();
    slog::Logger::root_typed(Arc::new(d), slog::o!())
}

pub fn boot(throughput: usize, prio: f32) -> Sys {
    let mut conf = KompactConfig::default();
    conf.label(format!("det{}", throughput));
    conf.throughput(throughput).msg_priority(prio).threads(1);
    conf.logger(discard_logger());
    conf.scheduler(|_| Box::new(DetScheduler));
    let timer = kompact::default_components::install_manual_timer(&mut conf);
    AUTO.store(true, Ordering::SeqCst);
    let h = std::thread::spawn(|| {
        while AUTO.load(Ordering::SeqCst) {
            if !exec_one(0) {
                std::thread::yield_now();
            }
        }
        for _ in 0..1000 {
            exec_one(0);
        }
    });
    let sys = conf.build().wait().expect("system");
    AUTO.store(false, Ordering::SeqCst);
    h.join().unwrap();
    Sys { sys, timer }
}

pub fn cleanup() {
    LOGON.store(false, Ordering::SeqCst);
    GEN.fetch_add(1, Ordering::SeqCst);
    let (prom, comps) = with(|t| {
        let p: Vec<_> = t.prom.drain().collect();
        t.futs.clear();
        t.notes.clear();
        t.held.clear();
        t.refs.clear();
        t.ports.clear();
        let c: Vec<_> = t.comps.drain().collect();
        (p, c)
    });
    let chans: Vec<_> = with(|t| t.chans.drain().collect());
    let asks: Vec<_> = with(|t| std::mem::take(&mut t.askf));
    let sys = with(|t| t.system.clone());
    drop(asks);
    if let Some(sys) = sys {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for (_, c) in &comps {
                sys.kill(c.clone());
            }
        }));
    }
    for (_, p) in prom {
        let _ = p.complete();
    }
    let n = RUNQ.lock().unwrap().len();
    for _ in 0..(n + 8) * 6 {
        if !exec_one(0) {
            break;
        }
    }
    RUNQ.lock().unwrap().retain(|c| idx(c) == 0);
    drop(chans);
    drop(comps);
    with(|t| t.ids.clear());
    *MADE.lock().unwrap() = None;
}

#[derive(Deserialize)]
pub struct Scenario {
    pub id: u64,
    #[serde(default = "d50")]
    pub thr: usize,
    #[serde(default = "d05")]
    pub prio: f32,
    pub ops: Vec<Op>,
}
fn d50() -> usize {
    50
}
fn d05() -> f32 {
    0.5
}

/// Reads scenarios (one JSON per line), writes traces (one JSON array per line: {"id":..,"t":[events]})
pub fn main(input: &str, output: &str) {
    use std::io::{BufRead, Write};
    let mut systems: HashMap<(usize, u32), Sys> = HashMap::new();
    let f = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Scenario = serde_json::from_str(&line).unwrap_or_else(|e| panic!("bad scenario {}: {}", e, line));
        let key = (sc.thr, (sc.prio * 1000.0) as u32);
        if POISON.swap(false, Ordering::SeqCst) {
            for (_, s) in systems.drain() {
                std::mem::forget(s);
            }
            RUNQ.lock().unwrap().clear();
        }
        let s = systems.entry(key).or_insert_with(|| boot(sc.thr, sc.prio));
        with(|t| t.system = Some(s.sys.clone()));
        *CURTIMER.lock().unwrap() = Some(s.timer.clone());
        LOG.lock().unwrap().clear();
        LOGON.store(true, Ordering::SeqCst);
        ev("cfg", 0, "", sc.thr as i64, s.sys.max_messages() as i64, 0, "");
        for op in &sc.ops {
            guarded(0, op);
            watch();
        }
        let log = LOG.lock().unwrap().clone();
        cleanup();
        writeln!(out, "{}", serde_json::to_string(&json!({"id": sc.id, "t": log})).unwrap()).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
