//! Real world: the default scheduler with real threads running freely, pooled and dedicated components.
//! The log's lock gives an order of the events that is consistent with causality; the trace is validated like the others.
use crate::core_world::*;
use kompact::prelude::*;
use serde::Deserialize;
use serde_json::json;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[derive(Deserialize, Clone)]
pub struct RealScenario {
    pub id: u64,
    #[serde(default = "d50")]
    pub thr: usize,
    #[serde(default = "d05")]
    pub prio: f32,
    #[serde(default = "d4")]
    pub pool: usize,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub finish: Vec<Op>,
    /// number of user events handled when everything is done
    pub hb: usize,
    /// number of notifications the driver waits for
    #[serde(default)]
    pub notes: usize,
    /// number of components started in the setup
    pub started: usize,
    /// busy work in every handler (ns)
    #[serde(default)]
    pub pace: u64,
    #[serde(default = "d1")]
    pub reps: usize,
    /// operations just before shutting down, which race with it, and others while it is going on
    #[serde(default)]
    pub late: Vec<Op>,
    #[serde(default)]
    pub during: Vec<Op>,
}
fn d50() -> usize {
    50
}
fn d05() -> f32 {
    0.5
}
fn d4() -> usize {
    4
}
fn d1() -> usize {
    1
}

fn count(k: &[&str]) -> usize {
    LOG.lock().unwrap().iter().filter(|e| e.e == "hb" && k.contains(&e.k.as_str())).count()
}
fn wait_for(n: usize, k: &[&str]) {
    let t0 = Instant::now();
    while count(k) < n && t0.elapsed() < Duration::from_secs(8) {
        std::thread::sleep(Duration::from_micros(200));
    }
}
/// nothing logged for a while
fn still(ms: u64) {
    let mut last = NONX.load(Ordering::SeqCst);
    let mut t = Instant::now();
    let t0 = Instant::now();
    while t.elapsed() < Duration::from_millis(ms) && t0.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_millis(1));
        let n = NONX.load(Ordering::SeqCst);
        if n != last {
            last = n;
            t = Instant::now();
        }
    }
}

fn one(sc: &RealScenario) -> Vec<E> {
    let mut conf = KompactConfig::default();
    conf.label("real".to_string());
    conf.throughput(sc.thr).msg_priority(sc.prio).threads(sc.pool);
    conf.logger(discard_logger());
    let sys = conf.build().wait().expect("system");
    LOG.lock().unwrap().clear();
    LOGON.store(true, Ordering::SeqCst);
    PACE.store(sc.pace, Ordering::SeqCst);
    MT.store(true, Ordering::SeqCst);
    with(|t| t.system = Some(sys.clone()));
    ev("cfg", 0, "mt", sc.thr as i64, sys.max_messages() as i64, 0, "");
    for o in &sc.setup {
        guarded(0, o);
    }
    wait_for(sc.started, &["start"]);
    let hs: Vec<_> = sc
        .threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, ops)| {
            std::thread::spawn(move || {
                for o in &ops {
                    guarded(-(i as i64) - 1, o);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    wait_for(sc.hb, &["msg", "port", "ask"]);
    for o in &sc.finish {
        guarded(0, o);
    }
    // the notifications must all resolve
    let t0 = Instant::now();
    while with(|t| t.notes.len() + t.askf.len()) > 0 && t0.elapsed() < Duration::from_secs(8) {
        watch();
        std::thread::sleep(Duration::from_micros(200));
    }
    still(3);
    watch();
    quiet();
    ev("sdb", 0, "", 0, 0, 0, "");
    for o in &sc.late {
        guarded(0, o);
    }
    let s2 = sys.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = s2.shutdown().wait();
        let _ = tx.send(r.is_ok());
    });
    for o in &sc.during {
        guarded(0, o);
    }
    let r = rx.recv_timeout(Duration::from_secs(15));
    ev("sde", 0, "", 0, 0, 0, match r {
        Ok(true) => "ok",
        Ok(false) => "err",
        Err(_) => "timeout",
    });
    LOGON.store(false, Ordering::SeqCst);
    let mut log = LOG.lock().unwrap().clone();
    // a command given when the system is down already is refused, as documented
    let down = log.iter().position(|e| e.e == "sdb").unwrap_or(log.len());
    let mut n = 0;
    log.retain(|e| {
        n += 1;
        !(n > down && e.e == "crash" && e.k.contains("not in active state"))
    });
    MT.store(false, Ordering::SeqCst);
    PACE.store(0, Ordering::SeqCst);
    GEN.fetch_add(1, Ordering::SeqCst);
    with(|t| {
        t.futs.clear();
        t.notes.clear();
        t.held.clear();
        t.refs.clear();
        t.ports.clear();
        t.chans.clear();
        t.ids.clear();
        t.askf.clear();
    });
    let c: Vec<_> = with(|t| t.comps.drain().collect());
    let p: Vec<_> = with(|t| t.prom.drain().collect());
    drop(p);
    drop(c);
    with(|t| t.system = None);
    *MADE.lock().unwrap() = None;
    log
}

pub fn main(input: &str, output: &str) {
    use std::io::{BufRead, Write};
    let f = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: RealScenario = serde_json::from_str(&line).unwrap_or_else(|e| panic!("bad scenario {}: {}", e, line));
        let mut ts = vec![];
        for _ in 0..sc.reps {
            ts.push(one(&sc));
        }
        writeln!(out, "{}", serde_json::to_string(&json!({"id": sc.id, "runs": sc.reps, "ts": ts})).unwrap()).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
