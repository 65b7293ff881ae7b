//! Multi-threaded world: the same components and operations, but several real threads send and execute.
//! Every thread stops at the observation points compiled into kompact (cfg kompact_verif) and at handler entry,
//! and a controller lets exactly one of them continue at a time: the interleaving is chosen, not hoped for.
use crate::core_world::*;
use serde::Deserialize;
use serde_json::json;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Wait,
    Idle, // executor with nothing popped
    Done,
}
struct Ctrl {
    st: Vec<St>,
    turn: Option<usize>,
    stop: bool,
}
static CTRL: Mutex<Ctrl> = Mutex::new(Ctrl { st: vec![], turn: None, stop: false });
static CV: Condvar = Condvar::new();
static ON: AtomicBool = AtomicBool::new(false);
thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

fn gate(s: St) -> bool {
    let Some(me) = ME.with(|m| m.get()) else { return true };
    let mut g = CTRL.lock().unwrap();
    g.st[me] = s;
    CV.notify_all();
    while g.turn != Some(me) {
        if g.stop && s == St::Idle {
            g.st[me] = St::Done;
            CV.notify_all();
            return false;
        }
        g = CV.wait(g).unwrap();
    }
    g.turn = None;
    g.st[me] = St::Running;
    true
}
pub fn point(_name: &'static str) {
    if ON.load(Ordering::Relaxed) {
        gate(St::Wait);
    }
}

#[derive(Deserialize, Clone)]
pub struct MtScenario {
    pub id: u64,
    #[serde(default = "d50")]
    pub thr: usize,
    #[serde(default = "d05")]
    pub prio: f32,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub finish: Vec<Op>,
    #[serde(default = "two")]
    pub execs: usize,
    /// random schedules to try
    #[serde(default)]
    pub runs: usize,
    #[serde(default)]
    pub seed: u64,
    /// systematic exploration: at most this many runs, with at most pb deviations from the default schedule
    #[serde(default)]
    pub dfs: usize,
    #[serde(default)]
    pub pb: usize,
}
fn d50() -> usize {
    50
}
fn d05() -> f32 {
    0.5
}
fn two() -> usize {
    2
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n.max(1) as u64) as usize
    }
}
enum Policy {
    Random(Rng, usize),
    Pct(Rng, Vec<u64>, Vec<usize>),
    Fixed(Vec<usize>), // choice at each branching point; afterwards: stay, else first
}

/// one run; returns the branching points (number of choices, choice made, was there a preemption-free choice at index 0)
fn run(sc: &MtScenario, mut pol: Policy) -> Vec<(usize, usize, bool)> {
    for op in &sc.setup {
        guarded(0, op);
        watch();
    }
    MT.store(true, Ordering::SeqCst);
    let n = sc.threads.len() + sc.execs;
    {
        let mut g = CTRL.lock().unwrap();
        *g = Ctrl { st: vec![St::Running; n], turn: None, stop: false };
    }
    ON.store(true, Ordering::SeqCst);
    let mut hs = vec![];
    for (i, ops) in sc.threads.iter().cloned().enumerate() {
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(Some(i)));
            gate(St::Wait);
            for o in &ops {
                guarded(-(i as i64) - 1, o);
            }
            let mut g = CTRL.lock().unwrap();
            g.st[i] = St::Done;
            CV.notify_all();
        }));
    }
    for e in 0..sc.execs {
        let i = sc.threads.len() + e;
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(Some(i)));
            while gate(St::Idle) {
                exec_one(0);
            }
        }));
    }
    let mut trail = vec![];
    let mut last: Option<usize> = None;
    let mut steps = 0;
    let mut last_seen = (0, 0);
    let mut stuck_since: Option<Instant> = None;
    loop {
        let mut g = CTRL.lock().unwrap();
        // wait until nobody runs any more, or those who do are waiting for a lock
        let t0 = Instant::now();
        while g.turn.is_some() || g.st.iter().any(|s| *s == St::Running) {
            let (g2, to) = CV.wait_timeout(g, Duration::from_millis(2)).unwrap();
            g = g2;
            if to.timed_out() && g.turn.is_none() && t0.elapsed() > Duration::from_millis(2) {
                break;
            }
        }
        let work = !RUNQ.lock().unwrap().is_empty();
        let mut cand: Vec<usize> = (0..n).filter(|t| g.st[*t] == St::Wait || (g.st[*t] == St::Idle && work)).collect();
        if cand.is_empty() {
            if g.st.iter().any(|s| *s == St::Running) {
                let s = *stuck_since.get_or_insert_with(Instant::now);
                drop(g);
                if s.elapsed() > Duration::from_secs(5) {
                    ev("crash", 0, "deadlock: threads wait for each other", 0, 0, 0, "");
                    return trail; // the caller gives up on this process
                }
                std::thread::sleep(Duration::from_millis(1));
                continue;
            }
            g.stop = true;
            CV.notify_all();
            break;
        }
        stuck_since = None;
        steps += 1;
        let seen = NONX.load(Ordering::SeqCst);
        if seen != last_seen.0 {
            last_seen = (seen, steps);
        }
        let only_exec = (0..sc.threads.len()).all(|t| g.st[t] == St::Done);
        if steps > 2000 || (only_exec && steps - last_seen.1 > 40) {
            // passive components with queued work are executed over and over: that is allowed
            g.stop = true;
            ON.store(false, Ordering::SeqCst);
            for t in 0..n {
                if g.st[t] == St::Wait {
                    g.turn = Some(t);
                    CV.notify_all();
                    while g.turn.is_some() {
                        g = CV.wait(g).unwrap();
                    }
                }
            }
            CV.notify_all();
            break;
        }
        // put the thread that ran last first: choosing index 0 is no preemption then
        let stay = last.map(|l| cand.contains(&l) && g.st[l] == St::Wait).unwrap_or(false);
        if stay {
            let l = last.unwrap();
            cand.retain(|x| *x != l);
            cand.insert(0, l);
        }
        let k = match &mut pol {
            Policy::Random(r, sw) => {
                if stay && r.below(*sw) != 0 {
                    0
                } else {
                    r.below(cand.len())
                }
            }
            Policy::Pct(r, prio, change) => {
                let best = (0..cand.len()).max_by_key(|x| prio[cand[*x]]).unwrap();
                if change.contains(&steps) {
                    prio[cand[best]] = r.below(1000) as u64;
                    (0..cand.len()).max_by_key(|x| prio[cand[*x]]).unwrap()
                } else {
                    best
                }
            }
            Policy::Fixed(v) => {
                if cand.len() > 1 {
                    let at = trail.len();
                    *v.get(at).unwrap_or(&0)
                } else {
                    0
                }
            }
        };
        let k = k.min(cand.len() - 1);
        if cand.len() > 1 {
            trail.push((cand.len(), k, stay));
        }
        last = Some(cand[k]);
        g.turn = Some(cand[k]);
        CV.notify_all();
    }
    ON.store(false, Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
    watch();
    settle();
    watch();
    quiet();
    for op in &sc.finish {
        guarded(0, op);
        watch();
    }
    MT.store(false, Ordering::SeqCst);
    trail
}

pub fn main(input: &str, output: &str) {
    use std::io::{BufRead, Write};
    kompact::verif::install(point);
    let mut systems: HashMap<(usize, u32), Sys> = HashMap::new();
    let f = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: MtScenario = serde_json::from_str(&line).unwrap_or_else(|e| panic!("bad scenario {}: {}", e, line));
        let key = (sc.thr, (sc.prio * 1000.0) as u32);
        let mut seen: HashSet<String> = HashSet::new();
        let mut runs = 0usize;
        let mut traces = vec![];
        let mut fixed: Option<Vec<usize>> = if sc.dfs > 0 { Some(vec![]) } else { None };
        let mut complete = false;
        let mut rng = Rng(sc.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..5 {
            rng.next();
        }
        loop {
            if POISON.swap(false, Ordering::SeqCst) {
                for (_, s) in systems.drain() {
                    std::mem::forget(s);
                }
                RUNQ.lock().unwrap().clear();
            }
            let s = systems.entry(key).or_insert_with(|| boot(sc.thr, sc.prio));
            with(|t| t.system = Some(s.sys.clone()));
            *CURTIMER.lock().unwrap() = Some(s.timer.clone());
            LOG.lock().unwrap().clear();
            LOGON.store(true, Ordering::SeqCst);
            ev("cfg", 0, "mt", sc.thr as i64, s.sys.max_messages() as i64, 0, "");
            let pol = match &fixed {
                Some(v) => Policy::Fixed(v.clone()),
                None => {
                    if runs % 2 == 0 {
                        let sw = 1 + rng.below(6);
                        Policy::Random(Rng(rng.next() | 1), sw)
                    } else {
                        let n = sc.threads.len() + sc.execs;
                        let prio = (0..n).map(|_| 1000 + rng.next() % 1000).collect();
                        let d = 1 + rng.below(4);
                        let change = (0..d).map(|_| 1 + rng.below(60)).collect();
                        Policy::Pct(Rng(rng.next() | 1), prio, change)
                    }
                }
            };
            let trail = run(&sc, pol);
            runs += 1;
            let log = LOG.lock().unwrap().clone();
            let dead = log.iter().any(|e| e.e == "crash" && e.k.starts_with("deadlock"));
            let txt = serde_json::to_string(&log).unwrap();
            if seen.insert(txt) {
                traces.push(log);
            }
            if dead {
                break;
            }
            cleanup();
            match &mut fixed {
                Some(v) => {
                    // next schedule in depth-first order within the preemption bound
                    let mut t = trail;
                    let mut found = false;
                    while let Some((c, k, _)) = t.pop() {
                        // delay bounding: taking the k-th candidate instead of the default costs k
                        let used: usize = t.iter().map(|x| x.1).sum();
                        if k + 1 < c && used + k + 1 <= sc.pb {
                            *v = t.iter().map(|x| x.1).collect();
                            v.push(k + 1);
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        complete = true;
                        break;
                    }
                    if runs >= sc.dfs {
                        break;
                    }
                }
                None => {
                    if runs >= sc.runs.max(1) {
                        break;
                    }
                }
            }
        }
        let last = traces.iter().any(|l| l.iter().any(|e| e.e == "crash" && e.k.starts_with("deadlock")));
        writeln!(out, "{}", serde_json::to_string(&json!({"id": sc.id, "runs": runs, "complete": complete, "ts": traces})).unwrap()).unwrap();
        out.flush().unwrap();
        if last {
            break;
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}

