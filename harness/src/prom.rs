//! Promises and futures by themselves: every way of resolving one and every way of waiting for one or several.
use kompact::prelude::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

type R = Result<u64, u64>;
enum Prom {
    N(KPromise<u64>),
    R(KPromise<R>),
}
enum Fut {
    N(KFuture<u64>),
    R(KFuture<R>),
}
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
trait Val: Send + Sized + std::fmt::Debug + 'static {
    fn j(self) -> Value;
    fn of(ok: bool, v: u64) -> Self;
}
impl Val for u64 {
    fn j(self) -> Value {
        json!({"ok": true, "v": self})
    }
    fn of(_: bool, v: u64) -> u64 {
        v
    }
}
impl Val for R {
    fn j(self) -> Value {
        match self {
            Ok(v) => json!({"ok": true, "v": v}),
            Err(v) => json!({"ok": false, "v": v}),
        }
    }
    fn of(ok: bool, v: u64) -> R {
        if ok { Ok(v) } else { Err(v) }
    }
}
fn none() -> Value {
    json!({"ok": false, "v": 0})
}
fn perr(r: Result<(), PromiseErr>) -> String {
    match r {
        Ok(()) => "ok",
        Err(PromiseErr::ChannelBroken) => "broken",
        Err(PromiseErr::AlreadyFulfilled) => "twice",
    }
    .to_string()
}

fn fulfil<T: Val>(p: KPromise<T>, via: &str, ok: bool, v: u64) -> String {
    let t = T::of(ok, v);
    match via {
        "reply" => {
            let a = Ask::new(p, v);
            assert_eq!(*a.request(), v);
            perr(a.reply(t))
        }
        "of" => {
            let mut a = Ask::of(v)(p);
            *a.request_mut() += 1;
            perr(a.complete(|q| T::of(ok, q - 1)))
        }
        "complete" => perr(Ask::new(p, v).complete(|q| T::of(ok, q))),
        "with" => perr(block_on(Ask::new(p, v).complete_with(|q| async move { T::of(ok, q) }))),
        "withlate" => perr(block_on(Ask::new(p, v).complete_with(|q| {
            let (x, f) = promise::<u64>();
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_millis(2));
                x.fulfil(q).expect("late");
            });
            async move { T::of(ok, f.await.expect("late")) }
        }))),
        "take" => {
            let (p, q) = Ask::new(p, v).take();
            perr(p.fulfil(T::of(ok, q)))
        }
        _ => perr(p.fulfil(t)),
    }
}
fn drop_promise<T: Val>(p: KPromise<T>, via: &str) {
    match via {
        "ask" => drop(Ask::new(p, 1u64)),
        "panic" => {
            let _ = catch_unwind(AssertUnwindSafe(move || {
                let _p = p;
                panic!("holding a promise");
            }));
        }
        "with" => {
            // the future that would have replied is dropped half way
            let mut f = Box::pin(Ask::new(p, 1u64).complete_with(|_| std::future::pending::<T>()));
            let w = Waker::from(Arc::new(Count(AtomicUsize::new(0))));
            assert!(f.as_mut().poll(&mut Context::from_waker(&w)).is_pending());
        }
        _ => drop(p),
    }
}

/// how one future is waited for: outcome, value and, if it was not consumed, the future again
fn wait<T: Val>(mut f: KFuture<T>, how: &str, ms: u64, wk: &Arc<Count>) -> (&'static str, Value, Option<KFuture<T>>) {
    let d = Duration::from_millis(ms);
    match how {
        "wait" => match catch_unwind(AssertUnwindSafe(|| f.wait())) {
            Ok(t) => ("val", t.j(), None),
            Err(_) => ("panic", none(), None),
        },
        "fwait" => match BlockingFutureExt::wait(f) {
            Ok(t) => ("val", t.j(), None),
            Err(_) => ("lost", none(), None),
        },
        "await" => match block_on(async move { f.await }) {
            Ok(t) => ("val", t.j(), None),
            Err(_) => ("lost", none(), None),
        },
        "timeout" => match f.wait_timeout(d) {
            Ok(t) => ("val", t.j(), None),
            // the error's type cannot be named from here: a lost promise has a cause, a timeout does not
            Err(e) => match std::error::Error::source(&e) {
                None => ("timeout", none(), None),
                Some(_) => ("lost", none(), None),
            },
        },
        "ftimeout" => match BlockingFutureExt::wait_timeout(f, d) {
            Ok(Ok(t)) => ("val", t.j(), None),
            Ok(Err(_)) => ("lost", none(), None),
            Err(e) => match std::error::Error::source(&e) {
                None => ("timeout", none(), None),
                Some(_) => ("odd", none(), None),
            },
        },
        "until" => match block_until(d, f) {
            Ok(Ok(t)) => ("val", t.j(), None),
            Ok(Err(_)) => ("lost", none(), None),
            Err(f) => ("timeout", none(), Some(f)),
        },
        _ => {
            let w = Waker::from(wk.clone());
            match Pin::new(&mut f).poll(&mut Context::from_waker(&w)) {
                Poll::Pending => ("timeout", none(), Some(f)),
                Poll::Ready(Ok(t)) => ("val", t.j(), None),
                Poll::Ready(Err(_)) => ("lost", none(), None),
            }
        }
    }
}
fn collect(fs: Vec<Fut>, how: &str, ms: u64) -> (String, Vec<Value>) {
    let d = Duration::from_millis(ms);
    let rs = matches!(fs.first(), Some(Fut::R(_)));
    let r: Result<Result<Vec<Value>, ()>, _> = catch_unwind(AssertUnwindSafe(move || {
        macro_rules! all {
            ($k:ident) => {
                fs.into_iter().map(|f| match f { Fut::$k(f) => f, _ => panic!("mixed") }).collect::<Vec<_>>()
            };
        }
        fn js<T: Val>(v: Vec<T>) -> Vec<Value> {
            v.into_iter().map(Val::j).collect()
        }
        let oks = |v: Vec<u64>| v.into_iter().map(Val::j).collect::<Vec<_>>();
        match (how, rs) {
            ("expect", false) => { all!(N).expect_completion(d, "expected"); Ok(vec![]) }
            ("expect", true) => { all!(R).expect_completion(d, "expected"); Ok(vec![]) }
            ("timeout", false) => all!(N).collect_with_timeout::<Vec<u64>>(d).map(js).map_err(|_| ()),
            ("timeout", true) => all!(R).collect_with_timeout::<Vec<R>>(d).map(js).map_err(|_| ()),
            ("results", false) => Ok(js(all!(N).collect_results::<Vec<u64>>())),
            ("results", true) => Ok(js(all!(R).collect_results::<Vec<R>>())),
            ("expectok", _) => { all!(R).expect_ok(d, "expected"); Ok(vec![]) }
            ("ok", _) => Ok(oks(all!(R).collect_ok::<Vec<u64>>())),
            ("oktimeout", _) => Ok(oks(all!(R).collect_ok_with_timeout::<Vec<u64>>(d, "expected"))),
            (x, _) => panic!("how {}", x),
        }
    }));
    match r {
        Ok(Ok(v)) => ("val".into(), v),
        Ok(Err(())) => ("err".into(), vec![]),
        Err(_) => ("panic".into(), vec![]),
    }
}

fn run(s: &Value) -> Vec<Value> {
    let mut log = vec![json!({"e":"cfg"})];
    let mut ps: HashMap<i64, Prom> = HashMap::new();
    let mut fs: HashMap<i64, Fut> = HashMap::new();
    let mut wks: HashMap<i64, Arc<Count>> = HashMap::new();
    let mut thr = vec![];
    for o in s["ops"].as_array().unwrap() {
        let p = o["p"].as_i64().unwrap_or(0);
        match o["o"].as_str().unwrap() {
            "new" => {
                if o["k"] == "n" {
                    let (a, b) = promise::<u64>();
                    ps.insert(p, Prom::N(a));
                    fs.insert(p, Fut::N(b));
                } else {
                    let (a, b) = promise::<R>();
                    ps.insert(p, Prom::R(a));
                    fs.insert(p, Fut::R(b));
                }
                wks.insert(p, Arc::new(Count(AtomicUsize::new(0))));
                log.push(json!({"e":"new","p":p,"k":o["k"]}));
            }
            "ful" => {
                let (via, ok, v) = (o["via"].as_str().unwrap().to_string(), o["ok"].as_bool().unwrap(), o["v"].as_u64().unwrap());
                let q = ps.remove(&p).unwrap();
                let f = move || match q {
                    Prom::N(q) if via == "default" => perr(Completable::complete(q)),
                    Prom::N(q) => fulfil(q, &via, ok, v),
                    Prom::R(q) => fulfil(q, &via, ok, v),
                };
                let (ok, v) = if o["via"] == "default" { (true, 0) } else { (ok, v) };
                if let Some(ms) = o["thr"].as_u64() {
                    log.push(json!({"e":"later","p":p,"w":{"ok":ok,"v":v},"drop":false}));
                    thr.push((p, std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(ms));
                        f()
                    })));
                } else {
                    let r = f();
                    log.push(json!({"e":"ful","p":p,"w":{"ok":ok,"v":v},"r":r}));
                }
            }
            "drop" => {
                let q = ps.remove(&p).unwrap();
                let via = o["via"].as_str().unwrap().to_string();
                let f = move || match q {
                    Prom::N(q) => drop_promise(q, &via),
                    Prom::R(q) => drop_promise(q, &via),
                };
                if let Some(ms) = o["thr"].as_u64() {
                    log.push(json!({"e":"later","p":p,"w":none(),"drop":true}));
                    thr.push((p, std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(ms));
                        f();
                        "gone".to_string()
                    })));
                } else {
                    f();
                    log.push(json!({"e":"drop","p":p}));
                }
            }
            "dropf" => {
                fs.remove(&p);
                log.push(json!({"e":"dropf","p":p}));
            }
            "wait" => {
                let (how, ms) = (o["how"].as_str().unwrap(), o["ms"].as_u64().unwrap());
                let t0 = Instant::now();
                let wk = &wks[&p];
                let (r, w, back) = match fs.remove(&p).unwrap() {
                    Fut::N(f) => { let (r, w, b) = wait(f, how, ms, wk); (r, w, b.map(Fut::N)) }
                    Fut::R(f) => { let (r, w, b) = wait(f, how, ms, wk); (r, w, b.map(Fut::R)) }
                };
                let el = t0.elapsed().as_millis() as u64;
                let kept = back.is_some();
                if let Some(f) = back {
                    fs.insert(p, f);
                }
                log.push(json!({"e":"wait","p":p,"how":how,"ms":ms,"r":r,"w":w,"el":el,"kept":kept}));
            }
            "woken" => log.push(json!({"e":"woken","p":p,"n":wks[&p].0.load(Ordering::SeqCst)})),
            "coll" => {
                let (how, ms) = (o["how"].as_str().unwrap(), o["ms"].as_u64().unwrap());
                let l = o["ps"].as_array().unwrap().iter().map(|p| fs.remove(&p.as_i64().unwrap()).unwrap()).collect();
                let t0 = Instant::now();
                let (r, ws) = collect(l, how, ms);
                let el = t0.elapsed().as_millis() as u64;
                log.push(json!({"e":"coll","ps":o["ps"],"how":how,"ms":ms,"r":r,"ws":ws,"el":el}));
            }
            "join" => {
                for (p, h) in thr.drain(..) {
                    let r = h.join().unwrap_or_else(|_| "panic".into());
                    log.push(json!({"e":"join","p":p,"r":r}));
                }
            }
            x => panic!("op {}", x),
        }
    }
    for (p, h) in thr.drain(..) {
        let r = h.join().unwrap_or_else(|_| "panic".into());
        log.push(json!({"e":"join","p":p,"r":r}));
    }
    log
}
pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
