//! Configuration world: documents from texts, files and values set in code, merged by real systems, and read back.
use kompact::config::*;
use kompact::prelude::*;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub mod e {
    use kompact::config::*;
    use kompact::kompact_config;
    use std::time::Duration;
    kompact_config! { STR, key = "kv.str", type = StringValue, default = "dflt".to_string(), doc = "a", version = "0" }
    kompact_config! { INT, key = "kv.int", type = IntegerValue, default = -7, validate = |v| -100 <= *v && *v <= 100, doc = "a", version = "0" }
    kompact_config! { REAL, key = "kv.deep.er.real", type = RealValue, default = 1.5, doc = "a", version = "0" }
    kompact_config! { BOOL, key = "kv.bool", type = BooleanValue, default = true, doc = "a", version = "0" }
    kompact_config! { BYTES, key = "kv.bytes", type = BytesValue, default = 1024, validate = |v| *v >= 16, doc = "a", version = "0" }
    kompact_config! { DUR, key = "kv.dur", type = DurationValue, default = Duration::from_secs(3), doc = "a", version = "0" }
    kompact_config! { US, key = "kv.us", type = UsizeValue, default = 3, validate = |v| *v > 0, doc = "a", version = "0" }
    kompact_config! { F32, key = "kv.f32", type = F32Value, default = 0.5, doc = "a", version = "0" }
    kompact_config! { INTS, key = "kv.ints", type = ArrayOfValues<IntegerValue>, doc = "a", version = "0" }
    kompact_config! { TOP, key = "top", doc = "a", version = "0" }
    kompact_config! { STRS, key = "kv.deep.strs", type = ArrayOfValues<StringValue>, default = vec!["x".to_string()], doc = "a", version = "0" }
    kompact_config! { DURS, key = "kv.durs", type = ArrayOfValues<DurationValue>, doc = "a", version = "0" }
    kompact_config! { USZ, key = "other.usz", type = ArrayOfValues<ArrayOfValues<UsizeValue>>, doc = "a", version = "0" }
}
use kompact::config_keys::system as sys;

// ------------------------------------------------------------------ values
fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn nat(mut n: u64) -> Value {
    let mut b = Vec::new();
    while n > 0 {
        b.push(n & 255);
        n >>= 8;
    }
    json!(b)
}
fn unnat(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0u64, |a, b| (a << 8) | b.as_u64().unwrap())
}
fn f64_of(v: &Value) -> f64 {
    let mut b = [0u8; 8];
    for (i, x) in v["r"].as_array().unwrap().iter().enumerate() {
        b[i] = x.as_u64().unwrap() as u8;
    }
    f64::from_be_bytes(b)
}
fn i64_of(v: &Value) -> i64 {
    let m = unnat(&v["m"]);
    if v["n"].as_bool().unwrap() { (m as i64).wrapping_neg() } else { m as i64 }
}
trait Node {
    fn node(&self) -> Value;
    fn from(v: &Value) -> Self;
}
impl Node for String {
    fn node(&self) -> Value {
        json!({"t": "s", "s": codes(self)})
    }
    fn from(v: &Value) -> Self {
        text(&v["s"])
    }
}
impl Node for i64 {
    fn node(&self) -> Value {
        json!({"t": "i", "n": *self < 0, "m": nat(self.unsigned_abs())})
    }
    fn from(v: &Value) -> Self {
        i64_of(v)
    }
}
impl Node for u64 {
    fn node(&self) -> Value {
        json!({"t": "i", "n": false, "m": nat(*self)})
    }
    fn from(v: &Value) -> Self {
        unnat(&v["m"])
    }
}
impl Node for usize {
    fn node(&self) -> Value {
        (*self as u64).node()
    }
    fn from(v: &Value) -> Self {
        unnat(&v["m"]) as usize
    }
}
impl Node for f64 {
    fn node(&self) -> Value {
        json!({"t": "r", "r": self.to_be_bytes().to_vec()})
    }
    fn from(v: &Value) -> Self {
        f64_of(v)
    }
}
impl Node for f32 {
    fn node(&self) -> Value {
        json!({"t": "f", "f": self.to_be_bytes().to_vec()})
    }
    fn from(v: &Value) -> Self {
        f64_of(v) as f32
    }
}
impl Node for bool {
    fn node(&self) -> Value {
        json!({"t": "b", "b": *self})
    }
    fn from(v: &Value) -> Self {
        v["b"].as_bool().unwrap()
    }
}
impl Node for Duration {
    fn node(&self) -> Value {
        json!({"t": "u", "s": nat(self.as_secs()), "n": nat(self.subsec_nanos() as u64)})
    }
    fn from(v: &Value) -> Self {
        Duration::new(unnat(&v["s"]), unnat(&v["n"]) as u32)
    }
}
impl<T: Node> Node for Vec<T> {
    fn node(&self) -> Value {
        json!({"t": "a", "a": self.iter().map(|x| x.node()).collect::<Vec<_>>()})
    }
    fn from(v: &Value) -> Self {
        v["a"].as_array().unwrap().iter().map(<T as Node>::from).collect()
    }
}

// ------------------------------------------------------------------ results
fn err(x: ConfigError) -> Value {
    match x {
        ConfigError::ConversionError { path, .. } => json!({"x": "err", "e": "conv", "path": path.map(|p| codes(&p)).unwrap_or(json!([]))}),
        ConfigError::InvalidValue { path, .. } => json!({"x": "err", "e": "inval", "path": path.map(|p| codes(&p)).unwrap_or(json!([]))}),
        ConfigError::PathError(p) => {
            let miss = p.is_missing();
            match p {
                ConfigPathError::InvalidPath { path } => json!({"x": "err", "e": "path", "miss": miss, "path": codes(&path)}),
                ConfigPathError::MissingKey { path } => json!({"x": "err", "e": "miss", "miss": miss, "path": codes(&path)}),
                ConfigPathError::MissingIndex { path } => json!({"x": "err", "e": "missidx", "miss": miss, "path": codes(&path)}),
                ConfigPathError::InvalidKeyAccess { path, key, value_type } => {
                    json!({"x": "err", "e": "key", "miss": miss, "path": codes(&path), "key": codes(&key), "ty": value_type})
                }
                ConfigPathError::InvalidIndexAccess { path, index, value_type } => {
                    json!({"x": "err", "e": "idx", "miss": miss, "path": codes(&path), "idx": index, "ty": value_type})
                }
            }
        }
    }
}
fn res<T: Node>(r: Result<T, ConfigError>) -> Value {
    match r {
        Ok(v) => json!({"x": "ok", "v": v.node()}),
        Err(x) => err(x),
    }
}
fn opt<T: Node>(r: Option<T>) -> Value {
    match r {
        Some(v) => json!({"x": "ok", "v": v.node()}),
        None => json!({"x": "err", "e": "conv", "path": []}),
    }
}
fn guard(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"x": "err", "e": "panic", "path": []}))
}

fn entry<T>(k: &ConfigEntry<T>, c: &Config, dflt: bool, api: u64) -> (Value, Value)
where
    T: ConfigValueType,
    T::Value: Node,
{
    let r = match (dflt, api) {
        (false, 0) => c.read(k),
        (false, _) => k.read(c),
        (true, 0) => c.read_or_default(k),
        (true, _) => k.read_or_default(c),
    };
    let raw = match k.select(c).value() {
        Ok(v) => match T::from_conf(v) {
            Ok(v) => v.node(),
            Err(_) => json!({"t": "none"}),
        },
        Err(_) => json!({"t": "none"}),
    };
    (res(r), raw)
}
fn rt<T>(v: &Value) -> Value
where
    T: ConfigValueType,
    T::Value: Node,
{
    guard(|| {
        let frag = T::config_string(<T::Value as Node>::from(v));
        match parse_config_str(&format!("x = {}", frag)) {
            Ok(c) => res(T::from_conf(&c["x"])),
            Err(_) => json!({"x": "err", "e": "parse", "path": []}),
        }
    })
}
fn set<T>(conf: &mut KompactConfig, k: &ConfigEntry<T>, v: &Value)
where
    T: ConfigValueType,
    T::Value: Node,
{
    conf.set_config_value(k, <T::Value as Node>::from(v));
}
macro_rules! on_entry {
    ($id:expr, $f:ident $(, $a:expr)*; $k:ident => $call:expr) => {
        match $id {
            1 => { let $k = &e::STR; $call }
            2 => { let $k = &e::INT; $call }
            3 => { let $k = &e::REAL; $call }
            4 => { let $k = &e::BOOL; $call }
            5 => { let $k = &e::BYTES; $call }
            6 => { let $k = &e::DUR; $call }
            7 => { let $k = &e::US; $call }
            8 => { let $k = &e::F32; $call }
            9 => { let $k = &e::INTS; $call }
            10 => { let $k = &e::TOP; $call }
            11 => { let $k = &e::STRS; $call }
            12 => { let $k = &e::DURS; $call }
            13 => { let $k = &e::USZ; $call }
            14 => { let $k = &sys::LABEL; $call }
            15 => { let $k = &sys::THROUGHPUT; $call }
            16 => { let $k = &sys::MESSAGE_PRIORITY; $call }
            17 => { let $k = &sys::THREADS; $call }
            18 => { let $k = &sys::SCHEDULER; $call }
            x => panic!("entry {}", x),
        }
    };
}

fn typed(l: &ConfigLookup, ty: &str) -> Value {
    match ty {
        "s" => res(l.as_string()),
        "i" => res(l.as_i64()),
        "r" => res(l.as_f64()),
        "b" => res(l.as_bool()),
        "y" => res(l.as_bytes()),
        "u" => res(l.as_duration()),
        "d" => match l.as_datetime() {
            Ok(d) => json!({"x": "ok", "v": {"t": "d", "d": codes(&d.to_string())}}),
            Err(x) => err(x),
        },
        "len" => match l.as_array() {
            Ok(a) => json!({"x": "ok", "v": {"t": "len", "len": a.len()}}),
            Err(x) => err(x),
        },
        "any" => match l.value() {
            Ok(v) => json!({"x": "ok", "v": node(v)}),
            Err(x) => err(x),
        },
        x => panic!("type {}", x),
    }
}
fn typed_value(v: &ConfigValue, ty: &str) -> Value {
    match ty {
        "s" => opt(v.as_string()),
        "i" => opt(v.as_i64()),
        "r" => opt(v.as_f64()),
        "b" => opt(v.as_bool()),
        "y" => opt(v.as_bytes()),
        "u" => opt(v.as_duration()),
        "d" => match v.as_datetime() {
            Some(d) => json!({"x": "ok", "v": {"t": "d", "d": codes(&d.to_string())}}),
            None => json!({"x": "err", "e": "conv", "path": []}),
        },
        "len" => match v.as_array() {
            Some(a) => json!({"x": "ok", "v": {"t": "len", "len": a.len()}}),
            None => json!({"x": "err", "e": "conv", "path": []}),
        },
        "any" => json!({"x": "ok", "v": node(v)}),
        x => panic!("type {}", x),
    }
}
/// A value as its TOML text says it is.
fn node(v: &ConfigValue) -> Value {
    let frag = v.to_toml_fragment();
    match frag.parse::<toml::Value>() {
        Ok(t) => of_toml(&t),
        Err(_) => match toml::from_str::<toml::Table>(&format!("x = {}", frag)) {
            Ok(t) => of_toml(&t["x"]),
            Err(_) => match toml::from_str::<toml::Table>(&frag) {
                Ok(t) => of_toml(&toml::Value::Table(t)),
                Err(_) => json!({"t": "none"}),
            },
        },
    }
}
fn of_toml(v: &toml::Value) -> Value {
    match v {
        toml::Value::String(s) => s.node(),
        toml::Value::Integer(i) => i.node(),
        toml::Value::Float(f) => f.node(),
        toml::Value::Boolean(b) => b.node(),
        toml::Value::Datetime(d) => json!({"t": "d", "d": codes(&d.to_string())}),
        toml::Value::Array(a) => json!({"t": "a", "a": a.iter().map(of_toml).collect::<Vec<_>>()}),
        toml::Value::Table(t) => {
            json!({"t": "t", "k": t.keys().map(|k| codes(k)).collect::<Vec<_>>(), "v": t.values().map(of_toml).collect::<Vec<_>>()})
        }
    }
}
fn steps(l: &ConfigLookup, st: &[Value], fin: &dyn Fn(&ConfigLookup) -> Value) -> Value {
    match st.first() {
        None => fin(l),
        Some(s) if s["k"].is_array() => {
            let k = text(&s["k"]);
            steps(&l.get(&k), &st[1..], fin)
        }
        Some(s) => steps(&l.get_index(s["i"].as_u64().unwrap() as usize), &st[1..], fin),
    }
}

#[derive(ComponentDefinition, Actor)]
struct Reader {
    ctx: ComponentContext<Self>,
}
ignore_lifecycle!(Reader);

fn read(op: &Value, c: &Config) -> Option<Value> {
    let mut ev = op.clone();
    ev["e"] = op["op"].clone();
    match op["op"].as_str().unwrap() {
        "read" => {
            let d = op["d"].as_bool().unwrap();
            let api = op["api"].as_u64().unwrap_or(0);
            let r = catch_unwind(AssertUnwindSafe(|| on_entry!(op["en"].as_u64().unwrap(), entry; k => entry(k, c, d, api))));
            let (r, raw) = r.unwrap_or((json!({"x": "err", "e": "panic", "path": []}), json!({"t": "none"})));
            ev["r"] = r;
            ev["raw"] = raw;
        }
        "look" => {
            let p = text(&op["p"]);
            let st = op["steps"].as_array().unwrap();
            ev["r"] = guard(|| {
                let l = if op["start"] == "get" { c.get(&p) } else { c.select(&p) };
                steps(&l, st, &|l| {
                    if op["many"] == false {
                        typed(l, op["as"].as_str().unwrap())
                    } else {
                        match l.array_entries() {
                            Err(x) => err(x),
                            Ok(it) => {
                                let n = it.len();
                                let mut v: Vec<Value> = Vec::new();
                                for (i, x) in it {
                                    let t = match op["each"].as_array() {
                                        Some(k) if !k.is_empty() => {
                                            let k = text(&op["each"]);
                                            let r = typed(&x.get(&k), op["as"].as_str().unwrap());
                                            r
                                        }
                                        _ => typed(&x, op["as"].as_str().unwrap()),
                                    };
                                    v.push(json!({"i": i, "r": t}));
                                }
                                json!({"x": "ok", "n": n, "v": {"t": "each", "each": v}})
                            }
                        }
                    }
                })
            });
        }
        "index" => {
            let p = text(&op["p"]);
            ev["r"] = guard(|| {
                let mut v = &c[p.as_str()];
                for s in op["steps"].as_array().unwrap() {
                    v = if s["k"].is_array() { &v[text(&s["k"]).as_str()] } else { &v[s["i"].as_u64().unwrap() as usize] };
                }
                typed_value(v, op["as"].as_str().unwrap())
            });
        }
        "buf" => {
            let r = catch_unwind(AssertUnwindSafe(|| kompact::net::buffers::BufferConfig::from_config(c)));
            ev["r"] = match r {
                Err(_) => json!({"x": "err", "e": "panic", "path": []}),
                Ok(b) => {
                    let mut v = Vec::new();
                    for cand in op["cands"].as_array().unwrap() {
                        let mut x = kompact::net::buffers::BufferConfig::default();
                        x.chunk_size(unnat(&cand[0]) as usize);
                        x.initial_chunk_count(unnat(&cand[1]) as usize);
                        x.max_chunk_count(unnat(&cand[2]) as usize);
                        x.encode_buf_min_free_space(unnat(&cand[3]) as usize);
                        v.push(x == b);
                    }
                    json!({"x": "ok", "eq": v, "cs": nat(b.chunk_size_bytes() as u64)})
                }
            };
        }
        _ => return None,
    }
    Some(ev)
}

pub fn run(sc: &Value) -> Vec<Value> {
    let mut log = vec![json!({"e": "cfg"})];
    let dir = std::env::temp_dir().join(format!("kverif-conf-{}-{}", std::process::id(), sc["id"]));
    std::fs::create_dir_all(&dir).unwrap();
    let mut nfile = 0;
    let mut conf = KompactConfig::default();
    let mut doc: Option<Config> = None;
    let mut system: Option<KompactSystem> = None;
    let mut reader: Option<Arc<Component<Reader>>> = None;
    let seen = Arc::new(AtomicI64::new(-1));
    for op in sc["ops"].as_array().unwrap() {
        let mut ev = op.clone();
        ev["e"] = op["op"].clone();
        if let Some(m) = ev.as_object_mut() {
            m.remove("text");
        }
        match op["op"].as_str().unwrap() {
            "src" => {
                match op["k"].as_str().unwrap() {
                    "str" | "bad" => {
                        conf.load_config_str(op["text"].as_str().unwrap());
                    }
                    "file" | "badfile" => {
                        nfile += 1;
                        let p = dir.join(format!("c{}.toml", nfile));
                        std::fs::write(&p, op["text"].as_str().unwrap()).unwrap();
                        conf.load_config_file(p);
                    }
                    "nofile" => {
                        conf.load_config_file(dir.join("absent.toml"));
                    }
                    "sched" => {
                        let s = seen.clone();
                        conf.executor(move |t| {
                            s.store(t as i64, Ordering::SeqCst);
                            kompact::executors::crossbeam_workstealing_pool::small_pool(1)
                        });
                    }
                    "set" => on_entry!(op["en"].as_u64().unwrap(), set; k => set(&mut conf, k, &op["v"])),
                    "old" => {
                        #[allow(deprecated)]
                        match op["en"].as_u64().unwrap() {
                            14 => {
                                conf.label(text(&op["v"]["s"]));
                            }
                            15 => {
                                conf.throughput(unnat(&op["v"]["m"]) as usize);
                            }
                            16 => {
                                conf.msg_priority(f64_of(&op["v"]) as f32);
                            }
                            _ => {
                                conf.threads(unnat(&op["v"]["m"]) as usize);
                            }
                        }
                    }
                    x => panic!("src {}", x),
                };
                log.push(ev);
            }
            "doc" => {
                let t = op["text"].as_str().unwrap();
                let r = if op["file"].as_bool().unwrap_or(false) {
                    nfile += 1;
                    let p = dir.join(format!("c{}.toml", nfile));
                    if op["k"] != "nofile" {
                        std::fs::write(&p, t).unwrap();
                    }
                    parse_config_file(p)
                } else {
                    parse_config_str(t)
                };
                ev["r"] = match &r {
                    Ok(_) => json!("ok"),
                    Err(ConfigLoadingError::Io(_)) => json!("io"),
                    Err(ConfigLoadingError::Parse(_)) => json!("parse"),
                };
                doc = r.ok();
                log.push(ev);
            }
            "build" => {
                let c = std::mem::take(&mut conf);
                seen.store(-1, Ordering::SeqCst);
                match catch_unwind(AssertUnwindSafe(|| c.build().wait())) {
                    Err(_) => ev["r"] = json!({"x": "err", "e": "panic", "path": []}),
                    Ok(Ok(s)) => {
                        ev["r"] = json!({"x": "ok", "label": text_of_label(&s), "thr": nat(s.throughput() as u64), "maxm": nat(s.max_messages() as u64),
                            "sched": seen.load(Ordering::SeqCst)});
                        let rd = s.create(move || Reader { ctx: ComponentContext::uninitialised() });
                        reader = Some(rd);
                        system = Some(s);
                    }
                    Ok(Err(x)) => {
                        ev["r"] = match x {
                            kompact::runtime::KompactError::ConfigLoadingError(ConfigLoadingError::Io(_)) => json!({"x": "err", "e": "io", "path": []}),
                            kompact::runtime::KompactError::ConfigLoadingError(ConfigLoadingError::Parse(_)) => json!({"x": "err", "e": "parse", "path": []}),
                            kompact::runtime::KompactError::ConfigError(x) => err(x),
                            _ => json!({"x": "err", "e": "other", "path": []}),
                        }
                    }
                }
                log.push(ev);
            }
            "down" => {
                reader = None;
                if let Some(s) = system.take() {
                    let _ = s.shutdown().wait();
                }
                log.push(ev);
            }
            "rt" => {
                let v = &op["v"];
                ev["r"] = match op["ty"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<String>().as_str() {
                    "s" => rt::<StringValue>(v),
                    "i" => rt::<IntegerValue>(v),
                    "r" => rt::<RealValue>(v),
                    "b" => rt::<BooleanValue>(v),
                    "y" => rt::<BytesValue>(v),
                    "u" => rt::<DurationValue>(v),
                    "n" => rt::<UsizeValue>(v),
                    "f" => rt::<F32Value>(v),
                    "ai" => rt::<ArrayOfValues<IntegerValue>>(v),
                    "as" => rt::<ArrayOfValues<StringValue>>(v),
                    "au" => rt::<ArrayOfValues<DurationValue>>(v),
                    "aan" => rt::<ArrayOfValues<ArrayOfValues<UsizeValue>>>(v),
                    x => panic!("type {}", x),
                };
                log.push(ev);
            }
            _ => {
                let via = op["via"].as_str().unwrap_or("sys");
                let r = match (via, &doc, &system, &reader) {
                    ("doc", Some(c), _, _) => read(op, c),
                    ("sys", _, Some(s), _) => read(op, s.config()),
                    ("own", _, Some(s), _) => read(op, &s.config_owned()),
                    ("comp", _, Some(_), Some(r)) => r.on_definition(|d| read(op, d.ctx.config())),
                    _ => continue,
                };
                log.push(r.expect("operation"));
            }
        }
    }
    drop(reader);
    if let Some(s) = system {
        let _ = s.shutdown().wait();
    }
    let _ = std::fs::remove_dir_all(&dir);
    log.push(json!({"e": "end"}));
    log
}
/// The label with which a system's messages are tagged.
fn text_of_label(s: &KompactSystem) -> Value {
    use slog::KV;
    struct S(String);
    impl slog::Serializer for S {
        fn emit_arguments(&mut self, key: slog::Key, val: &std::fmt::Arguments<'_>) -> slog::Result {
            let k: &str = key.as_ref();
            if k == "system" {
                self.0 = val.to_string();
            }
            Ok(())
        }
    }
    let mut v = S(String::new());
    let l = s.logger();
    let record = slog::record_static!(slog::Level::Info, "");
    let _ = l.list().serialize(&slog::Record::new(&record, &format_args!(""), slog::b!()), &mut v);
    codes(&v.0)
}
pub fn main(input: &str, output: &str) {
    crate::bufs::each(input, output, run)
}
