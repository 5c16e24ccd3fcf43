//! Result files, violations, counters.
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

/// Exit code of an engine that found a violation.
pub const EXIT_VIOLATION: i32 = 3;

#[derive(Default)]
struct Ctx {
    engine: String,
    out: Option<String>,
    args: Vec<String>,
    iter: u64,
    scenario: String,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    start: Option<Instant>,
    progress: Option<std::fs::File>,
    ignore: Vec<String>,
}

static CTX: Mutex<Option<Ctx>> = Mutex::new(None);
static TIMEOUT: AtomicU64 = AtomicU64::new(60);

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let mut g = CTX.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    f(g.get_or_insert_with(Ctx::default))
}

/// Command-line options `--name value`.
#[derive(Clone, Debug)]
pub struct Args {
    pub map: BTreeMap<String, String>,
}
impl Args {
    pub fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let engine = it.next().unwrap_or_default();
        let mut map = BTreeMap::new();
        while let Some(a) = it.next() {
            let k = a.trim_start_matches("--").to_string();
            let v = it.next().unwrap_or_default();
            map.insert(k, v);
        }
        (engine, Args { map })
    }
    pub fn get(&self, k: &str, d: u64) -> u64 {
        self.map.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn str<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.map.get(k).map_or(d, |s| s.as_str())
    }
}

pub fn init(engine: &str, args: &Args) {
    TIMEOUT.store(args.get("hang", 60), Relaxed);
    with(|c| {
        c.engine = engine.into();
        c.out = args.map.get("out").cloned();
        c.args = std::env::args().skip(1).collect();
        c.start = Some(Instant::now());
        c.progress = args.map.get("progress").and_then(|p| std::fs::File::create(p).ok());
        c.ignore = args.str("ignore", "").split(',').map(str::to_string).collect();
    });
    let dflt = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if QUIET.with(std::cell::Cell::get) == 0 {
            dflt(i);
        }
    }));
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Run `f`; a panic is returned as its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Note the iteration in progress (written out, so that it survives a crash).
pub fn begin_iter(i: u64) {
    with(|c| {
        c.iter = i;
        c.scenario.clear();
        if let Some(f) = &c.progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{i:<20}\n").as_bytes(), 0);
        }
    });
}
pub fn scenario(s: String) {
    with(|c| c.scenario = s);
}
pub fn count(k: &str, n: u64) {
    with(|c| {
        if let Some(v) = c.counters.get_mut(k) {
            *v += n;
        } else {
            c.counters.insert(k.into(), n);
        }
    });
}
pub fn maximum(k: &str, n: u64) {
    with(|c| {
        let e = c.maxima.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    });
}
pub fn distinct(k: &str, h: u64) {
    with(|c| {
        if let Some(s) = c.distinct.get_mut(k) {
            if s.len() < 4_000_000 {
                s.insert(h);
            }
        } else {
            c.distinct.insert(k.into(), HashSet::from([h]));
        }
    });
}
pub fn sample(v: Value) {
    with(|c| {
        if c.samples.len() < 4 {
            c.samples.push(v);
        }
    });
}
pub fn elapsed_ms() -> u64 {
    with(|c| c.start.map_or(0, |s| s.elapsed().as_millis() as u64))
}
pub fn run_timeout() -> u64 {
    TIMEOUT.load(Relaxed)
}

fn write(c: &Ctx, violation: Option<Value>) {
    let mut m = Map::new();
    m.insert("engine".into(), json!(c.engine));
    m.insert("args".into(), json!(c.args));
    m.insert("hooked".into(), json!(crate::sched::HOOKED));
    let mut cs = Map::new();
    for (k, v) in &c.counters {
        cs.insert(k.clone(), json!(v));
    }
    for (k, v) in [
        ("atomic_loads", &crate::sched::LOADS),
        ("atomic_stores", &crate::sched::STORES),
        ("atomic_rmws", &crate::sched::RMWS),
    ] {
        let n = v.load(Relaxed);
        if n > 0 {
            cs.insert(k.into(), json!(n));
        }
    }
    m.insert("counters".into(), Value::Object(cs));
    m.insert("maxima".into(), json!(c.maxima));
    let d: BTreeMap<&String, usize> = c.distinct.iter().map(|(k, v)| (k, v.len())).collect();
    m.insert("distinct".into(), json!(d));
    m.insert("samples".into(), json!(c.samples));
    m.insert("wall_ms".into(), json!(c.start.map_or(0, |s| s.elapsed().as_millis() as u64)));
    if let Some(v) = violation {
        m.insert("violation".into(), v);
    }
    let s = serde_json::to_string_pretty(&Value::Object(m)).unwrap();
    if let Some(p) = &c.out {
        let tmp = format!("{p}.tmp");
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, p).unwrap();
    } else {
        println!("{s}");
    }
}

pub fn finish() -> ! {
    with(|c| write(c, None));
    std::process::exit(0)
}

/// Report a violation and end the process.
pub fn violation(kind: &str, msg: &str) -> ! {
    with(|c| {
        let v = json!({
            "kind": kind,
            "message": msg,
            "iter": c.iter,
            "scenario": c.scenario,
            "replay": { "engine": c.engine, "args": c.args, "only": c.iter },
        });
        eprintln!("violation [{kind}] iter {}: {msg}\n{}", c.iter, c.scenario);
        write(c, Some(v));
        use std::io::Write;
        let _ = std::io::stderr().flush();
    });
    // No destructors: other threads may be in the middle of anything.
    unsafe { libc_exit(EXIT_VIOLATION) }
}

pub fn hang(msg: &str) -> ! {
    violation("hang", msg)
}

unsafe extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}
