//! Exploration driver: named finite spaces, explored completely in parallel;
//! violation and known-finding reporting; evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What one explored case contributed.
#[derive(Default, Clone)]
pub struct Obs {
    /// outcome class, to show that the space is not vacuous
    pub outcome: String,
    /// steps of the implementation executed in this case (operations, claims, rounds)
    pub steps: u64,
    /// the verdict was also replayed through the real end-to-end implementation path
    pub validated: bool,
}
pub fn obs(outcome: impl Into<String>, steps: u64, validated: bool) -> Obs {
    Obs { outcome: outcome.into(), steps, validated }
}

pub struct Viol {
    /// stable key of the failing input / call site / history
    pub key: String,
    pub msg: String,
}
pub type CaseRes = Result<Obs, Viol>;
pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub variant: String, // "release" or "debug" build of the crate under check
    pub seed: i64,
    pub only: Option<(String, u64)>,
    pub known: BTreeMap<String, String>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub spaces: Mutex<Vec<(String, u64, f64)>>,
    pub samples: Mutex<Vec<String>>,
    pub viols: Mutex<Vec<(usize, String, u64, Viol)>>,
    pub known_seen: Mutex<BTreeSet<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub start: Instant,
    pub replay_dir: String,
    pub out: Option<String>,
    pub verbose: bool,
}

pub const MAX_VIOLS: usize = 5;
pub const CASE_LIMIT_MS: u64 = 120_000;

impl Ctx {
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    /// Explore all n cases of a space. `f` must be deterministic in its index.
    pub fn space(&self, name: &str, n: u64, f: impl Fn(u64) -> CaseRes + Sync, desc: impl Fn(u64) -> String + Sync) {
        if let Some((s, i)) = &self.only {
            if s != name { return; }
            println!("replaying {} case {}: {}", name, i, desc(*i));
            self.one(name, *i, &f, &desc, 0);
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let nviol = AtomicUsize::new(0);
        let workers = 8usize;
        // a case that does not come back is a verdict too: see the watchdog below
        let running: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let left = AtomicUsize::new(workers);
        let chunk = (n / (workers as u64 * 64)).clamp(1, 256);
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut ticks = 0u32;
                while left.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    ticks += 1;
                    if ticks % 200 != 0 { continue; }
                    let now = t0.elapsed().as_millis() as u64;
                    for r in running.iter() {
                        let i = r.0.load(Ordering::SeqCst);
                        if i != u64::MAX && now.saturating_sub(r.1.load(Ordering::SeqCst)) > CASE_LIMIT_MS && r.0.load(Ordering::SeqCst) == i {
                            self.record(name, i, Viol { key: format!("{}:hang", name), msg: format!("the case does not finish within {} s", CASE_LIMIT_MS / 1000) }, &desc);
                            std::process::exit(self.finish());
                        }
                    }
                }
            });
            for w in 0..workers {
                let (running, left, next, stop, nviol, f, desc) = (&running, &left, &next, &stop, &nviol, &f, &desc);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                    pool.install(|| {
                        let mut steps = 0u64;
                        let mut states = 0u64;
                        let mut val = 0u64;
                        let mut outs: BTreeMap<String, u64> = BTreeMap::new();
                        while !stop.load(Ordering::Relaxed) {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n { break; }
                            for i in a..(a + chunk).min(n) {
                                running[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                                running[w].0.store(i, Ordering::SeqCst);
                                let r = catch_unwind(AssertUnwindSafe(|| f(i)));
                                running[w].0.store(u64::MAX, Ordering::SeqCst);
                                let r = match r {
                                    Ok(r) => r,
                                    Err(p) => Err(Viol { key: format!("{}:panic", name), msg: format!("panic in harness case: {}", panic_msg(&p)) }),
                                };
                                states += 1;
                                match r {
                                    Ok(o) => {
                                        steps += o.steps;
                                        if o.validated { val += 1; }
                                        *outs.entry(o.outcome).or_insert(0) += 1;
                                    }
                                    Err(v) => {
                                        if self.record(name, i, v, desc) {
                                            if nviol.fetch_add(1, Ordering::Relaxed) + 1 >= MAX_VIOLS {
                                                stop.store(true, Ordering::Relaxed);
                                            }
                                        } else {
                                            *outs.entry("known finding".into()).or_insert(0) += 1;
                                        }
                                    }
                                }
                            }
                        }
                        self.states.fetch_add(states, Ordering::Relaxed);
                        self.transitions.fetch_add(steps, Ordering::Relaxed);
                        self.validated.fetch_add(val, Ordering::Relaxed);
                        let mut g = self.outcomes.lock().unwrap();
                        for (k, v) in outs {
                            *g.entry(format!("{}: {}", name, k)).or_insert(0) += v;
                        }
                    });
                    left.fetch_sub(1, Ordering::Relaxed);
                }).unwrap();
            }
        });
        let dt = t0.elapsed().as_secs_f64();
        self.spaces.lock().unwrap().push((name.to_string(), n, dt));
        let mut s = self.samples.lock().unwrap();
        if s.len() < 24 {
            s.push(format!("{}[{}]: {}", name, n / 2, trunc(&desc(n / 2), 600)));
        }
        if self.verbose {
            eprintln!("space {:40} n={:8} {:6.2}s", name, n, dt);
        }
    }
    fn one(&self, name: &str, i: u64, f: &(impl Fn(u64) -> CaseRes + Sync), desc: &(impl Fn(u64) -> String + Sync), _d: u32) {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
        let r = pool.install(|| match catch_unwind(AssertUnwindSafe(|| f(i))) {
            Ok(r) => r,
            Err(p) => Err(Viol { key: format!("{}:panic", name), msg: format!("panic in harness case: {}", panic_msg(&p)) }),
        });
        self.states.fetch_add(1, Ordering::Relaxed);
        match r {
            Ok(o) => println!("held: {}", o.outcome),
            Err(v) => {
                println!("failed: {}", v.msg);
                self.record(name, i, v, desc);
            }
        }
    }
    /// true if this is a new (unlisted) violation
    fn record(&self, name: &str, i: u64, v: Viol, _desc: &(impl Fn(u64) -> String + Sync)) -> bool {
        if self.known.contains_key(&v.key) {
            self.known_seen.lock().unwrap().insert(v.key);
            return false;
        }
        let mut g = self.viols.lock().unwrap();
        if g.len() < 50 {
            let msg = format!("{} | case: {}", v.msg, _desc(i));
            let at = self.spaces.lock().unwrap().len();
            g.push((at, name.to_string(), i, Viol { key: v.key, msg }));
        }
        true
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}

/// run a closure, turning panics into Err
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", trunc(&panic_msg(&p), 200))),
    }
}

/// mixed-radix decoding of a case index
pub struct Idx(pub u64);
impl Idx {
    pub fn take(&mut self, radix: u64) -> u64 {
        let r = self.0 % radix;
        self.0 /= radix;
        r
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let k = self.take(xs.len() as u64);
        &xs[k as usize]
    }
    /// a word of the given length over an alphabet
    pub fn word<T: Clone>(&mut self, xs: &[T], len: usize) -> Vec<T> {
        (0..len).map(|_| self.pick(xs).clone()).collect()
    }
}
pub fn ipow(b: usize, e: usize) -> u64 {
    (b as u64).pow(e as u32)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}


pub fn drive(dispatch: impl Fn(&Ctx) -> bool) {
    // usage: vpmc ID --variant V --out PART.json [--known FILE] [--only SPACE INDEX] [-v]
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].clone();
    let mut variant = "release".to_string();
    let mut out = None;
    let mut known = BTreeMap::new();
    let mut only = None;
    let mut verbose = false;
    let mut replay_dir = String::from("replays");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--variant" => { variant = args[i + 1].clone(); i += 1; }
            "--out" => { out = Some(args[i + 1].clone()); i += 1; }
            "--replays" => { replay_dir = args[i + 1].clone(); i += 1; }
            "--known" => {
                for l in std::fs::read_to_string(&args[i + 1]).unwrap().lines() {
                    // finding: property=<id> key=<key> :: text
                    if let Some(r) = l.strip_prefix("finding: property=") {
                        let (p, rest) = r.split_once(" key=").expect("bad known-findings line");
                        let (k, text) = rest.split_once(" :: ").expect("bad known-findings line");
                        if p == id { known.insert(k.to_string(), text.to_string()); }
                    }
                }
                i += 1;
            }
            "--only" => { only = Some((args[i + 1].clone(), args[i + 2].parse().unwrap())); i += 2; }
            "-v" => verbose = true,
            a => panic!("bad argument {}", a),
        }
        i += 1;
    }
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Ctx {
        id: id.clone(), thorough, variant: variant.clone(), seed, only, known,
        states: 0.into(), transitions: 0.into(), validated: 0.into(),
        outcomes: Mutex::new(Default::default()), spaces: Mutex::new(vec![]), samples: Mutex::new(vec![]),
        viols: Mutex::new(vec![]), known_seen: Mutex::new(Default::default()), assumptions: Mutex::new(vec![]),
        start: Instant::now(), verbose, replay_dir, out,
    };
    if std::env::var("VP_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let ran = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&ctx)));
    match ran {
        Ok(true) => {}
        Ok(false) => { eprintln!("unknown property {}", id); std::process::exit(3); }
        Err(p) => { eprintln!("harness error: {}", panic_msg(&p)); std::process::exit(3); }
    }
    std::process::exit(ctx.finish());
}

impl Ctx {
    /// report, write the part file, return the exit code
    pub fn finish(&self) -> i32 {
        let id = &self.id;
        let thorough = self.thorough;
        let replay_dir = &self.replay_dir;
        let verbose = self.verbose;
    let wall = self.start.elapsed().as_secs_f64();
    let mut viols = self.viols.lock().unwrap();
    viols.sort_by_key(|v| (v.0, v.2));
    let mut lines = vec![];
    for k in self.known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}: {}", id, k, self.known[k]);
    }
    if !viols.is_empty() {
        std::fs::create_dir_all(&replay_dir).unwrap();
        for (n, (_, space, idx, v)) in viols.iter().enumerate().take(MAX_VIOLS) {
            let path = format!("{}/{}-{}-{}.txt", replay_dir, id, self.variant, n);
            let text = format!(
                "property: {}\nvariant: {}\ntier: {}\nspace: {}\nindex: {}\nkey: {}\nfailure: {}\nreplay with: ./check.sh {} replay {}\n",
                id, self.variant, if thorough { "thorough" } else { "quick" }, space, idx, v.key, v.msg, id, path
            );
            std::fs::write(&path, text).unwrap();
            println!("  {} [{}] {} case {}: {}", id, self.variant, space, idx, trunc(&v.msg, 800));
            lines.push(path);
        }
        println!("VIOLATION property={} replay={}", id, lines[0]);
    }
    let o = self.outcomes.lock().unwrap();
    let sp = self.spaces.lock().unwrap();
    let json = format!(
        "{{\"variant\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"violations\":{},\"wall\":{:.3},\"known\":[{}],\"spaces\":[{}],\"outcomes\":{{{}}},\"samples\":[{}],\"assumptions\":[{}]}}",
        jstr(&self.variant), self.states.load(std::sync::atomic::Ordering::Relaxed),
        self.transitions.load(std::sync::atomic::Ordering::Relaxed),
        self.validated.load(std::sync::atomic::Ordering::Relaxed), viols.len(), wall,
        self.known_seen.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        sp.iter().map(|(n, c, t)| format!("{{\"space\":{},\"cases\":{},\"wall_s\":{:.2}}}", jstr(n), c, t)).collect::<Vec<_>>().join(","),
        o.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
    );
    if verbose {
        for (k, v) in o.iter() { eprintln!("  outcome {:70} {}", k, v); }
        eprintln!("states {} transitions {} validated {} wall {:.1}s", self.states.load(std::sync::atomic::Ordering::Relaxed), self.transitions.load(std::sync::atomic::Ordering::Relaxed), self.validated.load(std::sync::atomic::Ordering::Relaxed), wall);
    }
    if let Some(p) = &self.out { if self.only.is_none() { std::fs::write(p, json).unwrap(); } }
    if viols.is_empty() { 0 } else { 1 }
}
}
