//! Runs generated cases in parallel, collects coverage, reports the first failing case.
use crate::rng::{hash_str, mix, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Ctx {
    pub tier: String,
    pub seed: u64,
    pub profile: String,
    /// fraction of the quick case list to run (profile-dependent)
    pub scale: f64,
}
impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn rng(&self, prop: &str, round: usize) -> Rng {
        let other = if self.profile == "release" { 0 } else { hash_str(&self.profile) };
        Rng::new(mix(self.seed ^ other ^ hash_str(prop)).wrapping_add(round as u64 * 0x51ED2701))
    }
    /// a case count, scaled
    pub fn n(&self, quick: usize) -> usize {
        ((quick as f64 * self.scale).ceil() as usize).max(1)
    }
}

/// what one executed case covered
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<String>,
    /// individual comparisons / calls made inside the case
    pub checks: u64,
    /// worst measured quantity divided by its allowance (meaning depends on the property)
    pub ratio: f64,
}
impl Info {
    pub fn tag(&mut self, s: impl Into<String>) {
        self.tags.push(s.into());
    }
    pub fn worst(&mut self, r: f64) {
        if r > self.ratio {
            self.ratio = r;
        }
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// round 0 is the systematic grid plus the random cases of the quick tier; later rounds are random only
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Self::Case>;
    fn run(&self, c: &Self::Case) -> Result<Info, String>;
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
    fn threads(&self) -> usize {
        8
    }
}

pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Value>;
    fn run(&self, c: &Value) -> Result<Info, String>;
    fn shrink(&self, c: &Value) -> Vec<Value>;
    fn threads(&self) -> usize;
}
impl<P: Prop> DynProp for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Value> {
        Prop::cases(self, ctx, round).iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
    fn run(&self, c: &Value) -> Result<Info, String> {
        let case: P::Case = serde_json::from_value(c.clone()).map_err(|e| format!("HARNESS: bad case: {}", e))?;
        match catch_unwind(AssertUnwindSafe(|| Prop::run(self, &case))) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {}", panic_msg(&*p))),
        }
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let case: P::Case = serde_json::from_value(c.clone()).unwrap();
        Prop::shrink(self, &case).iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
    fn threads(&self) -> usize {
        Prop::threads(self)
    }
}
pub fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    };
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s[..k].to_string()
    } else {
        s
    }
}
/// true if f panicked
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_msg(&*p))
}

struct Slot {
    index: AtomicUsize, // usize::MAX = idle
    started: AtomicU64, // ms since run start
    tid: AtomicU64,
    cpu0: AtomicU64,
}
fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|s| s.to_string_lossy().to_string())).and_then(|s| s.parse().ok()).unwrap_or(0)
}
fn thread_cpu_ms(tid: u64) -> u64 {
    // utime + stime of that thread, in ms (100 Hz ticks)
    let s = match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s,
        Err(_) => return 0,
    };
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0,
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

pub struct RunArgs {
    pub ctx: Ctx,
    pub budget_s: f64,
    pub progress: String,
    pub case_cpu_limit_s: f64,
}

/// exit code: 0 ok, 3 failure found (described in the returned JSON)
pub fn run_all(p: &dyn DynProp, a: &RunArgs) -> Value {
    let t0 = Instant::now();
    let nthreads = p.threads();
    let mut evals = 0u64;
    let mut checks = 0u64;
    let mut nontrivial_total = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut worst: (f64, Value) = (0.0, Value::Null);
    let mut samples: Vec<Value> = vec![];
    let mut rounds = 0usize;
    let mut failure: Option<Value> = None;
    let mut slowest = 0.0f64;
    let pf = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a.progress).expect("HARNESS: progress file");
    loop {
        let cases = p.cases(&a.ctx, rounds);
        let next = AtomicUsize::new(0);
        let first_fail = AtomicUsize::new(usize::MAX);
        let fails: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let merged: Mutex<Vec<(u64, u64, u64, Vec<u64>, BTreeMap<String, u64>, (f64, usize), f64)>> = Mutex::new(vec![]);
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot { index: AtomicUsize::new(usize::MAX), started: AtomicU64::new(0), tid: AtomicU64::new(0), cpu0: AtomicU64::new(0) })
            .collect();
        let done = AtomicBool::new(false);
        let out_of_time = AtomicBool::new(false);
        let hung: Mutex<Option<(usize, String)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let (cases, next, first_fail, fails, merged, slots, pf, out_of_time) = (&cases, &next, &first_fail, &fails, &merged, &slots, &pf, &out_of_time);
                let round = rounds;
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        use std::os::unix::fs::FileExt;
                        let tid = gettid();
                        slots[t].tid.store(tid, SeqCst);
                        let (mut ev, mut ck, mut nt) = (0, 0, 0);
                        let mut hs = vec![];
                        let mut tg: BTreeMap<String, u64> = BTreeMap::new();
                        let mut worst = (0.0f64, usize::MAX);
                        let mut slow = 0.0f64;
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= cases.len() || i > first_fail.load(SeqCst) || out_of_time.load(SeqCst) {
                                break;
                            }
                            let mut line = format!("{} {}", round, i).into_bytes();
                            line.resize(31, b' ');
                            line.push(b'\n');
                            let _ = pf.write_all_at(&line, 32 * t as u64);
                            slots[t].started.store(t0.elapsed().as_millis() as u64, SeqCst);
                            slots[t].cpu0.store(u64::MAX, SeqCst);
                            slots[t].index.store(i, SeqCst);
                            let c0 = Instant::now();
                            let r = p.run(&cases[i]);
                            slow = slow.max(c0.elapsed().as_secs_f64());
                            slots[t].index.store(usize::MAX, SeqCst);
                            ev += 1;
                            match r {
                                Ok(info) => {
                                    ck += info.checks;
                                    if info.nontrivial {
                                        nt += 1;
                                        hs.push(hash_str(&cases[i].to_string()));
                                    }
                                    for s in info.tags {
                                        *tg.entry(s).or_default() += 1;
                                    }
                                    if info.ratio > worst.0 {
                                        worst = (info.ratio, i);
                                    }
                                }
                                Err(m) => {
                                    fails.lock().unwrap().push((i, m));
                                    first_fail.fetch_min(i, SeqCst);
                                }
                            }
                        }
                        let mut line = b"idle".to_vec();
                        line.resize(31, b' ');
                        line.push(b'\n');
                        let _ = pf.write_all_at(&line, 32 * t as u64);
                        merged.lock().unwrap().push((ev, ck, nt, hs, tg, worst, slow));
                    })
                    .expect("HARNESS: spawn");
                hs.push(h);
            }
            // watchdog
            let (slots, done, hung, out_of_time) = (&slots, &done, &hung, &out_of_time);
            let budget = a.budget_s;
            let cpu_limit = a.case_cpu_limit_s;
            let ncases = cases.len();
            let round = rounds;
            let seed = a.ctx.seed;
            let cases_ref = &cases;
            sc.spawn(move || {
                let mut ticks = 0u64;
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    ticks += 1;
                    if ticks % 25 != 0 {
                        continue;
                    }
                    if budget > 0.0 && t0.elapsed().as_secs_f64() > budget {
                        out_of_time.store(true, SeqCst);
                    }
                    for s in slots.iter() {
                        let i = s.index.load(SeqCst);
                        if i == usize::MAX || i >= ncases {
                            continue;
                        }
                        let cpu = thread_cpu_ms(s.tid.load(SeqCst));
                        let c0 = s.cpu0.load(SeqCst);
                        if c0 == u64::MAX {
                            s.cpu0.store(cpu, SeqCst);
                            continue;
                        }
                        let wall = t0.elapsed().as_millis() as u64 - s.started.load(SeqCst);
                        let used = cpu.saturating_sub(c0);
                        let bad = if used as f64 > cpu_limit * 1000.0 {
                            Some(format!("did not finish: {} s of processor time spent in one case", used / 1000))
                        } else if wall > 120_000 && (used as f64) < 0.005 * wall as f64 {
                            Some(format!("did not finish: blocked for {} s", wall / 1000))
                        } else {
                            None
                        };
                        if let Some(m) = bad {
                            if s.index.load(SeqCst) == i {
                                *hung.lock().unwrap() = Some((i, m.clone()));
                                // threads cannot be cancelled: report from here
                                let v = json!({"status":"fail","hang":true,"round":round,"index":i,"seed":seed,"case":cases_ref[i],"message":m});
                                println!("RESULT {}", v);
                                std::process::exit(3);
                            }
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
        });
        for (ev, ck, nt, hs, tg, w, slow) in merged.into_inner().unwrap() {
            evals += ev;
            checks += ck;
            nontrivial_total += nt;
            distinct.extend(hs);
            for (k, v) in tg {
                *tags.entry(k).or_default() += v;
            }
            if w.1 != usize::MAX && w.0 > worst.0 {
                worst = (w.0, cases[w.1].clone());
            }
            slowest = slowest.max(slow);
        }
        if samples.len() < 12 && !cases.is_empty() {
            let step = (cases.len() / 6).max(1);
            for c in cases.iter().skip(step / 2).step_by(step).take(6) {
                samples.push(c.clone());
            }
        }
        let mut f = fails.into_inner().unwrap();
        f.sort();
        if let Some((i, m)) = f.into_iter().next() {
            failure = Some(json!({"round":rounds,"index":i,"case":cases[i],"message":m}));
        }
        rounds += 1;
        if failure.is_some() || a.budget_s <= 0.0 || t0.elapsed().as_secs_f64() > a.budget_s {
            break;
        }
    }
    let mut v = json!({
        "status": if failure.is_some() {"fail"} else {"ok"},
        "evaluations": evals, "checks": checks, "nontrivial": nontrivial_total, "distinct_nontrivial": distinct.len(),
        "tags": tags, "rounds": rounds, "samples": samples, "worst_ratio": worst.0, "worst_case": worst.1,
        "wall_s": t0.elapsed().as_secs_f64(), "slowest_case_s": slowest, "rule": p.rule(),
    });
    if let Some(f) = failure {
        for (k, x) in f.as_object().unwrap() {
            v[k] = x.clone();
        }
    }
    v
}
