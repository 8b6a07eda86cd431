//! C09: concurrent use of shared instances.
use super::*;
use crate::custom::Traced;
use crate::engine::*;
use crate::sched::Sched;
use rustdct::DctPlanner;
use std::sync::Barrier;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Do {
    inst: usize,
    call: usize,
    seed: u64,
    alloc: bool,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    /// None: deterministic schedule with the instrumented number type; Some: free-running stress with that type
    stress: Option<Ty>,
    specs: Vec<Spec>,
    threads: Vec<Vec<Do>>,
    sched: u64,
    burst: usize,
    reps: usize,
}
fn build_set<T: Real>(specs: &[Spec]) -> Vec<Plan<T>> {
    let mut pl = DctPlanner::new();
    specs.iter().map(|s| s.build_with(&mut pl)).collect()
}
struct Job<T> {
    inst: usize,
    call: Call,
    alloc: bool,
    x: Vec<T>,
    prior: Vec<T>,
    slen: usize,
    exp: Vec<T>,
}
fn doit<T: Real>(p: &Plan<T>, j: &Job<T>) -> Vec<T> {
    if let (true, Call::K(k)) = (j.alloc, j.call) {
        let mut b = j.x.clone();
        p.run_alloc(k, &mut b);
        b
    } else {
        let mut s = vec![T::zero(); j.slen];
        run_call(p, j.call, &j.x, &j.prior, &mut s)
    }
}
fn diff<T: Real>(c: &Case, t: usize, j: &Job<T>, got: &[T]) -> Result<(), String> {
    match bits_eq(got, &j.exp) {
        None => Ok(()),
        Some(k) => Err(format!(
            "{:?} of instance {} ({}, length {}) called by thread {} while others used it: output {} is {:e}, alone it is {:e}",
            j.call,
            j.inst,
            c.specs[j.inst].tag(),
            c.specs[j.inst].len(),
            t,
            k,
            got[k].f(),
            j.exp[k].f()
        )),
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let set: Vec<Plan<T>> = build_set(&c.specs);
    let twin: Vec<Plan<T>> = build_set(&c.specs);
    let jobs: Vec<Vec<Job<T>>> = c
        .threads
        .iter()
        .map(|ds| {
            ds.iter()
                .map(|d| {
                    let inst = d.inst % set.len();
                    let cs = calls(&set[inst]);
                    let call = cs[d.call % cs.len()];
                    let n = set[inst].len();
                    let mut j = Job {
                        inst,
                        call,
                        alloc: d.alloc,
                        x: Sig::Uniform { seed: d.seed, exp: 0 }.gen(call.in_len(n)),
                        prior: Sig::Uniform { seed: d.seed ^ 77, exp: 0 }.gen(2 * n),
                        slen: set[inst].scratch(),
                        exp: vec![],
                    };
                    j.exp = doit(&twin[inst], &j);
                    j
                })
                .collect()
        })
        .collect();
    let nt = jobs.len();
    let sched = if c.stress.is_none() { Some(Sched::new(nt, c.sched, c.burst)) } else { None };
    let barrier = Barrier::new(nt);
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (set, jobs, sched, barrier) = (&set, &jobs, &sched, &barrier);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, move || -> Result<(), String> {
                        let work = || -> Result<(), String> {
                            for _ in 0..c.reps {
                                for j in &jobs[t] {
                                    let got = doit(&set[j.inst], j);
                                    diff(c, t, j, &got)?;
                                }
                            }
                            Ok(())
                        };
                        match sched {
                            Some(s) => s.run(t, work).unwrap_or_else(|m| Err(format!("thread {} panicked while others used the instance: {}", t, m))),
                            None => {
                                barrier.wait();
                                panics(work).unwrap_or_else(|m| Err(format!("thread {} panicked while others used the instance: {}", t, m)))
                            }
                        }
                    })
                    .expect("HARNESS: spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("HARNESS: thread died".into()))).collect()
    });
    for r in results {
        r?;
    }
    let calls_made: usize = jobs.iter().map(|j| j.len()).sum::<usize>() * c.reps;
    info.checks = calls_made as u64;
    match &sched {
        Some(s) => {
            let (sw, st) = s.counts();
            info.nontrivial = sw >= 2;
            info.tag(format!("switches~2^{}", 64 - sw.leading_zeros()));
            if st > 0 {
                info.tag("token-stolen");
            }
            info.tag("scheduled");
        }
        None => {
            info.nontrivial = nt >= 2;
            info.tag("stress");
        }
    }
    for s in &c.specs {
        info.tag(s.tag());
    }
    Ok(info)
}
fn rand_case(r: &mut Rng, stress: Option<Ty>, specs: Vec<Spec>) -> Case {
    let nt = if stress.is_some() { r.range(4, 8) } else { r.range(2, 3) };
    let per = if stress.is_some() { 3 } else { 2 };
    let same = r.chance(0.5);
    let k = r.below(specs.len());
    let threads = (0..nt)
        .map(|_| {
            (0..r.range(1, per))
                .map(|_| Do { inst: if same { k } else { r.below(specs.len()) }, call: r.below(4), seed: r.u64() >> 12, alloc: r.chance(0.25) })
                .collect()
        })
        .collect();
    Case { stress, specs, threads, sched: r.u64() >> 12, burst: *r.pick(&[1, 3, 10, 10, 40, 150, 600]), reps: if stress.is_some() { 20 } else { 1 } }
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "case = (instances built through one planner, per-thread lists of calls, and either a schedule = at which arithmetic operations of an instrumented number type the running thread hands over to which other thread, or free-running threads on f32/f64); every call is compared bit for bit with the same call made alone. Non-trivial: at least two hand-overs in the middle of calls, or at least two free-running threads."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C09", round);
        let mut out = vec![];
        if round == 0 {
            // every family, on its own
            for n in (1..=20).chain([23, 24, 27, 30, 31, 32, 45, 46, 47, 48, 50, 64]) {
                for spec in all_families(&mut r, n) {
                    out.push(rand_case(&mut r, None, vec![spec]));
                }
            }
        }
        for i in 0..ctx.n(700) {
            let stress = if i % 4 == 3 { Some(*r.pick(&TYS)) } else { None };
            let max = if stress.is_some() { 600 } else { 70 };
            let k = r.range(1, 3);
            let mut specs: Vec<Spec> = (0..k).map(|_| rand_any(&mut r, max, 2)).collect();
            if r.chance(0.6) {
                let h = r.range(1, max / 2);
                specs.push(Spec::Planned(Kind::C2, h));
                specs.push(Spec::Planned(Kind::C4, 2 * h));
                specs.push(Spec::PlannedMdct(2 * h, Win::random(&mut r)));
                specs.push(Spec::PlannedMdct(2 * h, Win::random(&mut r)));
            }
            if r.chance(0.3) {
                let e = r.range(2, 6);
                specs.push(Spec::Planned(Kind::C2, 1 << e));
                specs.push(Spec::Planned(Kind::C2, 2 << e));
            }
            out.push(rand_case(&mut r, stress, specs));
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        match c.stress {
            None => exec::<Traced>(c),
            Some(Ty::F32) => exec::<f32>(c),
            Some(Ty::F64) => exec::<f64>(c),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.threads.len() > 2 {
            for t in 0..c.threads.len() {
                let mut d = c.clone();
                d.threads.remove(t);
                v.push(d);
            }
        }
        for t in 0..c.threads.len() {
            for i in 0..c.threads[t].len() {
                if c.threads[t].len() > 1 {
                    let mut d = c.clone();
                    d.threads[t].remove(i);
                    v.push(d);
                }
                if c.threads[t][i].alloc {
                    let mut d = c.clone();
                    d.threads[t][i].alloc = false;
                    v.push(d);
                }
            }
        }
        if c.specs.len() > 1 {
            for s in &c.specs {
                v.push(Case { specs: vec![s.clone()], ..c.clone() });
            }
        }
        for (i, s) in c.specs.iter().enumerate() {
            for t in s.shrinks() {
                let mut specs = c.specs.clone();
                specs[i] = t;
                v.push(Case { specs, ..c.clone() });
            }
        }
        for b in [600, 150, 40, 10] {
            if b > c.burst && c.stress.is_none() {
                v.push(Case { burst: b, ..c.clone() });
            }
        }
        v
    }
    fn threads(&self) -> usize {
        4
    }
}
