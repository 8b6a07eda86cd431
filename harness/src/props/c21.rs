//! C21: planning is quasi-linear, memory is O(n), nothing stays behind (counting allocator and number types).
use super::c11::Req;
use super::*;
use crate::alloc::{peak, peak_reset, snap};
use crate::custom::{ops, set_limit, Traced};
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Plan(Req),
    /// rejected planning requests: odd MDCT, window of a wrong size, panicking window function, DCT1 of length 1
    Bad(usize, usize),
    /// an object composed by hand from this planner's parts
    Build(Spec),
    /// a process call on the i-th instance held (allocating method if `alloc`)
    Call { i: usize, call: usize, seed: u64, alloc: bool },
    /// a call that is rejected for a wrong buffer size
    BadCall { i: usize, call: usize },
    /// a call in which the caller's own inner object panics
    Boom { i: usize, call: usize },
    Drop(usize),
    Clone(usize),
    NewPlanner,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// plan `warm`, then measure planning `req`
    Cost { req: Req, warm: Vec<Req> },
    /// everything dropped at the end: live bytes are back where they were
    History(Vec<Op>),
    /// of many planned instances one survives the planner: it keeps no more than when planned alone
    Retain { keep: Req, before: Vec<Req>, after: Vec<Req> },
    /// a live planner does not grow when requests repeat
    Steady { reqs: Vec<Req>, rounds: usize, seed: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    ty: Ty,
    /// the number type that counts operations instead of `ty`
    #[serde(default)]
    traced: bool,
    what: What,
}
/// Bounds for planning an instance of length n with elements of b bytes; measured worst cases are about a third.
/// First column: types 5-8 without FFT, and FFT lengths without a prime factor above 11; second: other lengths.
const KEEP: [f64; 2] = [24.0, 90.0]; // bytes kept <= KEEP * n * b + D
const PEAK: [f64; 2] = [30.0, 140.0]; // most bytes in use while planning
const TOTAL: [f64; 2] = [6.0, 24.0]; // bytes ever allocated <= TOTAL * n * log2 n * b + D
const WORK: [f64; 2] = [4.0, 100.0]; // number operations <= WORK * n * log2 n + D / 16
const CALLS: f64 = 4.0; // allocations <= CALLS * log2(n)^2 + D / 64
const D: f64 = 65536.0;
/// CPU seconds per element while planning (optimised profile): fifteen times the slowest lengths, hundreds of times the usual
const CPU: f64 = 30e-6;
const SLACK: i64 = 4096;

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}
pub fn cpu_s() -> f64 {
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

fn cost<T: Real>(req: &Req, warm: &[Req], info: &mut Info) -> Result<(), String> {
    let n = req.len() as f64;
    let b = std::mem::size_of::<T>() as f64;
    let lg = n.log2().max(1.0);
    let once = || {
        let mut p = DctPlanner::<T>::new();
        let keep: Vec<_> = warm.iter().map(|q| q.plan(&mut p)).collect();
        let o = ops();
        set_limit(u64::MAX);
        peak_reset();
        let l0 = snap().live;
        let c0 = cpu_s();
        let (plan, s0, s1) = req.plan(&mut p);
        let cpu = cpu_s() - c0;
        let r = [(s1.live - s0.live) as f64, (peak() - l0) as f64, (s1.bytes - s0.bytes) as f64, (s1.calls - s0.calls) as f64, (ops() - o) as f64];
        let l = plan.len();
        drop((keep, plan));
        (r, cpu, l)
    };
    let (r, mut cpu, len) = once();
    if len != req.len() {
        return Err(format!("{:?}: an instance of length {} is returned", req, len));
    }
    let window = if matches!(req, Req::M(..)) { 4.0 * n * b } else { 0.0 };
    let c = match req {
        Req::K(k, _) if k.always_naive() => 0,
        Req::K(k, n) => c16::awkward(Some(*k), *n) as usize,
        Req::M(n, _) => c16::awkward(None, *n) as usize,
    };
    let allow = [KEEP[c] * n * b + D, PEAK[c] * n * b + window + D, TOTAL[c] * n * lg * b + D, CALLS * lg * lg + D / 64.0, WORK[c] * n * lg + D / 16.0];
    let name = ["bytes kept", "bytes in use at the same time", "bytes allocated in total", "allocations", "operations on numbers"];
    for i in 0..5 {
        if r[i] > allow[i] {
            return Err(format!("planning {:?} on a planner that has planned {} other requests takes {} {}; allowed {:.0}", req, warm.len(), r[i], name[i], allow[i]));
        }
        info.worst(r[i] / allow[i]);
        info.checks += 1;
        if std::env::var("RDV_CALIB").is_ok() {
            let raw = [r[0] / (n * b), r[1] / (n * b), r[2] / (n * b * lg), r[3] / (lg * lg), r[4] / (n * lg)];
            eprintln!("CALIB {} {:.3} {:?}", name[i].replace(' ', "-"), raw[i], req);
        }
    }
    if std::env::var("RDV_CALIB").is_ok() {
        eprintln!("CALIB cpu {:.4} {:?}", cpu / n * 1e6, req);
    }
    if !cfg!(debug_assertions) && n >= 1000.0 {
        let limit = CPU * n + 0.05;
        for _ in 0..3 {
            if cpu > limit {
                cpu = cpu.min(once().1);
            }
        }
        if cpu > limit {
            return Err(format!("planning {:?} takes {:.2} s of processor time, {:.1} us per element", req, cpu, cpu / n * 1e6));
        }
        info.checks += 1;
    }
    info.nontrivial = n >= 64.0;
    info.tag("cost");
    Ok(())
}
fn history<T: Real>(list: &[Op]) {
    let mut pl = DctPlanner::<T>::new();
    let mut held: Vec<Plan<T>> = vec![];
    for op in list {
        let m = held.len();
        match op {
            Op::Plan(q) => held.push(q.plan(&mut pl).0),
            Op::Bad(how, n) => {
                let n = n / 2 * 2 + 2;
                let _ = panics(|| match how % 5 {
                    0 => drop(pl.plan_mdct(n + 1, |s| vec![T::one(); s])),
                    1 => drop(pl.plan_mdct(n, |s| vec![T::one(); s + 2])),
                    2 => drop(pl.plan_mdct(n, |s| vec![T::one(); s - 1])),
                    3 => drop(pl.plan_mdct(n, |_| -> Vec<T> { panic!("user window function failed") })),
                    _ => drop(pl.plan_dct1(1)),
                });
            }
            Op::Build(s) => held.push(s.build_with(&mut pl)),
            Op::Call { i, call, seed, alloc } if m > 0 => {
                let p = &held[i % m];
                let cs = calls(p);
                let c = cs[call % cs.len()];
                let n = p.len();
                let mut x: Vec<T> = Sig::Uniform { seed: *seed, exp: 0 }.gen(c.in_len(n));
                match c {
                    Call::K(k) if *alloc => p.run_alloc(k, &mut x),
                    _ => drop(run_call(p, c, &x, &vec![T::zero(); 2 * n], &mut vec![T::zero(); p.scratch()])),
                }
            }
            Op::BadCall { i, call } if m > 0 => {
                let p = &held[i % m];
                let cs = calls(p);
                let n = p.len();
                let _ = panics(|| match cs[call % cs.len()] {
                    Call::K(k) => p.run(k, &mut vec![T::zero(); n + 1], &mut vec![T::zero(); p.scratch()]),
                    _ => p.mdct().process_mdct_with_scratch(&vec![T::zero(); n], &vec![T::zero(); n + 1], &mut vec![T::zero(); n], &mut vec![T::zero(); p.scratch()]),
                });
            }
            Op::Boom { i, call } if m > 0 => {
                let p = &held[i % m];
                let cs = calls(p);
                let c = cs[call % cs.len()];
                let n = p.len();
                set_bomb(1);
                let _ = panics(|| run_call(p, c, &vec![T::one(); c.in_len(n)], &vec![T::zero(); 2 * n], &mut vec![T::zero(); p.scratch()]));
                set_bomb(0);
            }
            Op::Drop(i) if m > 0 => drop(held.swap_remove(i % m)),
            Op::Clone(i) if m > 0 => {
                let c = held[i % m].clone();
                held.push(c);
            }
            Op::NewPlanner => pl = DctPlanner::new(),
            _ => {}
        }
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    match &c.what {
        What::Cost { req, warm } => cost::<T>(req, warm, &mut info)?,
        What::History(list) => {
            let mut left = [0i64; 3];
            for l in left.iter_mut() {
                let a = snap().live;
                history::<T>(list);
                *l = snap().live - a;
            }
            // something the runtime sets up once is not a leak
            if left[0] > SLACK || left[2] > 0 {
                return Err(format!(
                    "planner and instances are dropped, but {} bytes stay allocated after the first run of this history, {} and {} more after the same again",
                    left[0], left[1], left[2]
                ));
            }
            info.nontrivial = list.len() >= 2;
            info.checks += 3;
            info.tag("history");
        }
        What::Retain { keep, before, after } => {
            let base = snap().live;
            let alone = {
                let k = keep.plan(&mut DctPlanner::<T>::new()).0;
                let l = snap().live - base;
                drop(k);
                l
            };
            let base = snap().live;
            let mut p = DctPlanner::<T>::new();
            let mut others: Vec<Plan<T>> = before.iter().map(|q| q.plan(&mut p).0).collect();
            let k = keep.plan(&mut p).0;
            others.extend(after.iter().map(|q| q.plan(&mut p).0));
            let full = snap().live - base;
            drop(others);
            drop(p);
            let l = snap().live - base;
            info.nontrivial = full > 2 * alone + 4 * SLACK;
            info.checks += 1;
            if l as f64 > 1.5 * alone as f64 + 4.0 * SLACK as f64 {
                return Err(format!("{:?} planned among {} others keeps {} bytes alive when the planner and the others are gone; planned alone it keeps {}", keep, before.len() + after.len(), l, alone));
            }
            info.worst(l as f64 / (1.5 * alone as f64 + 4.0 * SLACK as f64));
            drop(k);
            info.tag("retain");
        }
        What::Steady { reqs, rounds, seed } => {
            let mut p = DctPlanner::<T>::new();
            let mut r = Rng::new(*seed);
            let round = |p: &mut DctPlanner<T>, r: &mut Rng| {
                for q in reqs {
                    let q = match q {
                        Req::M(n, _) => Req::M(*n, Win::random(r)),
                        q => q.clone(),
                    };
                    drop(q.plan(p));
                }
            };
            round(&mut p, &mut r);
            let first = snap().live;
            for _ in 0..*rounds {
                round(&mut p, &mut r);
            }
            let grown = snap().live - first;
            if grown > SLACK {
                return Err(format!("a planner given the same {} requests {} times more (MDCTs with new windows) grows by {} bytes although every instance was dropped", reqs.len(), rounds, grown));
            }
            info.nontrivial = true;
            info.checks += *rounds as u64;
            info.tag("steady");
        }
    }
    info.tag(if c.traced { "counting-type".into() } else { format!("{:?}", c.ty) });
    Ok(info)
}
fn rand_req(r: &mut Rng, max: usize, quadratic: usize) -> Req {
    if r.chance(0.2) {
        let w = BUILTIN[r.below(6)].clone();
        Req::M(2 * rand_len(r, 1, max / 2), w)
    } else {
        let k = *r.pick(&KINDS);
        Req::K(k, rand_len(r, k.min_len(), if k.always_naive() { max.min(quadratic) } else { max }))
    }
}
fn rand_ops(r: &mut Rng, max: usize, count: usize) -> Vec<Op> {
    let mut v = vec![Op::Plan(rand_req(r, max, 2000))];
    for _ in 1..count {
        let (i, call) = (r.below(8), r.below(4));
        v.push(match r.below(16) {
            0..=5 => Op::Plan(rand_req(r, max, 2000)),
            6 => Op::Bad(r.below(5), r.below(max)),
            7 => Op::Build(rand_any(r, max.min(1000), 3)),
            8 | 9 => Op::Call { i, call, seed: r.u64() >> 12, alloc: r.chance(0.5) },
            10 => Op::BadCall { i, call },
            11 => Op::Boom { i, call },
            12 | 13 => Op::Drop(i),
            14 => Op::Clone(i),
            _ => Op::NewPlanner,
        });
    }
    v
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, and one of) (a) a request on a new or used planner: bytes kept, peak and total bytes, allocations, operations of a counting number type and processor time against bounds linear or n log n in the length; (b) a history of planning, rejected requests, hand-built compositions, calls, rejected and panicking calls, clones, drops, new planners, run three times: live bytes return to the start; (c) one instance surviving its planner and many others keeps at most 1.5 times what it keeps when planned alone; (d) a planner asked for the same things again, MDCTs with new windows, does not grow. Non-trivial: (a) length >= 64, (b) at least two operations, (c) the dropped part outweighs the kept one, (d) always."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C21", round);
        let mut out = vec![];
        let cost = |r: &mut Rng, out: &mut Vec<Case>, req: Req, warm: Vec<Req>| {
            out.push(Case { ty: TYS[r.below(2)], traced: r.chance(0.4), what: What::Cost { req, warm } });
        };
        if round == 0 {
            for n in 1..=ctx.n(300) {
                for k in KINDS {
                    if n >= k.min_len() {
                        cost(&mut r, &mut out, Req::K(k, n), vec![]);
                    }
                }
                if n % 2 == 0 {
                    cost(&mut r, &mut out, Req::M(n, Win::Mp3), vec![]);
                }
                if n > ctx.n(40) {
                    continue;
                }
                for spec in all_families(&mut r, n) {
                    let list = vec![Op::Build(spec), Op::Call { i: 0, call: r.below(4), seed: 1, alloc: r.chance(0.5) }, Op::BadCall { i: 0, call: r.below(4) }, Op::Boom { i: 0, call: r.below(4) }];
                    out.push(Case { ty: TYS[n % 2], traced: false, what: What::History(list) });
                }
            }
            for e in 10..=(if ctx.thorough() { 21 } else { 18 }) {
                for d in [-1i64, 0, 1] {
                    for k in [Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::S6, Kind::C5, Kind::S5, Kind::C6, Kind::C8, Kind::S8] {
                        let n = ((1i64 << e) + d) as usize;
                        out.push(Case { ty: TYS[r.below(2)], traced: false, what: What::Cost { req: Req::K(k, n), warm: vec![] } });
                        if e <= 16 {
                            out.push(Case { ty: Ty::F64, traced: true, what: What::Cost { req: Req::K(k, n), warm: vec![] } });
                        }
                    }
                }
                cost(&mut r, &mut out, Req::M(1 << e, Win::Vorbis), vec![]);
                cost(&mut r, &mut out, Req::M((1 << e) + 2, Win::One), vec![]);
            }
            for n in crate::dict::lens(101, 300_000, ctx.n(20)) {
                for k in KINDS {
                    cost(&mut r, &mut out, Req::K(k, n), vec![]);
                }
                cost(&mut r, &mut out, Req::M(n / 2 * 2, Win::Mp3), vec![]);
            }
        }
        for i in 0..ctx.n(2400) {
            let ty = TYS[i % 2];
            let max = *r.pick(&[60usize, 300, 2000, 8000]);
            let what = match i % 8 {
                0 | 1 => {
                    let max = if r.chance(0.1) { 300_000 } else { 20_000 };
                    let req = rand_req(&mut r, max, max);
                    // related lengths first
                    let n = req.len();
                    let warm = (0..r.below(4))
                        .map(|_| {
                            let k = *r.pick(&KINDS);
                            Req::K(k, (*r.pick(&[n / 2, n / 4, n, n + 1, n.max(2) - 1, 2 * n]) + r.below(2)).max(k.min_len()))
                        })
                        .collect();
                    cost(&mut r, &mut out, req, warm);
                    continue;
                }
                2 => {
                    let keep = rand_req(&mut r, max, max);
                    let few = |r: &mut Rng| (0..r.range(0, 4)).map(|_| rand_req(r, 4 * max, 4 * max)).collect::<Vec<_>>();
                    let mut before = few(&mut r);
                    if r.chance(0.4) {
                        // an outer transform first: its inner data survives alone
                        before.push(Req::K(*r.pick(&[Kind::C2, Kind::C4, Kind::S4]), 2 * keep.len()));
                    }
                    What::Retain { keep, before, after: few(&mut r) }
                }
                3 => What::Steady { reqs: (0..r.range(1, 5)).map(|_| rand_req(&mut r, max, max)).collect(), rounds: r.range(2, 6), seed: r.u64() >> 12 },
                _ => {
                    let count = r.range(2, if max > 1000 { 8 } else { 30 });
                    What::History(rand_ops(&mut r, max, count))
                }
            };
            out.push(Case { ty, traced: r.chance(0.2), what });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        if c.traced {
            exec::<Traced>(c)
        } else {
            with_ty!(c.ty, exec(c))
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mk = |what: What| Case { what, ..c.clone() };
        let shorter = |q: &Req| -> Vec<Req> {
            let (min, step) = match q {
                Req::K(k, _) => (k.min_len(), 1),
                _ => (2, 2),
            };
            let mut l = shrink_len(q.len(), min, step);
            for a in [1000, 2000, 5000] {
                if a < q.len() {
                    l.push(a);
                }
            }
            l.into_iter().map(|m| q.with_len(m)).collect()
        };
        match &c.what {
            What::Cost { req, warm } => {
                if !warm.is_empty() {
                    v.push(mk(What::Cost { req: req.clone(), warm: vec![] }));
                    for i in 0..warm.len() {
                        v.push(mk(What::Cost { req: req.clone(), warm: vec![warm[i].clone()] }));
                    }
                }
                v.extend(shorter(req).into_iter().map(|req| mk(What::Cost { req, warm: warm.clone() })));
            }
            What::History(list) => {
                let mut chunk = list.len() / 2;
                while chunk >= 1 {
                    let mut i = 0;
                    while i < list.len() {
                        let mut l = list.clone();
                        l.drain(i..(i + chunk).min(list.len()));
                        if !l.is_empty() {
                            v.push(mk(What::History(l)));
                        }
                        i += chunk;
                    }
                    chunk /= 2;
                }
                for i in 0..list.len() {
                    let alts: Vec<Op> = match &list[i] {
                        Op::Plan(q) => shorter(q).into_iter().map(Op::Plan).collect(),
                        Op::Build(s) => s.shrinks().into_iter().map(Op::Build).collect(),
                        _ => vec![],
                    };
                    for a in alts {
                        let mut l = list.clone();
                        l[i] = a;
                        v.push(mk(What::History(l)));
                    }
                }
            }
            What::Retain { keep, before, after } => {
                for i in 0..before.len() {
                    v.push(mk(What::Retain { keep: keep.clone(), before: vec![before[i].clone()], after: vec![] }));
                }
                for i in 0..after.len() {
                    v.push(mk(What::Retain { keep: keep.clone(), before: vec![], after: vec![after[i].clone()] }));
                }
                v.extend(shorter(keep).into_iter().map(|keep| mk(What::Retain { keep, before: before.clone(), after: after.clone() })));
            }
            What::Steady { reqs, rounds, seed } => {
                if reqs.len() > 1 {
                    for q in reqs {
                        v.push(mk(What::Steady { reqs: vec![q.clone()], rounds: *rounds, seed: *seed }));
                    }
                } else {
                    v.extend(shorter(&reqs[0]).into_iter().map(|q| mk(What::Steady { reqs: vec![q], rounds: *rounds, seed: *seed })));
                }
            }
        }
        v.retain(|d| serde_json::to_string(d).unwrap() != serde_json::to_string(c).unwrap());
        if c.traced {
            v.push(Case { traced: false, ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
