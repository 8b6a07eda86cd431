//! C08: stateless instances - model-based histories against freshly built twins.
use super::*;
use crate::custom::{ops, set_limit, Traced};
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// a valid call; the result is checked against a twin that never saw anything else
    Run { inst: usize, call: usize, sig: Sig, prior: u64, via_clone: bool, alloc: bool, #[serde(default)] surplus: usize },
    /// a call with a wrong buffer (delta != 0) or scratch size; must leave no trace
    Bad { inst: usize, call: usize, delta: i32, short: usize },
    /// a call in which the caller's own code (an inner object, or the number type's arithmetic) panics half way
    Boom { inst: usize, call: usize, after: u64 },
    /// the same call again and again, the first and every later result compared with the twin's
    Repeat { inst: usize, call: usize, sig: Sig, times: usize },
    /// drop this handle to the instance (a clone made at the start stays alive)
    Drop { inst: usize },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    specs: Vec<Spec>,
    ops: Vec<Op>,
    shared_scratch: bool,
    /// use a user-written number type whose arithmetic can panic
    #[serde(default)]
    own_type: bool,
    /// user-written parts use rust_dct themselves while they are called
    #[serde(default)]
    reenter: bool,
}
fn build_set<T: Real>(specs: &[Spec]) -> Vec<Plan<T>> {
    let mut pl = DctPlanner::new();
    specs.iter().map(|s| s.build_with(&mut pl)).collect()
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    set_reenter(c.reenter);
    let set: Vec<Plan<T>> = build_set(&c.specs);
    let clones: Vec<Plan<T>> = set.iter().map(|p| p.clone()).collect();
    let mut set: Vec<Option<Plan<T>>> = set.into_iter().map(Some).collect();
    let facts: Vec<(usize, usize)> = clones.iter().map(|p| (p.len(), p.scratch())).collect();
    let smax = facts.iter().map(|f| f.1).max().unwrap_or(0);
    let mut shared = {
        let most = c.ops.iter().map(|o| if let Op::Run { surplus, .. } = o { *surplus } else { 0 }).max().unwrap_or(0);
        vec![T::zero(); smax + if c.shared_scratch { most.min(4096) } else { 0 }]
    };
    let mut runs = 0;
    for (oi, op) in c.ops.iter().enumerate() {
        match op {
            Op::Run { inst, call, sig, prior, via_clone, alloc, surplus } => {
                let i = inst % clones.len();
                let p = if *via_clone { &clones[i] } else { set[i].as_ref().unwrap_or(&clones[i]) };
                let cs = calls(p);
                let call = cs[call % cs.len()];
                let n = facts[i].0;
                let x: Vec<T> = sig.gen(call.in_len(n));
                let pr: Vec<T> = Sig::Uniform { seed: *prior, exp: 0 }.gen(2 * n);
                let doit = |p: &Plan<T>, s: &mut [T]| -> Vec<T> {
                    if let (true, Call::K(k)) = (*alloc, call) {
                        let mut b = x.clone();
                        p.run_alloc(k, &mut b);
                        b
                    } else {
                        run_call(p, call, &x, &pr, s)
                    }
                };
                let got = if c.shared_scratch {
                    // the caller re-uses one scratch slice, cleared between calls
                    for v in shared.iter_mut() {
                        *v = T::zero();
                    }
                    doit(p, &mut shared[..facts[i].1 + (*surplus).min(4096)])
                } else {
                    doit(p, &mut vec![T::zero(); facts[i].1 + *surplus])
                };
                let twin = build_set::<T>(&c.specs).swap_remove(i);
                if (twin.len(), twin.scratch()) != facts[i] {
                    return Err(format!("two identically built {} instances report {:?} and {:?} as (length, scratch)", c.specs[i].tag(), facts[i], (twin.len(), twin.scratch())));
                }
                let exp = doit(&twin, &mut vec![T::zero(); facts[i].1]);
                // NaN payloads are not part of the result
                let bad = (0..exp.len()).find(|&j| got[j].bits() != exp[j].bits() && !(got[j].f().is_nan() && exp[j].f().is_nan()));
                if let Some(j) = bad {
                    return Err(format!(
                        "after {} earlier operations, {:?} of instance {} ({}, length {}) gives {:e} at output {}, a fresh instance gives {:e}",
                        oi, call, i, c.specs[i].tag(), n, got[j].f(), j, exp[j].f()
                    ));
                }
                runs += 1;
                info.checks += 1;
                info.tag(sig.tag());
            }
            Op::Repeat { inst, call, sig, times } => {
                let i = inst % clones.len();
                let p = set[i].as_ref().unwrap_or(&clones[i]);
                let cs = calls(p);
                let call = cs[call % cs.len()];
                let n = facts[i].0;
                let x: Vec<T> = sig.gen(call.in_len(n));
                let pr = vec![T::of(0.25); 2 * n];
                let twin = build_set::<T>(&c.specs).swap_remove(i);
                let exp = run_call(&twin, call, &x, &pr, &mut vec![T::zero(); facts[i].1]);
                let mut s = vec![T::zero(); facts[i].1];
                for t in 0..*times {
                    s.iter_mut().for_each(|v| *v = T::zero());
                    let got = run_call(p, call, &x, &pr, &mut s);
                    let bad = (0..exp.len()).find(|&j| got[j].bits() != exp[j].bits() && !(got[j].f().is_nan() && exp[j].f().is_nan()));
                    if let Some(j) = bad {
                        return Err(format!(
                            "after {} earlier operations and {} repetitions, {:?} of instance {} ({}, length {}) gives {:e} at output {}, a fresh instance gives {:e}",
                            oi, t, call, i, c.specs[i].tag(), n, got[j].f(), j, exp[j].f()
                        ));
                    }
                }
                runs += times;
                info.checks += *times as u64;
                info.tag("repeated-call");
            }
            Op::Bad { inst, call, delta, short } => {
                let i = inst % clones.len();
                let p = set[i].as_ref().unwrap_or(&clones[i]);
                let cs = calls(p);
                let call = cs[call % cs.len()];
                let n = facts[i].0;
                let m = (n as i64 + *delta as i64).max(0) as usize;
                let mut s = vec![T::zero(); facts[i].1 - (*short).min(facts[i].1)];
                // whether it is rejected is C12's business
                let _ = panics(|| match call {
                    Call::K(k) => {
                        let mut b = vec![T::of(1.5); m];
                        p.run(k, &mut b, &mut s);
                    }
                    Call::Mdct => {
                        let (a, b, mut o) = (vec![T::of(1.5); n], vec![T::of(2.5); m], vec![T::zero(); n]);
                        p.mdct().process_mdct_with_scratch(&a, &b, &mut o, &mut s);
                    }
                    Call::Imdct => {
                        let (a, mut b, mut o) = (vec![T::of(1.5); n], vec![T::of(2.5); m], vec![T::zero(); n]);
                        p.mdct().process_imdct_with_scratch(&a, &mut b, &mut o, &mut s);
                    }
                });
                info.tag("rejected-call");
            }
            Op::Boom { inst, call, after } => {
                let i = inst % clones.len();
                let p = set[i].as_ref().unwrap_or(&clones[i]);
                let cs = calls(p);
                let call = cs[call % cs.len()];
                let n = facts[i].0;
                let x: Vec<T> = Sig::Uniform { seed: *after, exp: 0 }.gen(call.in_len(n));
                let pr = vec![T::of(0.5); 2 * n];
                let mut s = vec![T::zero(); facts[i].1];
                set_bomb(1 + *after as usize % 3);
                if c.own_type {
                    set_limit(ops() + 1 + after % (1 + 8 * n as u64));
                }
                let r = panics(|| run_call(p, call, &x, &pr, &mut s));
                set_bomb(0);
                set_limit(u64::MAX);
                if r.is_err() {
                    info.tag("panic-inside-call");
                }
            }
            Op::Drop { inst } => {
                let i = inst % clones.len();
                set[i] = None;
                info.tag("dropped-handle");
            }
        }
        for (i, p) in clones.iter().enumerate() {
            if (p.len(), p.scratch()) != facts[i] {
                return Err(format!("instance {} ({}) reported (length, scratch) {:?} at first and {:?} after {} operations", i, c.specs[i].tag(), facts[i], (p.len(), p.scratch()), oi + 1));
            }
        }
    }
    info.nontrivial = runs >= 2;
    for s in &c.specs {
        info.tag(s.tag());
    }
    Ok(info)
}
fn rand_ops(r: &mut Rng, n: usize, count: usize, insts: usize, ty: Ty) -> Vec<Op> {
    let mut ops = vec![];
    // a small pool of signals so that repeats of the same input after other calls happen, and near-repeats of it
    let seed = r.u64() >> 12;
    let base = Sig::Uniform { seed, exp: 0 };
    let pool: Vec<Sig> = vec![base.clone(), Sig::random(r, n, ty), Sig::Nan { seed: r.u64() >> 12 }, Sig::Inf { seed: r.u64() >> 12 }];
    let like_base = |r: &mut Rng| match r.below(8) {
        0 => Sig::Zero,
        1 => Sig::Uniform { seed, exp: 1 },
        2 => Sig::Pair { seed, i: r.below(n), j: r.below(n), neg: r.chance(0.5) },
        3 => Sig::Pair { seed, i: 0, j: n - 1, neg: true },
        4 => Sig::Mask { seed, mask: Mask::Lead(r.range(1, n)) },
        5 => Sig::Mask { seed, mask: Mask::Trail(r.range(1, n)) },
        6 => Sig::Mask { seed, mask: Mask::Only(*r.pick(&[2, 4]), r.below(2)) },
        _ => Sig::Sym { seed, odd: r.chance(0.5), off: r.below(3) },
    };
    for _ in 0..count {
        let inst = r.below(insts);
        let call = r.below(4);
        ops.push(match r.below(13) {
            12 => Op::Boom { inst, call, after: r.u64() >> 40 },
            0 => Op::Bad { inst, call, delta: r.irange(-3, 3), short: 0 },
            1 => Op::Bad { inst, call, delta: 0, short: r.range(1, 5) },
            2 if r.chance(0.3) => Op::Drop { inst },
            _ => {
                let sig = match r.below(9) {
                    6..=8 => like_base(r),
                    0..=2 => pool[0].clone(),
                    3 => pool[1].clone(),
                    4 => pool[2 + r.below(2)].clone(),
                    _ => Sig::random(r, n, ty),
                };
                Op::Run { inst, call, sig, prior: r.u64() >> 12, via_clone: r.chance(0.4), alloc: r.chance(0.2), surplus: if r.chance(0.6) { 0 } else { rand_surplus(r, 64) } }
            }
        });
    }
    ops
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, set of objects built through one planner, history of valid calls, rejected calls, calls in which an inner object or the arithmetic of a user-written number type panics half way, calls on NaN/inf data, all-zero data and near-repeats of earlier inputs, calls with surplus scratch, and dropped handles); every valid call is compared bit for bit with the same call on a freshly built twin of the set. Non-trivial: at least two valid calls in the history."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C08", round);
        let mut out = vec![];
        if round == 0 {
            // every family on its own, every length
            for n in 1..=ctx.n(130) {
                for spec in all_families(&mut r, n) {
                    let ty = *r.pick(&TYS);
                    let ops = rand_ops(&mut r, n, 9, 1, ty);
                    out.push(Case { ty, specs: vec![spec], ops, shared_scratch: r.chance(0.5), own_type: r.chance(0.25), reenter: false });
                }
            }
        }
        if round == 0 {
            // how often a call is made must not matter
            let mut counts = vec![70, 140, 300, 1100, 5000];
            counts.extend(crate::dict::counts(300_000));
            for (j, times) in counts.into_iter().enumerate().take(5 + ctx.n(20)) {
                let n = *r.pick(&[4usize, 6, 8, 16, 24]);
                for spec in all_families(&mut r, n) {
                    // short of the longest runs
                    if times as f64 * (n * n) as f64 > 5e8 || (j == 4 && r.chance(0.5)) {
                        continue;
                    }
                    let sig = Sig::Uniform { seed: r.u64() >> 12, exp: 0 };
                    let ops = vec![Op::Repeat { inst: 0, call: r.below(4), sig, times }];
                    out.push(Case { ty: *r.pick(&TYS), specs: vec![spec], ops, shared_scratch: false, own_type: false, reenter: false });
                }
            }
            for spec in dict_specs(&mut r, 1000, 20_000, ctx.n(20)) {
                let ty = *r.pick(&TYS);
                let ops = rand_ops(&mut r, spec.len(), 4, 1, ty);
                out.push(Case { ty, specs: vec![spec], ops, shared_scratch: r.chance(0.5), own_type: false, reenter: false });
            }
        }
        for i in 0..ctx.n(2500) {
            let ty = TYS[i % 2];
            let k = r.range(1, 4);
            let max = *r.pick(&[12usize, 64, 200, 400]);
            let mut specs: Vec<Spec> = (0..k).map(|_| rand_any(&mut r, max, 2)).collect();
            let max = if i % 300 == 7 {
                specs = vec![rand_large(&mut r, 1000, if i % 1800 == 7 { 80_000 } else { 8_000 })];
                specs[0].len()
            } else {
                max
            };
            if i % 300 != 7 && r.chance(0.5) {
                // instances that share inner data: type 2/3 under type 4 under MDCT
                let h = r.range(1, max / 2);
                specs.push(Spec::Planned(Kind::C2, h));
                specs.push(Spec::Planned(Kind::C4, 2 * h));
                specs.push(Spec::PlannedMdct(2 * h, Win::random(&mut r)));
            }
            let count = if i % 50 == 0 { 150 } else { r.range(3, 16) };
            let ops = rand_ops(&mut r, max, count, specs.len(), ty);
            out.push(Case { ty, specs, ops, shared_scratch: r.chance(0.5), own_type: i % 5 == 0, reenter: false });
        }
        for c in out.iter_mut() {
            c.reenter = c.specs.iter().any(|s| s.has_user()) && r.chance(0.25);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        if c.own_type {
            exec::<Traced>(c)
        } else {
            with_ty!(c.ty, exec(c))
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let m = c.ops.len();
        let mut chunk = m / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < m {
                let mut ops = c.ops.clone();
                ops.drain(i..(i + chunk).min(m));
                if !ops.is_empty() {
                    v.push(Case { ops, ..c.clone() });
                }
                i += chunk;
            }
            chunk /= 2;
        }
        if c.specs.len() > 1 {
            for s in &c.specs {
                v.push(Case { specs: vec![s.clone()], ..c.clone() });
            }
        }
        for (i, s) in c.specs.iter().enumerate() {
            for t in s.shrinks() {
                let mut specs = c.specs.clone();
                specs[i] = t;
                v.push(Case { specs, ..c.clone() });
            }
        }
        for (i, o) in c.ops.iter().enumerate() {
            if let Op::Repeat { inst, call, sig, times } = o {
                for t in [1, 2, times / 2, times * 3 / 4, times - times / 8, times.saturating_sub(10), times.saturating_sub(1)] {
                    if t < *times && t > 0 {
                        let mut ops = c.ops.clone();
                        ops[i] = Op::Repeat { inst: *inst, call: *call, sig: sig.clone(), times: t };
                        v.push(Case { ops, ..c.clone() });
                    }
                }
            }
            if let Op::Run { inst, call, sig, prior, surplus, .. } = o {
                for s in sig.shrinks() {
                    let mut ops = c.ops.clone();
                    ops[i] = Op::Run { inst: *inst, call: *call, sig: s, prior: *prior, via_clone: false, alloc: false, surplus: *surplus };
                    v.push(Case { ops, ..c.clone() });
                }
            }
        }
        v
    }
}
