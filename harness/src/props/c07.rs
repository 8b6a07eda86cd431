//! C07: scratch contents, surplus scratch and the entry point never influence a result (bit for bit).
use super::*;
use crate::engine::*;
use crate::with_ty;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Fill {
    Nan,
    Inf,
    Big,
    Tiny,
    One,
    NegZero,
    Garbage(u64),
    /// what another call of the same object (call index) on another input left behind
    Leftover(u64),
    /// what a call of another object left behind
    Foreign(u64),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    call: Option<Call>,
    sig: Sig,
    fills: Vec<(Fill, usize)>,
    alloc: bool,
}
fn fill<T: Real>(f: Fill, p: &Plan<T>, s: &mut [T]) {
    let v = match f {
        Fill::Nan => f64::NAN,
        Fill::Inf => f64::INFINITY,
        Fill::Big => 1.7e30,
        Fill::Tiny => p2(-140),
        Fill::One => 1.0,
        Fill::NegZero => -0.0,
        Fill::Garbage(seed) => {
            let mut r = Rng::new(seed);
            for x in s.iter_mut() {
                *x = match r.below(12) {
                    0 => T::of(f64::NAN),
                    1 => T::of(f64::NEG_INFINITY),
                    _ => T::of((2.0 * r.f64() - 1.0) * p2(r.irange(-30, 30))),
                };
            }
            return;
        }
        Fill::Leftover(seed) => {
            let mut r = Rng::new(seed);
            let cs = calls(p);
            let c = *r.pick(&cs);
            let n = p.len();
            let x: Vec<T> = Sig::Uniform { seed: seed ^ 77, exp: 3 }.gen(c.in_len(n));
            let prior = vec![T::zero(); 2 * n];
            run_call(p, c, &x, &prior, s);
            return;
        }
        Fill::Foreign(seed) => {
            let mut r = Rng::new(seed);
            // any other planned transform that fits the scratch
            for _ in 0..20 {
                let k = *r.pick(&KINDS);
                let n = r.range(2, (s.len() / 2).clamp(2, 64));
                let q: Plan<T> = Spec::Planned(k, n).build();
                if q.scratch() <= s.len() {
                    let mut x: Vec<T> = Sig::Uniform { seed: seed ^ 99, exp: 1 }.gen(n);
                    q.run(k, &mut x, s);
                }
            }
            return;
        }
    };
    for x in s.iter_mut() {
        *x = T::of(v);
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = c.spec.build();
    let n = p.len();
    for call in calls(&p) {
        if c.call.is_some() && c.call != Some(call) {
            continue;
        }
        let x: Vec<T> = c.sig.gen(call.in_len(n));
        // the MDCT output is overwritten, the IMDCT output is accumulated into
        let prior: Vec<T> = if call == Call::Imdct { Sig::Uniform { seed: 5, exp: 0 }.gen(2 * n) } else { vec![T::zero(); 2 * n] };
        let need = p.scratch();
        let base = run_call(&p, call, &x, &prior, &mut vec![T::zero(); need]);
        for &(f, surplus) in &c.fills {
            let mut s = vec![T::zero(); need + surplus];
            fill(f, &p, &mut s);
            let got = run_call(&p, call, &x, &prior, &mut s);
            info.checks += 1;
            if let Some(i) = bits_eq(&base, &got) {
                return Err(format!(
                    "{:?} of length {}: output[{}] is {:e} with zeroed scratch of the exact size but {:e} with scratch filled with {:?} and {} surplus elements",
                    call, n, i, base[i].f(), got[i].f(), f, surplus
                ));
            }
            if call == Call::Mdct {
                // and whatever the output slice held
                let got = run_call(&p, call, &x, &vec![T::of(f64::NAN); n], &mut s);
                if let Some(i) = bits_eq(&base, &got) {
                    return Err(format!("MDCT of length {}: output[{}] depends on the previous content of the output slice", n, i));
                }
            }
        }
        if c.alloc {
            if let Call::K(k) = call {
                let mut b = x.clone();
                p.run_alloc(k, &mut b);
                info.checks += 1;
                if let Some(i) = bits_eq(&base, &b) {
                    return Err(format!("{:?} of length {}: the allocating method gives {:e} at {}, the scratch-taking one {:e}", k, n, b[i].f(), i, base[i].f()));
                }
            }
        }
        info.nontrivial |= need > 0 && n > 1 && x.iter().any(|v| v.f() != 0.0);
        info.tag(match call {
            Call::K(k) => format!("{:?}", k),
            c => format!("{:?}", c),
        });
    }
    info.tag(c.spec.tag());
    info.tag(len_tag(n));
    Ok(info)
}
fn rand_fill(r: &mut Rng, n: usize) -> (Fill, usize) {
    let f = match r.below(12) {
        0 | 1 => Fill::Nan,
        2 => Fill::Inf,
        3 => Fill::Big,
        4 => Fill::Tiny,
        5 => Fill::One,
        6 => Fill::NegZero,
        7 | 8 => Fill::Garbage(r.u64() >> 12),
        9 | 10 => Fill::Leftover(r.u64() >> 12),
        _ => Fill::Foreign(r.u64() >> 12),
    };
    let s = if r.chance(0.5) { *r.pick(&[0usize, 0, 0, 1, 2, 3, 7, 64]) } else { rand_surplus(r, n) };
    (f, s)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, object, input, list of scratch fillings with surplus lengths); each result is compared bit for bit with the result for exact zeroed scratch, and the allocating method likewise. Non-trivial: the object needs scratch, length > 1, non-zero input."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C07", round);
        let mut out = vec![];
        let mut push = |r: &mut Rng, ty: Ty, spec: Spec, m: usize| {
            let n = spec.len();
            let sig = if r.chance(0.7) { Sig::Uniform { seed: r.u64() >> 12, exp: 0 } } else { Sig::random(r, n, ty) };
            let mut fills = vec![(Fill::Nan, 0), (Fill::One, r.below(4)), (Fill::Leftover(r.u64() >> 12), 0)];
            for _ in 0..m {
                fills.push(rand_fill(r, n));
            }
            out.push(Case { ty, spec, call: None, sig, fills, alloc: true });
        };
        if round == 0 {
            for n in 1..=ctx.n(240) {
                for spec in all_families(&mut r, n) {
                    for ty in TYS {
                        push(&mut r, ty, spec.clone(), 3);
                    }
                }
            }
        }
        if round == 0 {
            for (i, spec) in dict_specs(&mut r, 1500, 150_000, ctx.n(30)).into_iter().enumerate() {
                push(&mut r, TYS[i % 2], spec, 2);
            }
        }
        for i in 0..ctx.n(4000) {
            let spec = if i % 80 == 0 { rand_large(&mut r, 3000, 150_000) } else { rand_any(&mut r, 3000, 3) };
            push(&mut r, TYS[i % 2], spec, 5);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.fills.len() > 1 {
            for f in &c.fills {
                v.push(Case { fills: vec![*f], alloc: false, ..c.clone() });
            }
        }
        if c.alloc {
            v.push(Case { alloc: false, ..c.clone() });
            v.push(Case { fills: vec![], ..c.clone() });
        }
        if c.fills.len() == 1 {
            for f in [Fill::One, Fill::Nan] {
                if c.fills[0] != (f, 0) && !(f == Fill::Nan && c.fills[0].0 == Fill::One) {
                    v.push(Case { fills: vec![(f, 0)], ..c.clone() });
                }
            }
            if c.fills[0].1 > 0 {
                v.push(Case { fills: vec![(c.fills[0].0, 0)], ..c.clone() });
                v.push(Case { fills: vec![(c.fills[0].0, 1)], ..c.clone() });
            }
        }
        for spec in c.spec.shrinks() {
            v.push(Case { spec, call: None, ..c.clone() });
        }
        for sig in c.sig.shrinks() {
            v.push(Case { sig, ..c.clone() });
        }
        if c.call.is_none() {
            for k in KINDS {
                v.push(Case { call: Some(Call::K(k)), ..c.clone() });
            }
            v.push(Case { call: Some(Call::Mdct), ..c.clone() });
            v.push(Case { call: Some(Call::Imdct), ..c.clone() });
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
