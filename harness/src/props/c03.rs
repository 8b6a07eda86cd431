//! C03: every public algorithm object, however composed, equals the definition.
use super::*;
use crate::engine::*;
use crate::with_ty;
use serde::{Deserialize, Serialize};

pub struct P;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    kinds: Vec<Kind>,
    sigs: Vec<Sig>,
    /// user-written parts use rust_dct themselves while they are called
    #[serde(default)]
    reenter: bool,
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = c.spec.build();
    let n = c.spec.len();
    check_len(&p, n, c.spec.tag())?;
    set_reenter(c.reenter);
    let r = compute(c, &p, n, &mut info);
    set_reenter(false);
    r?;
    if c.reenter {
        info.tag("re-entrant-part");
    }
    Ok(info)
}
fn compute<T: Real>(c: &Case, p: &Plan<T>, n: usize, info: &mut Info) -> Result<(), String> {
    if let Some(w) = c.spec.window() {
        let win: Vec<T> = w.make(2 * n);
        let naive_n = c04::mdct_naive_n(&c.spec);
        for s in &c.sigs {
            let mut sc = vec![T::zero(); p.scratch()];
            let x: Vec<T> = s.gen(2 * n);
            let ctxs = |m: String| format!("{} window {}: {} [input {:?}]", c.spec.tag(), w.tag(), m, s);
            let out = run_call(p, Call::Mdct, &x, &vec![T::zero(); n], &mut sc);
            info.worst(c04::compare_mdct(n, &win, &x, &out, naive_n).map_err(ctxs)?);
            let x: Vec<T> = s.gen(n);
            let prior = vec![T::zero(); 2 * n];
            let mut sc = vec![T::zero(); p.scratch()];
            let out = run_call(p, Call::Imdct, &x, &prior, &mut sc);
            info.worst(c04::compare_imdct(n, &win, &x, &prior, &out, naive_n).map_err(ctxs)?);
            info.checks += 2;
            info.nontrivial |= x.iter().any(|v| v.f() != 0.0);
        }
    }
    let kinds: Vec<Kind> = p.kinds().iter().copied().filter(|k| c.kinds.is_empty() || c.kinds.contains(k)).collect();
    for k in kinds {
        let orc = Oracle::of(k, n);
        for (si, s) in c.sigs.iter().enumerate() {
            let x: Vec<T> = s.gen(n);
            let mut b = x.clone();
            if c.reenter && si % 2 == 0 {
                p.run_alloc(k, &mut b);
            } else {
                p.run_zero(k, &mut b);
            }
            let w = compare(&orc, k, &x, &b, c.spec.naive_part().max(if n <= 128 { n } else { 0 })).map_err(|m| format!("{} [input {:?}]", m, s))?;
            info.worst(w);
            info.checks += 1;
            info.nontrivial |= n >= 2 && x.iter().any(|v| v.f() != 0.0);
        }
        info.tag(format!("{:?}", k));
    }
    info.tag(c.spec.tag());
    info.tag(format!("depth{}", c.spec.depth()));
    if c.spec.has_user() {
        info.tag("user-supplied-part");
    }
    info.tag(len_tag(n));
    info.tag(format!("{:?}", c.ty));
    Ok(())
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, construction tree of public algorithm objects over planned/scalar/SSE/AVX/naive/user-written FFTs and transforms with arbitrary scratch requirements, input signals, whether the user-written parts themselves plan and run transforms while they are called); each kind the object offers is compared with the defining sum. Non-trivial: length >= 2 and a non-zero input."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C03", round);
        let mut out = vec![];
        let sigs = |r: &mut Rng, n: usize, ty: Ty| {
            let mut s = vec![Sig::Uniform { seed: r.u64() >> 12, exp: 0 }, Sig::random(r, n, ty), Sig::structured(r, n)];
            for t in s.iter_mut() {
                // leave room for the products with a window
                if let Sig::Uniform { exp, .. } = t {
                    *exp = (*exp).clamp(-60, 60);
                }
            }
            if n <= 20 {
                s.extend((0..n).map(|i| Sig::Impulse { pos: i, amp: 1.0 }));
            }
            s
        };
        if round == 0 {
            for ty in TYS {
                for n in 1..=ctx.n(220) {
                    let mut specs: Vec<Spec> = vec![];
                    for k in [Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::C5, Kind::S5, Kind::C6, Kind::S6, Kind::C8, Kind::S8] {
                        if n >= k.min_len() {
                            specs.push(Spec::Naive(k, n));
                        }
                    }
                    if n >= 2 {
                        specs.push(Spec::Dct1Fft(FftSpec::random(&mut r, 2 * (n - 1))));
                    }
                    specs.push(Spec::Dst1Fft(FftSpec::random(&mut r, 2 * (n + 1))));
                    specs.push(Spec::T23Fft(FftSpec::random(&mut r, n)));
                    specs.push(Spec::S67Fft(FftSpec::random(&mut r, 2 * n + 1)));
                    if n % 2 == 1 {
                        specs.push(Spec::T4FftOdd(FftSpec::random(&mut r, n)));
                    } else {
                        specs.push(Spec::T4Via3(Box::new(Spec::rand_t23(&mut r, n / 2, 1))));
                    }
                    if [2, 3, 4, 8, 16].contains(&n) {
                        specs.push(Spec::Butterfly(n));
                    }
                    if n % 2 == 0 {
                        let w = Win::random(&mut r);
                        specs.push(Spec::MdctNaive(n, w));
                        let w = Win::random(&mut r);
                        let inner = if n <= 60 || r.chance(0.5) { let i = Spec::rand_t4(&mut r, n, 2); let e = r.below(8); Spec::User(Box::new(i), e) } else { Spec::rand_t4(&mut r, n, 2) };
                        specs.push(Spec::MdctVia4(Box::new(inner), w));
                    }
                    for spec in specs {
                        let s = sigs(&mut r, n, ty);
                        out.push(Case { ty, spec, kinds: vec![], sigs: s, reenter: false });
                    }
                }
                // split radix over every mix of inner objects at small sizes
                for e in 2..=12u32 {
                    let n = 1usize << e;
                    for _ in 0..ctx.n(if e <= 6 { 40 } else { 15 }) {
                        let spec = Spec::SplitRadix(Box::new(Spec::rand_t23(&mut r, n / 2, 3)), Box::new(Spec::rand_t23(&mut r, n / 4, 3)));
                        let s = sigs(&mut r, n, ty);
                        out.push(Case { ty, spec, kinds: vec![], sigs: s, reenter: false });
                    }
                }
            }
        }
        if round == 0 {
            for (i, spec) in dict_specs(&mut r, 1500, 100_000, ctx.n(30)).into_iter().enumerate() {
                let ty = TYS[i % 2];
                let s = sigs(&mut r, spec.len(), ty).into_iter().take(2).collect();
                out.push(Case { ty, spec, kinds: vec![], sigs: s, reenter: false });
            }
        }
        for i in 0..ctx.n(if ctx.thorough() { 40 } else { 12 }) {
            let ty = TYS[i % 2];
            let spec = rand_large(&mut r, 5_000, if i % 4 == 0 { 300_000 } else { 70_000 });
            let s = sigs(&mut r, spec.len(), ty).into_iter().take(2).collect();
            out.push(Case { ty, spec, kinds: vec![], sigs: s, reenter: false });
        }
        for i in 0..ctx.n(3000) {
            let ty = TYS[i % 2];
            let k = *r.pick(&KINDS);
            let max = if k.always_naive() { 900 } else { 4000 };
            let mut n = rand_len(&mut r, k.min_len(), max);
            if r.chance(0.25) {
                n = 1 << r.range(1, 11);
            }
            let mut spec = Spec::rand_of(&mut r, k, n, 4);
            if i % 5 == 0 {
                let w = Win::random(&mut r);
                let m = 2 * (n / 2).max(1);
                spec = Spec::MdctVia4(Box::new(Spec::rand_t4(&mut r, m, 3)), w);
            }
            let s = sigs(&mut r, n, ty);
            out.push(Case { ty, spec, kinds: vec![], sigs: s, reenter: false });
        }
        for c in out.iter_mut() {
            c.reenter = c.spec.has_user() && r.chance(0.25);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for spec in c.spec.shrinks() {
            v.push(Case { spec, kinds: vec![], ..c.clone() });
        }
        if c.sigs.len() > 1 {
            for s in &c.sigs {
                v.push(Case { sigs: vec![s.clone()], ..c.clone() });
            }
        } else {
            for s in c.sigs[0].shrinks() {
                v.push(Case { sigs: vec![s], ..c.clone() });
            }
        }
        if c.kinds.len() != 1 {
            for k in KINDS {
                v.push(Case { kinds: vec![k], ..c.clone() });
            }
        }
        if c.reenter {
            v.push(Case { reenter: false, ..c.clone() });
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
