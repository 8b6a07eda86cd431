//! C04: MDCT / IMDCT equal their windowed definition; the IMDCT accumulates.
use super::*;
use crate::engine::*;
use crate::with_ty;
use serde::{Deserialize, Serialize};

pub struct P;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    inverse: bool,
    sig: Sig,
    prior: Sig,
    dirty: bool,
}
pub fn mdct_naive_n(spec: &Spec) -> usize {
    spec.naive_part().max(spec.len().min(128))
}
/// forward: got = MDCT(x)
pub fn compare_mdct<T: Real>(n: usize, win: &[T], x: &[T], got: &[T], naive_n: usize) -> Result<f64, String> {
    let (xs, e) = normalise(x);
    let xw: Vec<f64> = xs.iter().zip(win).map(|(a, w)| a * w.f()).collect();
    let exp = Oracle::new(form_mdct(n)).apply(&xw);
    // every windowed sample is rounded once before it enters the transform
    let mut allow = tol::fast(T::EPS, n, norm2(&xw), tol::max_abs(&exp));
    if naive_n > 0 {
        allow += tol::naive(T::EPS, naive_n, norm1(&xw));
    }
    // products that leave the normal range are rounded absolutely
    allow += tiny::<T>(e) * n as f64;
    let mut worst = 0.0f64;
    for k in 0..n {
        let d = (got[k].f() * p2(-e) - exp[k]).abs();
        if !(d <= allow) {
            return Err(format!("MDCT length {}: output[{}] = {:e}, the definition gives {:e} (difference {:e}, allowed {:e})", n, k, got[k].f(), exp[k] * p2(e), d * p2(e), allow * p2(e)));
        }
        if allow > 0.0 {
            worst = worst.max(d / allow);
        }
    }
    Ok(worst)
}
fn tiny<T: Real>(e: i32) -> f64 {
    let t = if T::EPS > 1e-10 { p2(-149) } else { f64::from_bits(1) };
    if e < 0 {
        // scaled back up
        (t * p2((-e).min(1000))).max(t)
    } else {
        t
    }
}
/// inverse: got = prior + IMDCT(x)
pub fn compare_imdct<T: Real>(n: usize, win: &[T], x: &[T], prior: &[T], got: &[T], naive_n: usize) -> Result<f64, String> {
    let (xs, e) = normalise(x);
    let y = Oracle::new(form_imdct(n)).apply(&xs);
    let mut inner = tol::fast(T::EPS, n, norm2(&xs), tol::max_abs(&y));
    if naive_n > 0 {
        inner += tol::naive(T::EPS, naive_n, norm1(&xs));
    }
    let mut worst = 0.0f64;
    let s = p2(-e);
    for i in 0..2 * n {
        let w = win[i].f();
        let pr = prior[i].f() * s;
        let exp = pr + w * y[i];
        let allow = w.abs() * inner + 2.0 * T::EPS * (pr.abs() + (w * y[i]).abs()) + 4.0 * tiny::<T>(e);
        let d = (got[i].f() * s - exp).abs();
        if !(d <= allow) {
            return Err(format!(
                "IMDCT length {}: output[{}] (half {}) = {:e}, prior content {:e} plus the definition gives {:e} (difference {:e}, allowed {:e})",
                n,
                i,
                if i < n { "a" } else { "b" },
                got[i].f(),
                prior[i].f(),
                exp / s,
                d / s,
                allow / s
            ));
        }
        if allow > 0.0 {
            worst = worst.max(d / allow);
        }
    }
    Ok(worst)
}

fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = c.spec.build();
    let n = c.spec.len();
    check_len(&p, n, c.spec.tag())?;
    let m = p.mdct();
    let wspec = c.spec.window().unwrap();
    let win: Vec<T> = wspec.make(2 * n);
    let mut scratch = vec![T::zero(); p.scratch()];
    let naive_n = mdct_naive_n(&c.spec);
    let ctxs = |m: String| format!("{} window {}: {} [input {:?}]", c.spec.tag(), wspec.tag(), m, c.sig);
    if !c.inverse {
        let x: Vec<T> = c.sig.gen(2 * n);
        // the output must be overwritten, whatever it held
        let mut out: Vec<T> = c.prior.gen(n);
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut out, &mut scratch);
        info.worst(compare_mdct(n, &win, &x, &out, naive_n).map_err(ctxs)?);
        info.nontrivial = x.iter().zip(&win).any(|(a, w)| a.f() != 0.0 && w.f() != 0.0);
        info.tag("mdct");
    } else {
        let x: Vec<T> = c.sig.gen(n);
        let prior: Vec<T> = c.prior.gen(2 * n);
        let mut a = prior[..n].to_vec();
        let mut b = prior[n..].to_vec();
        m.process_imdct_with_scratch(&x, &mut a, &mut b, &mut scratch);
        a.extend_from_slice(&b);
        info.worst(compare_imdct(n, &win, &x, &prior, &a, naive_n).map_err(ctxs)?);
        info.nontrivial = x.iter().any(|v| v.f() != 0.0) && win.iter().any(|w| w.f() != 0.0);
        info.tag("imdct");
        info.tag(if c.prior.is_zero() { "prior-zero" } else { "prior-nonzero" });
    }
    info.checks = 1;
    info.tag(wspec.tag());
    info.tag(c.spec.tag());
    info.tag(if n % 4 == 0 { "len%4=0" } else { "len%4=2" });
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, MDCT object, even length, window, direction, input, content of the output beforehand); the output is compared with the windowed defining sum (plus the previous content for the IMDCT). Non-trivial: the input and window overlap in a non-zero value."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C04", round);
        let mut out = vec![];
        let mut push = |r: &mut Rng, ty: Ty, spec: Spec, inverse: bool| {
            let n = spec.len();
            let mut sig = Sig::random(r, if inverse { n } else { 2 * n }, ty);
            // products with extreme windows must stay in range
            if let Sig::Uniform { seed, exp } = sig {
                sig = Sig::Uniform { seed, exp: exp.clamp(-60, 60) };
            }
            let prior = if !inverse {
                if r.chance(0.5) {
                    Sig::AllNan
                } else {
                    Sig::Uniform { seed: r.u64() >> 12, exp: 10 }
                }
            } else {
                match r.below(3) {
                    0 => Sig::Zero,
                    1 => Sig::Uniform { seed: r.u64() >> 12, exp: 0 },
                    _ => Sig::random(r, 2 * n, ty),
                }
            };
            out.push(Case { ty, spec, inverse, sig, prior, dirty: false });
        };
        if round == 0 {
            for n in (2..=ctx.n(640)).step_by(2) {
                for ty in TYS {
                    for inverse in [false, true] {
                        let w = Win::random(&mut r);
                        push(&mut r, ty, Spec::PlannedMdct(n, w), inverse);
                        if n <= 40 {
                            for _ in 0..12 {
                                let w = match r.below(3) {
                                    0 => Win::Bits { seed: r.u64() >> 12 },
                                    1 => Win::Special { seed: r.u64() >> 12 },
                                    _ => Win::random(&mut r),
                                };
                                let spec = if r.chance(0.5) { Spec::PlannedMdct(n, w) } else { Spec::rand_mdct(&mut r, n, w, 2) };
                                push(&mut r, ty, spec, inverse);
                            }
                        }
                        let w = Win::Random { seed: r.u64() >> 12, e: 0 };
                        push(&mut r, ty, Spec::PlannedMdct(n, w), inverse);
                        let w = Win::random(&mut r);
                        if n <= 300 {
                            push(&mut r, ty, Spec::MdctNaive(n, w.clone()), inverse);
                        }
                        let inner = Spec::rand_t4(&mut r, n, 2);
                        push(&mut r, ty, Spec::MdctVia4(Box::new(inner), w), inverse);
                    }
                }
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, 400_000, ctx.n(60)).into_iter().filter(|n| n % 2 == 0) {
                for ty in TYS {
                    for inverse in [false, true] {
                        for _ in 0..2 {
                            let w = Win::random(&mut r);
                            push(&mut r, ty, Spec::PlannedMdct(n, w.clone()), inverse);
                            push(&mut r, ty, Spec::MdctVia4(Box::new(Spec::Planned(Kind::C4, n)), w.clone()), inverse);
                            if n <= 2000 {
                                push(&mut r, ty, Spec::MdctNaive(n, w), inverse);
                            }
                        }
                    }
                }
            }
        }
        for i in 0..ctx.n(12) {
            let n = large_len(&mut r, 2_000, if i % 3 == 0 { 150_000 } else { 40_000 }) * 2;
            let w = Win::random(&mut r);
            let spec = if i % 2 == 0 { Spec::PlannedMdct(n, w) } else { Spec::rand_mdct(&mut r, n, w, 2) };
            let inverse = r.chance(0.5);
            push(&mut r, TYS[i % 2], spec, inverse);
        }
        for i in 0..ctx.n(3000) {
            let ty = TYS[i % 2];
            let max = if ctx.thorough() { 20000 } else { 4000 };
            let n = 2 * rand_len(&mut r, 1, if i % 3 == 0 { 64 } else { max });
            let w = Win::random(&mut r);
            let spec = Spec::rand_mdct(&mut r, n, w, 3);
            let inverse = r.chance(0.5);
            push(&mut r, ty, spec, inverse);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for spec in c.spec.shrinks() {
            v.push(Case { spec, ..c.clone() });
        }
        for s in c.sig.shrinks() {
            v.push(Case { sig: s, ..c.clone() });
        }
        if !c.prior.is_zero() {
            v.push(Case { prior: Sig::Zero, ..c.clone() });
            for s in c.prior.shrinks() {
                v.push(Case { prior: s, ..c.clone() });
            }
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
