//! C17: every transform is a linear map over the whole dynamic range.
use super::*;
use crate::engine::*;
use crate::with_ty;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// the all-zero input (with zeros of both signs) gives zeros
    Zero { neg: bool },
    Negate,
    /// multiply by a factor
    Scale(f64),
    /// multiply by a power of two so that the largest magnitude has this exponent
    Exponent(i32),
    /// F(x) + F(y) = F(x + y), y scaled by 2^off
    Add { y: Sig, off: i32 },
    /// IMDCT only: the amount added does not depend on what is there already
    Onto { prior: Sig },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    call: usize,
    sig: Sig,
    op: Op,
}
struct Ctxt<'a, T: Real> {
    p: &'a Plan<T>,
    call: Call,
    win: Vec<f64>,
    naive_n: usize,
}
impl<T: Real> Ctxt<'_, T> {
    /// output (for the IMDCT: the amount added to zeros)
    fn f(&self, x: &[T]) -> Result<Vec<f64>, String> {
        let n = self.p.len();
        let prior = vec![T::zero(); 2 * n];
        let mut s = vec![T::zero(); self.p.scratch()];
        let out = run_call(self.p, self.call, x, &prior, &mut s);
        let out: Vec<f64> = out.iter().map(|v| v.f()).collect();
        match out.iter().position(|v| !v.is_finite()) {
            Some(i) => Err(format!("output[{}] = {} although every input is finite and in range", i, out[i])),
            None => Ok(out),
        }
    }
    /// rounding allowance for every output of F(x); outputs given
    fn allow(&self, x: &[f64], out: &[f64]) -> Vec<f64> {
        let n = self.p.len();
        match self.call {
            Call::K(_) => {
                let a = tol::fast(T::EPS, n, norm2(x), tol::max_abs(out)) + if self.naive_n > 0 { tol::naive(T::EPS, self.naive_n, norm1(x)) } else { 0.0 };
                vec![a; n]
            }
            Call::Mdct => {
                let xw: Vec<f64> = x.iter().zip(&self.win).map(|(a, w)| a * w).collect();
                let a = tol::fast(T::EPS, n, norm2(&xw), tol::max_abs(out)) + if self.naive_n > 0 { tol::naive(T::EPS, self.naive_n, norm1(&xw)) } else { 0.0 };
                vec![a; n]
            }
            Call::Imdct => {
                // unwindowed magnitude is at most the 1-norm, and typically sqrt(n) times the 2-norm
                let m = norm1(x).min(4.0 * norm2(x) * (n as f64).sqrt());
                let a = tol::fast(T::EPS, n, norm2(x), m) + if self.naive_n > 0 { tol::naive(T::EPS, self.naive_n, norm1(x)) } else { 0.0 };
                self.win.iter().map(|w| a * w.abs()).collect()
            }
        }
    }
    /// |effect on any output| of changing the input by r (element-wise, in absolute value)
    fn effect(&self, r: &[f64]) -> f64 {
        let wmax = tol::max_abs(&self.win);
        match self.call {
            Call::K(_) => norm1(r),
            _ => norm1(r) * wmax,
        }
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = c.spec.build();
    let cs = calls(&p);
    let call = cs[c.call % cs.len()];
    let n = p.len();
    let win: Vec<f64> = match c.spec.window() {
        Some(w) => w.make::<T>(2 * n).iter().map(|v| v.f()).collect(),
        None => vec![],
    };
    let naive_n = if matches!(call, Call::K(_)) { c.spec.naive_part() } else { c04::mdct_naive_n(&c.spec) };
    let cx = Ctxt { p: &p, call, win, naive_n };
    let len = call.in_len(n);
    let fail = |m: String| format!("{:?} of length {} ({}, {:?}), input {:?}, {:?}: {}", call, n, c.spec.tag(), c.ty, c.sig, c.op, m);
    let x: Vec<T> = c.sig.gen(len);
    let xf: Vec<f64> = x.iter().map(|v| v.f()).collect();
    let cmp = |what: &str, got: &[f64], want: &[f64], allow: &[f64]| -> Result<f64, String> {
        let mut worst = 0.0f64;
        for i in 0..got.len() {
            let d = (got[i] - want[i]).abs();
            if !(d <= allow[i]) {
                return Err(fail(format!("{}: output[{}] is {:e} instead of {:e} (difference {:e}, allowed {:e})", what, i, got[i], want[i], d, allow[i])));
            }
            if allow[i] > 0.0 {
                worst = worst.max(d / allow[i]);
            }
        }
        Ok(worst)
    };
    match &c.op {
        Op::Zero { neg } => {
            let z: Vec<T> = (0..len).map(|i| T::of(if *neg && i % 3 != 0 { -0.0 } else { 0.0 })).collect();
            let o = cx.f(&z).map_err(fail)?;
            if let Some(i) = o.iter().position(|v| *v != 0.0) {
                return Err(fail(format!("zero input gives output[{}] = {:e}", i, o[i])));
            }
            info.nontrivial = true;
        }
        Op::Negate => {
            let a = cx.f(&x).map_err(fail)?;
            let b = cx.f(&x.iter().map(|v| -*v).collect::<Vec<T>>()).map_err(fail)?;
            let allow: Vec<f64> = cx.allow(&xf, &a).iter().map(|v| 2.0 * v).collect();
            info.worst(cmp("F(-x) against -F(x)", &b.iter().map(|v| -v).collect::<Vec<_>>(), &a, &allow)?);
        }
        Op::Scale(s) => {
            let s = T::of(*s);
            let sf = s.f();
            let y: Vec<T> = x.iter().map(|v| *v * s).collect();
            let yf: Vec<f64> = y.iter().map(|v| v.f()).collect();
            let res: Vec<f64> = (0..len).map(|i| xf[i].mul_add(sf, -yf[i])).collect();
            let a = cx.f(&x).map_err(fail)?;
            let b = cx.f(&y).map_err(fail)?;
            let e = cx.effect(&res);
            let want: Vec<f64> = a.iter().map(|v| v * sf).collect();
            let allow: Vec<f64> = cx.allow(&yf, &want).iter().map(|v| 2.0 * v + e).collect();
            info.worst(cmp("F(s x) against s F(x)", &b, &want, &allow)?);
        }
        Op::Exponent(e) => {
            let (xs, m) = normalise(&x);
            let mut base: Vec<T> = xs.iter().map(|v| T::of(*v)).collect();
            if m.abs() > 900 {
                base = x.clone();
            }
            let bf: Vec<f64> = base.iter().map(|v| v.f()).collect();
            let y: Vec<T> = bf.iter().map(|v| T::of(v * p2(*e))).collect();
            let res: Vec<f64> = (0..len).map(|i| bf[i] - y[i].f() * p2(-*e)).collect();
            let a = cx.f(&base).map_err(fail)?;
            let b: Vec<f64> = cx.f(&y).map_err(fail)?.iter().map(|v| v * p2(-*e)).collect();
            let q = cx.effect(&res) + tol::max_abs(&cx.win).max(1.0) * len as f64 * 2.0 * if T::EPS > 1e-10 { p2(-149 - (*e).min(0)) } else { p2((-1074 - (*e).min(0)).max(-1022)) };
            let allow: Vec<f64> = cx.allow(&bf, &a).iter().map(|v| 2.0 * v + q).collect();
            info.worst(cmp(&format!("F(x 2^{}) 2^{} against F(x)", e, -e), &b, &a, &allow)?);
            info.tag(if e.abs() > 300 {
                "exponent>300"
            } else if e.abs() > 60 {
                "exponent>60"
            } else {
                "exponent"
            });
        }
        Op::Add { y, off } => {
            let y: Vec<T> = y.gen::<T>(len).iter().map(|v| T::of(v.f() * p2(*off))).collect();
            let yf: Vec<f64> = y.iter().map(|v| v.f()).collect();
            let z: Vec<T> = (0..len).map(|i| x[i] + y[i]).collect();
            let zf: Vec<f64> = z.iter().map(|v| v.f()).collect();
            // exact rounding error of every sum (two-sum)
            let res: Vec<f64> = (0..len)
                .map(|i| {
                    let (a, b, s) = (xf[i], yf[i], zf[i]);
                    let bb = s - a;
                    (a - (s - bb)) + (b - bb)
                })
                .collect();
            let a = cx.f(&x).map_err(fail)?;
            let b = cx.f(&y).map_err(fail)?;
            let s = cx.f(&z).map_err(fail)?;
            let e = cx.effect(&res);
            let (aa, ab, az) = (cx.allow(&xf, &a), cx.allow(&yf, &b), cx.allow(&zf, &s));
            let allow: Vec<f64> = (0..a.len()).map(|i| aa[i] + ab[i] + az[i] + e).collect();
            let want: Vec<f64> = (0..a.len()).map(|i| a[i] + b[i]).collect();
            info.worst(cmp("F(x + y) against F(x) + F(y)", &s, &want, &allow)?);
            info.nontrivial = b.iter().any(|v| *v != 0.0);
        }
        Op::Onto { prior } => {
            if call != Call::Imdct {
                return Ok(info);
            }
            let pr: Vec<T> = prior.gen(2 * n);
            let a = cx.f(&x).map_err(fail)?;
            let mut s = vec![T::zero(); p.scratch()];
            let o = run_call(&p, call, &x, &pr, &mut s);
            let got: Vec<f64> = o.iter().map(|v| v.f()).collect();
            let want: Vec<f64> = (0..2 * n).map(|i| a[i] + pr[i].f()).collect();
            let base = cx.allow(&xf, &a);
            let allow: Vec<f64> = (0..2 * n).map(|i| 2.0 * base[i] + 2.0 * T::EPS * (pr[i].f().abs() + a[i].abs())).collect();
            info.worst(cmp("IMDCT onto other contents", &got, &want, &allow)?);
        }
    }
    if !matches!(c.op, Op::Zero { .. } | Op::Add { .. }) {
        info.nontrivial = xf.iter().any(|v| *v != 0.0);
    }
    info.checks = 1;
    info.tag(match &c.op {
        Op::Zero { .. } => "zero",
        Op::Negate => "negate",
        Op::Scale(_) => "scale",
        Op::Exponent(_) => "shift-magnitude",
        Op::Add { .. } => "add",
        Op::Onto { .. } => "imdct-amount",
    });
    info.tag(format!("{:?}", call));
    info.tag(c.spec.tag());
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, planned transform or other object, call, input, relation): zero to zero exactly; F(-x) = -F(x); F(s x) = s F(x); F(x 2^e) = 2^e F(x) for e across the exponent range that cannot overflow or underflow; F(x + y) = F(x) + F(y) with y at another magnitude; the amount an IMDCT adds is independent of what it is added to. Compared up to the rounding allowance of the calls involved plus the exactly computed rounding of the derived inputs. Non-trivial: some input value is non-zero (for sums: F(y) is non-zero), or the zero-input relation."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C17", round);
        let mut out = vec![];
        let push = |r: &mut Rng, out: &mut Vec<Case>, spec: Spec, op: Option<usize>| {
            let ty = TYS[r.below(2)];
            let n = spec.len();
            let l2 = (2.0 * n as f64).log2().ceil() as i32;
            let (lo, hi) = if ty == Ty::F32 { (-116, 122 - 2 * l2) } else { (-1012, 1016 - 2 * l2) };
            let mdct = spec.window().is_some();
            // base signals of ordinary magnitude
            let mut sig = Sig::random(r, 2 * n, ty);
            if let Sig::Uniform { seed, .. } = sig {
                sig = Sig::Uniform { seed, exp: 0 };
            }
            if let Sig::Wide { seed, .. } = sig {
                sig = Sig::Wide { seed, lo: -12, hi: 12 };
            }
            let op = match op.unwrap_or(r.below(if mdct { 6 } else { 5 })) {
                0 => Op::Zero { neg: r.chance(0.5) },
                1 => Op::Negate,
                2 => Op::Scale(match r.below(4) {
                    0 => *r.pick(&[3.0, -5.0, 0.1, 7.25, 1e-6, -1e6, 1e-12]),
                    1 => 1.0 + r.f64(),
                    _ => (2.0 * r.f64() - 1.0) * p2(r.irange(-30, 30)),
                }),
                3 => Op::Exponent(match r.below(6) {
                    0 => hi,
                    1 => lo,
                    _ => r.irange(lo, hi),
                }),
                4 => {
                    let y = match Sig::random(r, 2 * n, ty) {
                        Sig::Uniform { seed, .. } => Sig::Uniform { seed, exp: 0 },
                        Sig::Wide { seed, .. } => Sig::Wide { seed, lo: -12, hi: 12 },
                        s => s,
                    };
                    Op::Add { y, off: if r.chance(0.5) { 0 } else { r.irange(-40, 40) } }
                }
                _ => Op::Onto { prior: Sig::Uniform { seed: r.u64() >> 12, exp: r.irange(-10, 10) } },
            };
            out.push(Case { ty, spec, call: r.below(8), sig, op });
        };
        let win = |r: &mut Rng| match r.below(3) {
            0 => Win::Random { seed: r.u64() >> 12, e: 0 },
            1 => Win::PrincenBradley { seed: r.u64() >> 12 },
            _ => BUILTIN[r.below(6)].clone(),
        };
        if round == 0 {
            for n in 1..=ctx.n(160) {
                for k in KINDS {
                    if n >= k.min_len() {
                        for op in 0..5 {
                            push(&mut r, &mut out, Spec::Planned(k, n), Some(op));
                        }
                    }
                }
                if n % 2 == 0 {
                    for op in 0..6 {
                        let w = win(&mut r);
                        push(&mut r, &mut out, Spec::PlannedMdct(n, w.clone()), Some(op));
                        push(&mut r, &mut out, Spec::PlannedMdct(n, w), Some(op));
                    }
                }
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, 200_000, ctx.n(30)) {
                for k in KINDS {
                    if !k.always_naive() || n <= 3000 {
                        push(&mut r, &mut out, Spec::Planned(k, n), None);
                        push(&mut r, &mut out, Spec::Planned(k, n), None);
                    }
                }
                if n % 2 == 0 {
                    for _ in 0..4 {
                        let w = win(&mut r);
                        push(&mut r, &mut out, Spec::PlannedMdct(n, w), None);
                    }
                }
            }
        }
        for i in 0..ctx.n(4000) {
            let max = if ctx.thorough() { 60_000 } else { 6_000 };
            let spec = match i % 5 {
                _ if i % 100 == 99 => rand_large(&mut r, 6_000, 200_000),
                0 => {
                    let n = 2 * rand_len(&mut r, 1, max / 2);
                    let w = win(&mut r);
                    Spec::PlannedMdct(n, w)
                }
                1 => match rand_any(&mut r, 1500, 3) {
                    // windows of ordinary magnitude only
                    s if s.window().is_some() => {
                        let w = win(&mut r);
                        Spec::rand_mdct(&mut r, s.len(), w, 2)
                    }
                    s => s,
                },
                _ => {
                    let k = *r.pick(&KINDS);
                    let n = rand_len(&mut r, k.min_len(), if k.always_naive() { 1200 } else { max });
                    Spec::Planned(k, n)
                }
            };
            push(&mut r, &mut out, spec, None);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for spec in c.spec.shrinks() {
            v.push(Case { spec, ..c.clone() });
        }
        for sig in c.sig.shrinks() {
            v.push(Case { sig, ..c.clone() });
        }
        match &c.op {
            Op::Add { y, off } => {
                if *off != 0 {
                    v.push(Case { op: Op::Add { y: y.clone(), off: 0 }, ..c.clone() });
                }
                for y in y.shrinks() {
                    v.push(Case { op: Op::Add { y, off: *off }, ..c.clone() });
                }
            }
            Op::Exponent(e) => {
                for f in [e / 2, e - e.signum()] {
                    if f != *e {
                        v.push(Case { op: Op::Exponent(f), ..c.clone() });
                    }
                }
            }
            Op::Scale(s) => {
                for t in [2.0, 3.0] {
                    if *s != t && *s != 2.0 {
                        v.push(Case { op: Op::Scale(t), ..c.clone() });
                    }
                }
            }
            _ => {}
        }
        v
    }
}
