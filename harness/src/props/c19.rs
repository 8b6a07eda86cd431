//! C19: user-defined number types.
use super::*;
use crate::custom::*;
use crate::engine::*;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum UTy {
    Traced,
    Fixed,
    Dual64,
    Jet32,
    Dual32,
    Fixed4,
    Fixed8,
}
pub const UTYS: [UTy; 7] = [UTy::Traced, UTy::Fixed, UTy::Dual64, UTy::Jet32, UTy::Dual32, UTy::Fixed4, UTy::Fixed8];
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// one call of one object; MDCT windows carry side information of their own
    Run { spec: Spec, call: usize },
    /// two MDCT requests of equal length on one planner whose windows have equal values but other side information
    Replan { len: usize, inverse: bool },
    /// built-in window
    Window { win: Win, size: usize },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    ty: UTy,
    what: What,
    sigs: Vec<Sig>,
    seed: u64,
}
fn parts<T: Parts>(v: &[T]) -> Vec<Vec<f64>> {
    (0..T::PARTS).map(|i| v.iter().map(|x| x.part(i)).collect()).collect()
}
fn make<T: Parts>(sigs: &[Sig], n: usize) -> Vec<T> {
    let cols: Vec<Vec<f64>> = (0..T::PARTS).map(|i| sigs[i % sigs.len()].gen::<f64>(n)).collect();
    (0..n)
        .map(|j| {
            let p: Vec<f64> = cols.iter().map(|c| c[j]).collect();
            T::make(&p)
        })
        .collect()
}
/// window with side information: values as `win`, derivatives random
fn window<T: Parts>(win: &Win, n: usize, seed: u64) -> Vec<T> {
    let v = win.own(2 * n);
    let mut r = Rng::new(seed);
    (0..2 * n)
        .map(|i| {
            let p: Vec<f64> = (0..T::PARTS).map(|k| if k == 0 { v[i] } else { 2.0 * r.f64() - 1.0 }).collect();
            T::make(&p)
        })
        .collect()
}
fn cmp(what: &str, part: usize, got: &[f64], exp: &[f64], allow: &dyn Fn(usize) -> f64) -> Result<f64, String> {
    if got.len() != exp.len() {
        return Err(format!("{}: {} values instead of {}", what, got.len(), exp.len()));
    }
    let mut worst = 0.0f64;
    for i in 0..got.len() {
        let d = (got[i] - exp[i]).abs();
        let a = allow(i);
        if !(d <= a) {
            return Err(format!("{}: component {} of output[{}] is {:e}, the linear map gives {:e} (difference {:e}, allowed {:e})", what, part, i, got[i], exp[i], d, a));
        }
        if a > 0.0 {
            worst = worst.max(d / a);
        }
    }
    Ok(worst)
}
fn allowance<T: Parts>(n: usize, naive_n: usize, x: &[f64], out: &[f64]) -> f64 {
    if x.iter().all(|v| *v == 0.0) {
        return T::extra(n, 0.0);
    }
    tol::fast(T::EPS, n, norm2(x), tol::max_abs(out)) + if naive_n > 0 { tol::naive(T::EPS, naive_n, norm1(x)) } else { 0.0 } + T::extra(n.max(naive_n), norm1(x))
}
fn mdct_call<T: Parts>(what: &str, p: &Plan<T>, call: Call, win: &[T], x: &[T], prior: &[T], naive_n: usize, info: &mut Info) -> Result<(), String> {
    let n = p.len();
    let mut s = vec![T::zero(); p.scratch()];
    let out = parts(&run_call(p, call, x, prior, &mut s));
    let (w, xp, pr) = (parts(win), parts(x), parts(prior));
    for i in 0..T::PARTS {
        let r = match call {
            Call::Mdct => {
                let mut xw: Vec<f64> = (0..2 * n).map(|j| xp[i][j] * w[0][j]).collect();
                let mut mag: Vec<f64> = xw.iter().map(|v| v.abs()).collect();
                if i > 0 {
                    for j in 0..2 * n {
                        xw[j] += xp[0][j] * w[i][j];
                        mag[j] += (xp[0][j] * w[i][j]).abs();
                    }
                }
                let exp = Oracle::new(form_mdct(n)).apply(&xw);
                let a = allowance::<T>(n, naive_n, &mag, &exp);
                cmp(what, i, &out[i], &exp, &|_| a)
            }
            _ => {
                let o = Oracle::new(form_imdct(n));
                let y0 = o.apply(&xp[0]);
                let yi = o.apply(&xp[i]);
                let a0 = allowance::<T>(n, naive_n, &xp[0], &y0);
                let ai = allowance::<T>(n, naive_n, &xp[i], &yi);
                let term = |j: usize| if i > 0 { y0[j] * w[i][j] } else { 0.0 };
                let exp: Vec<f64> = (0..2 * n).map(|j| pr[i][j] + yi[j] * w[0][j] + term(j)).collect();
                let extra = T::extra(n, 2.0 * (tol::max_abs(&yi) + tol::max_abs(&y0)));
                cmp(what, i, &out[i], &exp, &|j| ai * w[0][j].abs() + if i > 0 { a0 * w[i][j].abs() } else { 0.0 } + 3.0 * T::EPS * (pr[i][j].abs() + (yi[j] * w[0][j]).abs() + term(j).abs()) + extra)
            }
        };
        info.worst(r?);
        info.checks += 1;
    }
    Ok(())
}
fn exec<T: Parts>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    match &c.what {
        What::Run { spec, call } => {
            let n = spec.len();
            match spec.window() {
                None => {
                    let p: Plan<T> = spec.build();
                    check_len(&p, n, spec.tag())?;
                    let kinds = p.kinds();
                    let k = kinds[call % kinds.len()];
                    let x: Vec<T> = make(&c.sigs, n);
                    let mut b = x.clone();
                    p.run_zero(k, &mut b);
                    let (xs, ys) = (parts(&x), parts(&b));
                    let orc = Oracle::of(k, n);
                    let naive_n = spec.naive_part();
                    for i in 0..T::PARTS {
                        let exp = orc.apply(&xs[i]);
                        let a = allowance::<T>(n, naive_n, &xs[i], &exp);
                        info.worst(cmp(&format!("{:?} of length {} over {:?} ({})", k, n, c.ty, spec.tag()), i, &ys[i], &exp, &|_| a)?);
                        info.checks += 1;
                    }
                    info.tag(format!("{:?}", k));
                }
                Some(w) => {
                    // same composition, but with a window that carries side information
                    let win: Vec<T> = window(w, n, c.seed);
                    let w2 = win.clone();
                    let p: Plan<T> = match spec {
                        Spec::PlannedMdct(..) => Plan::M(DctPlanner::new().plan_mdct(n, move |_| w2)),
                        Spec::MdctNaive(..) => Plan::M(std::sync::Arc::new(rustdct::mdct::MdctNaive::new(n, move |_| w2))),
                        Spec::MdctVia4(i, _) => Plan::M(std::sync::Arc::new(rustdct::mdct::MdctViaDct4::new(i.build().t4(), move |_| w2))),
                        _ => unreachable!(),
                    };
                    check_len(&p, n, spec.tag())?;
                    let call = if call % 2 == 0 { Call::Mdct } else { Call::Imdct };
                    let x: Vec<T> = make(&c.sigs, call.in_len(n));
                    let prior: Vec<T> = make(&[Sig::Uniform { seed: c.seed, exp: 1 }, Sig::Uniform { seed: c.seed ^ 3, exp: 1 }], 2 * n);
                    mdct_call(&format!("{:?} of length {} over {:?} ({})", call, n, c.ty, spec.tag()), &p, call, &win, &x, &prior, c04::mdct_naive_n(spec), &mut info)?;
                    info.tag(format!("{:?}", call));
                }
            }
            info.tag(spec.tag());
        }
        What::Replan { len, inverse } => {
            let mut pl = DctPlanner::<T>::new();
            let call = if *inverse { Call::Imdct } else { Call::Mdct };
            let x: Vec<T> = make(&c.sigs, call.in_len(*len));
            let prior = vec![T::zero(); 2 * len];
            for t in 0..3 {
                let win: Vec<T> = window(&Win::RampWin, *len, c.seed + t % 2);
                let w2 = win.clone();
                let p = Plan::M(pl.plan_mdct(*len, move |_| w2));
                mdct_call(&format!("{:?} of length {} over {:?}, request {} of three for this length whose windows differ in side information", call, len, c.ty, t + 1), &p, call, &win, &x, &prior, *len, &mut info)?;
            }
            info.tag("replan-window");
        }
        What::Window { win, size } => {
            let w: Vec<T> = win.make(*size);
            let amp = match win {
                Win::Mp3 | Win::Vorbis | Win::One => 1.0,
                Win::Mp3Inv | Win::VorbisInv => (4.0 / *size as f64).sqrt(),
                _ => (2.0 / *size as f64).sqrt(),
            };
            let own = win.own(*size);
            let a = amp * (4.0 * T::EPS + 32.0 * f64::EPSILON) + T::extra(0, 0.0);
            for (i, g) in parts(&w).iter().enumerate() {
                let exp: Vec<f64> = if i == 0 { own.clone() } else { vec![0.0; *size] };
                cmp(&format!("window_fn::{}({}) over {:?}", win.tag(), size, c.ty), i, g, &exp, &|_| if i == 0 { a } else { 0.0 })?;
                info.checks += 1;
            }
            info.tag("window-fn");
        }
    }
    info.nontrivial = match &c.what {
        What::Window { size, .. } => *size > 1,
        _ => !c.sigs.iter().all(|s| s.is_zero()),
    };
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}
fn rand_sigs(r: &mut Rng, n: usize) -> Vec<Sig> {
    (0..4)
        .map(|i| match r.below(9) {
            // a zero value with non-zero side information, and the other way round
            0 => Sig::Zero,
            1 => Sig::Impulse { pos: r.below(n.max(1)), amp: 1.0 },
            2 => Sig::Sparse { seed: r.u64() >> 12, count: 3 },
            3 if i > 0 => Sig::Const(1.0),
            4 => Sig::Ints { seed: r.u64() >> 12, max: 2 },
            5 => match Sig::structured(r, n) {
                // the fixed-point types have little range
                Sig::Dict { seed, vals } if vals.iter().any(|v| v.abs() > 2.0) => Sig::Special { seed },
                s => s,
            },
            _ => Sig::Uniform { seed: r.u64() >> 12, exp: 0 },
        })
        .collect()
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "case = (user-defined number type, planned transform / other object / MDCT with window, call, one signal per component). Types: f64 newtype, fixed point stored in 64 bytes aligned to 64, in 8 and in 4 bytes, dual numbers in f64 (16 bytes) and f32 (8 bytes), f32 jets of 12 bytes; comparison and is_zero of the numbers with derivatives look at the value only. Every component of the output is compared with the defining sum of that component (product rule with the window's side information for the MDCT); repeated MDCT requests with windows differing only in side information; built-in windows must be constants of the type. Non-trivial: some component is not all zero."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C19", round);
        let mut out = vec![];
        let mut push = |r: &mut Rng, mut ty: UTy, what: What| {
            let n = match &what {
                What::Run { spec, .. } => spec.len(),
                What::Replan { len, .. } => *len,
                What::Window { size, .. } => *size,
            };
            // little range and precision
            let wide = matches!(&what, What::Run { spec, .. } if spec.window().map_or(false, |w| w.wide()));
            if ty == UTy::Fixed4 && (n > 64 || wide) {
                ty = UTy::Dual32;
            }
            let sigs = rand_sigs(r, 2 * n);
            let seed = r.u64() >> 12;
            out.push(Case { ty, what, sigs, seed });
        };
        let win = |r: &mut Rng| match r.below(2) {
            0 => Win::Random { seed: r.u64() >> 12, e: 0 },
            _ => BUILTIN[r.below(6)].clone(),
        };
        if round == 0 {
            for n in 1..=ctx.n(90) {
                for k in KINDS {
                    if n >= k.min_len() {
                        for t in 0..if n <= 24 { 7 } else { 4 } {
                            let ty = UTYS[(n + t + k as usize) % 7];
                            let call = kinds_of_entry(k).iter().position(|q| *q == k).unwrap();
                            push(&mut r, ty, What::Run { spec: Spec::Planned(k, n), call });
                        }
                    }
                }
                for spec in all_families(&mut r, n) {
                    if !matches!(spec, Spec::Planned(..)) {
                        let call = r.below(4);
                        let ty = *r.pick(&UTYS);
                        push(&mut r, ty, What::Run { spec, call });
                    }
                }
                if n % 2 == 0 {
                    for ty in UTYS {
                        for inverse in [false, true] {
                            let w = win(&mut r);
                            push(&mut r, ty, What::Run { spec: Spec::PlannedMdct(n, w), call: inverse as usize });
                        }
                        let inverse = r.chance(0.5);
                        push(&mut r, ty, What::Replan { len: n, inverse });
                    }
                }
                for win in BUILTIN {
                    for t in 0..2 {
                        push(&mut r, UTYS[(n + 3 * t + win.tag().len()) % 7], What::Window { win: win.clone(), size: n });
                    }
                }
            }
        }
        if round == 0 {
            for spec in dict_specs(&mut r, 600, 20_000, ctx.n(24)) {
                let spec = match spec.window() {
                    Some(_) => {
                        let w = win(&mut r);
                        Spec::PlannedMdct(spec.len(), w)
                    }
                    None => spec,
                };
                let ty = *r.pick(&UTYS);
                let call = r.below(4);
                push(&mut r, ty, What::Run { spec, call });
            }
        }
        for _ in 0..ctx.n(2000) {
            let ty = *r.pick(&UTYS);
            let max = if ctx.thorough() { 6000 } else { 1500 };
            let what = match r.below(8) {
                0 => What::Window { win: BUILTIN[r.below(6)].clone(), size: rand_len(&mut r, 2, max) },
                1 => What::Replan { len: 2 * rand_len(&mut r, 1, 300), inverse: r.chance(0.5) },
                2 | 3 => {
                    let n = 2 * rand_len(&mut r, 1, max / 2);
                    let w = win(&mut r);
                    What::Run { spec: Spec::rand_mdct(&mut r, n, w, 2), call: r.below(4) }
                }
                4 => {
                    let k = *r.pick(&KINDS);
                    let n = rand_len(&mut r, k.min_len(), 300);
                    What::Run { spec: Spec::rand_of(&mut r, k, n, 3), call: r.below(4) }
                }
                _ => {
                    let k = *r.pick(&KINDS);
                    let n = rand_len(&mut r, k.min_len(), if k.always_naive() { 500 } else { max });
                    What::Run { spec: Spec::Planned(k, n), call: r.below(4) }
                }
            };
            push(&mut r, ty, what);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        match c.ty {
            UTy::Traced => exec::<Traced>(c),
            UTy::Fixed => exec::<Fixed>(c),
            UTy::Dual64 => exec::<Dual64>(c),
            UTy::Jet32 => exec::<Jet32>(c),
            UTy::Dual32 => exec::<Dual32>(c),
            UTy::Fixed4 => exec::<Fixed4>(c),
            UTy::Fixed8 => exec::<Fixed8>(c),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        match &c.what {
            What::Run { spec, call } => v.extend(spec.shrinks().into_iter().map(|spec| Case { what: What::Run { spec, call: *call }, ..c.clone() })),
            What::Replan { len, inverse } => v.extend(shrink_len(*len, 2, 2).into_iter().map(|len| Case { what: What::Replan { len, inverse: *inverse }, ..c.clone() })),
            What::Window { win, size } => v.extend(shrink_len(*size, 1, 1).into_iter().map(|size| Case { what: What::Window { win: win.clone(), size }, ..c.clone() })),
        }
        if c.sigs.len() > 2 {
            v.push(Case { sigs: c.sigs[..2].to_vec(), ..c.clone() });
        }
        for i in 0..c.sigs.len() {
            let mut l = c.sigs[i].shrinks();
            l.truncate(3);
            if !c.sigs[i].is_zero() {
                l.insert(0, Sig::Zero);
            }
            for s in l {
                let mut sigs = c.sigs.clone();
                sigs[i] = s;
                v.push(Case { sigs, ..c.clone() });
            }
        }
        if c.ty != UTy::Traced {
            for ty in [UTy::Traced, UTy::Dual64] {
                if ty != c.ty {
                    v.push(Case { ty, ..c.clone() });
                }
            }
        }
        v
    }
}
