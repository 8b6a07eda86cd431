//! C20: rounding error of long transforms stays at machine precision.
use super::*;
use crate::engine::*;
use crate::with_ty;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    ty: Ty,
    call: Call,
    len: usize,
    sig: Sig,
    /// MDCT window
    #[serde(default)]
    win: Option<Win>,
    /// earlier requests to the planner (0: none)
    #[serde(default)]
    hist: u64,
}
/// rms error <= CE * EPS * log2(n) * rms output
pub const CE: f64 = 1.2;
pub const CE_SHORT: f64 = 2.0;

fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let n = c.len;
    let (mut pl, keep) = used_planner::<T>(c.hist, n);
    let win: Vec<T> = match c.call {
        Call::K(_) => vec![],
        _ => c.win.clone().unwrap_or(Win::One).make(2 * n),
    };
    let p: Plan<T> = match c.call {
        Call::K(k) => plan_kind(&mut pl, k, n),
        _ => Plan::M(pl.plan_mdct(n, |_| win.clone())),
    };
    drop((pl, keep));
    let x: Vec<T> = c.sig.gen(c.call.in_len(n));
    let mut xf: Vec<f64> = x.iter().map(|v| v.f()).collect();
    if c.call == Call::Mdct {
        for (v, w) in xf.iter_mut().zip(&win) {
            *v *= w.f();
        }
    }
    // what the IMDCT multiplies its results with
    let w = |k: usize| if c.call == Call::Imdct { win[k].f() } else { 1.0 };
    let prior = vec![T::zero(); 2 * n];
    let mut s = vec![T::zero(); p.scratch()];
    let out = run_call(&p, c.call, &x, &prior, &mut s);
    drop(s);
    let orc = Oracle::new(match c.call {
        Call::K(k) => form(k, n),
        Call::Mdct => form_mdct(n),
        Call::Imdct => form_imdct(n),
    });
    let m = out.len();
    // f32: every output against the f64 oracle. f64: the oracle must be better than f64 FFT arithmetic, so a
    // sample of outputs is compared with compensated direct sums; rms output from all computed outputs
    let (err2, cnt) = if T::EPS > 1e-10 {
        let exp = orc.apply(&xf);
        (exp.iter().zip(&out).enumerate().map(|(k, (e, g))| (e * w(k) - g.f()).powi(2)).sum::<f64>(), m)
    } else if m <= 700 {
        ((0..m).map(|k| (orc.at(&xf, k) * w(k) - out[k].f()).powi(2)).sum::<f64>(), m)
    } else {
        let mut r = Rng::new(n as u64 ^ 0xABCD);
        let fixed: Vec<usize> = vec![0, 1, 2, m - 1, m - 2, m / 2, m / 2 - 1, m / 4, m / 3, 3 * (m / 4)];
        // bounded work
        let want = (24_000_000 / n).clamp(24, 160).min(m);
        let err = |k: usize| (orc.at(&xf, k) * w(k) - out[k].f()).powi(2);
        // the fixed positions count for themselves, the random ones stand for all the others
        let e1: f64 = fixed.iter().map(|k| err(*k)).sum();
        let e2: f64 = (0..want).map(|_| err(r.below(m))).sum();
        ((e1 + e2 * (m - fixed.len()) as f64 / want as f64) * want as f64 / m as f64, want)
    };
    let out2 = out.iter().map(|v| v.f() * v.f()).sum::<f64>() / m as f64;
    let (err, rms) = ((err2 / cnt as f64).sqrt(), out2.sqrt());
    // a sample of the outputs has a wider spread
    let base = if n < 1000 { CE_SHORT } else { CE };
    let c_eff = if cnt == m { base } else { base * (1.0 + 3.0 / (cnt as f64).sqrt()) };
    let allow = c_eff * T::EPS * (n as f64).log2() * rms;
    if !(err <= allow) {
        return Err(format!(
            "{:?} of length {} in {:?}, window {:?}, input {:?}: rms error {:e} over {} outputs, rms output {:e}: {:.2} times EPS log2 n, allowed {:.2}",
            c.call,
            n,
            c.ty,
            c.win,
            c.sig,
            err,
            cnt,
            rms,
            err / (T::EPS * (n as f64).log2() * rms),
            c_eff
        ));
    }
    info.checks = cnt as u64;
    info.worst(err / allow);
    info.nontrivial = n >= 256 && rms > 0.0;
    info.tag(format!("{:?}", c.call));
    info.tag(len_tag(n));
    if c.hist != 0 {
        info.tag("used-planner");
    }
    info.tag(format!("2^{}", (n as f64).log2().floor()));
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}
fn all_calls() -> Vec<Call> {
    let mut v: Vec<Call> = c16::FAST.iter().map(|k| Call::K(*k)).collect();
    v.extend([Call::Mdct, Call::Imdct]);
    v
}
fn rand_sig(r: &mut Rng) -> Sig {
    match r.below(6) {
        0 => Sig::Ints { seed: r.u64() >> 12, max: 100 },
        1 => Sig::Steps { seed: r.u64() >> 12, run: r.range(2, 50) },
        2 => Sig::Wide { seed: r.u64() >> 12, lo: -10, hi: 10 },
        // squares of all results stay in the range of f64
        3 => Sig::Uniform { seed: r.u64() >> 12, exp: r.irange(-60, 60) },
        _ => Sig::Uniform { seed: r.u64() >> 12, exp: 0 },
    }
}
fn rand_win(r: &mut Rng) -> Win {
    match r.below(4) {
        0 => Win::One,
        1 => Win::Kbd { alpha: 4.0 },
        _ => BUILTIN[r.below(6)].clone(),
    }
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, planned kind or MDCT/IMDCT with a window, long length, input, earlier requests to the planner); root-mean-square error over all outputs (f32) or a sample of outputs (f64, against compensated direct summation) divided by the root-mean-square output must stay below 1.2 EPS log2 n (2 below length 1000; slightly more for f64 samples). Lengths: powers of two and neighbours, primes, smooth and random lengths from 64, most of them above 1000, to 2^20 (thorough: 2^22). Non-trivial: length of at least 256."
    }
    fn threads(&self) -> usize {
        6
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C20", round);
        let mut out = vec![];
        let cl = all_calls();
        let top = if ctx.thorough() { 1usize << 22 } else { 1 << 20 };
        let push = |r: &mut Rng, out: &mut Vec<Case>, call: Call, n: usize| {
            let ty = TYS[r.below(2)];
            let n = if matches!(call, Call::K(_)) { n } else { n / 2 * 2 };
            let win = if matches!(call, Call::K(_)) { None } else { Some(rand_win(r)) };
            let hist = if n <= 1 << 16 && r.chance(0.4) { r.u64() >> 12 | 1 } else { 0 };
            out.push(Case { ty, call, len: n, sig: rand_sig(r), win, hist });
        };
        if round == 0 {
            for (i, call) in cl.iter().enumerate() {
                for ty in TYS {
                    for e in [10, 13, 16, 18 + i % 3] {
                        if (e as f64) < 16.0 + 4.0 * ctx.scale.max(0.25) {
                            out.push(Case { ty, call: *call, len: 1 << e, sig: rand_sig(&mut r), win: None, hist: 0 });
                        }
                    }
                }
            }
            for _ in 0..ctx.n(600) {
                let call = *r.pick(&cl);
                let n = rand_len(&mut r, 64, 1000);
                push(&mut r, &mut out, call, n);
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, top, ctx.n(12)) {
                for call in &cl {
                    push(&mut r, &mut out, *call, n);
                }
            }
        }
        for i in 0..ctx.n(260) {
            let call = cl[i % cl.len()];
            // longer lengths are rarer
            let hi = match i % 8 {
                0 => top,
                1 | 2 => top / 8,
                _ => top / 64,
            };
            let n = rand_len(&mut r, 1000, hi);
            push(&mut r, &mut out, call, n);
        }
        r.shuffle(&mut out);
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let step = if matches!(c.call, Call::K(_)) { 1 } else { 2 };
        let mut v: Vec<Case> = shrink_len(c.len, 32, step).into_iter().filter(|m| *m >= 32).map(|len| Case { len, ..c.clone() }).collect();
        v.retain(|d| d.len % step == 0);
        v.push(Case { sig: Sig::Uniform { seed: 1, exp: 0 }, ..c.clone() });
        v.push(Case { win: None, ..c.clone() });
        v.push(Case { hist: 0, ..c.clone() });
        v.retain(|d| d.len < c.len || d.sig != c.sig || d.win != c.win || d.hist != c.hist);
        v
    }
}
