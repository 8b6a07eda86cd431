//! C05: time-domain alias cancellation.
use super::*;
use crate::engine::*;
use crate::with_ty;

pub struct P;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    blocks: usize,
    sig: Sig,
    order: u64,
    dirty: bool,
}
fn scale_of(w: &Win, n: usize) -> f64 {
    match w {
        Win::Mp3Inv | Win::VorbisInv | Win::Inv => 1.0,
        Win::One => 1.0 / n as f64,
        _ => 2.0 / n as f64,
    }
}
fn rand_pb(r: &mut Rng) -> Win {
    match r.below(11) {
        9 | 10 => {
            let f = r.below(9) as u8;
            Win::Slope { fl: f, fr: f }
        }
        0..=5 => BUILTIN[r.below(6)].clone(),
        6 => Win::Kbd { alpha: 1.0 + r.below(6) as f64 },
        _ => Win::PrincenBradley { seed: r.u64() >> 12 },
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = c.spec.build();
    let n = c.spec.len();
    check_len(&p, n, c.spec.tag())?;
    let m = p.mdct();
    let win = c.spec.window().unwrap();
    let scale = scale_of(win, n);
    let wmax = win.own(2 * n).iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let total = (c.blocks + 1) * n;
    let x: Vec<T> = c.sig.gen(total);
    let mut out = vec![T::zero(); total];
    let mut scratch = vec![if c.dirty { T::of(3.25) } else { T::zero() }; p.scratch()];
    let mut order: Vec<usize> = (0..c.blocks).collect();
    if c.order > 0 {
        Rng::new(c.order).shuffle(&mut order);
    }
    let mut spec = vec![T::zero(); n];
    for b in order {
        let lo = b * n;
        m.process_mdct_with_scratch(&x[lo..lo + n], &x[lo + n..lo + 2 * n], &mut spec, &mut scratch);
        let (oa, ob) = out[lo..lo + 2 * n].split_at_mut(n);
        m.process_imdct_with_scratch(&spec, oa, ob, &mut scratch);
    }
    let (xs, e) = normalise(&x);
    let s = p2(-e);
    let nf = n as f64;
    for b in 1..c.blocks {
        let (lo, hi) = ((b - 1) * n, (b + 2) * n);
        // the two blocks that overlap here
        let n2 = norm2(&xs[lo..hi]) * wmax;
        let n1 = norm1(&xs[lo..hi]) * wmax;
        let mx = nf.sqrt() * n2;
        let mut allow = tol::fast(T::EPS, n, n2, mx) * nf + tol::fast(T::EPS, n, nf.sqrt() * n2, nf * n2);
        let k = super::c04::mdct_naive_n(&c.spec);
        if k > 0 {
            // typical, not worst-case, accumulation: the result is only ever compared at unit scale
            allow += tol::naive(T::EPS, k, n1) * nf;
        }
        allow *= wmax * scale;
        for i in b * n..(b + 1) * n {
            let got = out[i].f() * s * scale;
            let d = (got - xs[i]).abs();
            if !(d <= allow) {
                return Err(format!(
                    "overlap-add of IMDCT(MDCT(x)) with window {} (length {}, {} blocks) times {} gives {:e} at sample {} (offset {} of block {}), the signal is {:e} (difference {:e}, allowed {:e})",
                    win.tag(), n, c.blocks, scale, got / s, i, i - b * n, b, x[i].f(), d / s, allow / s
                ));
            }
            if allow > 0.0 {
                info.worst(d / allow);
            }
        }
    }
    info.checks = ((c.blocks - 1) * n) as u64;
    info.nontrivial = c.blocks >= 2 && x[n..c.blocks * n].iter().any(|v| v.f() != 0.0);
    info.tag(win.tag());
    info.tag(c.spec.tag());
    info.tag(if c.order > 0 { "blocks-shuffled" } else { "blocks-in-order" });
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, MDCT object, power-complementary symmetric window, block count, block order, signal); all interior samples of the overlap-added IMDCT(MDCT(x)) are compared with the signal. Non-trivial: at least two blocks and a non-zero interior sample."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C05", round);
        let mut out = vec![];
        if round == 0 {
            for n in (2..=ctx.n(500)).step_by(2) {
                for ty in TYS {
                    for wi in 0..10 {
                        if n > 100 && (n / 2 + wi) % 4 != 0 {
                            continue;
                        }
                        let f = r.below(9) as u8;
                        let win = if wi < 6 {
                            BUILTIN[wi].clone()
                        } else if wi < 8 {
                            Win::PrincenBradley { seed: r.u64() >> 12 }
                        } else {
                            Win::Slope { fl: if wi == 8 { 8 } else { f }, fr: if wi == 8 { 8 } else { f } }
                        };
                        let spec = match r.below(4) {
                            0 if n <= 200 => Spec::MdctNaive(n, win),
                            1 => Spec::MdctVia4(Box::new(Spec::rand_t4(&mut r, n, 2)), win),
                            _ => Spec::PlannedMdct(n, win),
                        };
                        out.push(Case { ty, spec, blocks: r.range(2, 5), sig: Sig::Uniform { seed: r.u64() >> 12, exp: 0 }, order: if r.chance(0.5) { r.u64() >> 12 } else { 0 }, dirty: r.chance(0.5) });
                    }
                }
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, 200_000, ctx.n(40)).into_iter().filter(|n| n % 2 == 0) {
                for ty in TYS {
                    for f in 0..4 {
                        let win = rand_pb(&mut r);
                        let spec = match f {
                            0 if n <= 2000 => Spec::MdctNaive(n, win),
                            1 => Spec::MdctVia4(Box::new(Spec::Planned(Kind::C4, n)), win),
                            _ => Spec::PlannedMdct(n, win),
                        };
                        out.push(Case { ty, spec, blocks: 3, sig: Sig::Uniform { seed: r.u64() >> 12, exp: 0 }, order: r.u64() >> 12, dirty: r.chance(0.5) });
                    }
                }
            }
        }
        for i in 0..ctx.n(3000) {
            let ty = TYS[i % 2];
            let n = if i % 100 == 0 { 2 * large_len(&mut r, 4000, 100_000) } else { 2 * rand_len(&mut r, 1, if ctx.thorough() { 30000 } else { 4000 }) };
            let w = rand_pb(&mut r);
            let spec = Spec::rand_mdct(&mut r, n, w, 3);
            let blocks = r.range(2, if n > 1000 { 4 } else { 12 });
            let mut sig = Sig::random(&mut r, n * (blocks + 1), ty);
            if let Sig::Uniform { seed, exp } = sig {
                sig = Sig::Uniform { seed, exp: exp.clamp(-60, 60) };
            }
            out.push(Case { ty, spec, blocks, sig, order: if r.chance(0.6) { r.u64() >> 12 } else { 0 }, dirty: r.chance(0.5) });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.blocks > 2 {
            v.push(Case { blocks: 2, ..c.clone() });
        }
        if c.order > 0 {
            v.push(Case { order: 0, ..c.clone() });
        }
        if c.dirty {
            v.push(Case { dirty: false, ..c.clone() });
        }
        for spec in c.spec.shrinks() {
            v.push(Case { spec, ..c.clone() });
        }
        for s in c.sig.shrinks() {
            v.push(Case { sig: s, ..c.clone() });
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
