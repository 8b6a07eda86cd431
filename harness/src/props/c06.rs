//! C06: every transform is undone by its inverse kind and the documented scale.
use super::*;
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    kind: Kind,
    len: usize,
    sig: Sig,
    same_planner: bool,
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let n = c.len;
    let inv = c.kind.inverse();
    let mut pl = DctPlanner::new();
    let f: Plan<T> = plan_kind(&mut pl, c.kind, n);
    let g: Plan<T> = if c.same_planner { plan_kind(&mut pl, inv, n) } else { plan_kind(&mut DctPlanner::new(), inv, n) };
    let x: Vec<T> = c.sig.gen(n);
    let mut b = x.clone();
    f.run_zero(c.kind, &mut b);
    let mid: Vec<T> = b.clone();
    g.run_zero(inv, &mut b);
    let scale = c.kind.inverse_scale(n);
    let (xs, e) = normalise(&x);
    let s = p2(-e);
    let mids: Vec<f64> = mid.iter().map(|v| v.f() * s).collect();
    let nf = n as f64;
    // an error e1 in every intermediate value can reach the result times scale * n (about 2)
    let e1 = tol::fast(T::EPS, n, norm2(&xs), tol::max_abs(&mids));
    let e2 = tol::fast(T::EPS, n, norm2(&mids), tol::max_abs(&xs) / scale);
    let mut allow = scale * (nf * e1 + e2);
    if c.kind.always_naive() || n <= 128 {
        allow += scale * (nf * tol::naive(T::EPS, n, norm1(&xs)) + tol::naive(T::EPS, n, norm1(&mids)));
    }
    for i in 0..n {
        let got = b[i].f() * s * scale;
        let d = (got - xs[i]).abs();
        if !(d <= allow) {
            return Err(format!(
                "{:?} then {:?} of length {} ({:?}) times {:e} gives {:e} at index {}, the input was {:e} (difference {:e}, allowed {:e}) [input {:?}]",
                c.kind, inv, n, c.ty, scale, got / s, i, x[i].f(), d / s, allow / s, c.sig
            ));
        }
        if allow > 0.0 {
            info.worst(d / allow);
        }
    }
    info.checks = n as u64;
    info.nontrivial = n >= 2 && x.iter().any(|v| v.f() != 0.0);
    info.tag(format!("{:?}", c.kind));
    info.tag(format!("{:?}", c.ty));
    info.tag(len_tag(n));
    info.tag(c.sig.tag());
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, kind, length, input); planned kind, then planned inverse kind, then the documented scale must return the input. Non-trivial: length >= 2 and a non-zero input."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C06", round);
        let mut out = vec![];
        if round == 0 {
            for n in 1..=ctx.n(700) {
                for kind in KINDS {
                    if n < kind.min_len() || (kind.always_naive() && n > 300) {
                        continue;
                    }
                    for ty in TYS {
                        out.push(Case { ty, kind, len: n, sig: Sig::Uniform { seed: r.u64() >> 12, exp: 0 }, same_planner: n % 2 == 0 });
                        let sig = Sig::random(&mut r, n, ty);
                        out.push(Case { ty, kind, len: n, sig, same_planner: n % 3 == 0 });
                    }
                }
            }
        }
        if round == 0 {
            for len in crate::dict::lens(101, 600_000, ctx.n(60)) {
                for kind in KINDS {
                    if kind.always_naive() && len > 5000 {
                        continue;
                    }
                    for ty in TYS {
                        let sig = Sig::random(&mut r, len, ty);
                        out.push(Case { ty, kind, len, sig, same_planner: r.chance(0.5) });
                    }
                }
            }
        }
        for i in 0..ctx.n(3000) {
            let ty = TYS[i % 2];
            let kind = *r.pick(&KINDS);
            let max = if kind.always_naive() { 2500 } else if ctx.thorough() { 300000 } else { 70000 };
            let len = if i % 60 == 0 && !kind.always_naive() { large_len(&mut r, 60_000, 1 << 20) } else { rand_len(&mut r, kind.min_len(), max) };
            let sig = Sig::random(&mut r, len, ty);
            out.push(Case { ty, kind, len, sig, same_planner: r.chance(0.5) });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for len in shrink_len(c.len, c.kind.min_len(), 1) {
            v.push(Case { len, ..c.clone() });
        }
        for sig in c.sig.shrinks() {
            v.push(Case { sig, ..c.clone() });
        }
        if !c.same_planner {
            v.push(Case { same_planner: true, ..c.clone() });
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
