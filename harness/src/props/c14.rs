//! C14: invalid construction requests panic, valid ones give an object of the documented length.
use super::*;
use crate::engine::*;
use crate::with_ty;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::Fft;
use rustdct::{DctPlanner, TransformType2And3, TransformType4};
use std::sync::Arc;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum FftObj {
    Dct1,
    Dst1,
    T23,
    T4Odd,
    S67,
}
pub const FFTOBJS: [FftObj; 5] = [FftObj::Dct1, FftObj::Dst1, FftObj::T23, FftObj::T4Odd, FftObj::S67];
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum MdctVia {
    Planner,
    Naive,
    Dct4,
}
pub const VIAS: [MdctVia; 3] = [MdctVia::Planner, MdctVia::Naive, MdctVia::Dct4];
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Req {
    /// DCT1 of length 1; warm: other requests first
    Dct1One { planner: bool, warm: usize },
    /// MDCT of length n with a window function returning `window` values; `before`: serve a valid request for
    /// (length before, right window) on the same planner first
    Mdct { via: MdctVia, n: usize, window: usize, before: Option<usize>, user: bool },
    FftBased { obj: FftObj, fft: FftSpec },
    Split { half: Spec, quarter: Spec },
    /// a whole composition, which must build and report its length
    Valid { spec: Spec },
    /// any kind, any order of planner requests; all valid
    Planner { reqs: Vec<(Kind, usize)> },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    req: Req,
}
/// the documented length of the object, or None when the request must be refused
fn expected(q: &Req) -> Option<usize> {
    match q {
        Req::Dct1One { .. } => None,
        Req::Mdct { n, window, .. } => (n % 2 == 0 && *window == 2 * n).then_some(*n),
        Req::FftBased { obj, fft } => {
            if fft.inverse {
                return None;
            }
            let m = fft.len;
            match obj {
                FftObj::Dct1 => (m % 2 == 0).then(|| m / 2 + 1),
                FftObj::Dst1 => (m % 2 == 0).then(|| m / 2 - 1),
                FftObj::T23 => Some(m),
                FftObj::T4Odd => (m % 2 == 1).then_some(m),
                FftObj::S67 => (m % 2 == 1).then(|| (m - 1) / 2),
            }
        }
        Req::Split { half, quarter } => {
            let (h, q) = (half.len(), quarter.len());
            (h.is_power_of_two() && h > 1 && h == 2 * q).then_some(2 * h)
        }
        Req::Valid { spec } => Some(spec.len()),
        Req::Planner { .. } => Some(0),
    }
}
fn construct<T: Real>(q: &Req) -> Vec<(String, usize, usize)> {
    let one = |len: usize| vec![(String::from("object"), len, usize::MAX)];
    match q {
        Req::Dct1One { planner: false, .. } => one(Plan::<T>::D1(Arc::new(Dct1Naive::new(1))).len()),
        Req::Dct1One { planner: true, warm } => {
            let mut p = DctPlanner::<T>::new();
            for i in 0..*warm {
                let _ = plan_kind(&mut p, KINDS[i % 16], 2 + i % 9);
            }
            // a refused request must be refused again
            if *warm % 2 == 1 {
                if let Ok(d) = panics(|| p.plan_dct1(1)) {
                    return one(d.len());
                }
            }
            one(p.plan_dct1(1).len())
        }
        Req::Mdct { via, n, window, before, user } => {
            let wf = |_: usize| vec![T::of(0.5); *window];
            match via {
                MdctVia::Planner => {
                    let mut p = DctPlanner::<T>::new();
                    if let Some(b) = before {
                        let m = p.plan_mdct(*b, |s| vec![T::of(0.25); s]);
                        assert_eq!(m.len(), *b, "HARNESS-VISIBLE: valid request gave a wrong length");
                    }
                    one(p.plan_mdct(*n, wf).len())
                }
                MdctVia::Naive => one(Plan::<T>::M(Arc::new(MdctNaive::new(*n, wf))).len()),
                MdctVia::Dct4 => {
                    let i = Spec::Planned(Kind::C4, *n);
                    let inner: Arc<dyn TransformType4<T>> = if *user { Spec::User(Box::new(i), 3).build().t4() } else { i.build().t4() };
                    one(Plan::<T>::M(Arc::new(MdctViaDct4::new(inner, wf))).len())
                }
            }
        }
        Req::FftBased { obj, fft } => {
            let f: Arc<dyn Fft<T>> = fft.build();
            one(match obj {
                FftObj::Dct1 => Plan::<T>::D1(Arc::new(Dct1ConvertToFft::new(f))).len(),
                FftObj::Dst1 => Plan::<T>::S1(Arc::new(Dst1ConvertToFft::new(f))).len(),
                FftObj::T23 => Plan::<T>::T23(Arc::new(Type2And3ConvertToFft::new(f))).len(),
                FftObj::T4Odd => Plan::<T>::T4(Arc::new(Type4ConvertToFftOdd::new(f))).len(),
                FftObj::S67 => Plan::<T>::S67(Arc::new(Dst6And7ConvertToFft::new(f))).len(),
            })
        }
        Req::Split { half, quarter } => {
            let h: Arc<dyn TransformType2And3<T>> = half.build().t23();
            let q: Arc<dyn TransformType2And3<T>> = quarter.build().t23();
            one(Plan::<T>::T23(Arc::new(Type2And3SplitRadix::new(h, q))).len())
        }
        Req::Valid { spec } => one(spec.build::<T>().len()),
        Req::Planner { reqs } => {
            let mut p = DctPlanner::<T>::new();
            reqs.iter().map(|(k, n)| (format!("plan {:?} of length {}", k, n), plan_kind(&mut p, *k, *n).len(), *n)).collect()
        }
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let want = expected(&c.req);
    // build the parts outside the judged call where their own construction could panic
    if let Req::Split { half, quarter } = &c.req {
        half.build::<T>();
        quarter.build::<T>();
    }
    if let Req::FftBased { fft, .. } = &c.req {
        fft.build::<T>();
    }
    let show = || serde_json::to_string(&c.req).unwrap();
    match (want, panics(|| construct::<T>(&c.req))) {
        (None, Ok(v)) => return Err(format!("{} cannot compute a correct transform but was accepted (length {})", show(), v[0].1)),
        (None, Err(m)) if m.contains("HARNESS-VISIBLE") => return Err(m),
        (Some(_), Err(m)) => return Err(format!("{} is valid but was refused: {}", show(), m)),
        (Some(w), Ok(v)) => {
            for (what, got, exp) in v {
                let exp = if exp == usize::MAX { w } else { exp };
                if got != exp {
                    return Err(format!("{}: {} reports length {} instead of {}", show(), what, got, exp));
                }
                info.checks += 1;
            }
        }
        (None, Err(_)) => {
            info.checks += 1;
            info.nontrivial = true;
        }
    }
    if want.is_some() {
        info.nontrivial = !matches!(&c.req, Req::Planner { reqs } if reqs.is_empty());
    }
    info.tag(if want.is_some() { "valid" } else { "invalid" });
    info.tag(match &c.req {
        Req::Dct1One { .. } => "dct1-len1".to_string(),
        Req::Mdct { via, n, .. } => format!("mdct-{:?}-{}", via, if n % 2 == 1 { "odd" } else { "even" }),
        Req::FftBased { obj, fft } => format!("{:?}-{}-{}", obj, if fft.inverse { "inverse" } else { "forward" }, if fft.len % 2 == 1 { "odd" } else { "even" }),
        Req::Split { .. } => "split-radix".to_string(),
        Req::Valid { spec } => spec.tag().to_string(),
        Req::Planner { .. } => "planner".to_string(),
    });
    Ok(info)
}
fn bad_windows(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n, n + 1, 2 * n + 1, 2 * n + 2, 3 * n, 4 * n, 4 * n + 4, 2 * n + 64, r.range(0, 5 * n + 5)];
    for d in [1, 2, 3, 4] {
        v.push((2 * n).saturating_sub(d));
    }
    v.retain(|w| *w != 2 * n);
    v.sort();
    v.dedup();
    v
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "case = one construction request (planner, constructor, or whole composition), valid or not by the documented preconditions; an invalid one must panic (also on a warm planner and when repeated), a valid one must give an object of the documented length. Non-trivial: every invalid request and every valid one that builds at least one object."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C14", round);
        let mut reqs: Vec<Req> = vec![];
        let top = if ctx.thorough() { 400 } else { ctx.n(120).min(400) };
        if round == 0 {
            reqs.push(Req::Dct1One { planner: false, warm: 0 });
            for w in [0, 1, 2, 7, 16, 33] {
                reqs.push(Req::Dct1One { planner: true, warm: w });
            }
            for n in 1..=top {
                for via in VIAS {
                    let user = r.chance(0.3);
                    reqs.push(Req::Mdct { via, n, window: 2 * n, before: None, user });
                    let ws = bad_windows(&mut r, n);
                    if n < 30 {
                        for w in ws {
                            reqs.push(Req::Mdct { via, n, window: w, before: None, user });
                            if via == MdctVia::Planner && n % 2 == 0 {
                                reqs.push(Req::Mdct { via, n, window: w, before: Some(n), user });
                            }
                        }
                    } else {
                        for _ in 0..3 {
                            let w = *r.pick(&ws);
                            reqs.push(Req::Mdct { via, n, window: w, before: None, user });
                            if n % 2 == 0 {
                                reqs.push(Req::Mdct { via: MdctVia::Planner, n, window: w, before: Some(*r.pick(&[n, n, 2, 2 * n])), user });
                            }
                        }
                    }
                    if n % 2 == 1 {
                        reqs.push(Req::Mdct { via: MdctVia::Planner, n, window: 2 * n, before: Some(n + 1), user });
                        reqs.push(Req::Mdct { via: MdctVia::Planner, n, window: 2 * n, before: Some(2 * n), user });
                    }
                }
                for obj in FFTOBJS {
                    for inverse in [false, true] {
                        let fft = FftSpec { inverse, ..FftSpec::random(&mut r, n) };
                        if obj == FftObj::Dst1 && n == 2 {
                            continue; // an object of length 0: not a transform, unspecified
                        }
                        if obj == FftObj::S67 && n == 1 {
                            continue;
                        }
                        reqs.push(Req::FftBased { obj, fft });
                    }
                }
                for k in KINDS {
                    if n >= k.min_len() {
                        reqs.push(Req::Valid { spec: Spec::Planned(k, n) });
                        if n < 40 {
                            reqs.push(Req::Valid { spec: Spec::Naive(k, n) });
                        }
                    }
                }
            }
            // split radix: every pair of small lengths
            for h in 1..=20usize {
                for q in 1..=20usize {
                    if h == 1 {
                        continue; // (1, *) gives length 2, which has no quarter
                    }
                    let half = if r.chance(0.3) { Spec::User(Box::new(Spec::Planned(Kind::C2, h)), 1) } else { Spec::rand_t23(&mut r, h, 1) };
                    let quarter = Spec::rand_t23(&mut r, q, 1);
                    reqs.push(Req::Split { half, quarter });
                }
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, 200_000, ctx.n(40)) {
                for k in KINDS {
                    if !k.always_naive() || n <= 5000 {
                        reqs.push(Req::Valid { spec: Spec::Planned(k, n) });
                    }
                }
                for via in VIAS {
                    if via == MdctVia::Naive && n > 5000 {
                        continue;
                    }
                    reqs.push(Req::Mdct { via, n, window: 2 * n, before: None, user: false });
                    for w in bad_windows(&mut r, n).into_iter().take(3) {
                        reqs.push(Req::Mdct { via, n, window: w, before: None, user: r.chance(0.3) });
                    }
                }
                if n <= 20_000 {
                    for obj in FFTOBJS {
                        for inverse in [false, true] {
                            let fft = FftSpec { inverse, ..FftSpec::random(&mut r, n) };
                            reqs.push(Req::FftBased { obj, fft });
                        }
                    }
                }
            }
        }
        for _ in 0..ctx.n(2500) {
            let max = if ctx.thorough() { 20000 } else { 4000 };
            reqs.push(match r.below(8) {
                0 => {
                    let n = rand_len(&mut r, 1, max);
                    let fft = FftSpec { inverse: r.chance(0.4), ..FftSpec::random(&mut r, n.max(4)) };
                    Req::FftBased { obj: *r.pick(&FFTOBJS), fft }
                }
                1 => {
                    let n = rand_len(&mut r, 1, max);
                    let ws = bad_windows(&mut r, n);
                    let window = if r.chance(0.3) { 2 * n } else { *r.pick(&ws) };
                    let via = *r.pick(&VIAS);
                    let n_ok = n + n % 2;
                    Req::Mdct { via: if n > 500 && via == MdctVia::Naive { MdctVia::Dct4 } else { via }, n, window, before: r.chance(0.4).then_some(n_ok), user: r.chance(0.3) }
                }
                2 | 3 => {
                    let h = match r.below(3) {
                        0 => 1 << r.range(1, 10),
                        1 => 3 << r.range(0, 8),
                        _ => rand_len(&mut r, 2, 1500),
                    };
                    let q = match r.below(5) {
                        0 => h / 2,
                        1 => h,
                        2 => (h / 4).max(1),
                        3 => (h / 2 + 1).max(1),
                        _ => rand_len(&mut r, 1, 1500),
                    };
                    let (half, quarter) = (Spec::rand_t23(&mut r, h.max(2), 2), Spec::rand_t23(&mut r, q.max(1), 2));
                    Req::Split { half, quarter }
                }
                4 => Req::Valid { spec: rand_any(&mut r, max, 3) },
                5 => Req::Planner {
                    reqs: (0..r.range(1, 12))
                        .map(|_| {
                            let k = *r.pick(&KINDS);
                            (k, rand_len(&mut r, k.min_len(), 600))
                        })
                        .collect(),
                },
                6 => {
                    let k = *r.pick(&KINDS);
                    let max = if k.always_naive() { 3000 } else { 40 * max };
                    Req::Valid { spec: Spec::Planned(k, rand_len(&mut r, k.min_len(), max)) }
                }
                _ => Req::Dct1One { planner: true, warm: r.below(60) },
            });
        }
        reqs.into_iter().map(|req| Case { ty: TYS[r.below(2)], req }).collect()
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let with = |req: Req| Case { req, ..c.clone() };
        let mut v = vec![];
        match &c.req {
            Req::Dct1One { planner, warm } => {
                for w in [0, 1, 2] {
                    if w < *warm {
                        v.push(with(Req::Dct1One { planner: *planner, warm: w }));
                    }
                }
            }
            Req::Mdct { via, n, window, before, user } => {
                if before.is_some() {
                    v.push(with(Req::Mdct { via: *via, n: *n, window: *window, before: None, user: *user }));
                }
                if *user {
                    v.push(with(Req::Mdct { via: *via, n: *n, window: *window, before: *before, user: false }));
                }
                for m in shrink_len(*n, 1, 1) {
                    let w = if *window == 2 * n { 2 * m } else { (*window * m / n).max(0) };
                    for w in [w, (2 * m + *window).saturating_sub(2 * n)] {
                        v.push(with(Req::Mdct { via: *via, n: m, window: w, before: before.map(|b| if b == *n { m } else { b.min(m + m % 2) }), user: *user }));
                    }
                }
            }
            Req::FftBased { obj, fft } => {
                for f in fft.shrinks() {
                    v.push(with(Req::FftBased { obj: *obj, fft: f }));
                }
                for m in shrink_len(fft.len, if *obj == FftObj::Dst1 || *obj == FftObj::S67 { 3 } else { 1 }, 1) {
                    v.push(with(Req::FftBased { obj: *obj, fft: FftSpec { len: m, ..fft.clone() } }));
                }
            }
            Req::Split { half, quarter } => {
                let simple = |n: usize| Spec::Planned(Kind::C2, n);
                if *half != simple(half.len()) || *quarter != simple(quarter.len()) {
                    v.push(with(Req::Split { half: simple(half.len()), quarter: simple(quarter.len()) }));
                }
                for h in shrink_len(half.len(), 2, 1) {
                    v.push(with(Req::Split { half: simple(h), quarter: simple(quarter.len()) }));
                }
                for q in shrink_len(quarter.len(), 1, 1) {
                    v.push(with(Req::Split { half: simple(half.len()), quarter: simple(q) }));
                }
                if half.len() % 2 == 0 && quarter.len() % 2 == 0 {
                    v.push(with(Req::Split { half: simple(half.len() / 2), quarter: simple(quarter.len() / 2) }));
                }
            }
            Req::Valid { spec } => v.extend(spec.shrinks().into_iter().map(|spec| with(Req::Valid { spec }))),
            Req::Planner { reqs } => {
                for i in 0..reqs.len() {
                    let mut w = reqs.clone();
                    w.remove(i);
                    if !w.is_empty() {
                        v.push(with(Req::Planner { reqs: w }));
                    }
                }
                for i in 0..reqs.len() {
                    for m in shrink_len(reqs[i].1, reqs[i].0.min_len(), 1) {
                        let mut w = reqs.clone();
                        w[i].1 = m;
                        v.push(with(Req::Planner { reqs: w }));
                    }
                }
            }
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
