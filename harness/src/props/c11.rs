//! C11: planners re-use their own data and share nothing with other planners (counting allocator).
use super::*;
use crate::alloc::{snap, Snap};
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Req {
    K(Kind, usize),
    M(usize, Win),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// requests in order on one planner; each one that repeats an earlier one must allocate (almost) nothing
    Replan(Vec<Req>),
    /// the same, every instance dropped as soon as it has been handed out
    ReplanDropped(Vec<Req>),
    /// the second request after the first re-uses what the first built
    Share(Req, Req),
    /// the same request on two planners
    Separate(Req),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    ty: Ty,
    what: What,
}
const SLACK: i64 = 4096;

impl Req {
    pub fn len(&self) -> usize {
        match self {
            Req::K(_, n) | Req::M(n, _) => *n,
        }
    }
    pub fn with_len(&self, n: usize) -> Req {
        match self {
            Req::K(k, _) => Req::K(*k, n),
            Req::M(_, w) => Req::M(n, w.clone()),
        }
    }
    /// what a repeated request of this one is: the planner documents one instance for a whole family
    fn key(&self) -> (Vec<Kind>, usize) {
        match self {
            Req::K(k, n) => (kinds_of_entry(*k).to_vec(), *n),
            Req::M(n, _) => (vec![], *n),
        }
    }
    pub fn plan<T: Real>(&self, p: &mut DctPlanner<T>) -> (Plan<T>, Snap, Snap) {
        match self {
            Req::K(k, n) => {
                let a = snap();
                let r = plan_kind(p, *k, *n);
                (r, a, snap())
            }
            Req::M(n, w) => {
                // the window is the caller's allocation: made before the measurement, handed over inside it
                let w: Vec<T> = w.make(2 * n);
                let w = w.into_boxed_slice().into_vec();
                let a = snap();
                let r = p.plan_mdct(*n, move |_| w);
                (Plan::M(r), a, snap())
            }
        }
    }
    /// bytes that building an object of this length may copy even when everything else is re-used: the window
    fn window_bytes<T>(&self) -> i64 {
        match self {
            Req::M(n, _) => (2 * n * std::mem::size_of::<T>()) as i64,
            _ => 0,
        }
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    match &c.what {
        What::Replan(reqs) | What::ReplanDropped(reqs) => {
            let hold = matches!(c.what, What::Replan(_));
            let mut p = DctPlanner::<T>::new();
            let mut seen: Vec<(Vec<Kind>, usize)> = vec![];
            let mut keep = vec![];
            for (i, q) in reqs.iter().enumerate() {
                let (plan, a, b) = q.plan(&mut p);
                let bytes = (b.bytes - a.bytes) as i64;
                let live = b.live - a.live;
                if seen.contains(&q.key()) {
                    // an MDCT may hold a copy of the window it was handed, but then in place of the original
                    let allow = SLACK + q.window_bytes::<T>();
                    if bytes > allow || live > SLACK {
                        return Err(format!("request {} ({:?}) repeats an earlier request on the same planner but allocates {} bytes ({} more kept than before), {} ({}) allowed", i, q, bytes, live, allow, SLACK));
                    }
                    info.nontrivial = true;
                    info.checks += 1;
                    info.worst(bytes as f64 / allow as f64);
                } else {
                    seen.push(q.key());
                }
                check_len(&plan, q.len(), "a planned instance")?;
                if hold {
                    keep.push(plan);
                }
            }
            info.tag(if hold { "replan" } else { "replan-after-drop" });
        }
        What::Share(x, y) => {
            let (keep, a, b) = x.plan(&mut DctPlanner::<T>::new());
            let lx = b.live - a.live - x.window_bytes::<T>();
            drop(keep);
            let (keep, a, b) = y.plan(&mut DctPlanner::<T>::new());
            let ly = b.live - a.live;
            drop(keep);
            let mut p = DctPlanner::<T>::new();
            let k1 = x.plan(&mut p);
            let (k2, a, b) = y.plan(&mut p);
            let l = b.live - a.live;
            // everything the first request kept is there already
            let allow = ly - lx + lx / 50 + SLACK;
            if l > allow {
                return Err(format!(
                    "planning {:?} keeps {} bytes on a fresh planner and {} bytes on one that has already planned {:?} (which kept {}): the inner data is not re-used",
                    y, ly, l, x, lx
                ));
            }
            info.nontrivial = lx > 2 * SLACK;
            info.checks += 1;
            drop((k1, k2));
            info.tag("share");
        }
        What::Separate(q) => {
            let mut p1 = DctPlanner::<T>::new();
            let (k1, a, b) = q.plan(&mut p1);
            let first = b.live - a.live;
            let mut p2 = DctPlanner::<T>::new();
            let (k2, a, b) = q.plan(&mut p2);
            let second = b.live - a.live;
            if (second as f64) < 0.75 * first as f64 - SLACK as f64 {
                return Err(format!("{:?} keeps {} bytes on the first planner but only {} bytes on a second, independent one: the planners share data", q, first, second));
            }
            info.nontrivial = first > 4 * SLACK;
            info.checks += 1;
            drop((k1, k2));
            info.tag("separate");
        }
    }
    Ok(info)
}
/// (inner request, outer request that contains it)
fn share_pair(r: &mut Rng, n: usize) -> (Req, Req) {
    let w = || BUILTIN[0].clone();
    let k2 = *r.pick(&[Kind::C2, Kind::C3, Kind::S2, Kind::S3]);
    let k4 = *r.pick(&[Kind::C4, Kind::S4]);
    match r.below(5) {
        0 => (Req::K(k2, n), Req::K(k4, 2 * n)),
        1 => (Req::K(k4, 2 * n), Req::M(2 * n, w())),
        2 => (Req::K(k2, n), Req::M(2 * n, w())),
        3 => {
            let m = n.next_power_of_two();
            (Req::K(k2, m), Req::K(*r.pick(&[Kind::C2, Kind::C3, Kind::S2, Kind::S3]), 2 * m))
        }
        _ => {
            let m = n.next_power_of_two();
            (Req::K(k2, m), Req::K(k4, 4 * m))
        }
    }
}
fn big_len(r: &mut Rng) -> usize {
    loop {
        let n = rand_len(r, 1500, 60000);
        if n >= 1500 {
            return n;
        }
    }
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, planning requests at large lengths): (a) a sequence on one planner (instances kept, or dropped at once) where every repeated request (same transform family and length; for MDCTs with any window, built by the caller) may allocate at most 4 KiB plus one copy of the window; (b) an inner request followed by an outer one that contains it must keep fewer bytes than the outer one alone, by (98% of) what the inner one keeps; (c) the same request on a second planner must keep at least 75% of the bytes the first kept. Non-trivial: a repeated request occurred, or the measured data is larger than the slack."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C11", round);
        let mut out = vec![];
        if round == 0 {
            // separate planners first: later cases would hide a process-wide cache for the few power-of-two lengths
            for e in [17, 16, 15, 14, 13, 12, 11] {
                for ty in TYS {
                    out.push(Case { ty, what: What::Separate(Req::K(Kind::C2, 1 << e)) });
                    out.push(Case { ty, what: What::Separate(Req::M(1 << e, Win::Mp3)) });
                }
            }
            for ty in TYS {
                for k in KINDS {
                    for n in [1500 + r.below(2000), 5000 + r.below(5000), 4096] {
                        out.push(Case { ty, what: What::Separate(Req::K(k, n)) });
                        out.push(Case { ty, what: What::ReplanDropped(kinds_of_entry(k).iter().chain(kinds_of_entry(k)).map(|k| Req::K(*k, n)).collect()) });
                        out.push(Case { ty, what: What::Replan(kinds_of_entry(k).iter().chain(kinds_of_entry(k)).map(|k| Req::K(*k, n)).collect()) });
                    }
                }
                for _ in 0..8 {
                    let n = 2 * (800 + r.below(5000));
                    out.push(Case { ty, what: What::Separate(Req::M(n, Win::random(&mut r))) });
                    out.push(Case { ty, what: What::Replan(vec![Req::M(n, Win::Mp3), Req::M(n, Win::Mp3), Req::M(n, Win::Vorbis), Req::M(n, Win::One), Req::M(n, Win::Mp3)]) });
                }
            }
        }
        if round == 0 {
            // a request is still remembered after many others
            let mut counts = vec![20, 40, 80, 140, 300, 600];
            counts.extend(crate::dict::counts(20_000));
            for count in counts {
                for family in 0..3 {
                    let firsts: Vec<Req> = [Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::S6, Kind::C5, Kind::S5, Kind::C6, Kind::C8, Kind::S8].iter().map(|k| Req::K(*k, 1500 + r.below(1000))).collect();
                    let firsts: Vec<Req> = firsts.into_iter().chain([Req::M(2048 + 2 * r.below(100), Win::Mp3)]).collect();
                    let mut v = firsts.clone();
                    for j in 0..count {
                        v.push(match family {
                            0 => Req::K(Kind::C2, 2 + j % 1400),
                            1 => Req::M(2 + 2 * (j % 700), Win::One),
                            _ => Req::K(KINDS[j % 16], 2 + j / 16),
                        });
                    }
                    // latest first: what a request evicts must not hide the rest
                    v.extend(firsts.into_iter().rev());
                    let what = if r.chance(0.5) { What::Replan(v) } else { What::ReplanDropped(v) };
                    out.push(Case { ty: *r.pick(&TYS), what });
                }
            }
            for n in crate::dict::lens(1200, 100_000, ctx.n(20)) {
                let ty = *r.pick(&TYS);
                for k in KINDS {
                    if k.always_naive() && n > 50_000 {
                        continue;
                    }
                    out.push(Case { ty, what: What::Separate(Req::K(k, n)) });
                    out.push(Case { ty, what: What::ReplanDropped(kinds_of_entry(k).iter().chain(kinds_of_entry(k)).map(|k| Req::K(*k, n)).collect()) });
                }
                let m = n / 2 * 2;
                out.push(Case { ty, what: What::Separate(Req::M(m, Win::Mp3)) });
                out.push(Case { ty, what: What::Replan(vec![Req::M(m, Win::Mp3), Req::M(m, Win::Vorbis), Req::M(m, Win::Mp3)]) });
                for _ in 0..4 {
                    let (x, y) = share_pair(&mut r, n);
                    out.push(Case { ty, what: What::Share(x, y) });
                }
            }
        }
        for i in 0..ctx.n(900) {
            let ty = *r.pick(&TYS);
            let what = match i % 4 {
                0 => {
                    let n = big_len(&mut r);
                    What::Separate(if r.chance(0.25) { Req::M(2 * n, Win::Mp3) } else { Req::K(*r.pick(&KINDS), n) })
                }
                1 => {
                    let n = big_len(&mut r) / 2 + 1000;
                    let (x, y) = share_pair(&mut r, n);
                    What::Share(x, y)
                }
                _ => {
                    // a history with repeats, with other requests (also rejected kinds of lengths) between them
                    let pool: Vec<Req> = (0..r.range(1, 4))
                        .map(|_| {
                            let n = big_len(&mut r) / 2;
                            if r.chance(0.25) {
                                Req::M(2 * n, Win::Mp3)
                            } else {
                                Req::K(*r.pick(&KINDS), n)
                            }
                        })
                        .collect();
                    let mut v = vec![];
                    for _ in 0..r.range(3, 10) {
                        let q = r.pick(&pool).clone();
                        v.push(match (&q, r.below(4)) {
                            (Req::K(k, n), 0) => Req::K(*r.pick(kinds_of_entry(*k)), *n),
                            (Req::M(n, _), 0) => Req::M(*n, BUILTIN[r.below(6)].clone()),
                            (_, 1) => q.with_len(q.len() / 4 * 2 + 2),
                            _ => q,
                        });
                    }
                    if r.chance(0.5) {
                        What::Replan(v)
                    } else {
                        What::ReplanDropped(v)
                    }
                }
            };
            out.push(Case { ty, what });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mk = |w: What| Case { ty: c.ty, what: w };
        match &c.what {
            What::Replan(q) | What::ReplanDropped(q) => {
                let again = |d: Vec<Req>| if matches!(c.what, What::Replan(_)) { What::Replan(d) } else { What::ReplanDropped(d) };
                let mut chunk = q.len() / 2;
                while chunk > 4 {
                    let mut i = 0;
                    while i < q.len() {
                        let mut d = q.clone();
                        d.drain(i..(i + chunk).min(q.len()));
                        v.push(mk(again(d)));
                        i += chunk;
                    }
                    chunk /= 2;
                }
                for i in 0..q.len() {
                    let mut d = q.clone();
                    d.remove(i);
                    if !d.is_empty() {
                        v.push(mk(again(d)));
                    }
                }
                let n = q[0].len();
                for m in [600, 1000, 1500] {
                    if m < n {
                        v.push(mk(again(q.iter().map(|x| if x.len() == n { x.with_len(m) } else { x.clone() }).collect())));
                    }
                }
            }
            What::Separate(q) => {
                for m in [1500, 2048, 3000, 4096] {
                    if m < q.len() {
                        v.push(mk(What::Separate(q.with_len(m))));
                    }
                }
            }
            What::Share(x, y) => {
                if x.len() % 2 == 0 && x.len() > 1024 {
                    v.push(mk(What::Share(x.with_len(x.len() / 2), y.with_len(y.len() / 2))));
                }
            }
        }
        v
    }
}
