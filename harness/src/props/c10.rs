//! C10: what a planner returns depends only on the request.
use super::*;
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Req {
    Plan(Kind, usize),
    Mdct(usize, Win),
    /// the window function itself plans and runs transforms, among them an MDCT of this length
    BusyMdct(usize, Win),
    /// rejected: odd length, or a window function returning the wrong number of values
    BadMdct(usize, i32),
    BadDct1,
    /// the user's window function panics
    PanickingWindow(usize),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    reqs: Vec<Req>,
    /// check each instance right away (true) or after all requests and after dropping the planner
    eager: bool,
    seed: u64,
    /// every other request is made on another thread
    #[serde(default)]
    hand: bool,
}
fn check_one<T: Real>(p: &Plan<T>, req: &Req, seed: u64, info: &mut Info, ctx: &str) -> Result<(), String> {
    match req {
        Req::Plan(k, n) => {
            check_len(p, *n, &format!("planned {:?}", k)).map_err(|m| format!("{} {}", m, ctx))?;
            let kinds = kinds_of_entry(*k);
            let k = kinds[(seed % kinds.len() as u64) as usize];
            let x: Vec<T> = Sig::Uniform { seed, exp: 0 }.gen(*n);
            let mut b = x.clone();
            p.run_zero(k, &mut b);
            let w = compare(&Oracle::of(k, *n), k, &x, &b, *n).map_err(|m| format!("{} {}", m, ctx))?;
            info.worst(w);
        }
        Req::Mdct(n, w) | Req::BusyMdct(n, w) => {
            check_len(p, *n, "planned MDCT").map_err(|m| format!("{} {}", m, ctx))?;
            let win: Vec<T> = w.make(2 * n);
            let x: Vec<T> = Sig::Uniform { seed, exp: 0 }.gen(2 * n);
            let mut s = vec![T::zero(); p.scratch()];
            if seed % 2 == 0 {
                let mut o = vec![T::zero(); *n];
                p.mdct().process_mdct_with_scratch(&x[..*n], &x[*n..], &mut o, &mut s);
                info.worst(super::c04::compare_mdct(*n, &win, &x, &o, *n).map_err(|m| format!("window {:?}: {} {}", w, m, ctx))?);
            } else {
                let mut o = vec![T::zero(); 2 * n];
                let (a, b) = o.split_at_mut(*n);
                p.mdct().process_imdct_with_scratch(&x[..*n], a, b, &mut s);
                info.worst(super::c04::compare_imdct(*n, &win, &x[..*n], &vec![T::zero(); 2 * n], &o, *n).map_err(|m| format!("window {:?}: {} {}", w, m, ctx))?);
            }
        }
        _ => {}
    }
    info.checks += 1;
    Ok(())
}
fn request<T: Real>(pl: &mut DctPlanner<T>, i: usize, q: &Req, held: &mut Vec<(usize, Plan<T>)>, info: &mut Info) {
    match q {
        Req::Plan(k, n) => {
            held.push((i, plan_kind(pl, *k, *n)));
            info.tag(format!("{:?}", k));
        }
        Req::Mdct(n, w) => {
            held.push((i, Plan::M(pl.plan_mdct(*n, |s| w.make(s)))));
            info.tag("mdct");
        }
        Req::BusyMdct(n, w) => {
            held.push((
                i,
                Plan::M(pl.plan_mdct(*n, |s| {
                    nested::<T>(*n);
                    let m = DctPlanner::<T>::new().plan_mdct(*n, |k| vec![T::two(); k]);
                    let mut o = vec![T::zero(); *n];
                    m.process_mdct_with_scratch(&vec![T::one(); *n], &vec![T::one(); *n], &mut o, &mut vec![T::zero(); m.get_scratch_len()]);
                    w.make(s)
                })),
            ));
            info.tag("busy-window-function");
        }
        Req::BadMdct(n, d) => {
            let _ = panics(|| pl.plan_mdct(*n, |s| vec![T::one(); (s as i64 + *d as i64).max(0) as usize]));
            info.tag("rejected-request");
        }
        Req::PanickingWindow(n) => {
            let _ = panics(|| pl.plan_mdct(*n, |_| -> Vec<T> { panic!("user window function failed") }));
            info.tag("panicking-window");
        }
        Req::BadDct1 => {
            let _ = panics(|| pl.plan_dct1(1));
            info.tag("rejected-request");
        }
    }
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let mut pl = DctPlanner::<T>::new();
    let mut held: Vec<(usize, Plan<T>)> = vec![];
    for (i, q) in c.reqs.iter().enumerate() {
        if c.hand && i % 2 == 1 {
            // a fresh thread each time
            let (pl, held, info) = (&mut pl, &mut held, &mut info);
            std::thread::scope(|s| {
                s.spawn(move || {
                    request(pl, i, q, held, info);
                    if let (true, Some((j, p))) = (c.eager, held.last()) {
                        if *j == i {
                            return check_one(p, q, c.seed ^ 77, info, &format!("(request {} of one planner, made and used on another thread)", i));
                        }
                    }
                    Ok(())
                })
                .join()
                .unwrap_or_else(|e| std::panic::resume_unwind(e))
            })?;
        } else {
            request(&mut pl, i, q, &mut held, &mut info);
        }
        if c.eager {
            if let Some((j, p)) = held.last() {
                if *j == i {
                    check_one(p, q, c.seed.wrapping_add(i as u64), &mut info, &format!("(request {} of one planner)", i))?;
                }
            }
        }
    }
    let total = held.len();
    if !c.eager {
        drop(pl);
        let mut r = Rng::new(c.seed);
        r.shuffle(&mut held);
        // instances are dropped one by one; each must work with everything before it gone
        let mut it = held.into_iter();
        while let Some((i, p)) = it.next() {
            check_one(&p, &c.reqs[i], c.seed.wrapping_add(i as u64), &mut info, &format!("(request {} of one planner, since dropped)", i))?;
            drop(p);
        }
    }
    info.nontrivial = total >= 2;
    if c.hand {
        info.tag("planner-moved-between-threads");
    }
    info.tag(if c.eager { "checked-at-once" } else { "checked-after-planner-dropped" });
    Ok(info)
}
fn rand_req(r: &mut Rng, pool: &[usize]) -> Req {
    let n = *r.pick(pool);
    match r.below(12) {
        0..=2 => {
            let m = (n + n % 2).max(2);
            if r.chance(0.1) {
                return Req::BusyMdct(m, Win::random(r));
            }
            Req::Mdct(m, Win::random(r))
        }
        3 if r.chance(0.6) => match r.below(4) {
            0 => Req::BadMdct(2 * n + 1, 0),
            1 => Req::BadMdct((n + n % 2).max(2), if r.chance(0.5) { -1 } else { 1 }),
            2 => Req::PanickingWindow((n + n % 2).max(2)),
            _ => Req::BadDct1,
        },
        _ => {
            let k = *r.pick(&KINDS);
            Req::Plan(k, n.max(k.min_len()))
        }
    }
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, sequence of planning requests incl. rejected ones, panicking window functions and window functions that plan and run transforms themselves, the planner staying on one thread or moving between threads, check at once or after dropping the planner); every returned instance is compared with the definition of exactly its own request. Non-trivial: at least two successful requests on one planner."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C10", round);
        let mut out = vec![];
        if round == 0 {
            // ordered pairs of requests at related lengths
            for n in 2..=ctx.n(40) {
                for &a in &KINDS {
                    for &b in &KINDS {
                        if (a as usize * 16 + b as usize + n) % 3 != 0 && n > 12 {
                            continue;
                        }
                        for m in [n, n / 2, 2 * n, n + 1, n - 1, 2 * n + 1, 2 * (n - 1), 2 * (n + 1)] {
                            if m < a.min_len() || (m + n + a as usize) % 4 != 0 {
                                continue;
                            }
                            out.push(Case { ty: TYS[(n + m) % 2], reqs: vec![Req::Plan(a, m), Req::Plan(b, n), Req::Plan(a, m)], eager: (n + m) % 2 == 0, seed: r.u64() >> 12, hand: false });
                        }
                    }
                }
            }
            // two windows for one MDCT length, every pair of built-ins and own windows
            for n in (2..=ctx.n(60)).step_by(2) {
                for _ in 0..6 {
                    let a = Win::random(&mut r);
                    let b = if r.chance(0.4) { Win::tweak(&mut r, &a) } else { Win::random(&mut r) };
                    let mut reqs = vec![Req::Mdct(n, a.clone()), Req::Mdct(n, b), Req::Mdct(n, a)];
                    if r.chance(0.5) {
                        reqs.insert(r.below(3), rand_req(&mut r, &[n, 2 * n, n / 2]));
                    }
                    out.push(Case { ty: *r.pick(&TYS), reqs, eager: r.chance(0.5), seed: r.u64() >> 12, hand: false });
                }
            }
        }
        for i in 0..ctx.n(3000) {
            let ty = TYS[i % 2];
            let max = *r.pick(&[10usize, 40, 130, 300, 1100]);
            // a few base lengths and everything a planner derives from them
            let mut pool = vec![];
            for _ in 0..r.range(1, 3) {
                let n = rand_len(&mut r, 1, max);
                pool.extend([n, n, 2 * n, n / 2 + 1, (n / 2).max(1), (n / 4).max(1), n + 1, n.max(2) - 1, 2 * n + 1, 2 * n.max(2) - 2, 2 * n + 2]);
            }
            if r.chance(0.3) {
                pool.extend((0..11).map(|e| 1usize << e));
            }
            let count = r.range(2, if max > 200 { 8 } else { 25 });
            let mut reqs: Vec<Req> = (0..count).map(|_| rand_req(&mut r, &pool)).collect();
            // the window of an earlier request with a small change
            for j in 0..reqs.len() {
                if let Req::Mdct(n, w) = reqs[j].clone() {
                    if r.chance(0.3) {
                        reqs.push(Req::Mdct(n, Win::tweak(&mut r, &w)));
                    }
                }
            }
            out.push(Case { ty, reqs, eager: r.chance(0.5), seed: r.u64() >> 12, hand: false });
        }
        // long lengths, and lengths that agree in their low bits
        for i in 0..ctx.n(12) {
            let n = large_len(&mut r, 1100, if i % 4 == 0 { 140_000 } else { 9_000 });
            let mut pool = vec![n, n, 2 * n, n / 2, n / 4 * 4 + 4];
            let m = r.range(1, 600);
            pool.extend([m, m + 256, m + 65_536, m + 1024]);
            let reqs: Vec<Req> = (0..r.range(4, 9))
                .map(|_| loop {
                    let q = rand_req(&mut r, &pool);
                    match &q {
                        Req::Plan(k, n) if k.always_naive() && *n > 2000 => continue,
                        _ => break q,
                    }
                })
                .collect();
            out.push(Case { ty: TYS[i % 2], reqs, eager: r.chance(0.5), seed: r.u64() >> 12, hand: false });
        }
        // lengths suggested by numbers in the source, and how many requests may matter
        if round == 0 {
            for n in crate::dict::lens(101, 60_000, ctx.n(40)) {
                let pool = vec![n, n, 2 * n, n / 2, n + 1, n - 1];
                for _ in 0..2 {
                    let reqs: Vec<Req> = (0..r.range(3, 7))
                        .map(|_| loop {
                            let q = rand_req(&mut r, &pool);
                            match &q {
                                Req::Plan(k, n) if k.always_naive() && *n > 2000 => continue,
                                _ => break q,
                            }
                        })
                        .collect();
                    out.push(Case { ty: *r.pick(&TYS), reqs, eager: r.chance(0.5), seed: r.u64() >> 12, hand: false });
                }
            }
            for c in crate::dict::counts(5000).into_iter().take(ctx.n(12)) {
                let pool: Vec<usize> = (1..=40).collect();
                let mut reqs: Vec<Req> = (0..c).map(|_| rand_req(&mut r, &pool)).collect();
                reqs.extend((0..20).map(|_| rand_req(&mut r, &pool)));
                out.push(Case { ty: *r.pick(&TYS), reqs, eager: true, seed: r.u64() >> 12, hand: false });
            }
        }
        // many requests on one planner
        for i in 0..ctx.n(6) {
            let pool: Vec<usize> = (1..=70).collect();
            let reqs: Vec<Req> = (0..1500).map(|_| rand_req(&mut r, &pool)).collect();
            out.push(Case { ty: TYS[i % 2], reqs, eager: i % 4 < 2, seed: r.u64() >> 12, hand: false });
        }
        for c in out.iter_mut() {
            c.hand = c.reqs.len() <= 30 && r.chance(0.15);
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let m = c.reqs.len();
        let mut chunk = m / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < m {
                let mut reqs = c.reqs.clone();
                reqs.drain(i..(i + chunk).min(m));
                if !reqs.is_empty() {
                    v.push(Case { reqs, ..c.clone() });
                }
                i += chunk;
            }
            chunk /= 2;
        }
        if !c.eager {
            v.push(Case { eager: true, ..c.clone() });
            if c.hand {
                v.push(Case { hand: false, ..c.clone() });
            }
        }
        if m <= 6 {
            for i in 0..m {
                let mut alts: Vec<Req> = vec![];
                match &c.reqs[i] {
                    Req::Plan(k, n) => alts.extend(shrink_len(*n, k.min_len(), 1).into_iter().map(|x| Req::Plan(*k, x))),
                    Req::Mdct(n, w) => {
                        alts.extend(shrink_len(*n, 2, 2).into_iter().map(|x| Req::Mdct(x, w.clone())));
                        for w2 in [Win::One, Win::Mp3] {
                            if *w != w2 && *w != Win::One {
                                alts.push(Req::Mdct(*n, w2));
                            }
                        }
                    }
                    _ => {}
                }
                for a in alts {
                    // change all requests of the same length together as well
                    let mut reqs = c.reqs.clone();
                    if let (Req::Mdct(n0, _), Req::Mdct(n1, _)) = (&c.reqs[i], &a) {
                        if n0 != n1 {
                            for q in reqs.iter_mut() {
                                if let Req::Mdct(x, _) = q {
                                    if x == n0 {
                                        *x = *n1;
                                    }
                                }
                            }
                        }
                    }
                    reqs[i] = a;
                    v.push(Case { reqs, ..c.clone() });
                }
            }
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
