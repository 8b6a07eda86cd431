//! C12: wrong-sized arguments are rejected, nothing outside the slices is touched, the instance stays usable.
use super::*;
use crate::engine::*;
use crate::guard::Padded;
use crate::with_ty;

pub struct P;
/// sizes of the slices handed to one call (kinds: [buffer]; MDCT: [in a, in b, out]; IMDCT: [in, out a, out b])
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Bad {
    sizes: Vec<usize>,
    /// None: the allocating entry point
    scratch: Option<usize>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    spec: Spec,
    call: usize,
    seed: u64,
    /// None: the full list for this object, from `seed`
    only: Option<Bad>,
}
fn bad_list(c: Call, n: usize, s: usize, seed: u64) -> Vec<Bad> {
    let mut r = Rng::new(seed);
    let mut lens: Vec<usize> = vec![0, 1, 2, n / 2, n + 1, n + 2, 2 * n, 3 * n, 4 * n, 2 * n + 1, n + 8, n + 64, n.next_power_of_two(), r.range(0, 3 * n + 3)];
    for d in 1..=4 {
        lens.push(n.saturating_sub(d));
    }
    for d in [2, 3, 4, 8, 16] {
        lens.push(n / d);
    }
    // differences that a check of some of the bits would not see
    lens.extend([n + 256, n + (1 << r.range(3, 13)), n ^ (1 << r.below(8)), n + 32 * r.range(1, 40), n % 256, n % 1024]);
    if r.chance(0.15) {
        lens.push(n + 65536);
    }
    lens.extend(crate::dict::rand_len(&mut r, 20_000));
    lens.retain(|m| *m != n);
    lens.sort();
    lens.dedup();
    let mut shorts: Vec<usize> = vec![];
    if s > 0 {
        shorts.extend([0, s - 1, s / 2, s.saturating_sub(2), n.min(s - 1), (2 * n).min(s - 1), r.below(s), s.saturating_sub(256), s % 256 % s, s % 65_536 % s, s / 3, s.saturating_sub(r.range(1, 40))]);
        shorts.sort();
        shorts.dedup();
    }
    let k = if matches!(c, Call::K(_)) { 1 } else { 3 };
    let mut v = vec![];
    let roomy = s + 4 * n + 40;
    for i in 0..k {
        for m in &lens {
            let mut sizes = vec![n; k];
            sizes[i] = *m;
            for sc in [Some(s), Some(roomy)] {
                v.push(Bad { sizes: sizes.clone(), scratch: sc });
            }
            if k == 1 {
                v.push(Bad { sizes, scratch: None });
            }
        }
    }
    if k == 3 {
        // errors that could cancel out in a check of the total, all wrong together, two wrong together
        for m in &lens {
            v.push(Bad { sizes: vec![*m; 3], scratch: Some(roomy) });
            for (i, j) in [(0, 1), (1, 2), (0, 2)] {
                let mut sizes = vec![n; 3];
                sizes[i] = *m;
                sizes[j] = *m;
                v.push(Bad { sizes: sizes.clone(), scratch: Some(s) });
                if *m <= 2 * n {
                    sizes[j] = 2 * n - *m;
                    v.push(Bad { sizes: sizes.clone(), scratch: Some(s) });
                    sizes.swap(i, j);
                    v.push(Bad { sizes, scratch: Some(s) });
                }
            }
        }
    }
    for q in shorts {
        v.push(Bad { sizes: vec![n; k], scratch: Some(q) });
        if let Some(m) = lens.last() {
            let mut sizes = vec![n; k];
            sizes[0] = *m;
            v.push(Bad { sizes, scratch: Some(q) });
        }
    }
    v
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    // the tables inside the instance end at inaccessible pages, too
    let before = crate::alloc::fenced();
    let p: Plan<T> = {
        let _fence = (c.spec.len() <= 5000).then(crate::alloc::fence);
        c.spec.build()
    };
    if crate::alloc::fenced() > before {
        info.tag("fenced-tables");
    }
    let cs = calls(&p);
    let call = cs[c.call % cs.len()];
    let (n, s) = (p.len(), p.scratch());
    let x: Vec<T> = Sig::Uniform { seed: c.seed, exp: 0 }.gen(call.in_len(n));
    let prior: Vec<T> = Sig::Uniform { seed: c.seed ^ 5, exp: 0 }.gen(2 * n);
    let base = run_call(&p, call, &x, &prior, &mut vec![T::zero(); s]);
    let list = match &c.only {
        Some(b) => vec![b.clone()],
        None => bad_list(call, n, s, c.seed),
    };
    for b in &list {
        let what = || format!("{:?} of {} (length {}, scratch requirement {}) called with slices of {:?} and scratch {:?}", call, c.spec.tag(), n, s, b.sizes, b.scratch);
        let mut bufs: Vec<Padded<T>> = b.sizes.iter().enumerate().map(|(i, m)| Padded::new(&Sig::Uniform { seed: c.seed ^ i as u64, exp: 0 }.gen::<T>(*m), i, 7.0)).collect();
        let mut scr: Padded<T> = Padded::new(&vec![T::zero(); b.scratch.unwrap_or(0)], 3, 7.0);
        let r = panics(|| match call {
            Call::K(k) => match b.scratch {
                None => p.run_alloc(k, bufs[0].get()),
                Some(_) => p.run(k, bufs[0].get(), scr.get()),
            },
            Call::Mdct => {
                let (i, o) = bufs.split_at_mut(2);
                p.mdct().process_mdct_with_scratch(i[0].view(), i[1].view(), o[0].get(), scr.get())
            }
            Call::Imdct => {
                let (i, o) = bufs.split_at_mut(1);
                let (oa, ob) = o.split_at_mut(1);
                p.mdct().process_imdct_with_scratch(i[0].view(), oa[0].get(), ob[0].get(), scr.get())
            }
        });
        if r.is_ok() {
            return Err(format!("{} returned instead of panicking [{}]", what(), serde_json::to_string(b).unwrap()));
        }
        for (i, q) in bufs.iter().enumerate().chain([(99, &scr)]) {
            if let Some(off) = q.damaged() {
                return Err(format!("{} wrote to element {} relative to the start of {}", what(), off, if i == 99 { "scratch".to_string() } else { format!("slice {}", i) }));
            }
        }
        info.checks += 1;
    }
    let again = match panics(|| run_call(&p, call, &x, &prior, &mut vec![T::zero(); s])) {
        Ok(v) => v,
        Err(m) => return Err(format!("after rejected calls a valid {:?} of {} (length {}) panicked: {}", call, c.spec.tag(), n, m)),
    };
    if let Some(k) = bits_eq(&base, &again) {
        return Err(format!("after rejected calls {:?} of {} (length {}) gives {:e} at output {} instead of {:e}", call, c.spec.tag(), n, again[k].f(), k, base[k].f()));
    }
    info.nontrivial = info.checks > 0;
    info.tag(c.spec.tag());
    info.tag(len_tag(n));
    info.tag(format!("{:?}", call));
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, object, entry point, seed of the wrong sizes): a list of calls with one or more wrong slice sizes (0, 1, n-1, n+1, halves, multiples, compensating pairs for the MDCT) or short scratch; each must panic, leave the guard zones around every slice intact, and a valid call afterwards must give the same bits as before. checks = number of wrong calls. Non-trivial: at least one wrong call."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C12", round);
        let mut out = vec![];
        if round == 0 {
            for n in 1..=ctx.n(70).max(50) {
                for spec in all_families(&mut r, n) {
                    let k = calls(&spec.build::<f32>()).len();
                    for call in 0..k {
                        out.push(Case { ty: *r.pick(&TYS), spec: spec.clone(), call, seed: r.u64() >> 12, only: None });
                    }
                }
            }
        }
        if round == 0 {
            for spec in dict_specs(&mut r, 1500, 100_000, ctx.n(30)) {
                for call in 0..2 {
                    out.push(Case { ty: *r.pick(&TYS), spec: spec.clone(), call: 2 * call + r.below(2), seed: r.u64() >> 12, only: None });
                }
            }
        }
        for i in 0..ctx.n(1500) {
            let max = *r.pick(&[40usize, 130, 300, 700]);
            out.push(Case { ty: TYS[i % 2], spec: rand_any(&mut r, max, 3), call: r.below(4), seed: r.u64() >> 12, only: None });
        }
        // long instances
        for i in 0..ctx.n(40) {
            let k = KINDS[i % 16];
            let n = if k.always_naive() { rand_len(&mut r, 1000, 2500) } else { large_len(&mut r, 1000, 150_000) };
            let spec = if i % 4 == 0 {
                let w = BUILTIN[r.below(6)].clone();
                Spec::PlannedMdct(n / 2 * 2, w)
            } else {
                Spec::Planned(k, n)
            };
            out.push(Case { ty: TYS[i % 2], spec, call: r.below(4), seed: r.u64() >> 12, only: None });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for spec in c.spec.shrinks() {
            v.push(Case { spec, only: None, ..c.clone() });
        }
        if c.only.is_none() {
            let n = c.spec.len();
            let p: Plan<f64> = c.spec.build();
            let cs = calls(&p);
            for b in bad_list(cs[c.call % cs.len()], n, p.scratch(), c.seed) {
                v.push(Case { only: Some(b), ..c.clone() });
            }
        }
        v
    }
}
