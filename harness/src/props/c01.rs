//! C01 / C02: planned transforms equal their definition.
use super::*;
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;
use serde::{Deserialize, Serialize};

pub struct P {
    pub id: &'static str,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    entry: Kind,
    kinds: Vec<Kind>,
    len: usize,
    sigs: Vec<Sig>,
    alloc: bool,
}
const E1: [Kind; 8] = [Kind::C1, Kind::S1, Kind::C2, Kind::C3, Kind::S2, Kind::S3, Kind::C4, Kind::S4];
const E2: [Kind; 8] = [Kind::C5, Kind::S5, Kind::C6, Kind::C7, Kind::S6, Kind::S7, Kind::C8, Kind::S8];

fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = plan_kind(&mut DctPlanner::new(), c.entry, c.len);
    check_len(&p, c.len, &format!("planned {:?}", c.entry))?;
    for &k in &c.kinds {
        let orc = Oracle::of(k, c.len);
        for s in &c.sigs {
            let x: Vec<T> = s.gen(c.len);
            let mut b = x.clone();
            if c.alloc {
                p.run_alloc(k, &mut b);
            } else {
                p.run_zero(k, &mut b);
            }
            // switching to or from the O(n^2) algorithm at small sizes is a tuning decision
            let naive_n = if k.always_naive() || c.len <= 128 { c.len } else { 0 };
            let w = compare(&orc, k, &x, &b, naive_n).map_err(|m| format!("planned via plan_{:?}: {} [input {:?}]", c.entry, m, s))?;
            info.worst(w);
            info.checks += 1;
            info.nontrivial |= c.len >= 2 && x.iter().any(|v| v.f() != 0.0);
            info.tag(s.tag());
        }
        info.tag(format!("{:?}", k));
    }
    info.tag(len_tag(c.len));
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}

impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "case = (number type, planner method, length, kinds, input signals); the planned instance's output is compared with the defining sum. Non-trivial: length >= 2 and at least one non-zero input. Systematic: every length up to a limit for every planner method and both types; random: primes, powers of two and neighbours, composites, up to tens of thousands."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng(self.id, round);
        let one = self.id == "C01";
        let entries = if one { E1 } else { E2 };
        let mut out = vec![];
        let sigs = |r: &mut Rng, n: usize, ty: Ty, m: usize| -> Vec<Sig> {
            let mut v = vec![Sig::Uniform { seed: r.u64() >> 12, exp: 0 }];
            while v.len() < m {
                v.push(Sig::random(r, n, ty));
            }
            v
        };
        if round == 0 {
            let top = if one { ctx.n(1100) } else { ctx.n(520) };
            for n in 1..=top {
                for (ei, &entry) in entries.iter().enumerate() {
                    if n < entry.min_len() {
                        continue;
                    }
                    let kinds = kinds_of_entry(entry);
                    // beyond the small lengths, rotate between the equivalent planner methods
                    let class: Vec<usize> = (0..8).filter(|j| kinds.contains(&entries[*j])).collect();
                    if n > 70 && class[n % class.len()] != ei {
                        continue;
                    }
                    for ty in TYS {
                        let m = if n <= 70 { 4 } else { 2 };
                        let mut s = sigs(&mut r, n, ty, m);
                        if n <= 40 {
                            // a basis of the input space settles a linear map
                            s.extend((0..n).map(|i| Sig::Impulse { pos: i, amp: 1.0 }));
                        }
                        s.extend((0..if n <= 70 { 10 } else { 1 }).map(|_| Sig::structured(&mut r, n)));
                        s.extend(Sig::exhaustive(n));
                        out.push(Case { ty, entry, kinds: kinds.to_vec(), len: n, sigs: s, alloc: n % 2 == 0 });
                    }
                }
            }
        }
        let total = ctx.n(if one { 1600 } else { 900 });
        for i in 0..total {
            let ty = TYS[i % 2];
            let entry = *r.pick(&entries);
            let kinds = kinds_of_entry(entry);
            let slow = entry.always_naive();
            let max = match (slow, ctx.thorough()) {
                (true, false) => 3000,
                (true, true) => 6000,
                (false, false) => 20000,
                (false, true) => 100000,
            };
            let n = rand_len(&mut r, entry.min_len(), max);
            let kinds = if n > 3000 { vec![*r.pick(kinds)] } else { kinds.to_vec() };
            let s = sigs(&mut r, n, ty, 2);
            out.push(Case { ty, entry, kinds, len: n, sigs: s, alloc: r.chance(0.5) });
        }
        if round == 0 {
            // beyond 2^16: index arithmetic that does not fit 16 (or, squared, 32) bits
            for i in 0..ctx.n(8) {
                let ty = TYS[i % 2];
                let (entry, n) = if one {
                    let (lo, hi) = if i % 2 == 0 { (65_500, 200_000) } else { (1 << 17, if ctx.thorough() { 1 << 21 } else { 1 << 20 }) };
                    ([Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::S2, Kind::C3, Kind::S4, Kind::S3][i % 8], large_len(&mut r, lo, hi))
                } else if i % 2 == 0 {
                    ([Kind::S6, Kind::S7][i / 2 % 2], large_len(&mut r, 40_000, 1 << 19))
                } else if cfg!(debug_assertions) {
                    ([Kind::C5, Kind::C6, Kind::C7, Kind::C8, Kind::S5, Kind::S8][i / 2 % 6], r.range(16_390, 18_000))
                } else {
                    // quadratic: every kind once beyond 2^16, then shorter ones
                    let n = if i < 12 { 65_540 } else { *r.pick(&[16_390usize, 32_770]) } + r.below(500);
                    ([Kind::C5, Kind::C6, Kind::C7, Kind::C8, Kind::S5, Kind::S8][i / 2 % 6], n)
                };
                let kinds = kinds_of_entry(entry);
                let s = sigs(&mut r, n, ty, 1);
                out.push(Case { ty, entry, kinds: vec![*r.pick(kinds)], len: n, sigs: s, alloc: r.chance(0.5) });
            }
        }
        if round == 0 {
            // lengths suggested by numbers in the source
            for n in crate::dict::lens(101, if one { 600_000 } else { 10_000 }, ctx.n(40)) {
                for &entry in entries.iter() {
                    let kinds = kinds_of_entry(entry);
                    if entry != kinds[0] && r.chance(0.6) {
                        continue;
                    }
                    for ty in TYS {
                        let s = sigs(&mut r, n, ty, 2);
                        let kinds = if n <= 20_000 { kinds.to_vec() } else { vec![*r.pick(kinds)] };
                        out.push(Case { ty, entry, kinds, len: n, sigs: s, alloc: r.chance(0.5) });
                    }
                }
            }
        }
        if round == 0 && one {
            // powers of two and their neighbours, every kind
            for e in 10..=16 {
                for d in [-1i64, 0, 1] {
                    for entry in [Kind::C1, Kind::S1, Kind::C2, Kind::C4] {
                        let n = ((1i64 << e) + d) as usize;
                        let ty = TYS[r.below(2)];
                        let kinds = kinds_of_entry(entry);
                        let s = sigs(&mut r, n, ty, 1);
                        out.push(Case { ty, entry, kinds: vec![*r.pick(kinds)], len: n, sigs: s, alloc: true });
                    }
                }
            }
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.kinds.len() > 1 {
            for k in &c.kinds {
                v.push(Case { kinds: vec![*k], ..c.clone() });
            }
        }
        if c.sigs.len() > 1 {
            for s in &c.sigs {
                v.push(Case { sigs: vec![s.clone()], ..c.clone() });
            }
        }
        for n in shrink_len(c.len, c.entry.min_len(), 1) {
            v.push(Case { len: n, ..c.clone() });
        }
        if c.sigs.len() == 1 {
            for s in c.sigs[0].shrinks() {
                v.push(Case { sigs: vec![s], ..c.clone() });
            }
        }
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
