//! C15: no allocation in scratch-taking calls; reported scratch suffices and grows linearly.
use super::*;
use crate::alloc::snap;
use crate::engine::*;
use crate::with_ty;
use rustdct::DctPlanner;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    /// two calls (the first may be the one that sets something up) on one object with exactly / more than the scratch
    Calls { ty: Ty, spec: Spec, call: usize, surplus: usize, sig: Sig },
    /// reported scratch of everything the planner returns at this length
    Scratch { ty: Ty, len: usize },
}
/// per planned instance: scratch <= A * len + B. Worst on the pinned tree: see DESIGN.md.
pub const A: f64 = 50.0;
/// types 2-4 and the MDCT at powers of two
pub const A_POW2: f64 = 10.0;
pub const B: f64 = 512.0;

/// a copy of `v` that starts `off` elements after a multiple of 64 bytes
struct At<T> {
    v: Vec<T>,
    from: usize,
    len: usize,
}
impl<T: Real> At<T> {
    fn new(v: &[T], off: usize) -> At<T> {
        let mut w = vec![T::zero(); v.len() + off + 64];
        let from = match w.as_ptr().align_offset(64) {
            a if a <= 64 => a + off,
            _ => off,
        };
        w[from..from + v.len()].copy_from_slice(v);
        At { v: w, from, len: v.len() }
    }
    fn get(&mut self) -> &mut [T] {
        &mut self.v[self.from..self.from + self.len]
    }
}
fn quiet<T: Real>(p: &Plan<T>, c: Call, x: &[T], s: &mut [T], off: usize) -> (u64, Vec<T>) {
    // buffers are made outside of the measurement
    let n = p.len();
    match c {
        Call::K(k) => {
            let mut b = At::new(x, off);
            let b = b.get();
            let a = snap();
            p.run(k, b, s);
            (snap().calls - a.calls, b.to_vec())
        }
        Call::Mdct => {
            let (mut i, mut j) = (At::new(&x[..n], off), At::new(&x[n..], off * 3 % 8));
            let mut o = At::new(&vec![T::zero(); n], off * 5 % 8);
            let (i, j, o) = (i.get(), j.get(), o.get());
            let a = snap();
            p.mdct().process_mdct_with_scratch(i, j, o, s);
            (snap().calls - a.calls, o.to_vec())
        }
        Call::Imdct => {
            let mut i = At::new(x, off);
            let (mut o, mut q) = (At::new(&vec![T::zero(); n], off * 3 % 8), At::new(&vec![T::zero(); n], off * 5 % 8));
            let (i, o, q) = (i.get(), o.get(), q.get());
            let a = snap();
            p.mdct().process_imdct_with_scratch(i, o, q, s);
            let d = snap().calls - a.calls;
            let mut out = o.to_vec();
            out.extend_from_slice(q);
            (d, out)
        }
    }
}
fn exec<T: Real>(spec: &Spec, call: usize, surplus: usize, sig: &Sig) -> Result<Info, String> {
    let mut info = Info::default();
    let p: Plan<T> = spec.build();
    let cs = calls(&p);
    let c = cs[call % cs.len()];
    let x: Vec<T> = sig.gen(c.in_len(p.len()));
    let odd: Vec<T> = x.iter().enumerate().map(|(i, v)| match (i * 7 + surplus) % 11 {
        0 => T::of(f64::NAN),
        1 => T::of(f64::INFINITY),
        2 => T::of(-f64::INFINITY),
        3 => T::of(-0.0),
        _ => *v,
    }).collect();
    // exact and surplus scratch, clean and used, at several distances from a multiple of 64 bytes, and data no caller is
    // happy about
    for rep in 0..6 {
        let extra = if rep == 1 || rep == 4 { surplus } else { 0 };
        let off = [0, 1 + surplus % 7, 1, 3, 5, 0][rep];
        let data = if rep == 3 { &odd } else { &x };
        let mut s = At::new(&vec![T::of(if rep == 2 { f64::NAN } else if rep == 4 { 1.0 } else { 0.0 }); p.scratch() + extra], (off + rep) % 8);
        let (allocs, out) = match panics(|| quiet(&p, c, data, s.get(), off)) {
            Ok(r) => r,
            Err(m) => return Err(format!("{:?} of {} (length {}) with {} scratch elements, its reported requirement plus {}, panicked: {}", c, spec.tag(), p.len(), s.len, extra, m)),
        };
        if allocs > 0 {
            return Err(format!("{:?} of {} (length {}) made {} heap allocations (call number {}, scratch = requirement + {})", c, spec.tag(), p.len(), allocs, rep, extra));
        }
        if rep == 0 && out.iter().any(|v| !v.f().is_finite()) {
            return Err(format!("{:?} of {} (length {}): non-finite output", c, spec.tag(), p.len()));
        }
        info.checks += 1;
    }
    info.nontrivial = p.len() >= 2;
    info.tag(spec.tag());
    info.tag(len_tag(p.len()));
    info.tag(format!("{:?}", c));
    Ok(info)
}
fn linear<T: Real>(len: usize) -> Result<Info, String> {
    let mut info = Info::default();
    let mut p = DctPlanner::<T>::new();
    // every kind gets to be the first request and a late one
    for i in 0..KINDS.len() {
        let k = KINDS[(i + len) % KINDS.len()];
        if len < k.min_len() {
            continue;
        }
        let s = plan_kind(&mut p, k, len).scratch();
        let a = if len.is_power_of_two() && (2..=4).contains(&k.typ()) { A_POW2 } else { A };
        let allow = a * len as f64 + B;
        info.worst(s as f64 / allow);
        info.checks += 1;
        if s as f64 > allow {
            return Err(format!("the instance planned for {:?} of length {} asks for {} scratch elements: more than {} n + {}", k, len, s, a, B));
        }
    }
    if len % 2 == 0 {
        let m = p.plan_mdct(len, |n| vec![T::one(); n]);
        let s = m.get_scratch_len();
        let a = if len.is_power_of_two() { A_POW2 } else { A };
        let allow = a * len as f64 + B;
        info.worst(s as f64 / allow);
        info.checks += 1;
        if s as f64 > allow {
            return Err(format!("the MDCT planned for length {} asks for {} scratch elements: more than {} n + {}", len, s, a, B));
        }
    }
    info.nontrivial = len > 64;
    info.tag("scratch-size");
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, object, call, signal, surplus): six calls on one object with exact and surplus, clean and used scratch, slices at varying distances from a multiple of 64 bytes, once with NaN and infinities among the data, under an allocator that counts every allocation of the calling thread; or (number type, length): the reported scratch of all planned instances against 50 n + 512 (10 n + 512 for types 2-4 and the MDCT at powers of two). Non-trivial: length >= 2 (calls), length > 64 (scratch size)."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C15", round);
        let mut out = vec![];
        if round == 0 {
            for n in 1..=200 {
                for spec in all_families(&mut r, n) {
                    let ty = *r.pick(&TYS);
                    for call in 0..4 {
                        if call < calls(&spec.build::<f32>()).len() {
                            out.push(Case::Calls { ty, spec: spec.clone(), call, surplus: r.range(1, 40), sig: Sig::random(&mut r, n, Ty::F32) });
                        }
                    }
                }
                out.push(Case::Scratch { ty: TYS[n % 2], len: n });
            }
            for e in 12..=(if ctx.thorough() { 21 } else { 19 }) {
                out.push(Case::Scratch { ty: TYS[e % 2], len: 1 << e });
                out.push(Case::Scratch { ty: TYS[e % 2], len: (1 << e) + 1 });
                out.push(Case::Scratch { ty: TYS[e % 2], len: (1 << e) - 1 });
            }
            for n in 201..ctx.n(2500) {
                out.push(Case::Scratch { ty: TYS[n % 2], len: n });
            }
        }
        if round == 0 {
            for spec in dict_specs(&mut r, 1500, 200_000, ctx.n(30)) {
                out.push(Case::Calls { ty: *r.pick(&TYS), call: r.below(4), surplus: rand_surplus(&mut r, 100), sig: Sig::random(&mut r, spec.len(), Ty::F32), spec });
            }
            for len in crate::dict::lens(101, 400_000, ctx.n(60)) {
                out.push(Case::Scratch { ty: *r.pick(&TYS), len });
            }
        }
        for i in 0..ctx.n(2500) {
            let ty = TYS[i % 2];
            if i % 10 == 0 {
                let max = if ctx.thorough() { 400_000 } else { 60_000 };
                out.push(Case::Scratch { ty, len: rand_len(&mut r, 1, max) });
            } else {
                let max = *r.pick(&[40usize, 300, 1500]);
                let spec = if i % 40 == 1 { rand_large(&mut r, 1500, 300_000) } else { rand_any(&mut r, max, 4) };
                out.push(Case::Calls { ty, call: r.below(4), surplus: r.range(1, 3 * max), sig: Sig::random(&mut r, spec.len(), Ty::F32), spec });
            }
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        match c {
            Case::Calls { ty, spec, call, surplus, sig } => with_ty!(ty, exec(spec, *call, *surplus, sig)),
            Case::Scratch { ty, len } => with_ty!(ty, linear(*len)),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Calls { ty, spec, call, surplus, sig } => {
                let mut v: Vec<Case> = spec.shrinks().into_iter().map(|spec| Case::Calls { ty: *ty, spec, call: *call, surplus: *surplus, sig: sig.clone() }).collect();
                for s in sig.shrinks() {
                    v.push(Case::Calls { ty: *ty, spec: spec.clone(), call: *call, surplus: *surplus, sig: s });
                }
                if *surplus > 1 {
                    v.push(Case::Calls { ty: *ty, spec: spec.clone(), call: *call, surplus: 1, sig: sig.clone() });
                }
                v
            }
            Case::Scratch { ty, len } => shrink_len(*len, 1, 1).into_iter().map(|len| Case::Scratch { ty: *ty, len }).collect(),
        }
    }
}
