//! C13: correctly sized calls touch only the slices they were given.
use super::*;
use crate::engine::*;
use crate::guard::{Fenced, Padded};
use crate::with_ty;
use rustdct::algorithm::type2and3_butterflies::*;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Place {
    /// guard zones of NaN (true) or 7.0, slices at these element offsets
    Pad { nan: bool, off: [usize; 3], soff: usize },
    /// every slice flush with an inaccessible page: ends (true) or starts there
    Fence { at_end: bool, scratch_end: bool },
}
#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    Call { ty: Ty, spec: Spec, call: usize, sig: Sig, surplus: usize, places: Vec<Place> },
    /// unchecked butterfly entry point on a longer buffer
    Butterfly { ty: Ty, n: usize, kind: Kind, sig: Sig, extra: usize, off: usize },
}
enum Buf<T> {
    P(Padded<T>),
    F(Fenced<T>),
}
impl<T: Real> Buf<T> {
    fn get(&mut self) -> &mut [T] {
        match self {
            Buf::P(p) => p.get(),
            Buf::F(f) => f.get(),
        }
    }
    fn view(&self) -> &[T] {
        match self {
            Buf::P(p) => p.view(),
            Buf::F(f) => f.view(),
        }
    }
    fn damaged(&self) -> Option<isize> {
        match self {
            Buf::P(p) => p.damaged(),
            Buf::F(_) => None,
        }
    }
}
fn exec<T: Real>(spec: &Spec, call: usize, sig: &Sig, surplus: usize, places: &[Place]) -> Result<Info, String> {
    let mut info = Info::default();
    // the tables inside the instance end at inaccessible pages, too
    let before = crate::alloc::fenced();
    let p: Plan<T> = {
        let _fence = (spec.len() <= 5000).then(crate::alloc::fence);
        spec.build()
    };
    if crate::alloc::fenced() > before {
        info.tag("fenced-tables");
    }
    let cs = calls(&p);
    let call = cs[call % cs.len()];
    let (n, s) = (p.len(), p.scratch());
    let x: Vec<T> = sig.gen(call.in_len(n));
    let prior: Vec<T> = Sig::Uniform { seed: 11, exp: 0 }.gen(2 * n);
    let name = format!("{:?} of {} (length {})", call, spec.tag(), n);
    let base = panics(|| run_call(&p, call, &x, &prior, &mut vec![T::zero(); s])).map_err(|m| format!("{} panicked on correctly sized slices: {}", name, m))?;
    // the slices of the call: content and whether it is only read
    let slices: Vec<(Vec<T>, bool)> = match call {
        Call::K(_) => vec![(x.clone(), false)],
        Call::Mdct => vec![(x[..n].to_vec(), true), (x[n..].to_vec(), true), (prior[..n].to_vec(), false)],
        Call::Imdct => vec![(x.clone(), true), (prior[..n].to_vec(), false), (prior[n..].to_vec(), false)],
    };
    for (pi, pl) in places.iter().enumerate() {
        let ssz = s + if pi % 2 == 1 { surplus } else { 0 };
        let zero = vec![T::zero(); ssz];
        let mut bufs: Vec<Buf<T>> = slices
            .iter()
            .enumerate()
            .map(|(i, (d, ro))| match pl {
                Place::Pad { nan, off, .. } => Buf::P(Padded::new(d, off[i], if *nan { f64::NAN } else { 7.0 })),
                Place::Fence { at_end, .. } => {
                    let mut f = Fenced::new(d, *at_end);
                    if *ro {
                        f.read_only();
                    }
                    Buf::F(f)
                }
            })
            .collect();
        let mut scr = match pl {
            Place::Pad { nan, soff, .. } => Buf::P(Padded::new(&zero, *soff, if *nan { f64::NAN } else { 7.0 })),
            Place::Fence { scratch_end, .. } => Buf::F(Fenced::new(&zero, *scratch_end)),
        };
        let r = panics(|| match call {
            Call::K(k) => p.run(k, bufs[0].get(), scr.get()),
            Call::Mdct => {
                let (i, o) = bufs.split_at_mut(2);
                let (a, b) = i.split_at_mut(1);
                p.mdct().process_mdct_with_scratch(a[0].view(), b[0].view(), o[0].get(), scr.get())
            }
            Call::Imdct => {
                let (i, o) = bufs.split_at_mut(1);
                let (oa, ob) = o.split_at_mut(1);
                p.mdct().process_imdct_with_scratch(i[0].view(), oa[0].get(), ob[0].get(), scr.get())
            }
        });
        if let Err(m) = r {
            return Err(format!("{} panicked on correctly sized slices placed as {:?}: {}", name, pl, m));
        }
        for (i, b) in bufs.iter().chain([&scr]).enumerate() {
            if let Some(off) = b.damaged() {
                return Err(format!("{} wrote outside slice {} (of {} values) at element {} relative to its start, placed as {:?}", name, i, if i < slices.len() { slices[i].0.len() } else { ssz }, off, pl));
            }
        }
        let mut out = vec![];
        for (i, (d, ro)) in slices.iter().enumerate() {
            if *ro {
                if let Some(k) = bits_eq(d, bufs[i].view()) {
                    return Err(format!("{} changed element {} of its input slice {}", name, k, i));
                }
            } else {
                out.extend_from_slice(bufs[i].view());
            }
        }
        if let Some(k) = bits_eq(&base, &out) {
            return Err(format!("{}: output {} is {:e} with slices placed as {:?} (scratch {} + {}), and {:e} otherwise: something outside the slices was read", name, k, out[k].f(), pl, s, ssz - s, base[k].f()));
        }
        info.checks += 1;
        info.tag(match pl {
            Place::Pad { .. } => "guard-zones",
            Place::Fence { .. } => "page-fences",
        });
    }
    info.nontrivial = info.checks > 0;
    info.tag(spec.tag());
    info.tag(len_tag(n));
    info.tag(format!("{:?}", call));
    Ok(info)
}
fn butterfly<T: Real>(n: usize, k: Kind, sig: &Sig, extra: usize, off: usize) -> Result<Info, String> {
    let mut info = Info::default();
    let x: Vec<T> = sig.gen(n + extra);
    let mut exp = x.clone();
    let p: Plan<T> = Spec::Butterfly(n).build();
    p.run_zero(k, &mut exp[..n]);
    let mut b = Padded::new(&x, off, 7.0);
    macro_rules! go {
        ($t:ident) => {{
            let bf = $t::<T>::new();
            unsafe {
                match k {
                    Kind::C2 => bf.process_inplace_dct2(b.get()),
                    Kind::C3 => bf.process_inplace_dct3(b.get()),
                    Kind::S2 => bf.process_inplace_dst2(b.get()),
                    _ => bf.process_inplace_dst3(b.get()),
                }
            }
        }};
    }
    let r = panics(|| match n {
        2 => go!(Type2And3Butterfly2),
        3 => go!(Type2And3Butterfly3),
        4 => go!(Type2And3Butterfly4),
        8 => go!(Type2And3Butterfly8),
        _ => go!(Type2And3Butterfly16),
    });
    let name = format!("the unchecked {:?} of the size-{} butterfly on a buffer of {}", k, n, n + extra);
    if let Err(m) = r {
        return Err(format!("{} panicked: {}", name, m));
    }
    if let Some(o) = b.damaged() {
        return Err(format!("{} wrote at element {} relative to its start", name, o));
    }
    if let Some(i) = bits_eq(&exp, b.view()) {
        return Err(format!("{}: element {} is {:e}, expected {:e} ({})", name, i, b.view()[i].f(), exp[i].f(), if i < n { "the checked entry point's result" } else { "untouched" }));
    }
    info.checks = 1;
    info.nontrivial = true;
    info.tag("unchecked-butterfly");
    Ok(info)
}
fn places(r: &mut Rng) -> Vec<Place> {
    let mut o = || [r.below(9), r.below(9), r.below(9)];
    let (a, b, c) = (o(), o(), o());
    let q = c[0];
    let mut v = vec![
        Place::Pad { nan: true, off: a, soff: c[1] },
        Place::Pad { nan: false, off: b, soff: c[2] },
        Place::Fence { at_end: true, scratch_end: true },
        Place::Pad { nan: true, off: c, soff: q },
    ];
    if r.chance(0.5) {
        v.push(Place::Fence { at_end: false, scratch_end: false });
        v.push(Place::Fence { at_end: true, scratch_end: true });
    } else {
        v.push(Place::Fence { at_end: false, scratch_end: true });
    }
    v
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "case = (number type, object, entry point, signal, surplus scratch, placements): the same correctly sized call with its slices between guard zones (two fillings, several element offsets) and flush with inaccessible pages on either side, slices that are only read lying in write-protected memory; no panic, no fault, guard zones and read-only inputs unchanged, identical output bits; the tables inside objects of up to 5000 points end at inaccessible pages as well, and unwritten or freed memory holds NaN. Or: an unchecked butterfly entry point on a longer buffer. Non-trivial: at least one placement executed."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C13", round);
        let mut out = vec![];
        if round == 0 {
            for n in 1..=ctx.n(140).max(70) {
                for spec in all_families(&mut r, n) {
                    let k = calls(&spec.build::<f32>()).len();
                    for call in 0..k {
                        let places = places(&mut r);
                        out.push(Case::Call { ty: *r.pick(&TYS), spec: spec.clone(), call, sig: Sig::random(&mut r, n, Ty::F32), surplus: r.range(1, 33), places });
                    }
                }
            }
            for e in 8..=13 {
                for (spec, calls) in [(Spec::Planned(Kind::C2, 1 << e), 4), (Spec::Planned(Kind::C4, 1 << e), 2), (Spec::PlannedMdct(1 << e, Win::Mp3), 2)] {
                    for call in 0..calls {
                        let places = places(&mut r);
                        out.push(Case::Call { ty: *r.pick(&TYS), spec: spec.clone(), call, sig: Sig::Ramp, surplus: 1, places });
                    }
                }
            }
        }
        if round == 0 {
            for spec in dict_specs(&mut r, 1500, 100_000, ctx.n(30)) {
                let places = places(&mut r);
                out.push(Case::Call { ty: *r.pick(&TYS), sig: Sig::random(&mut r, spec.len(), Ty::F32), spec, call: r.below(4), surplus: rand_surplus(&mut r, 100), places });
            }
        }
        for n in [2, 3, 4, 8, 16] {
            for kind in [Kind::C2, Kind::C3, Kind::S2, Kind::S3] {
                for _ in 0..ctx.n(20) {
                    out.push(Case::Butterfly { ty: *r.pick(&TYS), n, kind, sig: Sig::random(&mut r, n, Ty::F32), extra: r.below(2 * n + 3), off: r.below(9) });
                }
            }
        }
        for i in 0..ctx.n(2500) {
            let max = *r.pick(&[40usize, 130, 700, 2500]);
            let spec = if i % 80 == 0 { rand_large(&mut r, 2500, 120_000) } else { rand_any(&mut r, max, 4) };
            let places = places(&mut r);
            out.push(Case::Call { ty: TYS[i % 2], sig: Sig::random(&mut r, spec.len(), Ty::F32), spec, call: r.below(4), surplus: r.range(1, 3 * max), places });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        match c {
            Case::Call { ty, spec, call, sig, surplus, places } => with_ty!(ty, exec(spec, *call, sig, *surplus, places)),
            Case::Butterfly { ty, n, kind, sig, extra, off } => with_ty!(ty, butterfly(*n, *kind, sig, *extra, *off)),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        match c {
            Case::Call { ty, spec, call, sig, surplus, places } => {
                if places.len() > 1 {
                    for (i, p) in places.iter().enumerate() {
                        // keep the parity that decides about the surplus
                        v.push(Case::Call { ty: *ty, spec: spec.clone(), call: *call, sig: sig.clone(), surplus: *surplus, places: if i % 2 == 1 { vec![*p, *p] } else { vec![*p] } });
                    }
                }
                for s in spec.shrinks() {
                    v.push(Case::Call { ty: *ty, spec: s, call: *call, sig: sig.clone(), surplus: *surplus, places: places.clone() });
                }
                for s in sig.shrinks() {
                    v.push(Case::Call { ty: *ty, spec: spec.clone(), call: *call, sig: s, surplus: *surplus, places: places.clone() });
                }
                if *surplus > 1 {
                    v.push(Case::Call { ty: *ty, spec: spec.clone(), call: *call, sig: sig.clone(), surplus: 1, places: places.clone() });
                }
            }
            Case::Butterfly { ty, n, kind, sig, extra, off } => {
                for e in [0, 1, 2] {
                    if e < *extra {
                        v.push(Case::Butterfly { ty: *ty, n: *n, kind: *kind, sig: sig.clone(), extra: e, off: *off });
                    }
                }
                for s in sig.shrinks() {
                    v.push(Case::Butterfly { ty: *ty, n: *n, kind: *kind, sig: s, extra: *extra, off: *off });
                }
            }
        }
        // a list with a repeated place must not grow back
        v.retain(|d| serde_json::to_string(d).unwrap() != serde_json::to_string(c).unwrap());
        v
    }
}
