//! C18: built-in window functions.
use super::*;
use crate::engine::*;
use crate::with_ty;

pub struct P;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    ty: Ty,
    win: Win,
    size: usize,
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let size = c.size;
    let w: Vec<T> = c.win.make(size);
    let what = format!("window_fn::{}({}) in {:?}", c.win.tag(), size, c.ty);
    if w.len() != size {
        return Err(format!("{} returned {} values", what, w.len()));
    }
    if size == 0 {
        info.tag("size-0");
        return Ok(info);
    }
    let own = c.win.own(size);
    let s = size as f64;
    let amp = match c.win {
        Win::Mp3 | Win::Vorbis | Win::One => 1.0,
        Win::Mp3Inv | Win::VorbisInv => (4.0 / s).sqrt(),
        _ => (2.0 / s).sqrt(),
    };
    // evaluating the formula in f64 at an argument of up to pi, then rounding to T
    let allow = amp * (4.0 * T::EPS + 32.0 * f64::EPSILON);
    for i in 0..size {
        let d = (w[i].f() - own[i]).abs();
        if !(d <= allow) {
            return Err(format!("{}: value {} is {:e}, the formula gives {:e} (difference {:e}, allowed {:e})", what, i, w[i].f(), own[i], d, allow));
        }
        info.worst(d / allow);
        info.checks += 1;
    }
    if size % 2 == 0 {
        let n = size / 2;
        let pb = match c.win {
            Win::Mp3 | Win::Vorbis => 1.0,
            Win::One => 2.0,
            _ => 4.0 / s,
        };
        for i in 0..n {
            let (a, b) = (w[i].f(), w[size - 1 - i].f());
            let d = (a - b).abs();
            if !(d <= 2.0 * allow) {
                return Err(format!("{} is not symmetric: value {} is {:e}, value {} is {:e}", what, i, a, size - 1 - i, b));
            }
            let q = w[i].f() * w[i].f() + w[i + n].f() * w[i + n].f();
            if !((q - pb).abs() <= 6.0 * amp * allow) {
                return Err(format!("{}: squares of values {} and {} sum to {:e} instead of {:e}", what, i, i + n, q, pb));
            }
            info.checks += 2;
        }
        info.tag("even");
    } else {
        info.tag("odd");
    }
    info.nontrivial = size > 1;
    info.tag(c.win.tag());
    info.tag(format!("{:?}", c.ty));
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "case = (window function, size, number type); every value is compared with the harness' own evaluation of the documented formula (allowance: amplitude times 4 EPS of the type + 32 EPS of f64), and at even sizes symmetry and the power-complementarity constant are checked at every index. Sizes: every size of a range, powers of two and neighbours, random sizes up to 2^20. Non-trivial: size above 1."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C18", round);
        let mut out = vec![];
        if round == 0 {
            for size in 0..=ctx.n(1100) {
                for win in BUILTIN {
                    for ty in TYS {
                        out.push(Case { ty, win: win.clone(), size });
                    }
                }
            }
            for e in 11..=20 {
                for d in [-1i64, 0, 1] {
                    for win in BUILTIN {
                        for ty in TYS {
                            out.push(Case { ty, win: win.clone(), size: ((1i64 << e) + d) as usize });
                        }
                    }
                }
            }
        }
        if round == 0 {
            for size in crate::dict::lens(101, 1 << 21, ctx.n(60)) {
                for win in BUILTIN {
                    for ty in TYS {
                        out.push(Case { ty, win: win.clone(), size });
                    }
                }
            }
        }
        for _ in 0..ctx.n(600) {
            let max = if ctx.thorough() { 1 << 21 } else { 1 << 17 };
            out.push(Case { ty: TYS[r.below(2)], win: BUILTIN[r.below(6)].clone(), size: rand_len(&mut r, 2, max) });
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        with_ty!(c.ty, exec(c))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_len(c.size, 0, 1).into_iter().map(|size| Case { size, ..c.clone() }).collect();
        if c.ty == Ty::F32 {
            v.push(Case { ty: Ty::F64, ..c.clone() });
        }
        v
    }
}
