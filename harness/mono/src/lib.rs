//! User-written number types: an instrumented f64 (counts operations, yields to a scheduler at every operation),
//! dual numbers in f64, an f32 jet with an odd memory size, over-aligned fixed point.
//!
//! They live in a crate of their own, together with the instantiation of every RustFFT algorithm for them and for
//! f32 and f64, so that this (large) code is compiled once and not again whenever rustdct changes: with
//! opt-level "s" rustc shares upstream monomorphisations.
use num_traits::{Float, FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::cell::Cell;
use std::ops::*;

// ------------------------------------------------------------------ hook

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}
pub fn set_limit(l: u64) {
    LIMIT.with(|c| c.set(l))
}
pub fn set_hook(h: Option<fn()>) {
    HOOK.with(|c| c.set(h))
}
#[inline]
fn tick() {
    let n = OPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(|c| c.get()) {
        LIMIT.with(|c| c.set(u64::MAX));
        panic!("operation limit exceeded");
    }
    if let Some(h) = HOOK.with(|c| c.get()) {
        h()
    }
}

/// the shared boilerplate around +, -, *, /, neg, from_f64 given as functions
macro_rules! number {
    ($t:ident, $zero:expr, $from:expr, $add:expr, $sub:expr, $mul:expr, $div:expr, $neg:expr, $val:expr) => {
        impl Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                $add(self, o)
            }
        }
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                $sub(self, o)
            }
        }
        impl Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                $mul(self, o)
            }
        }
        impl Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                $div(self, o)
            }
        }
        impl Rem for $t {
            type Output = $t;
            fn rem(self, o: $t) -> $t {
                $from($val(self) % $val(o))
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $neg(self)
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                *self = *self * o
            }
        }
        impl PartialEq for $t {
            // like most dual-number types: comparison looks at the value only
            fn eq(&self, o: &$t) -> bool {
                $val(*self) == $val(*o)
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> {
                $val(*self).partial_cmp(&$val(*o))
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $zero
            }
            fn is_zero(&self) -> bool {
                $val(*self) == 0.0
            }
        }
        impl One for $t {
            fn one() -> $t {
                $from(1.0)
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$t, ()> {
                Err(())
            }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<$t> {
                Some($from(n as f64))
            }
            fn from_u64(n: u64) -> Option<$t> {
                Some($from(n as f64))
            }
            fn from_f64(n: f64) -> Option<$t> {
                Some($from(n))
            }
        }
        impl Signed for $t {
            fn abs(&self) -> $t {
                if $val(*self) < 0.0 {
                    -*self
                } else {
                    *self
                }
            }
            fn abs_sub(&self, o: &$t) -> $t {
                if $val(*self) <= $val(*o) {
                    $zero
                } else {
                    *self - *o
                }
            }
            fn signum(&self) -> $t {
                $from($val(*self).signum())
            }
            fn is_positive(&self) -> bool {
                $val(*self) > 0.0
            }
            fn is_negative(&self) -> bool {
                $val(*self) < 0.0
            }
        }
        #[allow(non_snake_case)]
        impl FloatConst for $t {
            fn E() -> $t {
                $from(<f64 as FloatConst>::E())
            }
            fn FRAC_1_PI() -> $t {
                $from(<f64 as FloatConst>::FRAC_1_PI())
            }
            fn FRAC_1_SQRT_2() -> $t {
                $from(<f64 as FloatConst>::FRAC_1_SQRT_2())
            }
            fn FRAC_2_PI() -> $t {
                $from(<f64 as FloatConst>::FRAC_2_PI())
            }
            fn FRAC_2_SQRT_PI() -> $t {
                $from(<f64 as FloatConst>::FRAC_2_SQRT_PI())
            }
            fn FRAC_PI_2() -> $t {
                $from(<f64 as FloatConst>::FRAC_PI_2())
            }
            fn FRAC_PI_3() -> $t {
                $from(<f64 as FloatConst>::FRAC_PI_3())
            }
            fn FRAC_PI_4() -> $t {
                $from(<f64 as FloatConst>::FRAC_PI_4())
            }
            fn FRAC_PI_6() -> $t {
                $from(<f64 as FloatConst>::FRAC_PI_6())
            }
            fn FRAC_PI_8() -> $t {
                $from(<f64 as FloatConst>::FRAC_PI_8())
            }
            fn LN_10() -> $t {
                $from(<f64 as FloatConst>::LN_10())
            }
            fn LN_2() -> $t {
                $from(<f64 as FloatConst>::LN_2())
            }
            fn LOG10_E() -> $t {
                $from(<f64 as FloatConst>::LOG10_E())
            }
            fn LOG2_E() -> $t {
                $from(<f64 as FloatConst>::LOG2_E())
            }
            fn PI() -> $t {
                $from(<f64 as FloatConst>::PI())
            }
            fn SQRT_2() -> $t {
                $from(<f64 as FloatConst>::SQRT_2())
            }
        }
    };
}

// ------------------------------------------------------------------ instrumented f64

#[derive(Clone, Copy, Debug)]
pub struct Traced(pub f64);
number!(
    Traced,
    Traced(0.0),
    |v: f64| {
        tick();
        Traced(v)
    },
    |a: Traced, b: Traced| {
        tick();
        Traced(a.0 + b.0)
    },
    |a: Traced, b: Traced| {
        tick();
        Traced(a.0 - b.0)
    },
    |a: Traced, b: Traced| {
        tick();
        Traced(a.0 * b.0)
    },
    |a: Traced, b: Traced| {
        tick();
        Traced(a.0 / b.0)
    },
    |a: Traced| {
        tick();
        Traced(-a.0)
    },
    |a: Traced| a.0
);
/// the same in 4 bytes
#[derive(Clone, Copy, Debug)]
pub struct Traced4(pub f32);
number!(
    Traced4,
    Traced4(0.0),
    |v: f64| {
        tick();
        Traced4(v as f32)
    },
    |a: Traced4, b: Traced4| {
        tick();
        Traced4(a.0 + b.0)
    },
    |a: Traced4, b: Traced4| {
        tick();
        Traced4(a.0 - b.0)
    },
    |a: Traced4, b: Traced4| {
        tick();
        Traced4(a.0 * b.0)
    },
    |a: Traced4, b: Traced4| {
        tick();
        Traced4(a.0 / b.0)
    },
    |a: Traced4| {
        tick();
        Traced4(-a.0)
    },
    |a: Traced4| a.0 as f64
);
// ------------------------------------------------------------------ fixed point, 40 fractional bits, in 64 bytes aligned to 64

#[derive(Clone, Copy, Debug)]
#[repr(align(64))]
pub struct Fixed(pub i64);
pub const FRAC: u32 = 40;
pub fn fx(v: f64) -> Fixed {
    Fixed((v * (1u64 << FRAC) as f64).round() as i64)
}
number!(
    Fixed,
    Fixed(0),
    fx,
    |a: Fixed, b: Fixed| Fixed(a.0 + b.0),
    |a: Fixed, b: Fixed| Fixed(a.0 - b.0),
    |a: Fixed, b: Fixed| Fixed(((a.0 as i128 * b.0 as i128 + (1i128 << (FRAC - 1))) >> FRAC) as i64),
    |a: Fixed, b: Fixed| Fixed((((a.0 as i128) << FRAC) / b.0 as i128) as i64),
    |a: Fixed| Fixed(-a.0),
    |a: Fixed| a.0 as f64 / (1u64 << FRAC) as f64
);

// ------------------------------------------------------------------ fixed point in 4 bytes, 18 fractional bits

#[derive(Clone, Copy, Debug)]
pub struct Fixed4(pub i32);
pub const FRAC4: u32 = 18;
pub fn fx4(v: f64) -> Fixed4 {
    Fixed4((v * (1u64 << FRAC4) as f64).round() as i32)
}
number!(
    Fixed4,
    Fixed4(0),
    fx4,
    |a: Fixed4, b: Fixed4| Fixed4(a.0 + b.0),
    |a: Fixed4, b: Fixed4| Fixed4(a.0 - b.0),
    |a: Fixed4, b: Fixed4| Fixed4(((a.0 as i64 * b.0 as i64 + (1i64 << (FRAC4 - 1))) >> FRAC4) as i32),
    |a: Fixed4, b: Fixed4| Fixed4((((a.0 as i64) << FRAC4) / b.0 as i64) as i32),
    |a: Fixed4| Fixed4(-a.0),
    |a: Fixed4| a.0 as f64 / (1u64 << FRAC4) as f64
);

// ------------------------------------------------------------------ fixed point in 8 bytes, 36 fractional bits

#[derive(Clone, Copy, Debug)]
pub struct Fixed8(pub i64);
pub const FRAC8: u32 = 36;
pub fn fx8(v: f64) -> Fixed8 {
    Fixed8((v * (1u64 << FRAC8) as f64).round() as i64)
}
number!(
    Fixed8,
    Fixed8(0),
    fx8,
    |a: Fixed8, b: Fixed8| Fixed8(a.0 + b.0),
    |a: Fixed8, b: Fixed8| Fixed8(a.0 - b.0),
    |a: Fixed8, b: Fixed8| Fixed8(((a.0 as i128 * b.0 as i128 + (1i128 << (FRAC8 - 1))) >> FRAC8) as i64),
    |a: Fixed8, b: Fixed8| Fixed8((((a.0 as i128) << FRAC8) / b.0 as i128) as i64),
    |a: Fixed8| Fixed8(-a.0),
    |a: Fixed8| a.0 as f64 / (1u64 << FRAC8) as f64
);

// ------------------------------------------------------------------ numbers with derivatives

/// value and K derivatives, computed in F
#[derive(Clone, Copy, Debug)]
pub struct Jet<F, const K: usize> {
    pub v: F,
    pub d: [F; K],
}
impl<F: Float, const K: usize> Jet<F, K> {
    fn con(v: f64) -> Self {
        Jet { v: F::from(v).unwrap(), d: [F::zero(); K] }
    }
    fn zip(a: Self, b: Self, v: F, f: impl Fn(F, F) -> F) -> Self {
        let mut d = a.d;
        for i in 0..K {
            d[i] = f(a.d[i], b.d[i]);
        }
        Jet { v, d }
    }
    fn val(self) -> f64 {
        self.v.to_f64().unwrap()
    }
    fn a(a: Self, b: Self) -> Self {
        Self::zip(a, b, a.v + b.v, |x, y| x + y)
    }
    fn s(a: Self, b: Self) -> Self {
        Self::zip(a, b, a.v - b.v, |x, y| x - y)
    }
    fn m(a: Self, b: Self) -> Self {
        Self::zip(a, b, a.v * b.v, |x, y| x * b.v + a.v * y)
    }
    fn q(a: Self, b: Self) -> Self {
        let w = b.v * b.v;
        Self::zip(a, b, a.v / b.v, |x, y| (x * b.v - a.v * y) / w)
    }
    fn n(a: Self) -> Self {
        Self::zip(a, a, -a.v, |x, _| -x)
    }
}
/// 16 bytes, aligned to 8
pub type Dual64 = Jet<f64, 1>;
/// 12 bytes
pub type Jet32 = Jet<f32, 2>;
/// 8 bytes, aligned to 4
pub type Dual32 = Jet<f32, 1>;
number!(Dual64, Dual64::con(0.0), Dual64::con, Dual64::a, Dual64::s, Dual64::m, Dual64::q, Dual64::n, Dual64::val);
number!(Dual32, Dual32::con(0.0), Dual32::con, Dual32::a, Dual32::s, Dual32::m, Dual32::q, Dual32::n, Dual32::val);
number!(Jet32, Jet32::con(0.0), Jet32::con, Jet32::a, Jet32::s, Jet32::m, Jet32::q, Jet32::n, Jet32::val);


// ------------------------------------------------------------------ instantiation

use rustfft::algorithm::Dft;
use rustfft::num_complex::Complex;
use rustfft::{Fft, FftDirection, FftNum, FftPlanner, FftPlannerAvx, FftPlannerScalar, FftPlannerSse};
use std::sync::Arc;

fn one<T: FftNum>(n: usize, dir: FftDirection) -> usize {
    let mut all: Vec<Arc<dyn Fft<T>>> = vec![];
    all.push(FftPlanner::new().plan_fft(n, dir));
    all.push(FftPlanner::new().plan_fft_inverse(n));
    all.push(FftPlannerScalar::new().plan_fft(n, dir));
    if let Ok(mut p) = FftPlannerSse::new() {
        all.push(p.plan_fft(n, dir));
    }
    if let Ok(mut p) = FftPlannerAvx::new() {
        all.push(p.plan_fft(n, dir));
    }
    all.push(Arc::new(Dft::new(n, dir)));
    let mut b = vec![Complex::<T> { re: T::zero(), im: T::zero() }; n];
    for f in &all {
        f.process(&mut b);
    }
    all.len()
}
pub fn instantiate(n: usize) -> usize {
    let d = FftDirection::Forward;
    one::<f32>(n, d) + one::<f64>(n, d) + one::<Traced>(n, d) + one::<Fixed>(n, d) + one::<Dual64>(n, d) + one::<Jet32>(n, d) + one::<Dual32>(n, d) + one::<Fixed4>(n, d) + one::<Fixed8>(n, d) + one::<Traced4>(n, d)
}
