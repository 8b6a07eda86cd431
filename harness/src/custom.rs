//! Harness traits for the user-written number types of the crate rdvmono.
use crate::num::Real;
pub use rdvmono::*;

impl Real for Traced {
    const EPS: f64 = f64::EPSILON;
    const MAXE: i32 = 800;
    fn f(self) -> f64 {
        self.0
    }
    fn of(v: f64) -> Self {
        Traced(v)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}

impl Real for Traced4 {
    const EPS: f64 = f32::EPSILON as f64;
    const MAXE: i32 = 80;
    fn f(self) -> f64 {
        self.0 as f64
    }
    fn of(v: f64) -> Self {
        Traced4(v as f32)
    }
    fn bits(self) -> u64 {
        self.0.to_bits() as u64
    }
}

/// a number that splits into linear parts
pub trait Parts: rustdct::DctNum {
    const EPS: f64;
    const PARTS: usize;
    /// absolute error allowed on top, for types without relative precision
    fn extra(_n: usize, _norm1: f64) -> f64 {
        0.0
    }
    fn make(p: &[f64]) -> Self;
    fn part(&self, i: usize) -> f64;
}
macro_rules! jetparts {
    ($t:ident, $f:ty, $k:expr) => {
        impl Parts for $t {
            const EPS: f64 = <$f>::EPSILON as f64;
            const PARTS: usize = 1 + $k;
            fn make(p: &[f64]) -> Self {
                let mut d = [0.0 as $f; $k];
                for i in 0..$k {
                    d[i] = p[i + 1] as $f;
                }
                Jet { v: p[0] as $f, d }
            }
            fn part(&self, i: usize) -> f64 {
                if i == 0 {
                    self.v as f64
                } else {
                    self.d[i - 1] as f64
                }
            }
        }
    };
}
jetparts!(Dual64, f64, 1);
jetparts!(Jet32, f32, 2);
jetparts!(Dual32, f32, 1);
macro_rules! oneparts {
    ($t:ident) => {
        impl Parts for $t {
            const EPS: f64 = f64::EPSILON;
            const PARTS: usize = 1;
            fn make(p: &[f64]) -> Self {
                $t(p[0])
            }
            fn part(&self, _: usize) -> f64 {
                self.0
            }
        }
    };
}
oneparts!(Traced);
impl Parts for Fixed {
    const EPS: f64 = 0.0;
    const PARTS: usize = 1;
    fn make(p: &[f64]) -> Self {
        fx(p[0])
    }
    fn part(&self, _: usize) -> f64 {
        self.0 as f64 / (1u64 << FRAC) as f64
    }
    fn extra(n: usize, norm1: f64) -> f64 {
        64.0 * (n as f64 + 4.0) * (norm1 + 1.0) / (1u64 << FRAC) as f64
    }
}
impl Parts for Fixed4 {
    const EPS: f64 = 0.0;
    const PARTS: usize = 1;
    fn make(p: &[f64]) -> Self {
        fx4(p[0])
    }
    fn part(&self, _: usize) -> f64 {
        self.0 as f64 / (1u64 << FRAC4) as f64
    }
    fn extra(n: usize, norm1: f64) -> f64 {
        64.0 * (n as f64 + 4.0) * (norm1 + 1.0) / (1u64 << FRAC4) as f64
    }
}
impl Parts for Fixed8 {
    const EPS: f64 = 0.0;
    const PARTS: usize = 1;
    fn make(p: &[f64]) -> Self {
        fx8(p[0])
    }
    fn part(&self, _: usize) -> f64 {
        self.0 as f64 / (1u64 << FRAC8) as f64
    }
    fn extra(n: usize, norm1: f64) -> f64 {
        64.0 * (n as f64 + 4.0) * (norm1 + 1.0) / (1u64 << FRAC8) as f64
    }
}
