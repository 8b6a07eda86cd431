//! Floating-point types under test, transform kinds, signals.
use crate::rng::Rng;
use rustdct::DctNum;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    F32,
    F64,
}
pub const TYS: [Ty; 2] = [Ty::F32, Ty::F64];

pub trait Real: DctNum + PartialOrd {
    const EPS: f64;
    const MAXE: i32;
    fn f(self) -> f64;
    fn of(v: f64) -> Self;
    fn bits(self) -> u64;
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const MAXE: i32 = 80;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> Self {
        v as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const MAXE: i32 = 800;
    fn f(self) -> f64 {
        self
    }
    fn of(v: f64) -> Self {
        v
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            $crate::num::Ty::F32 => $f::<f32>($($a),*),
            $crate::num::Ty::F64 => $f::<f64>($($a),*),
        }
    };
}

pub fn bits_eq<T: Real>(a: &[T], b: &[T]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].bits() != b[i].bits())
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    C1,
    C2,
    C3,
    C4,
    C5,
    C6,
    C7,
    C8,
    S1,
    S2,
    S3,
    S4,
    S5,
    S6,
    S7,
    S8,
}
impl std::fmt::Debug for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", if self.is_sin() { "DST" } else { "DCT" }, self.typ())
    }
}
use Kind::*;
pub const KINDS: [Kind; 16] = [
    C1, C2, C3, C4, C5, C6, C7, C8, S1, S2, S3, S4, S5, S6, S7, S8,
];
impl Kind {
    pub fn is_sin(self) -> bool {
        self as u8 >= 8
    }
    pub fn typ(self) -> u8 {
        self as u8 % 8 + 1
    }
    pub fn min_len(self) -> usize {
        if self == C1 {
            2
        } else {
            1
        }
    }
    /// planned with an O(n^2) algorithm at every length
    pub fn always_naive(self) -> bool {
        matches!(self, C5 | C6 | C7 | C8 | S5 | S8)
    }
    pub fn inverse(self) -> Kind {
        match self {
            C2 => C3,
            C3 => C2,
            S2 => S3,
            S3 => S2,
            C6 => C7,
            C7 => C6,
            S6 => S7,
            S7 => S6,
            k => k,
        }
    }
    pub fn inverse_scale(self, n: usize) -> f64 {
        let n = n as f64;
        2.0 / match self {
            C1 => n - 1.0,
            S1 => n + 1.0,
            C2 | C3 | C4 | S2 | S3 | S4 => n,
            C5 | C6 | C7 | S8 => n - 0.5,
            S5 | S6 | S7 | C8 => n + 0.5,
        }
    }
}

/// A generated input signal; every variant is defined for every length.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sig {
    Zero,
    Impulse { pos: usize, amp: f64 },
    Const(f64),
    Alt(f64),
    Ramp,
    Uniform { seed: u64, exp: i32 },
    Ints { seed: u64, max: u32 },
    Cosine { cycles: f64, ph: f64 },
    Sparse { seed: u64, count: usize },
    Wide { seed: u64, lo: i32, hi: i32 },
    Steps { seed: u64, run: usize },
    NegZero,
    Nan { seed: u64 },
    Inf { seed: u64 },
    AllNan,
    Explicit(Vec<f64>),
    /// random values, some of them replaced by zeros in a pattern
    Mask { seed: u64, mask: Mask },
    /// palindrome or anti-palindrome (with the middle or an end left out when `off` is 1 or 2)
    Sym { seed: u64, odd: bool, off: usize },
    /// repeats with period p, alternating in sign if `alt`
    Period { seed: u64, p: usize, alt: bool },
    /// two values equal up to sign
    Pair { seed: u64, i: usize, j: usize, neg: bool },
    /// the values sum to (about) zero
    ZeroSum { seed: u64 },
    Nonneg { seed: u64 },
    /// magnitudes shrink by 2^-rate per sample (forwards or backwards)
    Decay { seed: u64, rate: i32, back: bool },
    /// digits of `code` in base 2 (0, 1) or 3 (0, 1, -1)
    Digits { code: u64, base: u64 },
    /// a mix of random values and 0, -0, 1, -1, 1/2, 2
    Special { seed: u64 },
    /// values at and around numbers written in the source
    Dict { seed: u64, vals: Vec<f64> },
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Mask {
    /// the first k values are zero
    Lead(usize),
    /// the last k values are zero
    Trail(usize),
    /// only values at i % m == r are kept
    Only(usize, usize),
    /// values at i % m == r are zero
    Not(usize, usize),
    /// values from a on, b of them, are zero
    Hole(usize, usize),
}
pub fn p2(e: i32) -> f64 {
    // exact powers of two in the normal range
    f64::from_bits(((e + 1023) as u64) << 52)
}
impl Sig {
    pub fn gen<T: Real>(&self, n: usize) -> Vec<T> {
        match self {
            Sig::Zero => vec![T::of(0.0); n],
            Sig::NegZero => vec![T::of(-0.0); n],
            Sig::AllNan => vec![T::of(f64::NAN); n],
            Sig::Impulse { pos, amp } => {
                let mut v = vec![T::of(0.0); n];
                if n > 0 {
                    v[pos % n] = T::of(*amp);
                }
                v
            }
            Sig::Const(a) => vec![T::of(*a); n],
            Sig::Alt(a) => (0..n).map(|i| T::of(if i % 2 == 0 { *a } else { -*a })).collect(),
            Sig::Ramp => (0..n).map(|i| T::of(i as f64 + 1.0)).collect(),
            Sig::Uniform { seed, exp } => {
                let mut r = Rng::new(*seed);
                let s = p2(*exp);
                (0..n).map(|_| T::of((2.0 * r.f64() - 1.0) * s)).collect()
            }
            Sig::Ints { seed, max } => {
                let mut r = Rng::new(*seed);
                let m = *max as usize;
                (0..n).map(|_| T::of(r.below(2 * m + 1) as f64 - m as f64)).collect()
            }
            Sig::Cosine { cycles, ph } => (0..n)
                .map(|i| T::of((std::f64::consts::PI * cycles * (i as f64 + 0.5) / n as f64 + ph).cos()))
                .collect(),
            Sig::Sparse { seed, count } => {
                let mut v = vec![T::of(0.0); n];
                let mut r = Rng::new(*seed);
                for _ in 0..*count {
                    if n > 0 {
                        let i = r.below(n);
                        v[i] = T::of(2.0 * r.f64() - 1.0);
                    }
                }
                v
            }
            Sig::Wide { seed, lo, hi } => {
                let mut r = Rng::new(*seed);
                (0..n)
                    .map(|_| {
                        let e = r.irange(*lo, *hi);
                        T::of((2.0 * r.f64() - 1.0) * p2(e))
                    })
                    .collect()
            }
            Sig::Steps { seed, run } => {
                let mut r = Rng::new(*seed);
                let mut cur = 1.0;
                (0..n)
                    .map(|i| {
                        if i % (*run).max(1) == 0 {
                            cur = 2.0 * r.f64() - 1.0;
                        }
                        T::of(cur)
                    })
                    .collect()
            }
            Sig::Nan { seed } | Sig::Inf { seed } => {
                let mut r = Rng::new(*seed);
                let bad = if matches!(self, Sig::Nan { .. }) { f64::NAN } else { f64::INFINITY };
                let mut v: Vec<T> = (0..n).map(|_| T::of(2.0 * r.f64() - 1.0)).collect();
                for _ in 0..3 {
                    if n > 0 {
                        let i = r.below(n);
                        v[i] = T::of(if r.chance(0.5) { bad } else { -bad });
                    }
                }
                v
            }
            Sig::Explicit(vs) => (0..n).map(|i| T::of(vs.get(i).copied().unwrap_or(0.0))).collect(),
            Sig::Mask { seed, mask } => {
                let mut v = Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(n);
                for i in 0..n {
                    let zero = match *mask {
                        Mask::Lead(k) => i < k,
                        Mask::Trail(k) => i + k >= n,
                        Mask::Only(m, r) => i % m.max(1) != r,
                        Mask::Not(m, r) => i % m.max(1) == r,
                        Mask::Hole(a, b) => i >= a && i < a + b,
                    };
                    if zero {
                        v[i] = T::of(if seed % 4 == 0 { -0.0 } else { 0.0 });
                    }
                }
                v
            }
            Sig::Sym { seed, odd, off } => {
                let mut v = Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(n);
                // off = 1 leaves the first value out of the symmetry, off = 2 the last one
                let (lo, hi) = (if *off == 1 { 1 } else { 0 }, if *off == 2 { n.saturating_sub(1) } else { n });
                for i in lo..hi {
                    let j = lo + hi - 1 - i;
                    if j < i {
                        v[i] = if *odd { T::of(-v[j].f()) } else { v[j] };
                    } else if i == j && *odd {
                        v[i] = T::of(0.0);
                    }
                }
                v
            }
            Sig::Period { seed, p, alt } => {
                let p = (*p).max(1);
                let base = Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(p);
                (0..n).map(|i| if *alt && (i / p) % 2 == 1 { T::of(-base[i % p].f()) } else { base[i % p] }).collect()
            }
            Sig::Pair { seed, i, j, neg } => {
                let mut v = Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(n);
                if n > 0 {
                    let x = v[i % n].f();
                    v[j % n] = T::of(if *neg { -x } else { x });
                }
                v
            }
            Sig::ZeroSum { seed } => {
                let mut v = Sig::Ints { seed: *seed, max: 50 }.gen::<T>(n);
                if n > 0 {
                    for x in v.iter_mut() {
                        *x = T::of(x.f() / 64.0);
                    }
                    let s: f64 = v[1..].iter().map(|x| x.f()).sum();
                    v[0] = T::of(-s);
                }
                v
            }
            Sig::Nonneg { seed } => Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(n).into_iter().map(|x| T::of(x.f().abs())).collect(),
            Sig::Decay { seed, rate, back } => {
                let mut v = Sig::Uniform { seed: *seed, exp: 0 }.gen::<T>(n);
                for i in 0..n {
                    let d = if *back { n - 1 - i } else { i };
                    let e = (d as i64 * *rate as i64).min(100) as i32;
                    v[i] = T::of(v[i].f() * p2(-e));
                }
                v
            }
            Sig::Digits { code, base } => {
                let mut c = *code;
                (0..n)
                    .map(|_| {
                        let d = c % base;
                        c /= base;
                        T::of([0.0, 1.0, -1.0][d as usize])
                    })
                    .collect()
            }
            Sig::Dict { seed, vals } => {
                let mut r = Rng::new(*seed);
                // all at one level, or mixed with ordinary values
                let mixed = seed % 2 == 0;
                (0..n)
                    .map(|_| {
                        let v = *r.pick(vals);
                        T::of(match r.below(if mixed { 6 } else { 4 }) {
                            0 => v,
                            1 => v * (1.0 + r.f64()),
                            2 => v * (1.0 + 1e-3 * r.f64()),
                            3 => v * (1.0 - 1e-3 * r.f64()),
                            _ => 2.0 * r.f64() - 1.0,
                        })
                    })
                    .collect()
            }
            Sig::Special { seed } => {
                let mut r = Rng::new(*seed);
                (0..n)
                    .map(|_| T::of(match r.below(12) {
                        0 | 1 => 0.0,
                        2 => -0.0,
                        3 | 4 => 1.0,
                        5 => -1.0,
                        6 => 0.5,
                        7 => 2.0,
                        _ => 2.0 * r.f64() - 1.0,
                    }))
                    .collect()
            }
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Sig::Zero | Sig::NegZero)
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Sig::Zero => "zero",
            Sig::NegZero => "negzero",
            Sig::AllNan => "allnan",
            Sig::Impulse { .. } => "impulse",
            Sig::Const(_) => "const",
            Sig::Alt(_) => "alternating",
            Sig::Ramp => "ramp",
            Sig::Uniform { exp, .. } => {
                if exp.abs() > 20 {
                    "uniform-scaled"
                } else {
                    "uniform"
                }
            }
            Sig::Ints { .. } => "ints",
            Sig::Cosine { .. } => "cosine",
            Sig::Sparse { .. } => "sparse",
            Sig::Wide { .. } => "wide-range",
            Sig::Steps { .. } => "steps",
            Sig::Nan { .. } => "nan",
            Sig::Inf { .. } => "inf",
            Sig::Explicit(_) => "explicit",
            Sig::Mask { mask: Mask::Lead(_), .. } => "zeros-first",
            Sig::Mask { mask: Mask::Trail(_), .. } => "zeros-last",
            Sig::Mask { mask: Mask::Hole(..), .. } => "zeros-inside",
            Sig::Mask { .. } => "zeros-strided",
            Sig::Sym { odd: false, .. } => "palindrome",
            Sig::Sym { odd: true, .. } => "anti-palindrome",
            Sig::Period { .. } => "periodic",
            Sig::Pair { .. } => "equal-pair",
            Sig::ZeroSum { .. } => "zero-sum",
            Sig::Nonneg { .. } => "non-negative",
            Sig::Decay { .. } => "decay",
            Sig::Digits { .. } => "digits",
            Sig::Special { .. } => "special-values",
            Sig::Dict { .. } => "values-from-source",
        }
    }
    /// a random finite signal
    pub fn random(r: &mut Rng, n: usize, ty: Ty) -> Sig {
        let maxe = if ty == Ty::F32 { 80 } else { 800 };
        let n = n.max(1);
        match r.below(34) {
            20..=33 => Sig::structured(r, n),
            0 => Sig::Impulse { pos: r.below(n), amp: 1.0 },
            1 => Sig::Impulse { pos: if r.chance(0.5) { 0 } else { n - 1 }, amp: 2.0 * r.f64() - 1.0 },
            2 => Sig::Const(2.0 * r.f64() - 1.0),
            3 => Sig::Alt(1.0),
            4 => Sig::Ramp,
            5 | 6 => Sig::Ints { seed: r.u64() >> 12, max: *r.pick(&[1, 2, 9, 100, 30000]) },
            7 | 8 => Sig::Cosine { cycles: r.below(n + 1) as f64 + if r.chance(0.5) { 0.5 } else { 0.0 }, ph: 0.0 },
            9 => Sig::Sparse { seed: r.u64() >> 12, count: r.range(1, 4) },
            10 => {
                let hi = r.irange(-20, 20);
                Sig::Wide { seed: r.u64() >> 12, lo: hi - r.irange(5, 60), hi }
            }
            11 => Sig::Uniform { seed: r.u64() >> 12, exp: r.irange(-maxe, maxe) },
            12 => Sig::Steps { seed: r.u64() >> 12, run: r.range(1, 9) },
            _ => Sig::Uniform { seed: r.u64() >> 12, exp: 0 },
        }
    }
    /// a random signal with zeros, symmetries or coincidences in it
    pub fn structured(r: &mut Rng, n: usize) -> Sig {
        let n = n.max(1);
        let seed = r.u64() >> 12;
        let cut = |r: &mut Rng| {
            let k = *r.pick(&[1usize, 2, 3, 4, n / 4, n / 3, n / 2, n / 2 + 1, n - n.min(1), n - n.min(2), n - n.min(3)]);
            if r.chance(0.3) {
                r.below(n + 1)
            } else {
                k.min(n)
            }
        };
        match r.below(17) {
            16 => {
                let vals: Vec<f64> = (0..r.range(1, 3)).filter_map(|_| crate::dict::float(r)).collect();
                if vals.is_empty() {
                    Sig::Special { seed }
                } else {
                    Sig::Dict { seed, vals }
                }
            }
            0 | 1 => Sig::Mask { seed, mask: Mask::Lead(cut(r)) },
            2 | 3 => Sig::Mask { seed, mask: Mask::Trail(cut(r)) },
            4 | 5 => {
                let m = *r.pick(&[2usize, 2, 2, 3, 4, 4, 8, 16]);
                let k = r.below(m);
                let mask = if r.chance(0.5) { Mask::Only(m, k) } else { Mask::Not(m, k) };
                Sig::Mask { seed, mask }
            }
            6 => Sig::Mask { seed, mask: Mask::Hole(r.below(n), cut(r)) },
            7 | 8 => Sig::Sym { seed, odd: r.chance(0.5), off: r.below(3) },
            9 => Sig::Period { seed, p: *r.pick(&[1usize, 2, 3, 4, 8, n / 2, n / 4, n / 3]), alt: r.chance(0.5) },
            10 => {
                let (i, j) = if r.chance(0.4) { (0, n - 1) } else { (r.below(n), r.below(n)) };
                Sig::Pair { seed, i, j, neg: r.chance(0.4) }
            }
            11 => Sig::ZeroSum { seed },
            12 => Sig::Nonneg { seed },
            13 => Sig::Decay { seed, rate: r.irange(1, 6), back: r.chance(0.5) },
            14 => Sig::Digits { code: r.u64() >> 12, base: 2 + r.below(2) as u64 },
            _ => Sig::Special { seed },
        }
    }
    /// every vector over {0,1} or {0,1,-1} of a short length
    pub fn exhaustive(n: usize) -> Vec<Sig> {
        let base: u64 = if n <= 5 { 3 } else { 2 };
        if n > 8 {
            return vec![];
        }
        (1..base.pow(n as u32)).map(|code| Sig::Digits { code, base }).collect()
    }
    pub fn shrinks(&self) -> Vec<Sig> {
        let simple = vec![
            Sig::Impulse { pos: 0, amp: 1.0 },
            Sig::Impulse { pos: 1, amp: 1.0 },
            Sig::Impulse { pos: 2, amp: 1.0 },
            Sig::Const(1.0),
            Sig::Ramp,
            Sig::Uniform { seed: 1, exp: 0 },
            Sig::Mask { seed: 1, mask: Mask::Lead(1) },
            Sig::Mask { seed: 1, mask: Mask::Trail(1) },
            Sig::Mask { seed: 1, mask: Mask::Only(2, 0) },
            Sig::Mask { seed: 1, mask: Mask::Only(2, 1) },
        ];
        let rank = |s: &Sig| simple.iter().position(|t| t == s).unwrap_or(99);
        let me = rank(self);
        simple.into_iter().enumerate().filter(|(i, _)| *i < me).map(|(_, s)| s).collect()
    }
}

/// max |x| exponent scaling so that sums cannot overflow: returns x * 2^-e and e
pub fn normalise<T: Real>(x: &[T]) -> (Vec<f64>, i32) {
    let m = x.iter().fold(0.0f64, |a, v| a.max(v.f().abs()));
    if m == 0.0 || !m.is_finite() {
        return (x.iter().map(|v| v.f()).collect(), 0);
    }
    let e = (((m.to_bits() >> 52) & 0x7ff) as i32) - 1023;
    let e = e.clamp(-1000, 1000);
    (x.iter().map(|v| v.f() * p2(-e)).collect(), e)
}
pub fn norm2(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>().sqrt()
}
pub fn norm1(x: &[f64]) -> f64 {
    x.iter().map(|v| v.abs()).sum::<f64>()
}
