//! Construction recipes for every public algorithm object, and a uniform handle over the result.
use crate::num::{Kind, Kind::*, Sig};
use crate::rng::Rng;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::{window_fn, Mdct, MdctNaive, MdctViaDct4};
use rustdct::num_complex::Complex;
use rustdct::rustfft::algorithm::Dft;
use rustdct::rustfft::{Direction, Fft, FftDirection, FftPlanner, FftPlannerAvx, FftPlannerScalar, FftPlannerSse, Length};
use rustdct::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// ---------------------------------------------------------------- plans

pub enum Plan<T> {
    D1(Arc<dyn Dct1<T>>),
    S1(Arc<dyn Dst1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    D5(Arc<dyn Dct5<T>>),
    S5(Arc<dyn Dst5<T>>),
    D67(Arc<dyn Dct6And7<T>>),
    S67(Arc<dyn Dst6And7<T>>),
    D8(Arc<dyn Dct8<T>>),
    S8(Arc<dyn Dst8<T>>),
    M(Arc<dyn Mdct<T>>),
}
impl<T> Clone for Plan<T> {
    fn clone(&self) -> Self {
        match self {
            Plan::D1(p) => Plan::D1(p.clone()),
            Plan::S1(p) => Plan::S1(p.clone()),
            Plan::T23(p) => Plan::T23(p.clone()),
            Plan::T4(p) => Plan::T4(p.clone()),
            Plan::D5(p) => Plan::D5(p.clone()),
            Plan::S5(p) => Plan::S5(p.clone()),
            Plan::D67(p) => Plan::D67(p.clone()),
            Plan::S67(p) => Plan::S67(p.clone()),
            Plan::D8(p) => Plan::D8(p.clone()),
            Plan::S8(p) => Plan::S8(p.clone()),
            Plan::M(p) => Plan::M(p.clone()),
        }
    }
}
macro_rules! each {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            Plan::D1($p) => $e,
            Plan::S1($p) => $e,
            Plan::T23($p) => $e,
            Plan::T4($p) => $e,
            Plan::D5($p) => $e,
            Plan::S5($p) => $e,
            Plan::D67($p) => $e,
            Plan::S67($p) => $e,
            Plan::D8($p) => $e,
            Plan::S8($p) => $e,
            Plan::M($p) => $e,
        }
    };
}
impl<T: DctNum> Plan<T> {
    pub fn len(&self) -> usize {
        each!(self, p => p.len())
    }
    pub fn scratch(&self) -> usize {
        each!(self, p => p.get_scratch_len())
    }
    pub fn kinds(&self) -> &'static [Kind] {
        match self {
            Plan::D1(_) => &[C1],
            Plan::S1(_) => &[S1],
            Plan::T23(_) => &[C2, C3, S2, S3],
            Plan::T4(_) => &[C4, S4],
            Plan::D5(_) => &[C5],
            Plan::S5(_) => &[S5],
            Plan::D67(_) => &[C6, C7],
            Plan::S67(_) => &[S6, S7],
            Plan::D8(_) => &[C8],
            Plan::S8(_) => &[S8],
            Plan::M(_) => &[],
        }
    }
    pub fn run(&self, kind: Kind, b: &mut [T], s: &mut [T]) {
        match (self, kind) {
            (Plan::D1(p), C1) => p.process_dct1_with_scratch(b, s),
            (Plan::S1(p), S1) => p.process_dst1_with_scratch(b, s),
            (Plan::T23(p), C2) => p.process_dct2_with_scratch(b, s),
            (Plan::T23(p), C3) => p.process_dct3_with_scratch(b, s),
            (Plan::T23(p), S2) => p.process_dst2_with_scratch(b, s),
            (Plan::T23(p), S3) => p.process_dst3_with_scratch(b, s),
            (Plan::T4(p), C4) => p.process_dct4_with_scratch(b, s),
            (Plan::T4(p), S4) => p.process_dst4_with_scratch(b, s),
            (Plan::D5(p), C5) => p.process_dct5_with_scratch(b, s),
            (Plan::S5(p), S5) => p.process_dst5_with_scratch(b, s),
            (Plan::D67(p), C6) => p.process_dct6_with_scratch(b, s),
            (Plan::D67(p), C7) => p.process_dct7_with_scratch(b, s),
            (Plan::S67(p), S6) => p.process_dst6_with_scratch(b, s),
            (Plan::S67(p), S7) => p.process_dst7_with_scratch(b, s),
            (Plan::D8(p), C8) => p.process_dct8_with_scratch(b, s),
            (Plan::S8(p), S8) => p.process_dst8_with_scratch(b, s),
            _ => panic!("HARNESS: kind {:?} not offered by this plan", kind),
        }
    }
    pub fn run_alloc(&self, kind: Kind, b: &mut [T]) {
        match (self, kind) {
            (Plan::D1(p), C1) => p.process_dct1(b),
            (Plan::S1(p), S1) => p.process_dst1(b),
            (Plan::T23(p), C2) => p.process_dct2(b),
            (Plan::T23(p), C3) => p.process_dct3(b),
            (Plan::T23(p), S2) => p.process_dst2(b),
            (Plan::T23(p), S3) => p.process_dst3(b),
            (Plan::T4(p), C4) => p.process_dct4(b),
            (Plan::T4(p), S4) => p.process_dst4(b),
            (Plan::D5(p), C5) => p.process_dct5(b),
            (Plan::S5(p), S5) => p.process_dst5(b),
            (Plan::D67(p), C6) => p.process_dct6(b),
            (Plan::D67(p), C7) => p.process_dct7(b),
            (Plan::S67(p), S6) => p.process_dst6(b),
            (Plan::S67(p), S7) => p.process_dst7(b),
            (Plan::D8(p), C8) => p.process_dct8(b),
            (Plan::S8(p), S8) => p.process_dst8(b),
            _ => panic!("HARNESS: kind {:?} not offered by this plan", kind),
        }
    }
    /// run with exactly the reported scratch, zero-filled
    pub fn run_zero(&self, kind: Kind, b: &mut [T]) {
        let mut s = vec![T::zero(); self.scratch()];
        self.run(kind, b, &mut s)
    }
    pub fn mdct(&self) -> &Arc<dyn Mdct<T>> {
        match self {
            Plan::M(m) => m,
            _ => panic!("HARNESS: not an MDCT"),
        }
    }
}

/// which planner method to call
pub fn plan_kind<T: DctNum>(p: &mut DctPlanner<T>, k: Kind, n: usize) -> Plan<T> {
    match k {
        C1 => Plan::D1(p.plan_dct1(n)),
        S1 => Plan::S1(p.plan_dst1(n)),
        C2 => Plan::T23(p.plan_dct2(n)),
        C3 => Plan::T23(p.plan_dct3(n)),
        S2 => Plan::T23(p.plan_dst2(n)),
        S3 => Plan::T23(p.plan_dst3(n)),
        C4 => Plan::T4(p.plan_dct4(n)),
        S4 => Plan::T4(p.plan_dst4(n)),
        C5 => Plan::D5(p.plan_dct5(n)),
        S5 => Plan::S5(p.plan_dst5(n)),
        C6 => Plan::D67(p.plan_dct6(n)),
        C7 => Plan::D67(p.plan_dct7(n)),
        S6 => Plan::S67(p.plan_dst6(n)),
        S7 => Plan::S67(p.plan_dst7(n)),
        C8 => Plan::D8(p.plan_dct8(n)),
        S8 => Plan::S8(p.plan_dst8(n)),
    }
}
/// the kinds an instance obtained through that planner method must offer
pub fn kinds_of_entry(k: Kind) -> &'static [Kind] {
    match k {
        C1 => &[C1],
        S1 => &[S1],
        C2 | C3 | S2 | S3 => &[C2, C3, S2, S3],
        C4 | S4 => &[C4, S4],
        C5 => &[C5],
        S5 => &[S5],
        C6 | C7 => &[C6, C7],
        S6 | S7 => &[S6, S7],
        C8 => &[C8],
        S8 => &[S8],
    }
}

// ---------------------------------------------------------------- windows

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Win {
    Mp3,
    Mp3Inv,
    Vorbis,
    VorbisInv,
    One,
    Inv,
    /// arbitrary, asymmetric, with sign changes, zeros and magnitudes in 2^[-e, e]
    Random { seed: u64, e: i32 },
    /// symmetric and power-complementary, otherwise arbitrary
    PrincenBradley { seed: u64 },
    /// Kaiser-Bessel-derived
    Kbd { alpha: f64 },
    /// 1 at one position, 0 elsewhere
    Delta { pos: usize },
    RampWin,
    /// sine slopes with flat parts of exact zeros and ones, as used when block sizes change; fl, fr in 0..=8
    /// give the length of the flat parts of the left and right half in eighths; symmetric if they agree
    Slope { fl: u8, fr: u8 },
    /// left half from one window, right half from the other
    Halves(Box<Win>, Box<Win>),
    /// a mix of random values and 0, 1, -1, 1/2, 2
    Special { seed: u64 },
    /// zeros and ones
    Bits { seed: u64 },
    /// another window with one small change: 0 two neighbours exchanged, 1 one sign flipped, 2 one value
    /// a little larger, 3 reversed, 4 rotated by one, 5 second half negated, 6 two distant values exchanged
    Tweak { base: Box<Win>, pos: usize, how: u8 },
}
pub const BUILTIN: [Win; 6] = [Win::Mp3, Win::Mp3Inv, Win::Vorbis, Win::VorbisInv, Win::One, Win::Inv];

impl Win {
    /// window of `size` values (size = 2n for an MDCT of length n), as the user would hand it over
    pub fn make<T: DctNum>(&self, size: usize) -> Vec<T> {
        match self {
            Win::Mp3 => window_fn::mp3(size),
            Win::Mp3Inv => window_fn::mp3_invertible(size),
            Win::Vorbis => window_fn::vorbis(size),
            Win::VorbisInv => window_fn::vorbis_invertible(size),
            Win::One => window_fn::one(size),
            Win::Inv => window_fn::invertible(size),
            w => w.own(size).into_iter().map(|v| T::from_f64(v).unwrap()).collect(),
        }
    }
    /// the harness' own values for the window (reference)
    pub fn own(&self, size: usize) -> Vec<f64> {
        use std::f64::consts::{FRAC_PI_2, PI};
        let s = size as f64;
        let sine = |i: usize| {
            // exactly symmetric evaluation of sin(pi (i+1/2)/size)
            let j = i.min(size - 1 - i);
            (PI * (j as f64 + 0.5) / s).sin()
        };
        match self {
            Win::Mp3 => (0..size).map(sine).collect(),
            Win::Mp3Inv => (0..size).map(|i| sine(i) * (4.0 / s).sqrt()).collect(),
            Win::Vorbis => (0..size).map(|i| (FRAC_PI_2 * sine(i) * sine(i)).sin()).collect(),
            Win::VorbisInv => (0..size).map(|i| (FRAC_PI_2 * sine(i) * sine(i)).sin() * (4.0 / s).sqrt()).collect(),
            Win::One => vec![1.0; size],
            Win::Inv => vec![(2.0 / s).sqrt(); size],
            Win::Random { seed, e } => {
                let mut r = Rng::new(*seed);
                (0..size)
                    .map(|_| {
                        if r.chance(0.05) {
                            0.0
                        } else {
                            let x = r.irange(-e, *e);
                            (2.0 * r.f64() - 1.0) * crate::num::p2(x)
                        }
                    })
                    .collect()
            }
            Win::PrincenBradley { seed } => {
                let n = size / 2;
                let mut r = Rng::new(*seed);
                let mut w = vec![0.0; size];
                for i in 0..(n + 1) / 2 {
                    let th = r.f64() * 2.0 * PI;
                    // w[i]^2 + w[n-1-i]^2 = 1 (and symmetry makes this the Princen-Bradley condition)
                    let (a, b) = if 2 * i + 1 == n { (0.5f64.sqrt(), 0.5f64.sqrt()) } else { (th.sin(), th.cos()) };
                    w[i] = a;
                    w[n - 1 - i] = b;
                }
                for i in 0..n {
                    w[size - 1 - i] = w[i];
                }
                w
            }
            Win::Kbd { alpha } => {
                let n = size / 2;
                let bessel = |x: f64| {
                    let (mut sum, mut t) = (1.0, 1.0);
                    for k in 1..200 {
                        t *= (x / 2.0 / k as f64) * (x / 2.0 / k as f64);
                        sum += t;
                        if t < sum * 1e-18 {
                            break;
                        }
                    }
                    sum
                };
                let k: Vec<f64> = (0..=n)
                    .map(|j| {
                        let u = 2.0 * j as f64 / n as f64 - 1.0;
                        bessel(PI * alpha * (1.0 - u * u).max(0.0).sqrt())
                    })
                    .collect();
                let total: f64 = k.iter().sum();
                let mut w = vec![0.0; size];
                let mut acc = 0.0;
                for i in 0..n {
                    acc += k[i];
                    w[i] = (acc / total).sqrt();
                    w[size - 1 - i] = w[i];
                }
                w
            }
            Win::Delta { pos } => {
                let mut w = vec![0.0; size];
                if size > 0 {
                    w[pos % size] = 1.0;
                }
                w
            }
            Win::RampWin => (0..size).map(|i| (i as f64 + 1.0) / s).collect(),
            Win::Slope { fl, fr } => {
                let n = size / 2;
                let half = |f: u8| -> Vec<f64> {
                    let z = (n / 2) * f as usize / 8;
                    let l = n - 2 * z;
                    (0..n)
                        .map(|i| {
                            if i < z {
                                0.0
                            } else if i >= z + l {
                                1.0
                            } else {
                                // exactly power-complementary pairs
                                (FRAC_PI_2 * (i as f64 - z as f64 + 0.5) / l as f64).sin()
                            }
                        })
                        .collect()
                };
                let mut w = half(*fl);
                let mut right = half(*fr);
                right.reverse();
                w.extend(right);
                w.resize(size, 0.0);
                w
            }
            Win::Halves(a, b) => {
                let mut w = a.own(size);
                let b = b.own(size);
                w[size / 2..].copy_from_slice(&b[size / 2..]);
                w
            }
            Win::Special { seed } => Sig::Special { seed: *seed }.gen::<f64>(size),
            Win::Bits { seed } => {
                let mut r = Rng::new(*seed);
                (0..size).map(|_| r.below(2) as f64).collect()
            }
            Win::Tweak { base, pos, how } => {
                let mut w = base.own(size);
                if size >= 4 {
                    let i = pos % (size - 1);
                    match how {
                        0 => w.swap(i, i + 1),
                        1 => w[i] = -w[i],
                        2 => w[i] *= 1.0 + 1e-3,
                        3 => w.reverse(),
                        4 => w.rotate_left(1),
                        5 => w[size / 2..].iter_mut().for_each(|v| *v = -*v),
                        _ => w.swap(i, (i + size / 3 + 1) % size),
                    }
                }
                w
            }
        }
    }
    pub fn random(r: &mut Rng) -> Win {
        match r.below(21) {
            20 => {
                let base = Win::random(r);
                Win::tweak(r, &base)
            }
            14 | 15 => Win::slope(r),
            16 => {
                let (a, b) = (Win::random(r), Win::random(r));
                Win::Halves(Box::new(a), Box::new(b))
            }
            17 | 18 => Win::Special { seed: r.u64() >> 12 },
            19 => Win::Bits { seed: r.u64() >> 12 },
            0..=5 => BUILTIN[r.below(6)].clone(),
            6 => Win::PrincenBradley { seed: r.u64() >> 12 },
            7 => Win::Kbd { alpha: 1.0 + r.below(6) as f64 },
            8 => Win::Delta { pos: r.below(5000) },
            9 => Win::RampWin,
            10 => Win::Random { seed: r.u64() >> 12, e: 12 },
            _ => Win::Random { seed: r.u64() >> 12, e: 0 },
        }
    }
    /// may hold values far from 1
    pub fn wide(&self) -> bool {
        match self {
            Win::Random { e, .. } => *e > 0,
            Win::Halves(a, b) => a.wide() || b.wide(),
            Win::Tweak { base, .. } => base.wide(),
            _ => false,
        }
    }
    pub fn tweak(r: &mut Rng, base: &Win) -> Win {
        Win::Tweak { base: Box::new(base.clone()), pos: r.below(5000), how: r.below(7) as u8 }
    }
    pub fn slope(r: &mut Rng) -> Win {
        let fl = r.below(9) as u8;
        Win::Slope { fl, fr: if r.chance(0.5) { fl } else { r.below(9) as u8 } }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Win::Slope { fl, fr } => {
                if fl == fr {
                    "low-overlap"
                } else {
                    "block-switching"
                }
            }
            Win::Halves(..) => "mixed-halves",
            Win::Tweak { .. } => "changed-slightly",
            Win::Special { .. } => "special-values",
            Win::Bits { .. } => "zeros-and-ones",
            Win::Mp3 => "mp3",
            Win::Mp3Inv => "mp3_invertible",
            Win::Vorbis => "vorbis",
            Win::VorbisInv => "vorbis_invertible",
            Win::One => "one",
            Win::Inv => "invertible",
            Win::Random { .. } => "random-asymmetric",
            Win::PrincenBradley { .. } => "princen-bradley",
            Win::Kbd { .. } => "kbd",
            Win::Delta { .. } => "delta",
            Win::RampWin => "ramp",
        }
    }
}

// ---------------------------------------------------------------- FFTs

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FftAlgo {
    Auto,
    Scalar,
    Sse,
    Avx,
    Dft,
}
/// `user`: Some(extra) wraps the FFT in a user-written implementation whose scratch requirement is the
/// inner one plus `extra`, which checks its arguments and overwrites all of its scratch with garbage.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FftSpec {
    pub algo: FftAlgo,
    pub len: usize,
    #[serde(default)]
    pub inverse: bool,
    #[serde(default)]
    pub user: Option<usize>,
}
impl FftSpec {
    pub fn auto(len: usize) -> FftSpec {
        FftSpec { algo: FftAlgo::Auto, len, inverse: false, user: None }
    }
    pub fn random(r: &mut Rng, len: usize) -> FftSpec {
        let algo = match r.below(8) {
            0 | 1 => FftAlgo::Auto,
            2 | 3 => FftAlgo::Scalar,
            4 => FftAlgo::Sse,
            5 => FftAlgo::Avx,
            _ => {
                if len <= 300 {
                    FftAlgo::Dft
                } else {
                    FftAlgo::Scalar
                }
            }
        };
        let user = if r.chance(0.3) { Some(*r.pick(&[0usize, 1, 2, 3, 7, len, 2 * len, 4 * len + 5])) } else { None };
        FftSpec { algo, len, inverse: false, user }
    }
    pub fn build<T: DctNum>(&self) -> Arc<dyn Fft<T>> {
        let dir = if self.inverse { FftDirection::Inverse } else { FftDirection::Forward };
        let inner: Arc<dyn Fft<T>> = match self.algo {
            FftAlgo::Auto => FftPlanner::new().plan_fft(self.len, dir),
            FftAlgo::Scalar => FftPlannerScalar::new().plan_fft(self.len, dir),
            FftAlgo::Sse => match FftPlannerSse::new() {
                Ok(mut p) => p.plan_fft(self.len, dir),
                Err(()) => FftPlannerScalar::new().plan_fft(self.len, dir),
            },
            FftAlgo::Avx => match FftPlannerAvx::new() {
                Ok(mut p) => p.plan_fft(self.len, dir),
                Err(()) => FftPlannerScalar::new().plan_fft(self.len, dir),
            },
            FftAlgo::Dft => Arc::new(Dft::new(self.len, dir)),
        };
        match self.user {
            None => inner,
            Some(extra) => Arc::new(UserFft { inner, extra }),
        }
    }
    pub fn shrinks(&self) -> Vec<FftSpec> {
        let mut v = vec![];
        if self.user.is_some() {
            v.push(FftSpec { user: None, ..self.clone() });
            for e in [0, 1, self.len, 2 * self.len] {
                if Some(e) < self.user {
                    v.push(FftSpec { user: Some(e), ..self.clone() });
                }
            }
        }
        if self.algo != FftAlgo::Auto {
            v.push(FftSpec { algo: FftAlgo::Auto, ..self.clone() });
        }
        v
    }
}

/// A user-written FFT: correct, with its own scratch requirement, leaves garbage in its scratch.
struct UserFft<T: DctNum> {
    inner: Arc<dyn Fft<T>>,
    extra: usize,
}
thread_local! {
    static BOMB: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// the k-th call of a user-written object on this thread from now on panics (0: none)
pub fn set_bomb(k: usize) {
    BOMB.with(|b| b.set(k))
}
thread_local! {
    static REENTER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// whether user-written objects on this thread make use of rust_dct themselves
pub fn set_reenter(on: bool) {
    REENTER.with(|b| b.set(on))
}
/// user code that plans and runs transforms of its own
pub fn nested<T: DctNum>(n: usize) {
    let mut p = DctPlanner::<T>::new();
    for (k, m) in [(C1, n), (S1, n), (C2, n), (S3, 16), (C4, n), (S4, n + 1), (C5, 3), (S5, 3), (C6, 3), (S6, n), (S7, 50), (C8, 3), (S8, 3), (C1, 20), (S1, 30)] {
        let q = plan_kind(&mut p, k, m.clamp(2, 60));
        q.run_alloc(k, &mut vec![T::one(); q.len()]);
    }
    let m = 2 * (n / 2).clamp(1, 20);
    let q = p.plan_mdct(m, |s| vec![T::one(); s]);
    let (a, mut b, mut c) = (vec![T::one(); m], vec![T::one(); m], vec![T::zero(); m]);
    let mut s = vec![T::zero(); q.get_scratch_len()];
    q.process_mdct_with_scratch(&a, &a, &mut b, &mut s);
    q.process_imdct_with_scratch(&a, &mut b, &mut c, &mut s);
}
/// what runs at the start of a call of any user-written object
fn bomb<T: DctNum>(n: usize) {
    if REENTER.with(|b| b.replace(false)) {
        nested::<T>(n);
        REENTER.with(|b| b.set(true));
    }
    BOMB.with(|b| {
        if b.get() > 0 {
            b.set(b.get() - 1);
            if b.get() == 0 {
                panic!("user-written object refuses")
            }
        }
    })
}
fn garbage<T: DctNum>(s: &mut [Complex<T>]) {
    let nan = T::from_f64(f64::NAN).unwrap();
    for (i, c) in s.iter_mut().enumerate() {
        *c = if i % 2 == 0 {
            Complex { re: nan, im: T::from_f64(1e30).unwrap() }
        } else {
            Complex { re: T::from_f64(-3.5e29).unwrap(), im: nan }
        };
    }
}
impl<T: DctNum> Fft<T> for UserFft<T> {
    fn process_with_scratch(&self, b: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert!(b.len() > 0 && b.len() % self.len() == 0, "user FFT: bad buffer length {}", b.len());
        assert!(s.len() >= self.get_inplace_scratch_len(), "user FFT: scratch too short: {} < {}", s.len(), self.get_inplace_scratch_len());
        bomb::<T>(self.len());
        let k = self.inner.get_inplace_scratch_len();
        garbage(s);
        self.inner.process_with_scratch(b, &mut s[..k]);
        garbage(s);
    }
    fn process_outofplace_with_scratch(&self, i: &mut [Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert!(s.len() >= self.get_outofplace_scratch_len(), "user FFT: scratch too short");
        let k = self.inner.get_outofplace_scratch_len();
        self.inner.process_outofplace_with_scratch(i, o, &mut s[..k]);
        garbage(s);
        garbage(i);
    }
    fn process_immutable_with_scratch(&self, i: &[Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert!(s.len() >= self.get_immutable_scratch_len(), "user FFT: scratch too short");
        let k = self.inner.get_immutable_scratch_len();
        self.inner.process_immutable_with_scratch(i, o, &mut s[..k]);
        garbage(s);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.inner.get_inplace_scratch_len() + self.extra
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.inner.get_outofplace_scratch_len() + self.extra
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.inner.get_immutable_scratch_len() + self.extra
    }
}
impl<T: DctNum> Length for UserFft<T> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
impl<T: DctNum> Direction for UserFft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.inner.fft_direction()
    }
}

// ---------------------------------------------------------------- user-written DCTs

/// A user-written transform of type 2/3 or 4, wrapping a correct one: needs `extra` more scratch,
/// checks its arguments, and leaves garbage in all of its scratch.
struct UserDct<P: ?Sized> {
    inner: Arc<P>,
    extra: usize,
}
impl<P: ?Sized + Length> Length for UserDct<P> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
impl<P: ?Sized + RequiredScratch> RequiredScratch for UserDct<P> {
    fn get_scratch_len(&self) -> usize {
        self.inner.get_scratch_len() + self.extra
    }
}
fn garbage_r<T: DctNum>(s: &mut [T]) {
    let nan = T::from_f64(f64::NAN).unwrap();
    let big = T::from_f64(-7.5e30).unwrap();
    for (i, c) in s.iter_mut().enumerate() {
        *c = if i % 3 == 1 { big } else { nan };
    }
}
macro_rules! user_impl {
    ($tr:ident, $name:ident, $dynt:ident) => {
        impl<T: DctNum> $tr<T> for UserDct<dyn $dynt<T>> {
            fn $name(&self, b: &mut [T], s: &mut [T]) {
                assert_eq!(b.len(), self.len(), "user transform: bad buffer length");
                assert!(s.len() >= self.get_scratch_len(), "user transform: scratch too short: {} < {}", s.len(), self.get_scratch_len());
                bomb::<T>(self.len());
                let k = self.inner.get_scratch_len();
                garbage_r(s);
                self.inner.$name(b, &mut s[..k]);
                garbage_r(s);
            }
        }
    };
}
user_impl!(Dct2, process_dct2_with_scratch, TransformType2And3);
user_impl!(Dct3, process_dct3_with_scratch, TransformType2And3);
user_impl!(Dst2, process_dst2_with_scratch, TransformType2And3);
user_impl!(Dst3, process_dst3_with_scratch, TransformType2And3);
impl<T: DctNum> TransformType2And3<T> for UserDct<dyn TransformType2And3<T>> {}
user_impl!(Dct4, process_dct4_with_scratch, TransformType4);
user_impl!(Dst4, process_dst4_with_scratch, TransformType4);
impl<T: DctNum> TransformType4<T> for UserDct<dyn TransformType4<T>> {}

// ---------------------------------------------------------------- specs

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Spec {
    Planned(Kind, usize),
    PlannedMdct(usize, Win),
    Naive(Kind, usize),
    Butterfly(usize),
    Dct1Fft(FftSpec),
    Dst1Fft(FftSpec),
    T23Fft(FftSpec),
    T4FftOdd(FftSpec),
    S67Fft(FftSpec),
    SplitRadix(Box<Spec>, Box<Spec>),
    T4Via3(Box<Spec>),
    MdctNaive(usize, Win),
    MdctVia4(Box<Spec>, Win),
    User(Box<Spec>, usize),
}
impl Spec {
    pub fn build<T: DctNum>(&self) -> Plan<T> {
        let mut pl = DctPlanner::new();
        self.build_with(&mut pl)
    }
    pub fn build_with<T: DctNum>(&self, pl: &mut DctPlanner<T>) -> Plan<T> {
        match self {
            Spec::Planned(k, n) => plan_kind(pl, *k, *n),
            Spec::PlannedMdct(n, w) => Plan::M(pl.plan_mdct(*n, |s| w.make(s))),
            Spec::Naive(k, n) => {
                let n = *n;
                match k {
                    C1 => Plan::D1(Arc::new(Dct1Naive::new(n))),
                    S1 => Plan::S1(Arc::new(Dst1Naive::new(n))),
                    C2 | C3 | S2 | S3 => Plan::T23(Arc::new(Type2And3Naive::new(n))),
                    C4 | S4 => Plan::T4(Arc::new(Type4Naive::new(n))),
                    C5 => Plan::D5(Arc::new(Dct5Naive::new(n))),
                    S5 => Plan::S5(Arc::new(Dst5Naive::new(n))),
                    C6 | C7 => Plan::D67(Arc::new(Dct6And7Naive::new(n))),
                    S6 | S7 => Plan::S67(Arc::new(Dst6And7Naive::new(n))),
                    C8 => Plan::D8(Arc::new(Dct8Naive::new(n))),
                    S8 => Plan::S8(Arc::new(Dst8Naive::new(n))),
                }
            }
            Spec::Butterfly(2) => Plan::T23(Arc::new(Type2And3Butterfly2::new())),
            Spec::Butterfly(3) => Plan::T23(Arc::new(Type2And3Butterfly3::new())),
            Spec::Butterfly(4) => Plan::T23(Arc::new(Type2And3Butterfly4::new())),
            Spec::Butterfly(8) => Plan::T23(Arc::new(Type2And3Butterfly8::new())),
            Spec::Butterfly(16) => Plan::T23(Arc::new(Type2And3Butterfly16::new())),
            Spec::Butterfly(n) => panic!("HARNESS: no butterfly of size {}", n),
            Spec::Dct1Fft(f) => Plan::D1(Arc::new(Dct1ConvertToFft::new(f.build()))),
            Spec::Dst1Fft(f) => Plan::S1(Arc::new(Dst1ConvertToFft::new(f.build()))),
            Spec::T23Fft(f) => Plan::T23(Arc::new(Type2And3ConvertToFft::new(f.build()))),
            Spec::T4FftOdd(f) => Plan::T4(Arc::new(Type4ConvertToFftOdd::new(f.build()))),
            Spec::S67Fft(f) => Plan::S67(Arc::new(Dst6And7ConvertToFft::new(f.build()))),
            Spec::SplitRadix(h, q) => {
                let h = h.build_with(pl).t23();
                let q = q.build_with(pl).t23();
                Plan::T23(Arc::new(Type2And3SplitRadix::new(h, q)))
            }
            Spec::T4Via3(i) => Plan::T4(Arc::new(Type4ConvertToType3Even::new(i.build_with(pl).t23()))),
            Spec::MdctNaive(n, w) => Plan::M(Arc::new(MdctNaive::new(*n, |s| w.make(s)))),
            Spec::MdctVia4(i, w) => Plan::M(Arc::new(MdctViaDct4::new(i.build_with(pl).t4(), |s| w.make(s)))),
            Spec::User(i, extra) => match i.build_with(pl) {
                Plan::T23(p) => Plan::T23(Arc::new(UserDct { inner: p, extra: *extra })),
                Plan::T4(p) => Plan::T4(Arc::new(UserDct { inner: p, extra: *extra })),
                p => p,
            },
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Spec::Planned(_, n) | Spec::PlannedMdct(n, _) | Spec::Naive(_, n) | Spec::Butterfly(n) | Spec::MdctNaive(n, _) => *n,
            Spec::Dct1Fft(f) => f.len / 2 + 1,
            Spec::Dst1Fft(f) => f.len / 2 - 1,
            Spec::T23Fft(f) | Spec::T4FftOdd(f) => f.len,
            Spec::S67Fft(f) => (f.len - 1) / 2,
            Spec::SplitRadix(h, _) => 2 * h.len(),
            Spec::T4Via3(i) => 2 * i.len(),
            Spec::MdctVia4(i, _) => i.len(),
            Spec::User(i, _) => i.len(),
        }
    }
    pub fn window(&self) -> Option<&Win> {
        match self {
            Spec::PlannedMdct(_, w) | Spec::MdctNaive(_, w) | Spec::MdctVia4(_, w) => Some(w),
            _ => None,
        }
    }
    /// longest O(m^2) part anywhere inside
    pub fn naive_part(&self) -> usize {
        match self {
            Spec::Planned(k, n) => {
                if k.always_naive() {
                    *n
                } else {
                    (*n).min(128)
                }
            }
            Spec::PlannedMdct(n, _) => (*n).min(128),
            Spec::Naive(_, n) | Spec::MdctNaive(n, _) => 2 * *n,
            Spec::Butterfly(n) => *n,
            Spec::Dct1Fft(f) | Spec::Dst1Fft(f) | Spec::T23Fft(f) | Spec::T4FftOdd(f) | Spec::S67Fft(f) => {
                if f.algo == FftAlgo::Dft {
                    2 * f.len
                } else {
                    f.len.min(128)
                }
            }
            Spec::SplitRadix(h, q) => h.naive_part().max(q.naive_part()),
            Spec::T4Via3(i) | Spec::MdctVia4(i, _) | Spec::User(i, _) => i.naive_part(),
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Spec::Planned(..) => "planned",
            Spec::PlannedMdct(..) => "planned-mdct",
            Spec::Naive(..) => "naive",
            Spec::Butterfly(..) => "butterfly",
            Spec::Dct1Fft(..) => "dct1-via-fft",
            Spec::Dst1Fft(..) => "dst1-via-fft",
            Spec::T23Fft(..) => "type23-via-fft",
            Spec::T4FftOdd(..) => "type4-via-fft-odd",
            Spec::S67Fft(..) => "dst67-via-fft",
            Spec::SplitRadix(..) => "splitradix",
            Spec::T4Via3(..) => "type4-via-type3",
            Spec::MdctNaive(..) => "mdct-naive",
            Spec::MdctVia4(..) => "mdct-via-dct4",
            Spec::User(..) => "user-written",
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Spec::SplitRadix(h, q) => 1 + h.depth().max(q.depth()),
            Spec::T4Via3(i) | Spec::MdctVia4(i, _) | Spec::User(i, _) => 1 + i.depth(),
            _ => 0,
        }
    }
    pub fn has_user(&self) -> bool {
        match self {
            Spec::User(..) => true,
            Spec::Dct1Fft(f) | Spec::Dst1Fft(f) | Spec::T23Fft(f) | Spec::T4FftOdd(f) | Spec::S67Fft(f) => f.user.is_some(),
            Spec::SplitRadix(h, q) => h.has_user() || q.has_user(),
            Spec::T4Via3(i) | Spec::MdctVia4(i, _) => i.has_user(),
            _ => false,
        }
    }

    // ---- generators

    pub fn rand_t23(r: &mut Rng, n: usize, depth: usize) -> Spec {
        let mut opts: Vec<u8> = vec![0, 1, 2];
        if [2, 3, 4, 8, 16].contains(&n) {
            opts.extend([3, 3]);
        }
        if n.is_power_of_two() && n >= 4 && depth > 0 {
            opts.extend([4, 4, 4, 4]);
        }
        if depth > 0 {
            opts.push(5);
        }
        match *r.pick(&opts) {
            0 if n <= 600 => Spec::Naive(C2, n),
            1 => Spec::Planned(*r.pick(&[C2, C3, S2, S3]), n),
            3 => Spec::Butterfly(n),
            4 => Spec::SplitRadix(Box::new(Spec::rand_t23(r, n / 2, depth - 1)), Box::new(Spec::rand_t23(r, n / 4, depth - 1))),
            5 => Spec::User(Box::new(Spec::rand_t23(r, n, depth - 1)), Spec::rand_extra(r, n)),
            _ => Spec::T23Fft(FftSpec::random(r, n)),
        }
    }
    pub fn rand_extra(r: &mut Rng, n: usize) -> usize {
        *r.pick(&[0usize, 1, 2, 3, 5, n / 2, n - n.min(1), n, n + 1, 2 * n - n.min(1), 2 * n, 2 * n + 1, 3 * n, 4 * n, 10 * n + 3])
    }
    pub fn rand_t4(r: &mut Rng, n: usize, depth: usize) -> Spec {
        let mut opts: Vec<u8> = vec![0, 1];
        if n % 2 == 1 {
            opts.extend([2, 2]);
        } else {
            opts.extend([3, 3, 3]);
        }
        if depth > 0 {
            opts.push(4);
        }
        match *r.pick(&opts) {
            0 if n <= 600 => Spec::Naive(C4, n),
            2 => Spec::T4FftOdd(FftSpec::random(r, n)),
            3 => Spec::T4Via3(Box::new(Spec::rand_t23(r, n / 2, depth))),
            4 => Spec::User(Box::new(Spec::rand_t4(r, n, depth - 1)), Spec::rand_extra(r, n)),
            _ => Spec::Planned(*r.pick(&[C4, S4]), n),
        }
    }
    pub fn rand_mdct(r: &mut Rng, n: usize, w: Win, depth: usize) -> Spec {
        match r.below(4) {
            0 => Spec::PlannedMdct(n, w),
            1 if n <= 400 => Spec::MdctNaive(n, w),
            _ => Spec::MdctVia4(Box::new(Spec::rand_t4(r, n, depth)), w),
        }
    }
    /// any non-MDCT object of the family of `k`, with length exactly n
    pub fn rand_of(r: &mut Rng, k: Kind, n: usize, depth: usize) -> Spec {
        match k {
            C1 => match r.below(3) {
                0 if n <= 600 => Spec::Naive(k, n),
                1 => Spec::Planned(k, n),
                _ => Spec::Dct1Fft(FftSpec::random(r, 2 * (n - 1))),
            },
            S1 => match r.below(3) {
                0 if n <= 600 => Spec::Naive(k, n),
                1 => Spec::Planned(k, n),
                _ => Spec::Dst1Fft(FftSpec::random(r, 2 * (n + 1))),
            },
            C2 | C3 | S2 | S3 => Spec::rand_t23(r, n, depth),
            C4 | S4 => Spec::rand_t4(r, n, depth),
            S6 | S7 => match r.below(3) {
                0 if n <= 600 => Spec::Naive(k, n),
                1 => Spec::Planned(k, n),
                _ => Spec::S67Fft(FftSpec::random(r, 2 * n + 1)),
            },
            _ => {
                if r.chance(0.5) {
                    Spec::Naive(k, n)
                } else {
                    Spec::Planned(k, n)
                }
            }
        }
    }
    /// same shape at a shorter length where possible, or simpler parts at the same length
    pub fn shrinks(&self) -> Vec<Spec> {
        let lens = |n: usize, min: usize, step: usize| -> Vec<usize> {
            let mut v: Vec<usize> = (min..n.min(24)).filter(|m| step == 1 || m % step == 0).collect();
            let mut a = n;
            while a / 2 > 24 {
                a /= 2;
                v.push(a - a % step);
            }
            for d in [step, 2 * step, 4 * step] {
                if n > d + min {
                    v.push(n - d);
                }
            }
            v.retain(|m| *m < n && *m >= min);
            v.sort();
            v.dedup();
            v
        };
        let mut out = vec![];
        match self {
            Spec::Planned(k, n) => out.extend(lens(*n, k.min_len(), 1).into_iter().map(|m| Spec::Planned(*k, m))),
            Spec::Naive(k, n) => out.extend(lens(*n, k.min_len(), 1).into_iter().map(|m| Spec::Naive(*k, m))),
            Spec::PlannedMdct(n, w) => {
                out.extend(lens(*n, 2, 2).into_iter().map(|m| Spec::PlannedMdct(m, w.clone())));
                if *w != Win::One {
                    out.push(Spec::PlannedMdct(*n, Win::One));
                }
            }
            Spec::MdctNaive(n, w) => {
                out.extend(lens(*n, 2, 2).into_iter().map(|m| Spec::MdctNaive(m, w.clone())));
                if *w != Win::One {
                    out.push(Spec::MdctNaive(*n, Win::One));
                }
            }
            Spec::Butterfly(_) => {}
            Spec::Dct1Fft(f) => {
                out.extend(lens(f.len, 2, 2).into_iter().map(|m| Spec::Dct1Fft(FftSpec { len: m, ..f.clone() })));
                out.extend(f.shrinks().into_iter().map(Spec::Dct1Fft));
            }
            Spec::Dst1Fft(f) => {
                out.extend(lens(f.len, 4, 2).into_iter().map(|m| Spec::Dst1Fft(FftSpec { len: m, ..f.clone() })));
                out.extend(f.shrinks().into_iter().map(Spec::Dst1Fft));
            }
            Spec::T23Fft(f) => {
                out.extend(lens(f.len, 1, 1).into_iter().map(|m| Spec::T23Fft(FftSpec { len: m, ..f.clone() })));
                out.extend(f.shrinks().into_iter().map(Spec::T23Fft));
            }
            Spec::T4FftOdd(f) => {
                out.extend(lens(f.len, 1, 1).into_iter().filter(|m| m % 2 == 1).map(|m| Spec::T4FftOdd(FftSpec { len: m, ..f.clone() })));
                out.extend(f.shrinks().into_iter().map(Spec::T4FftOdd));
            }
            Spec::S67Fft(f) => {
                out.extend(lens(f.len, 3, 1).into_iter().filter(|m| m % 2 == 1).map(|m| Spec::S67Fft(FftSpec { len: m, ..f.clone() })));
                out.extend(f.shrinks().into_iter().map(Spec::S67Fft));
            }
            Spec::SplitRadix(h, q) => {
                let n = self.len();
                out.push((**h).clone());
                out.push((**q).clone());
                if n > 4 {
                    let (a, b) = (h.resize(n / 4), q.resize(n / 8));
                    if let (Some(a), Some(b)) = (a, b) {
                        out.push(Spec::SplitRadix(Box::new(a), Box::new(b)));
                    }
                }
                let simple = |m: usize| Spec::Naive(C2, m);
                if **h != simple(n / 2) {
                    out.push(Spec::SplitRadix(Box::new(simple(n / 2)), q.clone()));
                }
                if **q != simple(n / 4) {
                    out.push(Spec::SplitRadix(h.clone(), Box::new(simple(n / 4))));
                }
                for s in h.shrinks() {
                    if s.len() == n / 2 {
                        out.push(Spec::SplitRadix(Box::new(s), q.clone()));
                    }
                }
                for s in q.shrinks() {
                    if s.len() == n / 4 {
                        out.push(Spec::SplitRadix(h.clone(), Box::new(s)));
                    }
                }
            }
            Spec::T4Via3(i) => {
                out.push((**i).clone());
                out.extend(i.shrinks().into_iter().map(|s| Spec::T4Via3(Box::new(s))));
            }
            Spec::MdctVia4(i, w) => {
                out.extend(i.shrinks().into_iter().filter(|s| s.len() % 2 == 0 && s.is_t4()).map(|s| Spec::MdctVia4(Box::new(s), w.clone())));
                if *w != Win::One {
                    out.push(Spec::MdctVia4(i.clone(), Win::One));
                }
                if **i != Spec::Planned(C4, i.len()) {
                    out.push(Spec::MdctVia4(Box::new(Spec::Planned(C4, i.len())), w.clone()));
                }
            }
            Spec::User(i, e) => {
                out.push((**i).clone());
                for x in [0, 1, i.len(), 2 * i.len(), 2 * i.len() + 1] {
                    if x < *e {
                        out.push(Spec::User(i.clone(), x));
                    }
                }
                out.extend(i.shrinks().into_iter().map(|s| Spec::User(Box::new(s), *e)));
            }
        }
        out
    }
    pub fn is_t4(&self) -> bool {
        match self {
            Spec::Planned(k, _) | Spec::Naive(k, _) => k.typ() == 4,
            Spec::T4FftOdd(_) | Spec::T4Via3(_) => true,
            Spec::User(i, _) => i.is_t4(),
            _ => false,
        }
    }
    fn resize(&self, m: usize) -> Option<Spec> {
        if m == 0 {
            return None;
        }
        Some(match self {
            Spec::Planned(k, _) => Spec::Planned(*k, m),
            Spec::Naive(k, _) => Spec::Naive(*k, m),
            Spec::T23Fft(f) => Spec::T23Fft(FftSpec { len: m, ..f.clone() }),
            Spec::User(i, e) => Spec::User(Box::new(i.resize(m)?), *e),
            Spec::Butterfly(_) if [2, 3, 4, 8, 16].contains(&m) => Spec::Butterfly(m),
            Spec::SplitRadix(h, q) if m >= 4 => Spec::SplitRadix(Box::new(h.resize(m / 2)?), Box::new(q.resize(m / 4)?)),
            _ => Spec::Planned(C2, m),
        })
    }
}
impl<T: DctNum> Plan<T> {
    pub fn t23(self) -> Arc<dyn TransformType2And3<T>> {
        match self {
            Plan::T23(p) => p,
            _ => panic!("HARNESS: expected a type 2/3 object"),
        }
    }
    pub fn t4(self) -> Arc<dyn TransformType4<T>> {
        match self {
            Plan::T4(p) => p,
            _ => panic!("HARNESS: expected a type 4 object"),
        }
    }
}
