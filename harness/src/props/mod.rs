use crate::engine::DynProp;
use crate::num::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::tol;
use serde::{Deserialize, Serialize};

mod c01;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;

pub fn all() -> Vec<Box<dyn DynProp>> {
    vec![
        Box::new(c01::P { id: "C01" }),
        Box::new(c01::P { id: "C02" }),
        Box::new(c03::P),
        Box::new(c04::P),
        Box::new(c05::P),
        Box::new(c06::P),
        Box::new(c07::P),
        Box::new(c08::P),
        Box::new(c09::P),
        Box::new(c10::P),
        Box::new(c11::P),
        Box::new(c12::P),
        Box::new(c13::P),
        Box::new(c14::P),
        Box::new(c15::P),
        Box::new(c16::P),
        Box::new(c17::P),
        Box::new(c18::P),
        Box::new(c19::P),
        Box::new(c20::P),
        Box::new(c21::P),
    ]
}

/// a planner that has already served a few requests related to length n (hist = 0: a new one), and what it returned
pub fn used_planner<T: rustdct::DctNum>(hist: u64, n: usize) -> (rustdct::DctPlanner<T>, Vec<Plan<T>>) {
    let mut p = rustdct::DctPlanner::new();
    let mut keep = vec![];
    if hist != 0 {
        let mut r = Rng::new(hist);
        for _ in 0..r.range(1, 6) {
            let m = match r.below(9) {
                0 => n,
                1 => n / 2,
                2 => 2 * n,
                3 => n + 1,
                4 => n.saturating_sub(1),
                5 => n / 4,
                6 => n / 3,
                7 => r.range(1, 64),
                _ => 1 << r.below(12),
            }
            .max(2);
            let q = if r.chance(0.25) {
                let m = (m + 1) / 2 * 2;
                let w = BUILTIN[r.below(6)].clone();
                Plan::M(p.plan_mdct(m, |s| w.make(s)))
            } else {
                let k = *r.pick(&KINDS);
                plan_kind(&mut p, k, m)
            };
            if r.chance(0.5) {
                keep.push(q);
            }
        }
    }
    (p, keep)
}
/// compare `got` (the transform of x) with the definition. `naive_n`: longest part computed by plain
/// summation (0: none). Returns the worst error / allowance.
pub fn compare<T: Real>(orc: &Oracle, kind: Kind, x: &[T], got: &[T], naive_n: usize) -> Result<f64, String> {
    let n = x.len();
    if got.len() != n {
        return Err(format!("{:?} output has {} values instead of {}", kind, got.len(), n));
    }
    let (xs, e) = normalise(x);
    let exp = orc.apply(&xs);
    let mut allow = tol::fast(T::EPS, n, norm2(&xs), tol::max_abs(&exp));
    if naive_n > 0 {
        allow += tol::naive(T::EPS, naive_n, norm1(&xs));
    }
    if xs.iter().all(|v| *v == 0.0) {
        allow = 0.0;
    }
    let mut worst = 0.0f64;
    for k in 0..n {
        let g = got[k].f() * p2(-e.clamp(-1000, 1000));
        let d = (g - exp[k]).abs();
        if !(d <= allow) {
            return Err(format!(
                "{:?} of length {} ({}): output[{}] = {:e}, the definition gives {:e} (difference {:e}, allowed {:e})",
                kind,
                n,
                std::any::type_name::<T>(),
                k,
                got[k].f(),
                exp[k] * p2(e),
                d * p2(e),
                allow * p2(e)
            ));
        }
        if allow > 0.0 {
            worst = worst.max(d / allow);
        }
    }
    Ok(worst)
}

pub fn is_prime(n: usize) -> bool {
    n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
/// length classes that select different algorithms
pub fn len_tag(n: usize) -> &'static str {
    if n <= 16 {
        "len<=16"
    } else if n.is_power_of_two() {
        "len-pow2"
    } else if is_prime(n) {
        "len-prime"
    } else if n % 2 == 1 {
        "len-odd"
    } else {
        "len-even"
    }
}
/// interesting random length up to max
pub fn rand_len(r: &mut Rng, min: usize, max: usize) -> usize {
    for _ in 0..100 {
        if r.chance(0.12) {
            match crate::dict::rand_len(r, max) {
                Some(n) if n >= min && n <= max => return n,
                _ => {}
            }
        }
        let n = match r.below(11) {
            8 => {
                // powers: squares, cubes, ...
                let e = *r.pick(&[2u32, 2, 2, 3, 4, 5]);
                let top = (max as f64).powf(1.0 / e as f64) as usize;
                let b = r.logu(1, top.max(1));
                b.pow(e) + if r.chance(0.2) { 1 } else { 0 }
            }
            9 => {
                // round numbers and sizes in common use
                let f = *r.pick(&[1usize, 10, 100, 1000, 12, 15, 24, 36, 48, 60, 96, 120, 192, 240, 441, 480, 512, 576, 960, 1152, 1920]);
                f * r.logu(1, (max / f).max(1))
            }
            10 => {
                // a prime times a power of two
                let mut p = r.logu(2, max);
                while p > 2 && !is_prime(p) {
                    p -= 1;
                }
                while p * 2 <= max && r.chance(0.6) {
                    p *= 2;
                }
                p
            }
            0 => {
                let e = r.below(usize::BITS as usize - max.leading_zeros() as usize);
                1usize << e
            }
            1 => {
                let e = r.below(usize::BITS as usize - max.leading_zeros() as usize);
                ((1i64 << e) + r.irange(-2, 2) as i64).max(1) as usize
            }
            2 => {
                let mut p = r.logu(2, max);
                while p > 2 && !is_prime(p) {
                    p -= 1;
                }
                p
            }
            3 => {
                // highly composite
                let mut n = 1;
                loop {
                    let f = *r.pick(&[2, 2, 3, 3, 5, 7, 11, 13]);
                    if n * f > max || r.chance(0.12) {
                        break n;
                    }
                    n *= f;
                }
            }
            4 => {
                // product of two primes
                let mut p = r.logu(2, ((max as f64).sqrt() as usize).max(2));
                while p > 2 && !is_prime(p) {
                    p -= 1;
                }
                let mut q = r.logu(2, (max / p).max(2));
                while q > 2 && !is_prime(q) {
                    q -= 1;
                }
                p * q
            }
            _ => r.logu(min.max(1), max),
        };
        if n >= min && n <= max {
            return n;
        }
    }
    min
}
/// shorter lengths to try when shrinking
pub fn shrink_len(n: usize, min: usize, step: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (min..n.min(40)).filter(|m| m % step == min % step).collect();
    let mut a = n;
    while a / 2 > 40 {
        a /= 2;
        v.push(a - (a % step) + (min % step));
    }
    for d in 1..=4usize {
        if n > d * step + min {
            v.push(n - d * step);
        }
    }
    v.retain(|m| *m < n && *m >= min);
    v.sort();
    v.dedup();
    v
}
pub fn check_len<T: rustdct::DctNum>(p: &Plan<T>, want: usize, what: &str) -> Result<(), String> {
    if p.len() != want {
        return Err(format!("{} reports length {} instead of {}", what, p.len(), want));
    }
    Ok(())
}

/// One process call, of any object.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    K(Kind),
    Mdct,
    Imdct,
}
pub fn calls<T: rustdct::DctNum>(p: &Plan<T>) -> Vec<Call> {
    match p {
        Plan::M(_) => vec![Call::Mdct, Call::Imdct],
        p => p.kinds().iter().map(|k| Call::K(*k)).collect(),
    }
}
impl Call {
    pub fn in_len(self, n: usize) -> usize {
        if self == Call::Mdct {
            2 * n
        } else {
            n
        }
    }
    pub fn out_len(self, n: usize) -> usize {
        if self == Call::Imdct {
            2 * n
        } else {
            n
        }
    }
}
/// runs one call with the given scratch slice; `prior` (Imdct: 2n values, Mdct: n values) is what the output holds before
pub fn run_call<T: rustdct::DctNum>(p: &Plan<T>, c: Call, input: &[T], prior: &[T], scratch: &mut [T]) -> Vec<T> {
    let n = p.len();
    match c {
        Call::K(k) => {
            let mut b = input.to_vec();
            p.run(k, &mut b, scratch);
            b
        }
        Call::Mdct => {
            let mut out = prior[..n].to_vec();
            p.mdct().process_mdct_with_scratch(&input[..n], &input[n..], &mut out, scratch);
            out
        }
        Call::Imdct => {
            let mut a = prior[..n].to_vec();
            let mut b = prior[n..2 * n].to_vec();
            p.mdct().process_imdct_with_scratch(input, &mut a, &mut b, scratch);
            a.extend_from_slice(&b);
            a
        }
    }
}
/// any public object, MDCTs included
pub fn rand_any(r: &mut Rng, max: usize, depth: usize) -> Spec {
    if r.chance(0.2) {
        let n = 2 * rand_len(r, 1, max / 2);
        let w = Win::random(r);
        Spec::rand_mdct(r, n, w, depth)
    } else {
        let k = *r.pick(&KINDS);
        let n = if r.chance(0.2) { 1 << r.range(1, (max as f64).log2() as usize) } else { rand_len(r, k.min_len(), max) };
        Spec::rand_of(r, k, n, depth)
    }
}
/// an object without a quadratic part, of a length in lo..=hi
pub fn rand_large(r: &mut Rng, lo: usize, hi: usize) -> Spec {
    const FAST: [Kind; 12] = [Kind::C1, Kind::S1, Kind::C2, Kind::C3, Kind::S2, Kind::S3, Kind::C4, Kind::S4, Kind::S6, Kind::S7, Kind::C2, Kind::C4];
    let n = large_len(r, lo, hi);
    if r.chance(0.2) {
        let n = (n + 1) / 2 * 2;
        let w = BUILTIN[r.below(6)].clone();
        return if r.chance(0.7) { Spec::PlannedMdct(n, w) } else { Spec::rand_mdct(r, n, w, 1) };
    }
    let k = *r.pick(&FAST);
    if r.chance(0.6) {
        Spec::Planned(k, n)
    } else {
        Spec::rand_of(r, k, n, 1)
    }
}
/// a length in lo..=hi: powers of two and neighbours, 2^16 and neighbours, smooth, prime, anything
pub fn large_len(r: &mut Rng, lo: usize, hi: usize) -> usize {
    for _ in 0..50 {
        let n = match r.below(5) {
            0 => 1usize << r.range(9, 21),
            1 => (1usize << r.range(9, 21)) + r.below(5) - 2,
            2 => *r.pick(&[3usize, 5, 9, 15, 25, 27, 45, 75, 105, 225]) << r.range(6, 17),
            3 => {
                let mut p = r.range(lo, hi) | 1;
                while !is_prime(p) {
                    p += 2;
                }
                p
            }
            _ => r.logu(lo, hi),
        };
        if n >= lo && n <= hi {
            return n;
        }
    }
    r.range(lo, hi)
}
/// every object family at (about) length n: used for systematic sweeps
pub fn all_families(r: &mut Rng, n: usize) -> Vec<Spec> {
    let mut v = vec![];
    for k in [Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::C5, Kind::S5, Kind::C6, Kind::S6, Kind::C8, Kind::S8] {
        if n >= k.min_len() {
            v.push(Spec::Naive(k, n));
            v.push(Spec::Planned(k, n));
        }
    }
    if n >= 2 {
        v.push(Spec::Dct1Fft(FftSpec::random(r, 2 * (n - 1))));
    }
    v.push(Spec::Dst1Fft(FftSpec::random(r, 2 * (n + 1))));
    v.push(Spec::T23Fft(FftSpec::random(r, n)));
    v.push(Spec::S67Fft(FftSpec::random(r, 2 * n + 1)));
    if n % 2 == 1 {
        v.push(Spec::T4FftOdd(FftSpec::random(r, n)));
    } else {
        v.push(Spec::T4Via3(Box::new(Spec::rand_t23(r, n / 2, 2))));
        let w = Win::random(r);
        v.push(Spec::PlannedMdct(n, w.clone()));
        v.push(Spec::MdctNaive(n, w.clone()));
        v.push(Spec::MdctVia4(Box::new(Spec::rand_t4(r, n, 2)), w));
    }
    if [2, 3, 4, 8, 16].contains(&n) {
        v.push(Spec::Butterfly(n));
    }
    if n >= 4 && n.is_power_of_two() {
        for _ in 0..3 {
            v.push(Spec::SplitRadix(Box::new(Spec::rand_t23(r, n / 2, 3)), Box::new(Spec::rand_t23(r, n / 4, 3))));
        }
    }
    v
}

/// objects of lengths suggested by the numbers in the source (none on a tree without large constants):
/// every family up to length `slow`, those without a quadratic part up to `fast`
pub fn dict_specs(r: &mut Rng, slow: usize, fast: usize, count: usize) -> Vec<Spec> {
    const FAST: [Kind; 10] = [Kind::C1, Kind::S1, Kind::C2, Kind::C3, Kind::S2, Kind::S3, Kind::C4, Kind::S4, Kind::S6, Kind::S7];
    let mut v = vec![];
    for n in crate::dict::lens(101, fast, count) {
        if n <= slow {
            v.extend(all_families(r, n));
            continue;
        }
        for k in FAST {
            v.push(Spec::Planned(k, n));
        }
        for k in [Kind::C1, Kind::S1, Kind::C2, Kind::C4, Kind::S6] {
            v.push(Spec::rand_of(r, k, n, 1));
        }
        if n % 2 == 0 {
            let w = BUILTIN[r.below(6)].clone();
            v.push(Spec::PlannedMdct(n, w.clone()));
            v.push(Spec::MdctVia4(Box::new(Spec::Planned(Kind::C4, n)), w));
        }
    }
    v.retain(|s| s.naive_part() <= 2 * slow.max(64) + 8);
    v
}

/// how much more scratch than needed to hand over: mostly a little, around multiples of the length, rarely a lot
pub fn rand_surplus(r: &mut Rng, n: usize) -> usize {
    match r.below(100) {
        0 => 65_536 + r.below(3),
        1 => r.logu(5000, 100_000),
        2..=4 => crate::dict::rand_len(r, 100_000).unwrap_or(2000),
        5..=39 => *r.pick(&[1usize, 2, 3, 7, 16, 33, 64, 300, 2000]),
        40..=69 => *r.pick(&[n, n + 1, 2 * n, 4 * n + 3, n.max(2) - 1, n.next_power_of_two()]),
        _ => r.range(1, 3 * n + 300),
    }
}
