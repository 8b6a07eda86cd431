//! C16: operation counts of planned fast transforms are O(n log n).
use super::*;
use crate::custom::{ops, set_limit, Traced, Traced4};
use crate::engine::*;

pub struct P;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    /// None: MDCT
    kind: Option<Kind>,
    len: usize,
    /// number type of 4 bytes instead of 8
    #[serde(default)]
    four: bool,
    /// processor time of a call on f32 / f64 instead of operation counts
    #[serde(default)]
    time: bool,
    /// earlier requests to the planner (0: none)
    #[serde(default)]
    hist: u64,
    #[serde(default)]
    sig: Option<Sig>,
    #[serde(default)]
    win: Option<Win>,
    /// bit 0: the allocating entry point, bit 1: NaN in the scratch, bit 2: surplus scratch, bit 3: three calls
    #[serde(default)]
    mode: u8,
}
impl Case {
    fn plain(kind: Option<Kind>, len: usize, time: bool, four: bool) -> Case {
        Case { kind, len, time, four, hist: 0, sig: None, win: None, mode: 0 }
    }
    fn varied(self, r: &mut Rng) -> Case {
        let hist = if r.chance(0.4) { r.u64() >> 12 | 1 } else { 0 };
        let sig = if r.chance(0.7) { Some(if r.chance(0.1) { [Sig::AllNan, Sig::Zero, Sig::NegZero][r.below(3)].clone() } else { Sig::random(r, self.len, Ty::F32) }) } else { None };
        // subnormal numbers are slow in hardware
        let sig = sig.filter(|s| !self.time || !matches!(s, Sig::Decay { .. }));
        let win = if r.chance(0.7) { Some(Win::random(r)) } else { None };
        Case { hist, sig, win, mode: r.below(16) as u8, ..self }
    }
    fn plan<T: Real>(&self) -> Plan<T> {
        let (mut pl, _keep) = used_planner::<T>(self.hist, self.len);
        match self.kind {
            Some(k) => plan_kind(&mut pl, k, self.len),
            None => {
                let w: Vec<T> = self.win.clone().unwrap_or(Win::One).make(2 * self.len);
                Plan::M(pl.plan_mdct(self.len, |_| w))
            }
        }
    }
    fn input<T: Real>(&self, m: usize) -> Vec<T> {
        self.sig.clone().unwrap_or(Sig::Uniform { seed: self.len as u64, exp: 0 }).gen(m)
    }
    fn scratch<T: Real>(&self, p: &Plan<T>) -> Vec<T> {
        let fill = if self.mode & 2 != 0 { f64::NAN } else { 0.0 };
        vec![T::of(fill); p.scratch() + if self.mode & 4 != 0 { self.len + 7 } else { 0 }]
    }
    fn call<T: Real>(&self, p: &Plan<T>, call: Call, x: &[T], prior: &[T], s: &mut [T]) {
        for _ in 0..self.repeats() {
            match call {
                Call::K(k) if self.mode & 1 != 0 => p.run_alloc(k, &mut x.to_vec()),
                _ => {
                    run_call(p, call, x, prior, s);
                }
            }
        }
    }
    fn repeats(&self) -> usize {
        if self.mode & 8 != 0 && !self.time {
            3
        } else {
            1
        }
    }
}
pub const FAST: [Kind; 10] = [Kind::C1, Kind::S1, Kind::C2, Kind::C3, Kind::S2, Kind::S3, Kind::C4, Kind::S4, Kind::S6, Kind::S7];
/// operations <= C * n * log2(n) + D. The largest C needed on the pinned tree is given in DESIGN.md.
pub const C: f64 = 130.0;
pub const C_POW2: f64 = 8.0;
pub const D: f64 = 2000.0;

pub const C_SMOOTH: f64 = 40.0;

/// the natural FFT length has a prime factor above 11
pub fn awkward(kind: Option<Kind>, n: usize) -> bool {
    constant(kind, n) == C
}
fn constant(kind: Option<Kind>, n: usize) -> f64 {
    let mut fft = match kind {
        Some(Kind::C1) => 2 * (n - 1),
        Some(Kind::S1) => 2 * (n + 1),
        Some(Kind::S6 | Kind::S7) => 2 * n + 1,
        _ if n.is_power_of_two() => return C_POW2,
        _ => n,
    };
    for p in [2, 3, 5, 7, 11] {
        while fft > 0 && fft % p == 0 {
            fft /= p;
        }
    }
    if fft == 1 {
        C_SMOOTH
    } else {
        C
    }
}
fn allowed(kind: Option<Kind>, n: usize) -> f64 {
    constant(kind, n) * n as f64 * (n as f64).log2().max(1.0) + D
}
/// CPU seconds per element (optimised profile): fifty times the slowest long lengths of the pinned tree
const CPU: f64 = 20e-6;
fn timed<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let n = c.len;
    let p: Plan<T> = c.plan();
    let list: Vec<Call> = match c.kind {
        Some(k) => vec![Call::K(k)],
        None => vec![Call::Mdct, Call::Imdct],
    };
    for call in list {
        let x: Vec<T> = c.input(call.in_len(n));
        let prior = vec![T::zero(); 2 * n];
        let mut s = c.scratch(&p);
        let limit = CPU * n as f64 + 0.05;
        let mut best = f64::MAX;
        for _ in 0..3 {
            let a = c21::cpu_s();
            c.call(&p, call, &x, &prior, &mut s);
            best = best.min(c21::cpu_s() - a);
            if best <= limit {
                break;
            }
        }
        if best > limit {
            return Err(format!("{:?} of length {} takes {:.2} s of processor time, {:.1} us per element", call, n, best, best / n as f64 * 1e6));
        }
        info.checks += 1;
        info.worst(best / limit);
    }
    info.nontrivial = true;
    info.tag("processor-time");
    Ok(info)
}
fn exec<T: Real>(c: &Case) -> Result<Info, String> {
    let mut info = Info::default();
    let n = c.len;
    set_limit(u64::MAX);
    let allow = allowed(c.kind, n) * c.repeats() as f64;
    let p: Plan<T> = c.plan();
    let list: Vec<Call> = match c.kind {
        Some(k) => vec![Call::K(k)],
        None => vec![Call::Mdct, Call::Imdct],
    };
    for call in list {
        let x: Vec<T> = c.input(call.in_len(n));
        let prior = vec![T::zero(); 2 * n];
        let mut s = c.scratch(&p);
        let o0 = ops();
        set_limit(o0 + allow as u64 + 1);
        let r = panics(|| c.call(&p, call, &x, &prior, &mut s));
        set_limit(u64::MAX);
        let used = ops() - o0;
        if let Err(m) = r {
            if m.contains("operation limit") {
                return Err(format!("{:?} of length {} needs more than {:.0} operations = {} n log2 n + {}", call, n, allow, constant(c.kind, n), D));
            }
            return Err(format!("{:?} of length {} panicked: {}", call, n, m));
        }
        info.checks += 1;
        info.worst(used as f64 / allow);
        info.nontrivial = allow < (n * n) as f64 / 4.0;
        info.tag(format!("{:?}", call));
    }
    info.tag(len_tag(n));
    if c.hist != 0 {
        info.tag("used-planner");
    }
    if c.sig.is_some() {
        info.tag("varied-input");
    }
    info.tag(if c.four { "4-byte" } else { "8-byte" });
    Ok(info)
}
impl Prop for P {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "case = (planned kind or MDCT+IMDCT, length); the additions, multiplications, negations and conversions of instrumented number types (8 and 4 bytes) are counted during one call (or three; by either entry point, scratch clean, dirty or surplus, inputs of every shape including NaN and zeros, any window, planner new or used) and compared with C n log2 n + 2000, where C = 8 for types 2-4 and the MDCT at powers of two, 40 when the natural FFT length has no prime factor above 11, and 130 otherwise (two to four times what the pinned tree needs). And processor time of calls on f32/f64 at lengths above 100000 stays below 20 us per element. Lengths: every length of a range, primes, twice primes, lengths next to powers of two, smooth numbers. Non-trivial: the bound is below a quarter of the operations of the direct sum (n^2)."
    }
    fn cases(&self, ctx: &Ctx, round: usize) -> Vec<Case> {
        let mut r = ctx.rng("C16", round);
        let mut out = vec![];
        if round == 0 {
            for n in 1..=ctx.n(900) {
                out.push(Case::plain(Some(FAST[n % 10]), n.max(2), false, n / 10 % 2 == 1));
            }
            for e in 5..=(if ctx.thorough() { 19 } else { 16 }) {
                for k in FAST {
                    for d in [-1i64, 0, 1] {
                        out.push(Case::plain(Some(k), ((1i64 << e) + d) as usize, false, (e + d) % 2 == 0));
                    }
                }
                out.push(Case::plain(None, 1 << e, false, e % 2 == 0));
                out.push(Case::plain(None, (1 << e) + 2, false, e % 2 == 0));
                out.push(Case::plain(None, (1 << e) - 2, false, e % 2 == 0));
            }
        }
        if round == 0 {
            for n in crate::dict::lens(101, 300_000, ctx.n(40)) {
                for k in FAST {
                    out.push(Case::plain(Some(k), n, false, r.chance(0.5)));
                }
                if n % 2 == 0 {
                    out.push(Case::plain(None, n, false, r.chance(0.5)));
                }
            }
        }
        if round == 0 && !cfg!(debug_assertions) {
            // long enough that anything quadratic takes whole seconds
            for i in 0..ctx.n(4) {
                for k in FAST {
                    let n = match i % 4 {
                        0 => 1 << r.range(17, 19),
                        1 => large_len(&mut r, 100_000, 300_000) / 2 * 2,
                        2 => large_len(&mut r, 100_000, 300_000) | 1,
                        _ => large_len(&mut r, 100_000, 300_000),
                    };
                    let four = r.chance(0.5);
                    out.push(Case::plain(Some(k), n, true, four).varied(&mut r));
                }
                let n = large_len(&mut r, 100_000, 300_000) / 2 * 2;
                let four = r.chance(0.5);
                out.push(Case::plain(None, n, true, four).varied(&mut r));
            }
        }
        let max = if ctx.thorough() { 300_000 } else { 40_000 };
        for i in 0..ctx.n(1000) {
            // lengths whose inner FFT length is prime or awkward
            let n = rand_len(&mut r, 1500, max);
            if r.chance(0.15) {
                out.push(Case::plain(None, n / 2 * 2, false, i % 2 == 0).varied(&mut r));
            } else {
                let k = *r.pick(&FAST);
                let n = if r.chance(0.4) {
                    // make the FFT length (2(n-1), 2(n+1), 2n+1) contain a large prime
                    let mut p = n;
                    while !is_prime(p) {
                        p += 1;
                    }
                    match k {
                        Kind::C1 => p + 1,
                        Kind::S1 => p - 1,
                        Kind::S6 | Kind::S7 => (p - 1) / 2,
                        Kind::C4 | Kind::S4 => {
                            if r.chance(0.5) {
                                2 * p
                            } else {
                                p
                            }
                        }
                        _ => p,
                    }
                } else {
                    n
                };
                out.push(Case::plain(Some(k), n, false, i % 2 == 0).varied(&mut r));
            }
        }
        out
    }
    fn run(&self, c: &Case) -> Result<Info, String> {
        if c.time {
            if c.four {
                timed::<f32>(c)
            } else {
                timed::<f64>(c)
            }
        } else if c.four {
            exec::<Traced4>(c)
        } else {
            exec::<Traced>(c)
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_len(c.len, 2, if c.kind.is_none() { 2 } else { 1 }).into_iter().map(|len| Case { len, ..c.clone() }).collect();
        // nearby awkward lengths
        for f in [2, 3, 4, 8] {
            let mut p = c.len / f;
            while p > 100 && !is_prime(p) {
                p -= 1;
            }
            if p > 100 && p < c.len {
                v.insert(0, Case { len: if c.kind.is_none() { 2 * p } else { p }, ..c.clone() });
            }
        }
        v.retain(|d| d.len < c.len);
        if c.hist != 0 {
            v.insert(0, Case { hist: 0, ..c.clone() });
        }
        if c.sig.is_some() {
            v.insert(0, Case { sig: None, ..c.clone() });
        }
        if c.win.is_some() {
            v.insert(0, Case { win: None, ..c.clone() });
        }
        for b in 0..4 {
            if c.mode >> b & 1 == 1 {
                v.insert(0, Case { mode: c.mode & !(1 << b), ..c.clone() });
            }
        }
        v
    }
}
