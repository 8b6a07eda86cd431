//! Reference model: the unnormalised sums that define the transforms, evaluated in f64.
//!
//! Every kind is  X_k = sum_j w_j x_j C(2 pi J_j K_k / M)  with integer J, K, M and C = cos or sin.
//! Short lengths: direct summation with a table of exactly reduced trig values.
//! Long lengths: the same sum read off a length-M complex FFT of x scattered to the positions J,
//! with a few outputs of every call recomputed by direct summation as a cross-check.
use crate::num::Kind;
use rustdct::num_complex::Complex;
use rustdct::rustfft::{Fft, FftPlanner};
use std::sync::Arc;

/// (cos, sin) of 2*pi*i/m with integer argument reduction to [0, pi/4]
pub fn cossin(i: u64, m: u64) -> (f64, f64) {
    let i = i % m;
    let q = 4 * i / m;
    let r = 4 * i - q * m;
    let (c, s) = if 2 * r <= m {
        let a = std::f64::consts::FRAC_PI_2 * (r as f64 / m as f64);
        (a.cos(), a.sin())
    } else {
        let a = std::f64::consts::FRAC_PI_2 * ((m - r) as f64 / m as f64);
        (a.sin(), a.cos())
    };
    match q {
        0 => (c, s),
        1 => (-s, c),
        2 => (-c, -s),
        _ => (s, -c),
    }
}

/// index structure: J_j = j0 + j*dj, K_k = k0 + k*dk
#[derive(Clone, Copy, Debug)]
pub struct Form {
    pub nin: usize,
    pub nout: usize,
    pub j0: u64,
    pub dj: u64,
    pub k0: u64,
    pub dk: u64,
    pub m: u64,
    pub sin: bool,
    pub half_first: bool,
    pub half_last: bool,
}

pub fn form(kind: Kind, n: usize) -> Form {
    use Kind::*;
    // (2a, 2b, 2D, half first, half last)
    let n2 = 2 * n as i64;
    let (a2, b2, d2, hf, hl) = match kind {
        C1 => (0, 0, n2 - 2, true, true),
        C2 => (1, 0, n2, false, false),
        C3 => (0, 1, n2, true, false),
        C4 => (1, 1, n2, false, false),
        C5 => (0, 0, n2 - 1, true, false),
        C6 => (1, 0, n2 - 1, false, true),
        C7 => (0, 1, n2 - 1, true, false),
        C8 => (1, 1, n2 + 1, false, false),
        S1 => (2, 2, n2 + 2, false, false),
        S2 => (1, 2, n2, false, false),
        S3 => (2, 1, n2, false, true),
        S4 => (1, 1, n2, false, false),
        S5 => (2, 2, n2 + 1, false, false),
        S6 => (1, 2, n2 + 1, false, false),
        S7 => (2, 1, n2 + 1, false, false),
        S8 => (1, 1, n2 - 1, false, true),
    };
    let (mut j0, mut dj, mut k0, mut dk, mut m) = (a2 as u64, 2u64, b2 as u64, 2u64, (d2 * 4) as u64);
    if j0 % 2 == 0 {
        j0 /= 2;
        dj = 1;
        m /= 2;
    }
    if k0 % 2 == 0 {
        k0 /= 2;
        dk = 1;
        m /= 2;
    }
    Form { nin: n, nout: n, j0, dj, k0, dk, m, sin: kind.is_sin(), half_first: hf, half_last: hl }
}
/// MDCT (without window): 2n inputs, n outputs
pub fn form_mdct(n: usize) -> Form {
    let nn = n as u64;
    Form { nin: 2 * n, nout: n, j0: nn + 1, dj: 2, k0: 1, dk: 2, m: 8 * nn, sin: false, half_first: false, half_last: false }
}
/// IMDCT (without window): n inputs, 2n outputs
pub fn form_imdct(n: usize) -> Form {
    let nn = n as u64;
    Form { nin: n, nout: 2 * n, j0: 1, dj: 2, k0: nn + 1, dk: 2, m: 8 * nn, sin: false, half_first: false, half_last: false }
}

pub struct Oracle {
    pub fm: Form,
    table: Vec<f64>,
    fft: Option<Arc<dyn Fft<f64>>>,
}
impl Oracle {
    pub fn new(fm: Form) -> Oracle {
        let direct = (fm.nin as u64) * (fm.nout as u64) <= 160 * 160 * 2;
        if direct {
            let table = (0..fm.m)
                .map(|i| {
                    let (c, s) = cossin(i, fm.m);
                    if fm.sin {
                        s
                    } else {
                        c
                    }
                })
                .collect();
            Oracle { fm, table, fft: None }
        } else {
            Oracle { fm, table: vec![], fft: Some(FftPlanner::new().plan_fft_forward(fm.m as usize)) }
        }
    }
    pub fn of(kind: Kind, n: usize) -> Oracle {
        Oracle::new(form(kind, n))
    }
    fn weighted(&self, x: &[f64]) -> Vec<f64> {
        let mut x = x.to_vec();
        let n = x.len();
        // both weights apply to the same cell only for DCT1 of length 1, which is not a transform
        if self.fm.half_first {
            x[0] *= 0.5;
        }
        if self.fm.half_last {
            x[n - 1] *= 0.5;
        }
        x
    }
    fn trig(&self, i: u64) -> f64 {
        if self.table.is_empty() {
            let (c, s) = cossin(i, self.fm.m);
            if self.fm.sin {
                s
            } else {
                c
            }
        } else {
            self.table[i as usize]
        }
    }
    fn direct_one(&self, xw: &[f64], k: usize) -> f64 {
        let fm = &self.fm;
        let kk = (fm.k0 + fm.dk * k as u64) % fm.m;
        let stride = (kk * fm.dj) % fm.m;
        let mut idx = (fm.j0 * kk) % fm.m;
        let (mut total, mut comp) = (0.0f64, 0.0f64);
        for chunk in xw.chunks(32) {
            let mut acc = 0.0;
            for v in chunk {
                acc += v * self.trig(idx);
                idx += stride;
                if idx >= fm.m {
                    idx -= fm.m;
                }
            }
            // compensated accumulation of the chunk sums
            let t = total + acc;
            comp += if total.abs() >= acc.abs() { (total - t) + acc } else { (acc - t) + total };
            total = t;
        }
        total + comp
    }
    /// one output by direct summation
    pub fn at(&self, x: &[f64], k: usize) -> f64 {
        self.direct_one(&self.weighted(x), k)
    }
    pub fn apply(&self, x: &[f64]) -> Vec<f64> {
        let fm = &self.fm;
        assert_eq!(x.len(), fm.nin);
        let xw = self.weighted(x);
        match &self.fft {
            None => (0..fm.nout).map(|k| self.direct_one(&xw, k)).collect(),
            Some(fft) => {
                let m = fm.m as usize;
                let mut buf = vec![Complex { re: 0.0f64, im: 0.0 }; m];
                for (j, v) in xw.iter().enumerate() {
                    buf[((fm.j0 + fm.dj * j as u64) % fm.m) as usize].re += v;
                }
                fft.process(&mut buf);
                let out: Vec<f64> = (0..fm.nout)
                    .map(|k| {
                        let c = buf[((fm.k0 + fm.dk * k as u64) % fm.m) as usize];
                        if fm.sin {
                            -c.im
                        } else {
                            c.re
                        }
                    })
                    .collect();
                // cross-check the FFT route against the definition itself
                let nrm = crate::num::norm2(&xw);
                for t in 0..3usize {
                    let k = match t {
                        0 => 0,
                        1 => fm.nout - 1,
                        _ => (fm.nout / 3 + 7) % fm.nout,
                    };
                    let d = self.direct_one(&xw, k);
                    let tol = 1e-15 * (60.0 * nrm + 4.0 * ((fm.m as f64).log2() + 2.0) * crate::tol::max_abs(&out));
                    assert!((d - out[k]).abs() <= tol, "HARNESS: oracle disagrees with itself: k={} {} vs {}", k, d, out[k]);
                }
                out
            }
        }
    }
}
