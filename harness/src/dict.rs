//! Numbers found in the source of the crate under test (tools/literals.py), used as a fuzzing dictionary:
//! lengths, repeat counts and sample values near them are generated more often. On a tree whose constants
//! are all small this adds nothing beyond the ordinary grids.
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(serde::Deserialize, Default)]
pub struct Dict {
    ints: Vec<u64>,
    floats: Vec<f64>,
}
fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| match std::env::var("RDV_DICT") {
        Ok(f) => serde_json::from_str(&std::fs::read_to_string(f).expect("HARNESS: dictionary")).expect("HARNESS: dictionary"),
        _ => Dict::default(),
    })
}
/// constants beyond what the exhaustive grids of short lengths cover
fn big() -> impl Iterator<Item = usize> {
    // of a long table of constants, a few
    let all: Vec<usize> = get().ints.iter().map(|v| *v as usize).filter(|v| *v > 100 && *v < 1 << 31).collect();
    let step = all.len() / 40 + 1;
    all.into_iter().step_by(step)
}
/// lengths within [min, max] suggested by the constants, the closest ones first, at most `count`
pub fn lens(min: usize, max: usize, count: usize) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    let put = |v: usize, out: &mut Vec<usize>| {
        if v >= min && v <= max && v > 100 && !out.contains(&v) {
            out.push(v);
        }
    };
    let far: [fn(usize) -> usize; 8] =
        [|c| c, |c| c + 1, |c| c - 1, |c| 2 * c, |c| c / 2, |c| 2 * c + 1, |c| 2 * c - 1, |c| c + 2];
    for f in far {
        for c in big() {
            put(f(c), &mut out);
        }
    }
    for c in big() {
        for v in [2 * c + 2, 2 * c - 2, c - 2, c / 2 + 1, (c / 2).max(1) - 1, 4 * c, c / 4, 3 * c, c.next_power_of_two(), 2 * c.next_power_of_two()] {
            put(v, &mut out);
        }
    }
    out.truncate(count.min(150));
    out
}
/// a random length related to the constants
pub fn rand_len(r: &mut Rng, max: usize) -> Option<usize> {
    let d: Vec<usize> = get().ints.iter().map(|v| *v as usize).filter(|v| *v > 16 && *v <= max).collect();
    if d.is_empty() {
        return None;
    }
    let c = *r.pick(&d);
    Some(match r.below(4) {
        0 => c,
        1 => c * r.logu(1, max / c) + r.below(3),
        2 => c + r.below(64),
        _ => c * r.logu(1, max / c),
    })
}
/// repeat counts worth trying: a little more than the constants
pub fn counts(max: usize) -> Vec<usize> {
    get().ints.iter().map(|v| *v as usize + 2).filter(|v| *v > 18 && *v <= max).take(20).collect()
}
/// values from the source, besides the everyday ones
pub fn float(r: &mut Rng) -> Option<f64> {
    let d = get();
    let n = d.ints.len() + d.floats.len();
    if n == 0 {
        return None;
    }
    let i = r.below(n);
    let v = if i < d.floats.len() { d.floats[i] } else { d.ints[i - d.floats.len()] as f64 };
    // values every check can take without leaving the range of f32
    if !(v == 0.0 || (v.abs() > 1e-12 && v.abs() < 1e12)) {
        return None;
    }
    Some(if r.chance(0.3) { -v } else { v })
}
