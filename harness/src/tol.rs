//! Error allowances.  `fast` is calibrated (see DESIGN.md), `naive` is the textbook bound for summing n products.
pub fn cf() -> f64 {
    static C: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *C.get_or_init(|| std::env::var("RDV_CF").ok().and_then(|s| s.parse().ok()).unwrap_or(12.0))
}
/// allowance for one output of an O(n log n) algorithm: norm2 is the input norm, max_out the largest output
pub fn fast(eps: f64, n: usize, norm2: f64, max_out: f64) -> f64 {
    eps * cf() * ((n.max(1) as f64).log2() + 2.0) * (norm2 + 0.5 * max_out)
}
pub fn naive(eps: f64, n: usize, norm1: f64) -> f64 {
    eps * (n as f64 + 4.0) * norm1
}
pub fn max_abs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, b| a.max(b.abs()))
}
