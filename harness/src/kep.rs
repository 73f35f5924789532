//! Independent two-body reference (Newton/bisection Kepler solver, universal-variable-free).
use crate::la::*;
/// Eccentric anomaly by safeguarded Newton on M - (E - e sin E), bracketed.
pub fn ecc_anom(m: f64, e: f64) -> f64 {
    let tau = std::f64::consts::TAU;
    let mm = m - (m / tau).round() * tau;
    let (mut lo, mut hi) = (mm - e - 1e-12, mm + e + 1e-12);
    let mut x = mm + e * mm.sin();
    for _ in 0..200 {
        let f = x - e * x.sin() - mm;
        if f > 0.0 { hi = x } else { lo = x }
        let mut y = x - f / (1.0 - e * x.cos());
        if !(y > lo && y < hi) { y = 0.5 * (lo + hi) }
        if (y - x).abs() < 1e-16 { x = y; break }
        x = y;
    }
    x
}
pub fn hyp_anom(m: f64, e: f64) -> f64 {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    let am = m.abs();
    while e * hi.sinh() - hi < am { hi *= 2.0 }
    let mut x = (2.0 * am / e + 1.8).ln().max(0.0).min(hi);
    for _ in 0..300 {
        let f = e * x.sinh() - x - am;
        if f > 0.0 { hi = x } else { lo = x }
        let mut y = x - f / (e * x.cosh() - 1.0);
        if !(y > lo && y < hi) { y = 0.5 * (lo + hi) }
        if (y - x).abs() <= 1e-16 * x.abs() { x = y; break }
        x = y;
    }
    x * m.signum()
}
pub fn orient(i: f64, om: f64, w: f64) -> M3 {
    // perifocal -> reference: active Rz(om) Rx(i) Rz(w); r1/r3 are passive
    mm(&r3(-om), &mm(&r1(-i), &r3(-w)))
}
/// Elliptic position, and velocity per unit mean anomaly.
pub fn elliptic(a: f64, e: f64, i: f64, om: f64, w: f64, m: f64) -> (V3, V3) {
    let x = ecc_anom(m, e);
    let b = (1.0 - e * e).sqrt();
    let r = 1.0 - e * x.cos();
    let p = [a * (x.cos() - e), a * b * x.sin(), 0.0];
    let v = [-a * x.sin() / r, a * b * x.cos() / r, 0.0];
    let q = orient(i, om, w);
    (mv(&q, p), mv(&q, v))
}
/// Hyperbolic (a > 0 = |a|): position and velocity per unit mean anomaly.
pub fn hyperbolic(a: f64, e: f64, i: f64, om: f64, w: f64, m: f64) -> (V3, V3) {
    let x = hyp_anom(m, e);
    let b = (e * e - 1.0).sqrt();
    let r = e * x.cosh() - 1.0;
    let p = [a * (e - x.cosh()), a * b * x.sinh(), 0.0];
    let v = [-a * x.sinh() / r, a * b * x.cosh() / r, 0.0];
    let q = orient(i, om, w);
    (mv(&q, p), mv(&q, v))
}
