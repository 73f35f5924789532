//! Independent reference for the IAU 2006/2000 Earth orientation chain (ERFA-style, passive R1/R3).
use crate::la::*;
use siderust_archive::nutation::tables::{NUT00A_LS, NUT00A_PL, NUT00B_LS};
use std::f64::consts::{PI, TAU};

pub const AS: f64 = PI / 648_000.0;
pub fn cent(jd_tt: f64) -> f64 {
    (jd_tt - 2_451_545.0) / 36_525.0
}
fn poly(c: &[f64], t: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, k| s * t + k)
}
/// gamma_bar, phi_bar, psi_bar, eps_A (rad), Hilton et al. 2006
pub fn fw(t: f64) -> [f64; 4] {
    [
        poly(&[-0.052928, 10.556378, 0.4932044, -0.00031238, -0.000002788, 0.0000000260], t) * AS,
        poly(&[84381.412819, -46.811016, 0.0511268, 0.00053289, -0.000000440, -0.0000000176], t) * AS,
        poly(&[-0.041775, 5038.481484, 1.5584175, -0.00018522, -0.000026452, -0.0000000148], t) * AS,
        obl(t),
    ]
}
pub fn obl(t: f64) -> f64 {
    poly(&[84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434], t) * AS
}
pub fn fw2m(gamb: f64, phib: f64, psi: f64, eps: f64) -> M3 {
    mm(&r1(-eps), &mm(&r3(-psi), &mm(&r1(phib), &r3(gamb))))
}
/// bias-precession(-nutation) matrix GCRS -> mean/true equator and equinox of date
pub fn npb(t: f64, dpsi: f64, deps: f64) -> M3 {
    let a = fw(t);
    fw2m(a[0], a[1], a[2] + dpsi, a[3] + deps)
}
/// Nutation in the four models, from the published series data (0.1 uas units).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Nut {
    A00,
    B00,
    None06,
    A06,
}
pub fn nutation(m: Nut, t: f64) -> (f64, f64) {
    let u = AS / 1e7;
    let full = |p: &[f64]| poly(p, t) % 1_296_000.0 * AS;
    let l = full(&[485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470]);
    let lp = full(&[1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149]);
    let f = full(&[335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417]);
    let d = full(&[1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169]);
    let om = full(&[450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939]);
    match m {
        Nut::None06 => (0.0, 0.0),
        Nut::B00 => {
            let (mut p, mut e) = (-1350.0, 3880.0);
            for r in NUT00B_LS.iter() {
                let a = r[0] * l + r[1] * lp + r[2] * f + r[3] * d + r[4] * om;
                p += (r[5] + r[6] * t) * a.sin() + r[7] * a.cos();
                e += (r[8] + r[9] * t) * a.cos() + r[10] * a.sin();
            }
            (p * u, e * u)
        }
        Nut::A00 | Nut::A06 => {
            let (mut p, mut e) = (0.0, 0.0);
            for r in NUT00A_LS.iter() {
                let a = r[0] * l + r[1] * lp + r[2] * f + r[3] * d + r[4] * om;
                p += (r[5] + r[6] * t) * a.sin() + r[7] * a.cos();
                e += (r[8] + r[9] * t) * a.cos() + r[10] * a.sin();
            }
            let g = |a: f64, b: f64| (a + b * t) % TAU;
            let args = [
                g(2.35555598, 8328.6914269554),
                g(1.627905234, 8433.466158131),
                g(5.198466741, 7771.3771468121),
                g(2.18243920, -33.757045),
                g(4.402608842, 2608.7903141574),
                g(3.176146697, 1021.3285546211),
                g(1.753470314, 628.3075849991),
                g(6.203480913, 334.0612426700),
                g(0.599546497, 52.9690962641),
                g(0.874016757, 21.3299104960),
                g(5.481293871, 7.4781598567),
                g(5.321159000, 3.8127774000),
                (0.024381750 + 0.00000538691 * t) * t,
            ];
            for r in NUT00A_PL.iter() {
                let a: f64 = (0..13).map(|k| f64::from(r[k]) * args[k]).sum();
                p += f64::from(r[13]) * a.sin() + f64::from(r[14]) * a.cos();
                e += f64::from(r[15]) * a.sin() + f64::from(r[16]) * a.cos();
            }
            let (p, e) = (p * u, e * u);
            if m == Nut::A00 {
                (p, e)
            } else {
                let fj2 = -2.7774e-6 * t;
                (p + p * (0.4697e-6 + fj2), e + e * fj2)
            }
        }
    }
}
/// Earth rotation angle
pub fn era(jd_ut1: f64) -> f64 {
    let du = jd_ut1 - 2_451_545.0;
    let f = du.rem_euclid(1.0);
    (TAU * (f + 0.7790572732640 + 0.00273781191135448 * du)).rem_euclid(TAU)
}
/// CIO locator: polynomial part of s + XY/2 and, optionally, the two dominant periodic terms.
pub fn s06(t: f64, x: f64, y: f64) -> f64 {
    let poly_uas = 94.0 + 3808.65 * t - 122.68 * t * t - 72574.11 * t * t * t;
    -0.5 * x * y + poly_uas * 1e-6 * AS
}
/// Celestial-to-intermediate matrix (ERFA c2ixys).
pub fn c2ixys(x: f64, y: f64, s: f64) -> M3 {
    let e = y.atan2(x);
    let d = ((x * x + y * y) / (1.0 - x * x - y * y)).sqrt().atan();
    mm(&r3(-(e + s)), &mm(&r2(d), &r3(e)))
}
/// Polar motion TIRS -> ITRS
pub fn pom(xp: f64, yp: f64, sp: f64) -> M3 {
    mm(&r1(-yp), &mm(&r2(-xp), &r3(sp)))
}
/// TAI-UTC leap seconds (UTC JD)
pub fn leap(jd_utc: f64) -> f64 {
    const T: [(f64, f64); 28] = [
        (2441317.5, 10.0), (2441499.5, 11.0), (2441683.5, 12.0), (2442048.5, 13.0), (2442413.5, 14.0),
        (2442778.5, 15.0), (2443144.5, 16.0), (2443509.5, 17.0), (2443874.5, 18.0), (2444239.5, 19.0),
        (2444786.5, 20.0), (2445151.5, 21.0), (2445516.5, 22.0), (2446247.5, 23.0), (2447161.5, 24.0),
        (2447892.5, 25.0), (2448257.5, 26.0), (2448804.5, 27.0), (2449169.5, 28.0), (2449534.5, 29.0),
        (2450083.5, 30.0), (2450630.5, 31.0), (2451179.5, 32.0), (2453736.5, 33.0), (2454832.5, 34.0),
        (2456109.5, 35.0), (2457204.5, 36.0), (2457754.5, 37.0),
    ];
    T.iter().rev().find(|(j, _)| jd_utc >= *j).map_or(10.0, |(_, l)| *l)
}
/// distance (days) to the nearest leap second boundary
pub fn near_leap(jd_utc: f64) -> f64 {
    let mut d = f64::INFINITY;
    for k in 0..2 {
        let _ = k;
    }
    let mut j = 2441317.5;
    let mut last = leap(j - 1.0);
    while j < 2461000.0 {
        let l = leap(j);
        if l != last {
            d = d.min((jd_utc - j).abs());
            last = l;
        }
        j += 1.0;
    }
    d
}
pub fn utc_from_tt(jd_tt: f64) -> f64 {
    let mut u = jd_tt - 69.184 / 86400.0;
    for _ in 0..3 {
        u = jd_tt - (32.184 + leap(u)) / 86400.0;
    }
    u
}
pub fn gmst06(jd_ut1: f64, t: f64) -> f64 {
    (era(jd_ut1) + poly(&[0.014506, 4612.156534, 1.3915817, -0.00000044, -0.000029956, -0.0000000368], t) * AS).rem_euclid(TAU)
}
/// complementary terms of the equation of the equinoxes (leading)
pub fn eect(t: f64) -> f64 {
    let full = |p: &[f64]| poly(p, t) % 1_296_000.0 * AS;
    let om = full(&[450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939]);
    let f = full(&[335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417]);
    let d = full(&[1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169]);
    (2640.96e-6 * om.sin() + 63.52e-6 * (2.0 * om).sin() + 11.75e-6 * (2.0 * f - 2.0 * d + 3.0 * om).sin()
        + 11.21e-6 * (2.0 * f - 2.0 * d + om).sin() - 4.55e-6 * (2.0 * f - 2.0 * d + 2.0 * om).sin()
        + 2.02e-6 * (2.0 * f + 3.0 * om).sin() + 1.98e-6 * (2.0 * f + om).sin() - 1.72e-6 * (3.0 * om).sin()
        - 0.87e-6 * t * om.sin())
        * AS
}
