//! C05: built-in ephemerides equal the published series, velocities are their exact time derivatives,
//! the different entry points agree, and Sun–Earth Lagrange points satisfy their equilibrium equation.
use siderust::bodies::solar_system as ss;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::ephemeris::lagrange::{fit, solver, sun_earth_lagrange_barycentric, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint as LP, FIT_FROM_JD, FIT_TO_JD};
use siderust::ephemeris::{AuPerDay, DynEphemeris, Ephemeris, Vsop87Ephemeris, VSOP87};
use siderust::qtty;
use siderust::qtty::{AstronomicalUnit, Kilometer, Kilometers, Meters, Seconds};
use siderust::JulianDate;
use siderust_archive as ar;
use std::f64::consts::TAU;
use vh::la::*;
use vh::{guard, kep, Rng, Run};

const AU_KM: f64 = 149_597_870.7;
fn a3<C: ReferenceCenter, F: ReferenceFrame, U: qtty::LengthUnit>(p: &Position<C, F, U>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn v3<F: ReferenceFrame>(p: &Velocity<F, AuPerDay>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}
type Ser = &'static [ar::vsop::Vsop87];

/// TDB - TT (s), leading terms.
fn tdb_tt(jd: f64) -> f64 {
    let t = (jd - 2_451_545.0) / 36525.0;
    let g = (357.53 + 35_999.050 * t).to_radians();
    0.001657 * (g + 0.01671 * g.sin()).sin()
}
fn naive(s: &[Vec<Ser>; 3], jd: f64) -> (V3, V3) {
    let t = (jd - 2_451_545.0 + tdb_tt(jd) / 86400.0) / 365_250.0;
    let (mut p, mut v) = ([0.0; 3], [0.0; 3]);
    for c in 0..3 {
        for (k, terms) in s[c].iter().enumerate() {
            let (mut a, mut b) = (0.0, 0.0);
            for x in terms.iter() {
                let arg = x.b.value() + x.c * t;
                a += x.a.value() * arg.cos();
                b -= x.a.value() * x.c * arg.sin();
            }
            let tk = t.powi(k as i32);
            p[c] += a * tk;
            v[c] += b * tk + if k > 0 { a * k as f64 * t.powi(k as i32 - 1) } else { 0.0 };
        }
        v[c] /= 365_250.0;
    }
    (p, v)
}
macro_rules! ser6 { ($m:ident, $x0:ident $x1:ident $x2:ident $x3:ident $x4:ident $x5:ident) => { vec![ar::vsop::$m::$x0.as_slice(), ar::vsop::$m::$x1.as_slice(), ar::vsop::$m::$x2.as_slice(), ar::vsop::$m::$x3.as_slice(), ar::vsop::$m::$x4.as_slice(), ar::vsop::$m::$x5.as_slice()] } }
macro_rules! ser5 { ($m:ident, $x0:ident $x1:ident $x2:ident $x3:ident $x4:ident) => { vec![ar::vsop::$m::$x0.as_slice(), ar::vsop::$m::$x1.as_slice(), ar::vsop::$m::$x2.as_slice(), ar::vsop::$m::$x3.as_slice(), ar::vsop::$m::$x4.as_slice()] } }
macro_rules! ser4 { ($m:ident, $x0:ident $x1:ident $x2:ident $x3:ident) => { vec![ar::vsop::$m::$x0.as_slice(), ar::vsop::$m::$x1.as_slice(), ar::vsop::$m::$x2.as_slice(), ar::vsop::$m::$x3.as_slice()] } }
macro_rules! six { ($m:ident, $x0:ident $x1:ident $x2:ident $x3:ident $x4:ident $x5:ident, $y0:ident $y1:ident $y2:ident $y3:ident $y4:ident $y5:ident, $z0:ident $z1:ident $z2:ident $z3:ident $z4:ident $z5:ident) => {
    [ser6!($m, $x0 $x1 $x2 $x3 $x4 $x5), ser6!($m, $y0 $y1 $y2 $y3 $y4 $y5), ser6!($m, $z0 $z1 $z2 $z3 $z4 $z5)]
} }
macro_rules! five { ($m:ident, $x0:ident $x1:ident $x2:ident $x3:ident $x4:ident, $y0:ident $y1:ident $y2:ident $y3:ident $y4:ident, $z0:ident $z1:ident $z2:ident $z3:ident) => {
    [ser5!($m, $x0 $x1 $x2 $x3 $x4), ser5!($m, $y0 $y1 $y2 $y3 $y4), ser4!($m, $z0 $z1 $z2 $z3)]
} }
macro_rules! tables { ($m:ident) => { vec![
    six!($m, MERCURY_X0 MERCURY_X1 MERCURY_X2 MERCURY_X3 MERCURY_X4 MERCURY_X5, MERCURY_Y0 MERCURY_Y1 MERCURY_Y2 MERCURY_Y3 MERCURY_Y4 MERCURY_Y5, MERCURY_Z0 MERCURY_Z1 MERCURY_Z2 MERCURY_Z3 MERCURY_Z4 MERCURY_Z5),
    six!($m, VENUS_X0 VENUS_X1 VENUS_X2 VENUS_X3 VENUS_X4 VENUS_X5, VENUS_Y0 VENUS_Y1 VENUS_Y2 VENUS_Y3 VENUS_Y4 VENUS_Y5, VENUS_Z0 VENUS_Z1 VENUS_Z2 VENUS_Z3 VENUS_Z4 VENUS_Z5),
    six!($m, EARTH_X0 EARTH_X1 EARTH_X2 EARTH_X3 EARTH_X4 EARTH_X5, EARTH_Y0 EARTH_Y1 EARTH_Y2 EARTH_Y3 EARTH_Y4 EARTH_Y5, EARTH_Z0 EARTH_Z1 EARTH_Z2 EARTH_Z3 EARTH_Z4 EARTH_Z5),
    six!($m, MARS_X0 MARS_X1 MARS_X2 MARS_X3 MARS_X4 MARS_X5, MARS_Y0 MARS_Y1 MARS_Y2 MARS_Y3 MARS_Y4 MARS_Y5, MARS_Z0 MARS_Z1 MARS_Z2 MARS_Z3 MARS_Z4 MARS_Z5),
    six!($m, JUPITER_X0 JUPITER_X1 JUPITER_X2 JUPITER_X3 JUPITER_X4 JUPITER_X5, JUPITER_Y0 JUPITER_Y1 JUPITER_Y2 JUPITER_Y3 JUPITER_Y4 JUPITER_Y5, JUPITER_Z0 JUPITER_Z1 JUPITER_Z2 JUPITER_Z3 JUPITER_Z4 JUPITER_Z5),
    six!($m, SATURN_X0 SATURN_X1 SATURN_X2 SATURN_X3 SATURN_X4 SATURN_X5, SATURN_Y0 SATURN_Y1 SATURN_Y2 SATURN_Y3 SATURN_Y4 SATURN_Y5, SATURN_Z0 SATURN_Z1 SATURN_Z2 SATURN_Z3 SATURN_Z4 SATURN_Z5),
    five!($m, URANUS_X0 URANUS_X1 URANUS_X2 URANUS_X3 URANUS_X4, URANUS_Y0 URANUS_Y1 URANUS_Y2 URANUS_Y3 URANUS_Y4, URANUS_Z0 URANUS_Z1 URANUS_Z2 URANUS_Z3),
    five!($m, NEPTUNE_X0 NEPTUNE_X1 NEPTUNE_X2 NEPTUNE_X3 NEPTUNE_X4, NEPTUNE_Y0 NEPTUNE_Y1 NEPTUNE_Y2 NEPTUNE_Y3 NEPTUNE_Y4, NEPTUNE_Z0 NEPTUNE_Z1 NEPTUNE_Z2 NEPTUNE_Z3),
] } }

/// Standish (JPL) approximate elements 1800–2050: a, e, I, L, varpi, Omega and rates per century.
const STANDISH: [[f64; 12]; 8] = [
    [0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593, 0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081],
    [0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255, 0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418],
    [1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0, 0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0],
    [1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891, 0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343],
    [5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909, -0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106],
    [9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448, -0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794],
    [19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503, -0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589],
    [30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574, 0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664],
];
fn standish(p: usize, jd: f64) -> V3 {
    let t = (jd - 2_451_545.0) / 36525.0;
    let e = |k: usize| STANDISH[p][k] + STANDISH[p][k + 6] * t;
    let d = f64::to_radians;
    kep::elliptic(e(0), e(1), d(e(2)), d(e(5)), d(e(4) - e(5)), d(e(3) - e(4))).0
}

fn elp(jd: f64) -> V3 {
    use ar::elp::constants::*;
    use ar::elp::elp_data::*;
    use ar::elp::{EarthPert, MainProblem, PlanetPert};
    let t = (jd - 2_451_545.0) / 36525.0;
    let poly = |c: &[qtty::Radians; 5]| -> f64 { (0..5).map(|k| c[k].value() * t.powi(k as i32)).sum() };
    let lin = |c: &[qtty::Radians]| c[0].value() + c[1].value() * t;
    let del: Vec<f64> = DEL.iter().map(poly).collect();
    let dl: Vec<f64> = DEL.iter().map(|c| lin(&c[..])).collect();
    let zl = lin(&ZETA[..]);
    let pl: Vec<f64> = P_ARGS.iter().map(|c| lin(&c[..])).collect();
    let main = |s: &[MainProblem], off: f64| -> f64 {
        s.iter()
            .map(|e| {
                let tgv = e.b[0] + DTASM * e.b[4];
                let x = e.a + tgv * (DELNP.value() - AM * DELNU.value()) + e.b[1] * DELG.value() + e.b[2] * DELE.value() + e.b[3] * DELEP.value();
                let y: f64 = off + (0..4).map(|i| e.ilu[i] as f64 * del[i]).sum::<f64>();
                x * y.sin()
            })
            .sum()
    };
    let earth = |s: &[EarthPert], p: i32| -> f64 { s.iter().map(|e| e.a * (e.o.to_radians() + e.iz * zl + (0..4).map(|i| e.ilu[i] as f64 * dl[i]).sum::<f64>()).sin()).sum::<f64>() * t.powi(p) };
    let plan = |s: &[PlanetPert], p: i32, alt: bool| -> f64 {
        s.iter()
            .map(|e| {
                let mut y = e.theta.to_radians();
                if alt {
                    for i in 0..7 { y += e.ipla[i] as f64 * pl[i] }
                    for i in 0..4 { y += e.ipla[7 + i] as f64 * dl[i] }
                } else {
                    for i in 0..8 { y += e.ipla[i] as f64 * pl[i] }
                    y += e.ipla[8] as f64 * dl[0] + e.ipla[9] as f64 * dl[2] + e.ipla[10] as f64 * dl[3];
                }
                e.o * y.sin()
            })
            .sum::<f64>() * t.powi(p)
    };
    let h = std::f64::consts::FRAC_PI_2;
    let a = main(ELP1, 0.0) + earth(ELP4, 0) + earth(ELP7, 1) + plan(ELP10, 0, false) + plan(ELP13, 1, false) + plan(ELP16, 0, true) + plan(ELP19, 1, true) + earth(ELP22, 0) + earth(ELP25, 1) + earth(ELP28, 0) + earth(ELP31, 0) + earth(ELP34, 2);
    let b = main(ELP2, 0.0) + earth(ELP5, 0) + earth(ELP8, 1) + plan(ELP11, 0, false) + plan(ELP14, 1, false) + plan(ELP17, 0, true) + plan(ELP20, 1, true) + earth(ELP23, 0) + earth(ELP26, 1) + earth(ELP29, 0) + earth(ELP32, 0) + earth(ELP35, 2);
    let c = main(ELP3, h) + earth(ELP6, 0) + earth(ELP9, 1) + plan(ELP12, 0, false) + plan(ELP15, 1, false) + plan(ELP18, 0, true) + plan(ELP21, 1, true) + earth(ELP24, 0) + earth(ELP27, 1) + earth(ELP30, 0) + earth(ELP33, 0) + earth(ELP36, 2);
    let lon = (a / 3600.0).to_radians() + poly(&W1);
    let lat = (b / 3600.0).to_radians();
    let r = c * A0.value() / ATH.value();
    let v = [r * lat.cos() * lon.cos(), r * lat.cos() * lon.sin(), r * lat.sin()];
    let p = (P1 + P2 * t + P3 * t * t + P4 * t.powi(3) + P5 * t.powi(4)) * t;
    let q = (Q1 + Q2 * t + Q3 * t * t + Q4 * t.powi(3) + Q5 * t.powi(4)) * t;
    let s = 2.0 * (1.0 - p * p - q * q).sqrt();
    let m: M3 = [[1.0 - 2.0 * p * p, 2.0 * p * q, p * s], [2.0 * p * q, 1.0 - 2.0 * q * q, -q * s], [-p * s, q * s, 1.0 - 2.0 * p * p - 2.0 * q * q]];
    mv(&m, v)
}
/// Low-precision lunar theory (Meeus ch. 47, leading terms): ecliptic of date longitude/latitude (rad), km.
fn moon_low(jd: f64) -> (f64, f64, f64) {
    let t = (jd - 2_451_545.0) / 36525.0;
    let d = f64::to_radians;
    let lp = 218.3164477 + 481267.88123421 * t - 0.0015786 * t * t;
    let dd = d(297.8501921 + 445267.1114034 * t - 0.0018819 * t * t);
    let m = d(357.5291092 + 35999.0502909 * t);
    let mp = d(134.9633964 + 477198.8675055 * t + 0.0087414 * t * t);
    let f = d(93.2720950 + 483202.0175233 * t - 0.0036539 * t * t);
    let l = lp + 6.288774 * mp.sin() + 1.274027 * (2.0 * dd - mp).sin() + 0.658314 * (2.0 * dd).sin() + 0.213618 * (2.0 * mp).sin() - 0.185116 * m.sin() - 0.114332 * (2.0 * f).sin() + 0.058793 * (2.0 * dd - 2.0 * mp).sin() + 0.057066 * (2.0 * dd - m - mp).sin() + 0.053322 * (2.0 * dd + mp).sin() + 0.045758 * (2.0 * dd - m).sin();
    let b = 5.128122 * f.sin() + 0.280602 * (mp + f).sin() + 0.277693 * (mp - f).sin() + 0.173237 * (2.0 * dd - f).sin() + 0.055413 * (2.0 * dd - mp + f).sin() + 0.046271 * (2.0 * dd - mp - f).sin();
    let r = 385000.56 - 20905.355 * mp.cos() - 3699.111 * (2.0 * dd - mp).cos() - 2955.968 * (2.0 * dd).cos() - 569.925 * (2.0 * mp).cos();
    (d(l), d(b), r)
}
/// The leading terms of Meeus chapter 47 (6 longitude, 4 latitude, 4 distance): of-date longitude, latitude (rad), km.
fn meeus(t: f64) -> (f64, f64, f64) {
    let p = |c: [f64; 5]| ((((c[4] * t + c[3]) * t + c[2]) * t + c[1]) * t + c[0]).rem_euclid(360.0).to_radians();
    let l = p([218.3164477, 481267.88123421, -0.0015786, 1.0 / 538841.0, -1.0 / 65194000.0]);
    let d = p([297.8501921, 445267.1114034, -0.0018819, 1.0 / 545868.0, -1.0 / 113065000.0]);
    let s = p([357.5291092, 35999.0502909, -0.0001536, 1.0 / 24490000.0, 0.0]);
    let m = p([134.9633964, 477198.8675055, 0.0087414, 1.0 / 69699.0, -1.0 / 14712000.0]);
    let f = p([93.2720950, 483202.0175233, -0.0036539, -1.0 / 3526000.0, 1.0 / 863310000.0]);
    let arg = |k: [f64; 4]| k[0] * d + k[1] * s + k[2] * m + k[3] * f;
    let lon: f64 = [(6288774.0, [0.0, 0.0, 1.0, 0.0]), (1274027.0, [2.0, 0.0, -1.0, 0.0]), (658314.0, [2.0, 0.0, 0.0, 0.0]), (213618.0, [0.0, 0.0, 2.0, 0.0]), (-185116.0, [0.0, 1.0, 0.0, 0.0]), (-114332.0, [0.0, 0.0, 0.0, 2.0])].iter().map(|(c, k)| c * arg(*k).sin()).sum();
    let lat: f64 = [(5128122.0, [0.0, 0.0, 0.0, 1.0]), (280602.0, [0.0, 0.0, 1.0, 1.0]), (277693.0, [0.0, 0.0, 1.0, -1.0]), (173237.0, [2.0, 0.0, 0.0, -1.0])].iter().map(|(c, k)| c * arg(*k).sin()).sum();
    let r: f64 = [(-20905355.0, [0.0, 0.0, 1.0, 0.0]), (-3699111.0, [2.0, 0.0, -1.0, 0.0]), (-2955968.0, [2.0, 0.0, 0.0, 0.0]), (-569925.0, [0.0, 0.0, 2.0, 0.0])].iter().map(|(c, k)| c * arg(*k).cos()).sum();
    (l + (lon * 1e-6).to_radians(), (lat * 1e-6).to_radians(), 385000.56 + r * 1e-3)
}
/// Ecliptic of date to mean equator of date with the IAU 2006 obliquity.
fn mul_obliquity(t: f64, v: V3) -> V3 {
    let e = ((84381.406 + t * (-46.836769 + t * (-0.0001831 + t * (0.00200340 + t * (-0.000000576 + t * -0.0000000434))))) / 3600.0).to_radians();
    [v[0], e.cos() * v[1] - e.sin() * v[2], e.sin() * v[1] + e.cos() * v[2]]
}
fn pluto(jd: f64) -> V3 {
    use ar::pluto::pluto_data::*;
    let t = (jd - 2_451_545.0) / 36525.0;
    let (j, s, p) = (34.35 + 3034.9057 * t, 50.08 + 1222.1138 * t, 238.96 + 144.96 * t);
    let (mut l, mut b, mut r) = (238.958116 + 144.96 * t, -3.908239, 40.7241346);
    for i in 0..PLUTO_ARGUMENTS.len() {
        let a = (PLUTO_ARGUMENTS[i].j * j + PLUTO_ARGUMENTS[i].s * s + PLUTO_ARGUMENTS[i].p * p).to_radians();
        l += 1e-6 * (PLUTO_LONGITUDE_TERMS[i].a * a.sin() + PLUTO_LONGITUDE_TERMS[i].b * a.cos());
        b += 1e-6 * (PLUTO_LATITUDE_TERMS[i].a * a.sin() + PLUTO_LATITUDE_TERMS[i].b * a.cos());
        r += 1e-7 * (PLUTO_RADIUS_TERMS[i].a * a.sin() + PLUTO_RADIUS_TERMS[i].b * a.cos());
    }
    let (l, b) = (l.to_radians(), b.to_radians());
    [r * b.cos() * l.cos(), r * b.cos() * l.sin(), r * b.sin()]
}

/// Equilibrium residual in the instantaneous Sun–Earth rotating frame (km/s²), Moon as external body.
fn residual(e: &dyn DynEphemeris, jd: f64, pos: V3) -> (f64, V3, V3, V3) {
    let j = JulianDate::new(jd);
    let km = |p: V3| scale(p, AU_KM);
    let sun = km(a3(&e.sun_barycentric(j)));
    let earth = km(a3(&e.earth_barycentric(j)));
    let moon = add(earth, a3(&e.moon_geocentric(j)));
    let h = 0.01;
    let rel = |d: f64| km(sub(a3(&e.earth_barycentric(JulianDate::new(jd + d))), a3(&e.sun_barycentric(JulianDate::new(jd + d)))));
    let v = scale(sub(rel(h), rel(-h)), 1.0 / (2.0 * h * 86400.0));
    let r = sub(earth, sun);
    let d = norm(r);
    let hh = cross(r, v);
    let om = scale(hh, 1.0 / (d * d));
    let (gs, ge, gm) = (qtty::GM_SUN.value(), qtty::GM_EARTH.value(), qtty::GM_MOON.value());
    let g = |p: V3, b: V3, mu: f64| { let x = sub(b, p); scale(x, mu / norm(x).powi(3)) };
    let origin = scale(add(scale(sun, gs), scale(earth, ge)), 1.0 / (gs + ge));
    let oa = scale(add(scale(g(sun, moon, gm), gs), scale(g(earth, moon, gm), ge)), 1.0 / (gs + ge));
    let acc = add(add(g(pos, sun, gs), g(pos, earth, ge)), g(pos, moon, gm));
    let res = sub(sub(acc, oa), cross(om, cross(om, sub(pos, origin))));
    (norm(res), sun, earth, unit(hh))
}

/// Independent decode of the bundled Chebyshev kernel (64-byte header, then records of
/// mid, radius, 8 coefficients per axis in km over TDB seconds since J2000; little endian).
fn sck_eval(lp: LP, jd: f64) -> V3 {
    use siderust_archive::lagrange::vsop87 as d;
    let b = match lp { LP::L1 => d::L1_BYTES, LP::L2 => d::L2_BYTES, LP::L3 => d::L3_BYTES, LP::L4 => d::L4_BYTES, LP::L5 => d::L5_BYTES };
    let s = (jd - 2_451_545.0) * 86400.0;
    let f = |i: usize| f64::from_le_bytes(b[64 + 8 * i..72 + 8 * i].try_into().unwrap());
    let n = (b.len() - 64) / 8 / 26;
    let mut best = (f64::INFINITY, [f64::NAN; 3]);
    for r in 0..n {
        let (m, h) = (f(26 * r), f(26 * r + 1));
        let x = (s - m) / h;
        if x.abs() < best.0 {
            let c = |k: usize| (0..8).map(|i| f(26 * r + 2 + 8 * k + i) * (i as f64 * x.clamp(-1.0, 1.0).acos()).cos()).sum::<f64>();
            best = (x.abs(), [c(0), c(1), c(2)]);
        }
    }
    best.1
}

fn lagrange(run: &Run, g: &mut Rng, deep: bool) {
    let lps = [LP::L1, LP::L2, LP::L3, LP::L4, LP::L5];
    let jd = if g.n(6) == 0 { *g.pick(&[FIT_FROM_JD, FIT_TO_JD]) } else { g.range(FIT_FROM_JD, FIT_TO_JD) };
    let e = Vsop87Ephemeris;
    for lp in lps {
        let w = || format!("{lp:?} jd={jd}");
        let j = JulianDate::new(jd);
        let Ok(emb) = try_sun_earth_lagrange_barycentric(lp, j) else {
            run.violation("lagrange/coverage", &w());
            continue;
        };
        run.eval("lagrange", (format!("{lp:?}"), jd.to_bits()));
        run.within("lagrange/panicking-variant", norm(sub(a3(&sun_earth_lagrange_barycentric(lp, j)), a3(&emb))), 0.0, w);
        let s = match solver::solve_sun_earth_lagrange::<Vsop87Ephemeris>(lp, j) {
            Ok(s) => s,
            Err(x) => { run.violation("lagrange/solver", &format!("{} {x}", w())); continue; }
        };
        let sd = solver::solve_sun_earth_lagrange_dyn(&e, lp, j).unwrap();
        let cfg = solver::SolverConfig::default();
        let sc = solver::solve_sun_earth_lagrange_with_config::<Vsop87Ephemeris>(lp, j, cfg).unwrap();
        run.within("lagrange/config", norm(sub(a3(&s.position), a3(&sc.position))), 0.0, w);
        run.check(s.iterations <= cfg.max_iterations && sc.iterations == s.iterations && sd.iterations == s.iterations, "lagrange/iterations", || format!("{} {} {} of {}", w(), s.iterations, sc.iterations, cfg.max_iterations));
        // from another starting guess near the point the solver comes to the same point
        if matches!(lp, LP::L1 | LP::L2) {
            let off = g.unit().map(|x| x * g.log(10.0, 1e5));
            let seed = Position::new(s.position.x() + Kilometers::new(off[0]), s.position.y() + Kilometers::new(off[1]), s.position.z() + Kilometers::new(off[2]));
            match solver::solve_sun_earth_lagrange_dyn_with_config(&e, lp, j, cfg, Some(seed)) {
                Ok(q) => { run.within("lagrange/seeded", norm(sub(a3(&q.position), a3(&s.position))), 10.0, || format!("{} off {off:?} km", w())); }
                Err(x) => { run.violation("lagrange/seeded", &format!("{} off {off:?} km: {x}", w())); }
            }
        }
        run.within("lagrange/dyn", norm(sub(a3(&s.position), a3(&sd.position))), 0.0, w);
        let p = a3(&s.position);
        let (res, sun, earth, z) = residual(&e, jd, p);
        run.within("lagrange/residual", res, if matches!(lp, LP::L1 | LP::L2) { 1e-13 } else { 1e-10 }, || format!("{} reported {}", w(), s.residual_norm_km_s2));
        run.within("lagrange/archive-eval", norm(sub(scale(a3(&emb), AU_KM), sck_eval(lp, jd))), 1e-5, w);
        run.within("lagrange/embedded", norm(sub(scale(a3(&emb), AU_KM), p)), 0.1, w);
        // geometry that tells the five points apart
        let x = unit(sub(earth, sun));
        let y = unit(cross(z, x));
        let d = norm(sub(earth, sun));
        let o = scale(sub(p, sun), 1.0 / d);
        let (ox, oy) = (dot(o, x), dot(o, y));
        let want = match lp { LP::L1 => (0.99, 0.0), LP::L2 => (1.01, 0.0), LP::L3 => (-1.0, 0.0), LP::L4 => (0.5, 0.8660254), LP::L5 => (0.5, -0.8660254) };
        run.within("lagrange/geometry", ((ox - want.0).powi(2) + (oy - want.1).powi(2) + dot(o, z).powi(2)).sqrt(), match lp { LP::L1 | LP::L2 => 5e-3, _ => 0.06 }, || format!("{} {ox} {oy}", w()));
    }
    // outside the archive: refused, not extrapolated
    let off = g.log(1e-5, 1e4);
    let out = if g.p(0.5) { FIT_FROM_JD - off } else { FIT_TO_JD + off };
    let lp = *g.pick(&lps);
    run.eval("lagrange-out", out.to_bits());
    // the refusal names the instant asked for and the interval that is covered
    if let Err(siderust::ephemeris::EphemerisError::OutOfRange { jd: asked, start_jd, end_jd }) = try_sun_earth_lagrange_barycentric(lp, JulianDate::new(out)) {
        run.check((asked - out).abs() < 1e-6, "lagrange/range-report", || format!("{lp:?} asked {out}, error says {asked}"));
        for (edge, dir) in [(start_jd, 1.0), (end_jd, -1.0)] {
            let ok = |x: f64| try_sun_earth_lagrange_barycentric(lp, JulianDate::new(x)).is_ok();
            run.check(ok(edge + dir * 1e-3) && !ok(edge - dir * 1e-3), "lagrange/range-report", || format!("{lp:?} error claims coverage {start_jd}..{end_jd}; at {edge} inside {} outside {}", ok(edge + dir * 1e-3), ok(edge - dir * 1e-3)));
        }
    } else { run.violation("lagrange/out-of-range", &format!("{lp:?} jd={out}: wrong error")) }
    run.check(try_sun_earth_lagrange_barycentric(lp, JulianDate::new(out)).is_err(), "lagrange/out-of-range", || format!("{lp:?} jd={out}"));
    run.check(guard(|| sun_earth_lagrange_barycentric(lp, JulianDate::new(out))).is_err(), "lagrange/out-of-range", || format!("{lp:?} jd={out}"));
    if deep {
        let from = g.int(2_440_000, 2_460_000) as f64 + 0.125 * g.n(8) as f64;
        let cfg = fit::FitConfig { from: JulianDate::new(from), to: JulianDate::new(from + 0.25 * g.int(40, 180) as f64), block: Seconds::new(21600.0 * g.int(48, 128) as f64), validation_step: Seconds::new(43200.0), tolerance: Meters::new(g.log(20.0, 1e4)), ..Default::default() };
        match fit::fit_sun_earth_lagrange(&e, lp, cfg) {
            Ok(f) => {
                run.eval("lagrange-fit", from.to_bits());
                run.check(f.stats.max_abs_error.value() <= cfg.tolerance.value() && f.stats.rms_error.value() <= f.stats.max_abs_error.value(), "lagrange/fit-stats", || format!("{:?} tol {:?}", f.stats, cfg.tolerance));
                for _ in 0..6 {
                    let jd = g.range(from, cfg.to.raw().value());
                    let p = fit::evaluate_fitted(&f, JulianDate::new(jd)).unwrap();
                    let s = solver::solve_sun_earth_lagrange::<Vsop87Ephemeris>(lp, JulianDate::new(jd)).unwrap();
                    let err = norm(sub(scale(a3(&p), AU_KM), a3(&s.position))) * 1000.0;
                    run.within("lagrange/fit", err, 3.0 * cfg.tolerance.value() + 2000.0, || format!("{lp:?} jd={jd} tol={:?} stats={:?}", cfg.tolerance, f.stats));
                }
                run.check(fit::evaluate_fitted(&f, JulianDate::new(from - 0.1)).is_err() && fit::evaluate_fitted(&f, JulianDate::new(cfg.to.raw().value() + 0.1)).is_err(), "lagrange/fit-range", || format!("{from}"));
            }
            Err(fit::FitError::ToleranceNotMet { max_abs_error }) => {
                run.check(max_abs_error.value() > cfg.tolerance.value(), "lagrange/fit-stats", || format!("{max_abs_error:?}"));
            }
            Err(x) => run.violation("lagrange/fit-error", &format!("{x}")),
        }
    }
}

fn main() {
    let mut run = Run::new("C05", "seeded epochs within ±20 centuries x all planets/Moon/Pluto/Sun/Lagrange points");
    run.assume("the archived coefficient tables (external crate) are the published ones; they are evaluated independently, and cross-checked against JPL approximate elements and Meeus' lunar theory");
    let (ta, te) = (tables!(vsop87a_data), tables!(vsop87e_data));
    let sun = six!(vsop87e_data, SUN_X0 SUN_X1 SUN_X2 SUN_X3 SUN_X4 SUN_X5, SUN_Y0 SUN_Y1 SUN_Y2 SUN_Y3 SUN_Y4 SUN_Y5, SUN_Z0 SUN_Z1 SUN_Z2 SUN_Z3 SUN_Z4 SUN_Z5);
    let emb = six!(vsop87a_data, EMB_X0 EMB_X1 EMB_X2 EMB_X3 EMB_X4 EMB_X5, EMB_Y0 EMB_Y1 EMB_Y2 EMB_Y3 EMB_Y4 EMB_Y5, EMB_Z0 EMB_Z1 EMB_Z2 EMB_Z3 EMB_Z4 EMB_Z5);
    let n = run.size(1200, 20000);
    run.par("eph", n, |i| {
        let mut g = run.rng_i("c05", i);
        let jd = match g.n(5) { 0 => 2_451_545.0 + g.range(-20.0, 20.0) * 36525.0, 1 => 2_451_545.0 + g.range(-2.0, 2.0), _ => 2_451_545.0 + g.range(-2.0, 0.5) * 36525.0 };
        let j = JulianDate::new(jd);
        let t = (jd - 2_451_545.0) / 36525.0;
        let mut k = 0;
        let sb = a3(&ss::Sun::vsop87e(j));
        run.within("sun", norm(sub(sb, naive(&sun, jd).0)), 1e-12, || format!("jd={jd}"));
        macro_rules! planet { ($($p:ident),*) => { $( {
            let w = || format!("{} jd={jd}", stringify!($p));
            run.eval("planet", (k, jd.to_bits()));
            let (pa, va) = naive(&ta[k], jd);
            let (pe, ve) = naive(&te[k], jd);
            // argument rounding: phase ~ rate*t*eps
            let tol = (1e-11 * (1.0 + norm(pa)) + norm(va) * 1e-9) * (1.0 + t.abs());
            let (a, e) = (a3(&ss::$p::vsop87a(j)), a3(&ss::$p::vsop87e(j)));
            run.within("vsop87a", norm(sub(a, pa)), tol, w);
            run.within("vsop87e", norm(sub(e, pe)), tol, w);
            run.within("vsop87/trait", norm(sub(a3(&VSOP87::vsop87a(&ss::$p, j)), a)) + norm(sub(a3(&VSOP87::vsop87e(&ss::$p, j)), e)), 0.0, w);
            let (xa, xe) = (v3(&ss::$p::vsop87a_vel(j)), v3(&ss::$p::vsop87e_vel(j)));
            run.within("vsop87a_vel", norm(sub(xa, va)), tol * 1e-1, w);
            run.within("vsop87e_vel", norm(sub(xe, ve)), tol * 1e-1, w);
            let (q, u) = ss::$p::vsop87a_pos_vel(j);
            run.within("pos_vel", norm(sub(a3(&q), a)) + norm(sub(v3(&u), xa)), tol * 1e-2, w);
            let (q, u) = ss::$p::vsop87e_pos_vel(j);
            run.within("pos_vel", norm(sub(a3(&q), e)) + norm(sub(v3(&u), xe)), tol * 1e-2, w);
            // velocity is the time derivative of the library's own position
            let h = 0.25;
            let fd = |d: f64| a3(&ss::$p::vsop87e(JulianDate::new(jd + d)));
            let der = scale(sub(scale(sub(fd(h), fd(-h)), 8.0), sub(fd(2.0 * h), fd(-2.0 * h))), 1.0 / (12.0 * h));
            run.within("derivative", norm(sub(der, xe)), 2e-8, || format!("{} fd={der:?} v={xe:?}", w()));
            // heliocentric = barycentric - Sun
            run.within("helio=bary-sun", norm(sub(sub(e, sb), a)), 3e-7 * norm(a).max(1.0) * (1.0 + t.abs()), w);
            if t.abs() < 2.0 && t < 0.5 {
                run.within("standish", angle(a, standish(k, jd)).to_degrees(), [0.03, 0.03, 0.03, 0.1, 0.3, 0.4, 0.3, 0.3][k], w);
                run.within("standish/r", (norm(a) / norm(standish(k, jd)) - 1.0).abs(), 0.012, w);
            }
            k += 1;
        } )* } }
        planet!(Mercury, Venus, Earth, Mars, Jupiter, Saturn, Uranus, Neptune);
        let _ = k;
        run.within("emb", norm(sub(a3(&ss::Moon::vsop87a(j)), naive(&emb, jd).0)), 5e-11 * (1.0 + t.abs()), || format!("jd={jd}"));
        // Moon
        let w = || format!("Moon jd={jd}");
        let m = a3(&ss::Moon::get_geo_position::<Kilometer>(j));
        let au = a3(&ss::Moon::get_geo_position::<AstronomicalUnit>(j));
        run.eval("moon", jd.to_bits());
        run.within("moon/units", norm(sub(scale(au, AU_KM), m)), 1e-8, w);
        run.within("elp", norm(sub(m, elp(jd))), 1e-5 * (1.0 + t.abs()), w);
        if t.abs() < 5.0 {
            let (l, b, r) = moon_low(jd);
            let (ml, mb) = (m[1].atan2(m[0]), (m[2] / norm(m)).asin());
            // general precession in longitude; the ecliptics differ by 47"/cy
            run.within("moon/lon", wrap_pi(ml + (1.39697 * t + 0.0003086 * t * t).to_radians() - l).abs().to_degrees(), 0.2 + 0.02 * t.abs(), w);
            run.within("moon/lat", (mb - b).abs().to_degrees(), 0.1 + 0.02 * t.abs(), w);
            run.within("moon/r", (norm(m) - r).abs(), 1800.0, w);
        }
        // The closed-form Moon
        let q = siderust::event::lunar::meeus_ch47::moon_position_meeus_ch47(j);
        let (l, b, r) = meeus(t);
        let slack = 1e-9 * (1.0 + t.abs());
        run.eval("moon/closed-form", jd.to_bits());
        run.within("meeus/lon", wrap_pi(q.ecl_lon.value() - l).abs(), slack, w);
        run.within("meeus/lat", (q.ecl_lat.value() - b).abs(), slack, w);
        run.within("meeus/dist", (q.dist.value() - r).abs(), slack * 1e5, w);
        let e = mul_obliquity(t, [b.cos() * l.cos(), b.cos() * l.sin(), b.sin()]);
        let (ra, dec) = (q.ra.value(), q.dec.value());
        run.within("meeus/equatorial", norm(sub([dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()], e)), 1e-9 * (1.0 + t.abs()) + 1e-8 * t.abs().powi(4), w);
        run.check((0.0..TAU).contains(&ra) && (0.0..TAU).contains(&q.ecl_lon.value()), "meeus/range", w);
        // Pluto
        let p = a3(&siderust::ephemeris::Pluto::get_heliocentric(j));
        run.eval("pluto", jd.to_bits());
        run.within("pluto", norm(sub(p, pluto(jd))), 1e-11 * (1.0 + t.abs()), || format!("jd={jd}"));
        // trait entry points
        let d: &dyn DynEphemeris = &Vsop87Ephemeris;
        macro_rules! same { ($m:ident, $t:ident, $want:expr, $f:ident) => {
            let want = $want;
            let got = [$f(&<Vsop87Ephemeris as Ephemeris>::$m(j)), $f(&<Vsop87Ephemeris as Ephemeris>::$t(j).unwrap()), $f(&d.$m(j)), $f(&d.$t(j).unwrap())];
            run.check(got.iter().all(|x| *x == want), "trait", || format!("{} jd={jd} {got:?} {want:?}", stringify!($m)));
        } }
        same!(sun_barycentric, try_sun_barycentric, sb, a3);
        same!(earth_barycentric, try_earth_barycentric, a3(&ss::Earth::vsop87e(j)), a3);
        same!(earth_heliocentric, try_earth_heliocentric, a3(&ss::Earth::vsop87a(j)), a3);
        same!(earth_barycentric_velocity, try_earth_barycentric_velocity, v3(&ss::Earth::vsop87e_vel(j)), v3);
        same!(moon_geocentric, try_moon_geocentric, m, a3);
        lagrange(&run, &mut g, i % 30 == 0);
    });
    run.require("planet", 1000);
    run.require("moon", 100);
    run.require("moon/closed-form", 100);
    run.require("lagrange", 500);
    run.finish();
}
