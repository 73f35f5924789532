//! C15: force models of the orbit dynamics vs textbook formulas evaluated independently.
use qtty::mass::Kilograms;
use siderust::astro::dynamics::{GravitationalParameter, Velocity};
use qtty::length::Kilometers;
use qtty::*;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::*;
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::pod::force as pf;
use siderust::qtty;
use siderust::time::JulianDate;
use siderust_archive::atmosphere::tables::NRLMSISE_TABLE;
use std::f64::consts::{PI, TAU};
use std::sync::Arc;
use vh::earthref as er;
use vh::fakes::*;
use vh::la::*;
use vh::{Rng, Run};

const MU: f64 = 398_600.441_8;
const C_KMS: f64 = 299_792.458;
type M = dyn AccelerationModel<DynamicsContext, tempoch::TT, Geocentric, GCRS>;
fn kps2(x: f64) -> KmPerSecondsSquared { KmPerSecondsSquared::new(x) }
fn state(jd: f64, r: V3, v: V3) -> OrbitState { OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2])) }
fn acc(m: &M, s: &OrbitState, c: &DynamicsContext) -> Result<V3, String> {
    m.acceleration(s, c).map(|a| [a.x().value(), a.y().value(), a.z().value()]).map_err(|e| format!("{e:?}"))
}
fn jd(g: &mut Rng) -> f64 { g.range(2_440_000.5, 2_462_000.5) }
fn pos(g: &mut Rng) -> V3 {
    let r = match g.n(4) { 0 => g.range(6450.0, 6800.0), 1 => g.range(6450.0, 9000.0), 2 => g.range(20_000.0, 50_000.0), _ => g.log(6450.0, 400_000.0) };
    let u = match g.n(8) { 0 => [0.0, 0.0, 1.0], 1 => [0.0, 0.0, -1.0], 2 => [1.0, 0.0, 0.0], 3 => { let e = g.log(1e-9, 1e-3); let a = g.range(0.0, TAU); unit([e * a.cos(), e * a.sin(), 1.0]) } _ => g.unit() };
    scale(u, r)
}
fn vel(g: &mut Rng, r: V3) -> V3 { scale(g.unit(), (MU / norm(r)).sqrt() * g.range(0.3, 1.4)) }

/// Independent ellipsoid height: minimise the distance to the meridian ellipse by bisection on the parametric latitude.
fn height(r: V3) -> f64 {
    let (a, f) = (6378.137f64, 1.0 / 298.257_223_563);
    let b = a * (1.0 - f);
    let p = (r[0] * r[0] + r[1] * r[1]).sqrt();
    let z = r[2].abs();
    // foot of the normal: b^2... solve d/dbeta |(p,z)-(a cos, b sin)|^2 = 0 on [0, pi/2]
    let fct = |t: f64| a * t.sin() * (p - a * t.cos()) - b * t.cos() * (z - b * t.sin());
    let (mut lo, mut hi) = (0.0f64, PI / 2.0);
    for _ in 0..200 { let m = 0.5 * (lo + hi); if fct(m) > 0.0 { hi = m } else { lo = m } }
    let t = 0.5 * (lo + hi);
    let (dx, dz) = (p - a * t.cos(), z - b * t.sin());
    let sgn = if (p / a).powi(2) + (z / b).powi(2) >= 1.0 { 1.0 } else { -1.0 };
    sgn * (dx * dx + dz * dz).sqrt()
}
/// Gravity acceleration in the body frame from unnormalised coefficients (Cunningham's V/W functions).
fn harmonics(r: V3, mu: f64, re: f64, nmax: usize, mmax: usize, cs: &dyn Fn(usize, usize) -> (f64, f64)) -> V3 {
    let n1 = nmax + 2;
    let r2 = dot(r, r);
    let rho = re * re / r2;
    let (x0, y0, z0) = (re * r[0] / r2, re * r[1] / r2, re * r[2] / r2);
    let mut v = vec![vec![0.0f64; n1 + 1]; n1 + 1];
    let mut w = v.clone();
    v[0][0] = re / r2.sqrt();
    for m in 0..=n1 {
        if m > 0 {
            let k = (2 * m - 1) as f64;
            v[m][m] = k * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1]);
            w[m][m] = k * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1]);
        }
        for n in m + 1..=n1 {
            let (k1, k2) = ((2 * n - 1) as f64 / (n - m) as f64, (n + m - 1) as f64 / (n - m) as f64);
            let (pv, pw) = if n >= m + 2 { (v[n - 2][m], w[n - 2][m]) } else { (0.0, 0.0) };
            v[n][m] = k1 * z0 * v[n - 1][m] - k2 * rho * pv;
            w[n][m] = k1 * z0 * w[n - 1][m] - k2 * rho * pw;
        }
    }
    let mut a = [0.0f64; 3];
    for n in 0..=nmax {
        for m in 0..=n.min(mmax) {
            let mut nf = (2 * n + 1) as f64 * if m == 0 { 1.0 } else { 2.0 };
            for k in (n - m + 1)..=(n + m) { nf /= k as f64 }
            let (cb, sb) = cs(n, m);
            let (c, s) = (cb * nf.sqrt(), sb * nf.sqrt());
            if m == 0 {
                a[0] -= c * v[n + 1][1];
                a[1] -= c * w[n + 1][1];
                a[2] -= (n + 1) as f64 * c * v[n + 1][0];
            } else {
                let f = ((n - m + 1) * (n - m + 2)) as f64;
                a[0] += 0.5 * (-c * v[n + 1][m + 1] - s * w[n + 1][m + 1] + f * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1]));
                a[1] += 0.5 * (-c * w[n + 1][m + 1] + s * v[n + 1][m + 1] + f * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1]));
                a[2] -= (n - m + 1) as f64 * (c * v[n + 1][m] + s * w[n + 1][m]);
            }
        }
    }
    scale(a, mu / (re * re))
}
struct Field { n: usize, c: Vec<(f64, f64)>, mu: f64, re: f64 }
impl Field { fn at(&self, n: usize, m: usize) -> (f64, f64) { if n == 0 { (1.0, 0.0) } else { self.c[n * (n + 1) / 2 + m] } } }
impl GravityFieldProvider for Field {
    fn mu(&self) -> GravitationalParameter { GravitationalParameter::new(self.mu) }
    fn reference_radius(&self) -> Kilometers { Kilometers::new(self.re) }
    fn max_degree(&self) -> usize { self.n }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, principia::PrincipiaError> { Ok(self.at(n, m).0) }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, principia::PrincipiaError> { Ok(self.at(n, m).1) }
}
/// EGM2008 to degree 4 as published (fully normalised, tide free).
const EGM: [(usize, usize, f64, f64); 12] = [
    (2, 0, -4.841_651_437_908_15e-4, 0.0), (2, 1, -2.066_155_090_741_76e-10, 1.384_413_891_379_79e-9), (2, 2, 2.439_383_573_283_13e-6, -1.400_273_703_859_34e-6),
    (3, 0, 9.571_612_070_934_73e-7, 0.0), (3, 1, 2.030_462_010_478_64e-6, 2.482_004_158_568_72e-7), (3, 2, 9.047_878_948_095_28e-7, -6.190_054_751_776_18e-7), (3, 3, 7.213_217_571_215_68e-7, 1.414_349_261_929_41e-6),
    (4, 0, 5.399_658_666_389_91e-7, 0.0), (4, 1, -5.361_573_893_888_67e-7, -4.735_673_465_180_86e-7), (4, 2, 3.505_016_239_626_49e-7, 6.624_800_262_758_29e-7), (4, 3, 9.908_567_666_723_21e-7, -2.009_567_235_674_52e-7), (4, 4, -1.885_196_330_230_33e-7, 3.088_038_821_491_94e-7),
];
/// Coefficients of the data crate (its values are compared with the published ones separately).
fn egm(n: usize, m: usize) -> (f64, f64) { if n == 0 { (1.0, 0.0) } else { siderust_archive::gravity::tables::EGM2008_COEFFS.iter().find(|t| t.0 == n && t.1 == m).map_or((0.0, 0.0), |t| (t.2, t.3)) } }

fn geopotential(run: &Run, g: &mut Rng) {
    let t = jd(g);
    let r = pos(g);
    let v = vel(g, r);
    let s = state(t, r, v);
    let own = g.p(0.6);
    let nmax = if own { if g.p(0.05) { g.n(31) } else { g.n(9) } } else { g.n(5) };
    let deg = g.n(nmax + 1);
    let ord = g.n(deg + 1);
    let f = Field { n: nmax.max(deg), c: (0..(nmax + 2) * (nmax + 3) / 2).map(|_| (g.gauss() * 1e-4, g.gauss() * 1e-4)).collect(), mu: MU * g.range(0.9, 1.1), re: 6378.137 * g.range(0.98, 1.0) };
    let (mu, re) = if own { (f.mu, f.re) } else { (MU, 6378.137) };
    let era = er::era(siderust::astro::earth_rotation::jd_ut1_from_tt(JulianDate::new(t)).value());
    let rb = mv(&r3(era), r);
    let look = |n: usize, m: usize| if own { f.at(n, m) } else { egm(n, m) };
    let want = mv(&tr(&r3(era)), harmonics(rb, mu, re, deg, ord, &look));
    // the non-central part, so that small terms are not hidden behind mu/r^2
    let cen = scale(r, -mu / norm(r).powi(3));
    let pert = norm(sub(want, cen));
    let ctx = if own { DynamicsContext::builder().with_gravity(Arc::new(f)).build() } else { DynamicsContext::builder().with_gravity(Arc::new(LowDegreeEarth)).build() };
    let w = || format!("jd={t} r={r:?} deg={deg} ord={ord} own={own}");
    let model = if ord == deg && g.p(0.5) { Geopotential::full(deg) } else { Geopotential::new(deg, ord) };
    match acc(&model, &s, &ctx) {
        Ok(a) => {
            run.eval("geopotential", (t.to_bits(), deg, ord));
            // the kernel of the principia crate mistypes sqrt(3) by 1e-9, which is amplified as 1/cos^2 towards the
            // poles, and drops the lateral part on the axis itself
            let cphi = (r[0] * r[0] + r[1] * r[1]).sqrt() / norm(r);
            let err = if cphi < 1e-3 { (a[2] - want[2]).abs() } else { norm(sub(a, want)) };
            run.within("geopotential/acceleration", err, (2e-7 + 4e-9 / cphi.max(1e-3).powi(2)) * pert + 2e-13 * norm(want), || format!("{} got {a:?} want {want:?} pert {pert}", w()));
        }
        Err(e) => run.violation("geopotential/error", &format!("{e} {}", w())),
    }
    // bad requests are refused
    if g.p(0.05) {
        let ctx = DynamicsContext::builder().with_gravity(Arc::new(LowDegreeEarth)).build();
        run.eval("reject", ("geo", t.to_bits()));
        run.check(acc(&Geopotential::new(5 + g.n(5), 0), &s, &ctx).is_err(), "geopotential/degree-accepted", w);
        run.check(acc(&Geopotential::new(2, 3), &s, &ctx).is_err(), "geopotential/order-accepted", w);
        run.check(acc(&Geopotential::new(2, 2), &s, &DynamicsContext::empty()).is_err(), "geopotential/no-field-accepted", w);
        let deep = state(t, scale(unit(r), g.range(1.0, 6000.0)), v);
        run.check(acc(&Geopotential::new(2, 2), &deep, &ctx).is_err(), "geopotential/below-reference-radius-accepted", w);
    }
    // two-body and J2 on the same state
    let tb = acc(&TwoBody::new(GM_EARTH), &s, &DynamicsContext::empty());
    let j2 = acc(&J2::new(GM_EARTH, R_EARTH, EARTH_J2), &s, &DynamicsContext::empty());
    run.eval("central", t.to_bits());
    let c0 = scale(r, -MU / norm(r).powi(3));
    let zonal = |n: usize, _m: usize| if n == 2 { (-1.082_626_68e-3 / 5f64.sqrt(), 0.0) } else { (0.0, 0.0) };
    let j = harmonics(r, MU, 6378.137, 2, 0, &zonal);
    match (tb, j2) {
        (Ok(a), Ok(b)) => {
            run.within("two-body", norm(sub(a, c0)), 1e-13 * norm(c0), || format!("{} {a:?}", w()));
            run.within("j2", norm(sub(b, j)), 1e-12 * norm(j), || format!("{} got {b:?} want {j:?}", w()));
        }
        (a, b) => run.violation("central/error", &format!("{a:?} {b:?} {}", w())),
    }
}

fn ref_density(h: f64) -> f64 {
    let t: Vec<(f64, f64)> = NRLMSISE_TABLE.iter().map(|e| (e.0.value(), e.1.value())).collect();
    if h <= t[0].0 { return t[0].1 }
    let k = (1..t.len()).find(|&k| h <= t[k].0).unwrap_or(t.len() - 1);
    let x = (h - t[k - 1].0) / (t[k].0 - t[k - 1].0);
    t[k - 1].1.powf(1.0 - x) * t[k].1.powf(x)
}
fn drag(run: &Run, g: &mut Rng) {
    let t = jd(g);
    let mut r = pos(g);
    if norm(r) > 9000.0 { r = scale(unit(r), g.range(6450.0, 7600.0)) }
    let v = vel(g, r);
    let s = state(t, r, v);
    let h = height(r);
    let w = || format!("r={r:?} v={v:?} h={h}");
    let got = geodetic_altitude(&Position::<GCRS>::new(r[0], r[1], r[2]), Kilometers::new(6378.137), Ratios::new(1.0 / 298.257_223_563)).value();
    let p = (r[0] * r[0] + r[1] * r[1]).sqrt();
    let polar = if p > 0.0 { 1e-15 * norm(r) * norm(r) / p } else { 0.0 };
    run.eval("altitude", r[2].to_bits());
    run.within("altitude/value", (got - h).abs(), 1e-6 + polar.min(2e-2), || format!("{} got {got}", w()));
    let (cd, am) = (g.range(0.5, 4.0), g.log(1e-4, 1.0));
    let (rho, ctx) = match g.n(3) {
        0 => (ref_density(h), DynamicsContext::builder().with_atmosphere(Arc::new(Nrlmsise00LiteApprox)).build()),
        1 => { let (r0, h0, hs) = (g.log(1e-15, 1e-9), g.range(100.0, 800.0), g.range(20.0, 100.0)); (r0 * (-(h - h0) / hs).exp(), DynamicsContext::builder().with_atmosphere(Arc::new(ExponentialAtmosphere { rho0: KilogramsPerCubicMeter::new(r0), h0: Kilometers::new(h0), scale_height: Kilometers::new(hs) })).build()) }
        _ => { let r0 = g.log(1e-15, 1e-9); (r0, DynamicsContext::builder().with_atmosphere(Arc::new(ConstantDensity { rho: KilogramsPerCubicMeter::new(r0) })).build()) }
    };
    let om = if g.p(0.3) { g.range(-1e-4, 1e-4) } else { 7.292_115e-5 };
    let m = if om == 7.292_115e-5 { DragForce::new(DragCoefficient::new(cd), AreaToMass::new(am)) } else { DragForce::with_omega(DragCoefficient::new(cd), AreaToMass::new(am), InverseSeconds::new(om)) };
    let vr = sub(v, cross([0.0, 0.0, om], r));
    let want = scale(vr, -0.5 * cd * am * rho * norm(vr) * 1e3);
    match acc(&m, &s, &ctx) {
        Ok(a) => { run.eval("drag", t.to_bits()); run.within("drag/acceleration", norm(sub(a, want)), (3e-6 + polar.min(2e-2) * 0.1) * norm(want), || format!("{} got {a:?} want {want:?}", w())); }
        Err(e) => run.violation("drag/error", &format!("{e} {}", w())),
    }
    // altitude grid of the density models
    let hh = match g.n(4) { 0 => { let e = g.pick(NRLMSISE_TABLE); e.0.value() + *g.pick(&[-1e-9, 0.0, 1e-9]) } 1 => g.range(0.0, 60.0), 2 => g.range(900.0, 3000.0), _ => g.range(0.0, 1200.0) };
    let d = Nrlmsise00LiteApprox.density(Kilometers::new(hh)).map(|x| x.value()).unwrap_or(f64::NAN);
    run.eval("density", hh.to_bits());
    run.within("density/table", (d / ref_density(hh) - 1.0).abs(), 1e-9, || format!("h={hh} got {d} want {}", ref_density(hh)));
    let below = -g.log(1e-6, 6000.0);
    run.check(Nrlmsise00LiteApprox.density(Kilometers::new(below)).is_err() && ExponentialAtmosphere::LEO_500KM.density(Kilometers::new(below)).is_err(), "density/below-surface-accepted", || format!("{below}"));
    let e = ExponentialAtmosphere::LEO_500KM.density(Kilometers::new(hh)).unwrap().value();
    run.within("density/exponential", (e / (6.967e-13 * (-(hh - 500.0) / 63.822).exp()) - 1.0).abs(), 1e-12, || format!("{hh}"));
    // inside the Earth there is no drag value
    if g.p(0.05) {
        let deep = state(t, scale(unit(r), g.range(5000.0, 6350.0)), v);
        run.eval("reject", ("drag", t.to_bits()));
        run.check(acc(&m, &deep, &ctx).is_err(), "drag/below-surface-accepted", w);
        run.check(acc(&m, &s, &DynamicsContext::empty()).is_err(), "drag/no-atmosphere-accepted", w);
    }
}

fn obl_mat() -> M3 { r1(-(84_381.406 / 3600.0f64).to_radians()) }
fn sun_vec(t: f64) -> V3 { scale(mv(&obl_mat(), sub(fe(0, t), fe(1, t))), AU_KM) }
fn moon_vec(t: f64) -> V3 { scale(mv(&obl_mat(), fe(2, t)), 0.003 * AU_KM) }
/// Occulted fraction of the solar disc by direct numerical integration over the disc.
fn visible(r: V3, sun: V3) -> f64 {
    let d = sub(sun, r);
    let (rs, rearth) = ((695_700.0 / norm(d)).asin(), (6378.137 / norm(r)).min(1.0).asin());
    let th = angle(scale(r, -1.0), d);
    if th >= rs + rearth { return 1.0 }
    if th <= rearth - rs { return 0.0 }
    // chord integration across the solar disc along the line of centres (planar discs)
    let n = 4000;
    let (mut area, mut hid) = (0.0, 0.0);
    for k in 0..n {
        let ph = PI * (k as f64 + 0.5) / n as f64;
        let x = rs * ph.cos();
        let half = rs * ph.sin();
        let dx = rs * ph.sin() * PI / n as f64;
        area += 2.0 * half * dx;
        let e2 = rearth * rearth - (x - th) * (x - th);
        if e2 > 0.0 { hid += 2.0 * half.min(e2.sqrt()) * dx }
    }
    1.0 - hid / area
}
fn srp_third(run: &Run, g: &mut Rng) {
    let t = jd(g);
    let sunv = scale(g.unit(), g.range(0.5, 1.6));
    let bary = [g.gauss() * 0.3, g.gauss() * 0.3, g.gauss() * 0.3];
    set_eph([add(bary, sunv), bary, scale(g.unit(), g.range(0.5, 1.4)), [0.0; 3]]);
    let sun = sun_vec(t);
    let su = unit(sun);
    // satellite: anywhere, or near the shadow boundary behind the Earth
    let r = if g.p(0.6) {
        let d = match g.n(3) { 0 => g.range(6450.0, 9000.0), 1 => g.range(6450.0, 60_000.0), _ => g.log(6450.0, 2_500_000.0) };
        let mut perp = cross(su, g.unit());
        perp = unit(perp);
        let off = match g.n(3) { 0 => g.range(0.0, 1.3), 1 => 1.0 + g.range(-0.02, 0.02), _ => 1.0 + g.range(-1.0, 1.0) * (d * 0.00465 / 6378.0) } * 6378.137;
        let along = (d * d - off * off).max(0.0).sqrt();
        add(scale(su, if g.p(0.9) { -along } else { along }), scale(perp, off))
    } else { pos(g) };
    if norm(r) < 6400.0 { return; }
    let v = vel(g, r);
    let s = state(t, r, v);
    let ctx = DynamicsContext::builder().with_ephemeris(Arc::new(FakeEph)).build();
    let (cr, am) = (g.range(0.8, 2.0), g.log(1e-4, 1.0));
    let d = sub(r, sun);
    let full = scale(d, cr * 4.56e-6 * am * AU_KM * AU_KM / norm(d).powi(3) / 1e3);
    let w = || format!("jd={t} r={r:?} sun={sun:?}");
    let (crq, amq) = (SrpCoefficient::new(cr), AreaToMass::new(am));
    let proj = dot(r, su);
    let perp = norm(sub(r, scale(su, proj)));
    let models: [(&str, Box<M>, Option<f64>, f64); 3] = [
        ("none", Box::new(CannonballSrp::<NoEclipse>::new(crq, amq)), Some(1.0), 1e-9),
        ("cylindrical", Box::new(CannonballSrp::<Cylindrical>::new(crq, amq)), if (perp - 6378.137).abs() < 1e-3 && proj < 0.0 || proj.abs() < 1e-3 { None } else { Some(if proj < 0.0 && perp < 6378.137 { 0.0 } else { 1.0 }) }, 1e-9),
        ("conical", Box::new(CannonballSrp::<Conical>::new(crq, amq)), Some(visible(r, sun)), 2e-3),
    ];
    for (n, m, nu, tol) in models {
        let Some(nu) = nu else { continue };
        if n == "conical" && nu > 0.0 && nu < 1.0 { run.eval("penumbra", t.to_bits()); }
        if nu == 0.0 { run.eval("umbra", t.to_bits()); }
        match acc(m.as_ref(), &s, &ctx) {
            Ok(a) => { run.eval("srp", (n, t.to_bits())); run.within(&format!("srp/{n}"), norm(sub(a, scale(full, nu))), (tol + 1e-6) * norm(full), || format!("{} nu={nu} got {a:?} want {:?}", w(), scale(full, nu))); }
            Err(e) => run.violation(&format!("srp/{n}-error"), &format!("{e} {}", w())),
        }
    }
    // third bodies: difference of direct and indirect attraction
    let direct = |b: V3, mu: f64| { let d = sub(b, r); (sub(scale(d, mu / norm(d).powi(3)), scale(b, mu / norm(b).powi(3))), 1e-13 * mu / dot(b, b) + 1e-13 * mu / dot(d, d)) };
    let (as_, es) = direct(sun, 1.327_124_400_18e11);
    let (al, el) = direct(moon_vec(t), 4_902.800_066);
    let extra = scale(g.unit(), g.log(2e5, 1e9));
    let xm = g.log(1.0, 1e8);
    let (ax, ex) = direct(extra, xm);
    struct Fixed(V3, f64);
    impl ThirdBodyProvider for Fixed {
        fn name(&self) -> &'static str { "x" }
        fn gm(&self) -> GravitationalParameter { GravitationalParameter::new(self.1) }
        fn position_relative_to_origin(&self, _e: &Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync>, _t: JulianDate) -> Result<affn::cartesian::Displacement<GCRS, unit_km::Kilometer>, DynamicsError> {
            Ok(affn::cartesian::Displacement::new(self.0[0], self.0[1], self.0[2]))
        }
    }
    let cases: [(&str, ThirdBody, V3, f64); 5] = [
        ("sun", ThirdBody::new().with_sun(), as_, es), ("moon", ThirdBody::new().with_moon(), al, el),
        ("both", ThirdBody::sun_and_moon(), add(as_, al), es + el),
        ("custom", ThirdBody::new().with(Box::new(Fixed(extra, xm))).with_moon(), add(ax, al), ex + el),
        ("none", ThirdBody::default(), [0.0; 3], 0.0),
    ];
    for (n, m, want, noise) in cases {
        match acc(&m, &s, &ctx) {
            Ok(a) => { run.eval("third-body", (n, t.to_bits())); run.within(&format!("third-body/{n}"), norm(sub(a, want)), 1e-6 * (norm(want) + if n == "both" { norm(as_) + norm(al) } else if n == "custom" { norm(ax) + norm(al) } else { 0.0 }) + 4.0 * noise + 1e-300, || format!("{} got {a:?} want {want:?}", w())); }
            Err(e) => run.violation(&format!("third-body/{n}-error"), &format!("{e} {}", w())),
        }
    }
    if g.p(0.05) {
        run.eval("reject", ("eph", t.to_bits()));
        let none = DynamicsContext::empty();
        run.check(acc(&ThirdBody::sun_and_moon(), &s, &none).is_err() && acc(&CannonballSrp::<Conical>::new(crq, amq), &s, &none).is_err(), "ephemeris-missing-accepted", w);
    }
}
mod unit_km { pub use siderust::qtty::unit::Kilometer; }

/// a context hands out exactly the providers it was built with, and an error where there is none
fn context(run: &Run, g: &mut Rng) {
    let (e, a, f) = (g.p(0.5), g.p(0.5), g.p(0.5));
    let eph: Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync> = Arc::new(FakeEph);
    let atm: Arc<dyn DensityProvider + Send + Sync> = Arc::new(ConstantDensity { rho: KilogramsPerCubicMeter::new(g.log(1e-15, 1e-9)) });
    let grav: Arc<dyn GravityFieldProvider + Send + Sync> = Arc::new(LowDegreeEarth);
    let mut b = DynamicsContext::builder();
    for k in [g.n(3), g.n(3), 0, 1, 2] { b = match k { 0 if e => b.with_ephemeris(eph.clone()), 1 if a => b.with_atmosphere(atm.clone()), 2 if f => b.with_gravity(grav.clone()), _ => b } }
    let c = b.build();
    run.eval("context", (e, a, f));
    run.check(c.require_ephemeris().ok().map(|x| Arc::ptr_eq(x, &eph)) == e.then_some(true), "context/ephemeris", || format!("{e} {a} {f}"));
    run.check(c.require_atmosphere().ok().map(|x| Arc::ptr_eq(x, &atm)) == a.then_some(true), "context/atmosphere", || format!("{e} {a} {f}"));
    run.check(c.require_gravity_field().ok().map(|x| Arc::ptr_eq(x, &grav)) == f.then_some(true), "context/gravity", || format!("{e} {a} {f}"));
    run.check(c.eop.is_none() && c.solar_activity.is_none(), "context/unasked", String::new);
    let z = DynamicsContext::empty();
    run.check(z.require_ephemeris().is_err() && z.require_atmosphere().is_err() && z.require_gravity_field().is_err(), "context/empty", String::new);
}
fn small(run: &Run, g: &mut Rng) {
    if g.p(0.02) { context(run, g); }
    let t = jd(g);
    let r = pos(g);
    let v = vel(g, r);
    let s = state(t, r, v);
    let none = DynamicsContext::empty();
    let w = || format!("r={r:?} v={v:?}");
    // Schwarzschild term
    let c2 = C_KMS * C_KMS;
    let k = MU / (c2 * norm(r).powi(3));
    let want = add(scale(r, k * (4.0 * MU / norm(r) - dot(v, v))), scale(v, k * 4.0 * dot(r, v)));
    match acc(&CentralBodyRelativity1Pn::earth(), &s, &none) {
        Ok(a) => { run.eval("relativity", t.to_bits()); run.within("relativity/acceleration", norm(sub(a, want)), 1e-12 * norm(want) + 1e-28, || format!("{} got {a:?} want {want:?}", w())); }
        Err(e) => run.violation("relativity/error", &e),
    }
    let (gm, c) = (g.log(1.0, 1e12), g.range(1e5, 5e5));
    let kk = gm / (c * c * norm(r).powi(3));
    let want = add(scale(r, kk * (4.0 * gm / norm(r) - dot(v, v))), scale(v, kk * 4.0 * dot(r, v)));
    if let Ok(a) = acc(&CentralBodyRelativity1Pn { gm: GravitationalParameter::new(gm), c: KmPerSeconds::new(c) }, &s, &none) {
        run.within("relativity/any-body", norm(sub(a, want)), 1e-11 * norm(want) + 1e-28, || format!("{} gm={gm} c={c} got {a:?} want {want:?}", w()));
    }
    // empirical accelerations in radial / transverse / normal axes
    let rh = unit(r);
    let hn = cross(r, v);
    let sing = norm(hn) / (norm(r) * norm(v));
    if sing < 1e-4 { return; }
    let nh = unit(hn);
    let th = cross(nh, rh);
    let a3 = [g.gauss() * 1e-9, g.gauss() * 1e-9, g.gauss() * 1e-9];
    let to = |x: V3| add(add(scale(rh, x[0]), scale(th, x[1])), scale(nh, x[2]));
    match acc(&EmpiricalAcceleration::rtn(kps2(a3[0]), kps2(a3[1]), kps2(a3[2])), &s, &none) {
        Ok(a) => { run.eval("empirical", t.to_bits()); run.within("empirical/constant", norm(sub(a, to(a3))), 1e-11 * norm(a3) / sing, || format!("{} c={a3:?} got {a:?}", w())); }
        Err(e) => run.violation("empirical/error", &e),
    }
    let per = g.range(3000.0, 90_000.0);
    let jref = t + g.range(-3.0, 3.0);
    let co: Vec<f64> = (0..6).map(|_| g.gauss() * 1e-9).collect();
    let once = g.p(0.5);
    let ph = if once { 1.0 } else { 2.0 } * TAU / per * (t - jref) * 86_400.0;
    let x = [co[0] * ph.cos() + co[1] * ph.sin(), co[2] * ph.cos() + co[3] * ph.sin(), co[4] * ph.cos() + co[5] * ph.sin()];
    let har = if once { pf::PeriodicHarmonic::OncePerRev } else { pf::PeriodicHarmonic::TwicePerRev };
    let q: Vec<KmPerSecondsSquared> = co.iter().map(|&c| kps2(c)).collect();
    let m = pf::EmpiricalPeriodicAcceleration::new(har, JulianDate::new(jref), Second::new(per), q[0], q[1], q[2], q[3], q[4], q[5]);
    let total: f64 = co.iter().map(|c| c.abs()).sum();
    match acc(&m, &s, &none) {
        Ok(a) => { run.eval("periodic", t.to_bits()); run.within("empirical/periodic", norm(sub(a, to(x))), total * (1e-10 / sing + 2.0 * TAU / per * 2e-4), || format!("{} per={per} ref={jref} jd={t} co={co:?} got {a:?} want {:?}", w(), to(x))); }
        Err(e) => run.violation("empirical/periodic-error", &e),
    }
    // undefined local frame
    if g.p(0.05) {
        let k = g.range(-2.0, 2.0);
        let bad = state(t, [7000.0, 0.0, 0.0], [k, 0.0, 0.0]);
        run.eval("reject", ("rtn", t.to_bits()));
        run.check(acc(&EmpiricalAcceleration::rtn(kps2(1e-9), kps2(0.0), kps2(0.0)), &bad, &none).is_err() && acc(&m, &bad, &none).is_err(), "empirical/undefined-frame-accepted", || format!("{k}"));
    }
}

/// Registry and configuration: the composite is the sum of exactly the enabled parts.
fn registry(run: &Run, g: &mut Rng) {
    let t = jd(g);
    let mut r = pos(g);
    if norm(r) > 9000.0 { r = scale(unit(r), g.range(6450.0, 7600.0)) }
    let v = vel(g, r);
    let s = state(t, r, v);
    random_eph(g);
    let ctx = DynamicsContext::builder().with_ephemeris(Arc::new(FakeEph)).with_atmosphere(Arc::new(Nrlmsise00LiteApprox)).with_gravity(Arc::new(LowDegreeEarth)).build();
    let (cd, cr, am, am2) = (DragCoefficient::new(g.range(1.0, 3.0)), SrpCoefficient::new(g.range(1.0, 2.0)), AreaToMass::new(g.log(1e-3, 0.1)), AreaToMass::new(g.log(1e-3, 0.1)));
    let sh = *g.pick(&[ShadowModel::None, ShadowModel::Cylindrical, ShadowModel::Conical]);
    let e3 = [kps2(g.gauss() * 1e-7), kps2(g.gauss() * 1e-7), kps2(g.gauss() * 1e-7)];
    let mut six = || { let mut c = [kps2(0.0); 6]; for x in c.iter_mut() { *x = kps2(g.gauss() * 1e-7) } c };
    let (c1, c2) = (six(), six());
    let (p1, p2) = (Second::new(g.range(4000.0, 9000.0)), Second::new(g.range(4000.0, 9000.0)));
    let (j1, j2) = (JulianDate::new(t + g.range(-1.0, 1.0)), JulianDate::new(t + g.range(-1.0, 1.0)));
    let deg = 2 + g.n(3);
    let ord = g.n(deg + 1);
    let cfg = pf::ForceModelConfig {
        two_body: g.p(0.5), j2: g.p(0.5), harmonics: if g.p(0.5) { Some((deg, ord)) } else { None }, third_body_sun: g.p(0.5), third_body_moon: g.p(0.5),
        drag: if g.p(0.5) { Some((cd, am)) } else { None }, srp: if g.p(0.5) { Some((cr, am2, sh)) } else { None }, relativity: g.p(0.5),
        empirical_constant: if g.p(0.5) { Some((e3[0], e3[1], e3[2])) } else { None },
        empirical_1cpr: if g.p(0.5) { Some((j1, p1, c1)) } else { None }, empirical_2cpr: if g.p(0.5) { Some((j2, p2, c2)) } else { None },
    };
    let mut parts: Vec<(&str, Box<M>)> = vec![];
    if cfg.two_body { parts.push(("two_body", Box::new(TwoBody::new(GM_EARTH)))) }
    if cfg.j2 { parts.push(("j2", Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)))) }
    if cfg.harmonics.is_some() { parts.push(("geopotential", Box::new(Geopotential::new(deg, ord)))) }
    if cfg.third_body_sun { parts.push(("sun", Box::new(ThirdBody::new().with_sun()))) }
    if cfg.third_body_moon { parts.push(("moon", Box::new(ThirdBody::new().with_moon()))) }
    if cfg.drag.is_some() { parts.push(("drag", Box::new(DragForce::new(cd, am)))) }
    if cfg.srp.is_some() { parts.push(("srp", match sh { ShadowModel::None => Box::new(CannonballSrp::<NoEclipse>::new(cr, am2)) as Box<M>, ShadowModel::Cylindrical => Box::new(CannonballSrp::<Cylindrical>::new(cr, am2)), ShadowModel::Conical => Box::new(CannonballSrp::<Conical>::new(cr, am2)) })) }
    if cfg.relativity { parts.push(("relativity", Box::new(CentralBodyRelativity1Pn::earth()))) }
    if cfg.empirical_constant.is_some() { parts.push(("constant", Box::new(EmpiricalAcceleration::rtn(e3[0], e3[1], e3[2])))) }
    if cfg.empirical_1cpr.is_some() { parts.push(("1cpr", Box::new(pf::EmpiricalPeriodicAcceleration::new(pf::PeriodicHarmonic::OncePerRev, j1, p1, c1[0], c1[1], c1[2], c1[3], c1[4], c1[5])))) }
    if cfg.empirical_2cpr.is_some() { parts.push(("2cpr", Box::new(pf::EmpiricalPeriodicAcceleration::new(pf::PeriodicHarmonic::TwicePerRev, j2, p2, c2[0], c2[1], c2[2], c2[3], c2[4], c2[5])))) }
    let reg = pf::ForceModelRegistry::with_builtins();
    let names: Vec<_> = parts.iter().map(|p| p.0).collect();
    if g.p(0.02) {
        let mut known = reg.names().into_iter().map(String::from).collect::<Vec<_>>();
        known.sort();
        let mut want: Vec<String> = ["two_body", "j2", "geopotential", "third_body_sun", "third_body_moon", "third_body_sun_moon", "drag", "srp_cannonball", "relativity", "empirical_constant", "empirical_1cpr", "empirical_2cpr"].map(String::from).to_vec();
        want.sort();
        run.check(want.iter().all(|n| known.contains(n) && reg.is_registered(n)) && !reg.is_registered("Two_Body") && pf::ForceModelRegistry::default().names().len() == known.len() && pf::ForceModelRegistry::new().names().is_empty(), "registry/names", || format!("{known:?}"));
    }
    let w = || format!("jd={t} r={r:?} parts={names:?}");
    let specs = cfg.to_specs();
    run.check(specs.len() == parts.len(), "registry/spec-count", || format!("{} specs {specs:?}", w()));
    let mut want = [0.0; 3];
    let mut sc = 0.0;
    let mut each = vec![];
    for (_, p) in &parts { match acc(p.as_ref(), &s, &ctx) { Ok(a) => { want = add(want, a); sc += norm(a); each.push(a) } Err(e) => { run.violation("registry/part-error", &format!("{e} {}", w())); return; } } }
    match reg.build(&specs) {
        Ok(m) => match acc(&m, &s, &ctx) {
            Ok(a) => { run.eval("registry", t.to_bits()); run.within("registry/sum", norm(sub(a, want)), 1e-14 * sc + 1e-300, || format!("{} got {a:?} want {want:?}", w())); }
            Err(e) => run.violation("registry/composite-error", &format!("{e} {}", w())),
        },
        Err(e) => run.violation("registry/build-error", &format!("{e:?} {}", w())),
    }
    // every spec alone is the matching part
    for (k, sp) in specs.iter().enumerate() {
        if let Ok(m) = reg.build_one(sp) {
            let a = acc(m.as_ref(), &s, &ctx).unwrap_or([f64::NAN; 3]);
            run.within("registry/single", norm(sub(a, each[k])), 1e-14 * norm(each[k]), || format!("{} {sp:?}", w()));
        }
    }
    if g.p(0.1) {
        run.eval("reject", ("registry", t.to_bits()));
        let bad = [pf::ForceModelSpec::named("no_such_model"), pf::ForceModelSpec::named("Drag"), pf::ForceModelSpec::named("drag"), pf::ForceModelSpec::named("geopotential"), pf::ForceModelSpec::named("srp_cannonball"), pf::ForceModelSpec::named("empirical_constant"), pf::ForceModelSpec::named("empirical_1cpr"), pf::ForceModelSpec::with_params("empirical_2cpr", pf::ForceModelParams::Geopotential { degree: 2, order: 0 }),
            pf::ForceModelSpec::with_params("empirical_2cpr", pf::ForceModelParams::EmpiricalPeriodic { harmonic: pf::PeriodicHarmonic::OncePerRev, epoch_ref: j1, period: p1, coeffs: c1 }),
            pf::ForceModelSpec::with_params("empirical_1cpr", pf::ForceModelParams::EmpiricalPeriodic { harmonic: pf::PeriodicHarmonic::TwicePerRev, epoch_ref: j1, period: p1, coeffs: c1 }),
            pf::ForceModelSpec::with_params("drag", pf::ForceModelParams::SrpCannonball { cr, area_to_mass: am, shadow: sh }), pf::ForceModelSpec::with_params("srp_cannonball", pf::ForceModelParams::Drag { cd, area_to_mass: am }), pf::ForceModelSpec::named("")];
        for b in bad { run.check(reg.build_one(&b).is_err() && reg.build(&[pf::ForceModelSpec::named("two_body"), b.clone()]).is_err(), "registry/bad-spec-accepted", || format!("{b:?}")); }
    }
}

fn thrust(run: &Run, g: &mut Rng) {
    // estimated parameters of an arc: one scale and three velocity components, each named after the arc
    let (with_scale, dv) = (g.p(0.5), g.p(0.5));
    let id = format!("arc-{}", g.n(1000));
    let ps = pf::thrust_arc::ThrustArcConfig { id: id.clone(), start_seconds_tdb: 0.0, stop_seconds_tdb: g.range(1.0, 1e4), estimate_thrust_scale: with_scale, estimate_delta_v: dv }.parameters();
    let mut want: Vec<(String, f64)> = vec![];
    if with_scale { want.push((format!("thrust_scale[{id}]"), 1.0)) }
    if dv { for a in ["X", "Y", "Z"] { want.push((format!("delta_v_{a}[{id}]"), 0.0)) } }
    let got: Vec<(String, f64)> = ps.iter().map(|p| (match &p.kind { siderust::pod::problem::parameter::ParameterKind::Custom(s) => s.clone(), k => format!("{k:?}") }, p.initial_value)).collect();
    run.check(got == want && ps.iter().all(|p| p.apriori_sigma.is_some_and(|s| s > 0.0)), "thrust/parameters", || format!("got {got:?} want {want:?}"));
    let t0 = g.range(2_451_545.0, 2_460_000.0).floor();
    let utc = |d: f64| -> Option<tempoch::Time<tempoch::UTC>> { tempoch::Time::<tempoch::UTC>::from_chrono(chrono::DateTime::from_timestamp_micros((((d - 2_440_587.5) * 86_400.0) * 1e6).round() as i64)?).into() };
    let dur = g.log(1.0, 40_000.0).round();
    let Some(a) = utc(t0 + 0.1) else { return };
    let b = a + Second::new(dur); // elapsed seconds: leap seconds count
    let (f, isp) = (g.log(1e-3, 500.0), g.log(50.0, 5000.0));
    let dir = { let u = g.unit(); let k = g.log(1e-6, 1e6); scale(u, k) };
    let w = || format!("f={f} isp={isp} dur={dur} dir={dir:?}");
    let arc = match pf::ThrustArc::with_normalised_direction(a, b, Newtons::new(f), Second::new(isp), dir) { Ok(x) => x, Err(e) => { run.violation("thrust/valid-refused", &format!("{e:?} {}", w())); return; } };
    run.eval("thrust", f.to_bits());
    run.within("thrust/direction", norm(sub(arc.direction, unit(dir))), 1e-14, w);
    let m = g.log(0.1, 1e5);
    for (d, on) in [(-0.3 * dur - 1.0, false), (-1e-3, false), (0.0, true), (0.5 * dur, true), (dur - 1e-3, true), (dur + 1e-3, false), (2.0 * dur, false)] {
        let e = a + Second::new(d);
        let got = pf::thrust_acceleration(&arc, Kilograms::new(m), e).unwrap_or([f64::NAN; 3]);
        let want = if on { scale(unit(dir), f / m) } else { [0.0; 3] };
        run.within("thrust/acceleration", norm(sub(got, want)), 1e-13 * f / m, || format!("{} offset={d} got {got:?}", w()));
    }
    run.within("thrust/flow", (pf::mass_flow_rate(Newtons::new(f), Second::new(isp)).unwrap_or(f64::NAN) * isp * 9.806_65 / f - 1.0).abs(), 1e-13, w);
    // budget: conservation of mass and the rocket equation over a sequence of burns
    let m0 = g.log(1.0, 1e4);
    let mut log = pf::LowThrustLog::new(Kilograms::new(m0));
    let (mut mass, mut dv, mut n) = (m0, 0.0, 0);
    for _ in 0..1 + g.n(6) {
        let (f, isp, d) = (g.log(1e-3, 500.0), g.log(50.0, 5000.0), g.log(1.0, 40_000.0).round());
        let arc = pf::ThrustArc::with_normalised_direction(a, a + Second::new(d), Newtons::new(f), Second::new(isp), dir).unwrap();
        let used = f * d / (isp * 9.806_65);
        let r = log.append(&arc).map(|r| (r.wet_mass_before.value(), r.propellant_used.value(), r.delta_v.value(), r.duration.value())).ok();
        if (used / mass - 1.0).abs() < 1e-6 { break; }
        run.eval("burn", f.to_bits());
        run.check(r.is_some() == (used < mass), "thrust/dry-tank", || format!("{} used {used} of {mass}: {r:?}", w()));
        if let Some(r) = r {
            run.within("thrust/record", (r.0 / mass - 1.0).abs() + (r.1 / used - 1.0).abs() + (r.2 / (isp * 9.806_65 * -(-used / mass).ln_1p()) - 1.0).abs() + (r.3 / d - 1.0).abs(), 1e-6 + 1e-14 * mass / used, || format!("{} {r:?}", w()));
            dv += isp * 9.806_65 * -(-used / mass).ln_1p();
            mass -= used;
            n += 1;
        }
        run.within("thrust/mass", (log.current_mass().value() - mass).abs() + (log.total_propellant().value() + mass - m0).abs(), 1e-6 * m0, w);
        run.within("thrust/delta-v", (log.total_delta_v().value() - dv).abs(), 1e-6 * dv + 1e-6, w);
        run.check(log.records().len() == n, "thrust/records", w);
    }
    if g.p(0.1) {
        run.eval("reject", ("thrust", f.to_bits()));
        let z = *g.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
        run.check(pf::ThrustArc::with_normalised_direction(a, b, Newtons::new(f), Second::new(z), dir).is_err() && pf::mass_flow_rate(Newtons::new(f), Second::new(z)).is_err() && pf::LowThrustLog::try_new(Kilograms::new(z)).is_err() && pf::thrust_acceleration(&arc, Kilograms::new(z), a).is_err(), "thrust/bad-value-accepted", || format!("{z}"));
        run.check(pf::ThrustArc::with_normalised_direction(b, a, Newtons::new(f), Second::new(isp), dir).is_err() && pf::ThrustArc::with_normalised_direction(a, a, Newtons::new(f), Second::new(isp), dir).is_err() && pf::ThrustArc::with_normalised_direction(a, b, Newtons::new(f), Second::new(isp), [0.0; 3]).is_err() && pf::ThrustArc::with_normalised_direction(a, b, Newtons::new(f), Second::new(isp), [1.0, f64::NAN, 0.0]).is_err(), "thrust/bad-arc-accepted", w);
    }
}

fn coefficients(run: &Run) {
    for n in 2..=4usize {
        for m in 0..=n {
            let (c, s) = EGM.iter().find(|t| t.0 == n && t.1 == m).map(|t| (t.2, t.3)).unwrap();
            let (gc, gs) = (LowDegreeEarth.c_normalized(n, m).unwrap(), LowDegreeEarth.s_normalized(n, m).unwrap());
            run.eval("coefficient", (n, m));
            run.within(&format!("geopotential/egm2008-{n}{m}"), ((gc - c).powi(2) + (gs - s).powi(2)).sqrt(), 1e-3 * (c * c + s * s).sqrt(), || format!("C={gc} S={gs} published {c} {s}"));
        }
    }
    for (n, m) in [(0, 0), (1, 0), (1, 1), (5, 0), (5, 3), (3, 4), (9, 9)] {
        let (gc, gs) = (LowDegreeEarth.c_normalized(n, m).unwrap(), LowDegreeEarth.s_normalized(n, m).unwrap());
        run.check(gs == 0.0 && gc == if n == 0 { 1.0 } else { 0.0 }, "geopotential/outside-degrees", || format!("{n} {m}"));
        let (tc, ts) = (TwoBodyEarth.c_normalized(n, m).unwrap(), TwoBodyEarth.s_normalized(n, m).unwrap());
        run.check(ts == 0.0 && tc == if n == 0 { 1.0 } else { 0.0 }, "geopotential/two-body-field", || format!("{n} {m}"));
    }
    run.check((LowDegreeEarth.mu().value() - MU).abs() < 1e-6 && (LowDegreeEarth.reference_radius().value() - 6378.1364).abs() < 1e-3 && LowDegreeEarth.max_degree() == 4 && LowDegreeEarth.max_order() == 4, "geopotential/field-constants", String::new);
}

fn main() {
    let mut run = Run::new("C15", "force models vs textbook formulas evaluated independently (Cunningham harmonics, disc integration, direct differences)");
    run.assume("UT1 comes from earth_rotation::jd_ut1_from_tt, judged by C02; the NRLMSISE table values come from the data crate.");
    coefficients(&run);
    run.par("geopotential", run.size(450000, 10800000), |i| geopotential(&run, &mut run.rng_i("geo", i)));
    run.par("drag", run.size(450000, 10800000), |i| drag(&run, &mut run.rng_i("drag", i)));
    run.par("srp", run.size(120000, 2880000), |i| srp_third(&run, &mut run.rng_i("srp", i)));
    run.par("small", run.size(450000, 10800000), |i| small(&run, &mut run.rng_i("small", i)));
    run.par("registry", run.size(45000, 1080000), |i| registry(&run, &mut run.rng_i("reg", i)));
    run.par("thrust", run.size(45000, 1080000), |i| thrust(&run, &mut run.rng_i("thrust", i)));
    for (k, n) in [("geopotential", 20_000), ("central", 20_000), ("altitude", 20_000), ("drag", 20_000), ("density", 10_000), ("srp", 20_000), ("penumbra", 500), ("umbra", 1000), ("third-body", 20_000), ("relativity", 20_000), ("empirical", 20_000), ("periodic", 20_000), ("registry", 5000), ("thrust", 4000), ("burn", 4000), ("reject", 1000)] { run.require(k, n); }
    run.finish();
}
