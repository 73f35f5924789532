//! C11: two-body orbits: positions from elements, validation, invariants.
use siderust::astro::conic::*;
use siderust::astro::conic_equations::*;
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::bodies::comet::{Comet, OrbitFrame};
use siderust::coordinates::cartesian::position::EclipticMeanJ2000;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::time::JulianDate;
use std::f64::consts::TAU;
use vh::kep;
use vh::la::*;
use vh::{Rng, Run};

const K: f64 = 0.01720209895;
fn v3(p: &EclipticMeanJ2000<AstronomicalUnit>) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }
fn d(x: f64) -> Degrees { Degrees::new(x) }
fn au(x: f64) -> AstronomicalUnits { AstronomicalUnits::new(x) }
struct El { i: f64, om: f64, w: f64, m0: f64, t0: f64, t: f64 }
fn el(g: &mut Rng) -> El {
    let i = match g.n(8) { 0 => 0.0, 1 => 180.0, 2 => 90.0, _ => g.range(0.0, 180.0) };
    let t0 = g.range(2_400_000.5, 2_500_000.5);
    let dt = match g.n(4) { 0 => 0.0, 1 => g.range(-1.0, 1.0), 2 => g.range(-500.0, 500.0), _ => g.range(-60_000.0, 60_000.0) };
    El { i, om: g.range(-360.0, 720.0), w: g.range(-360.0, 720.0), m0: match g.n(5) { 0 => 0.0, 1 => 180.0, _ => g.range(-360.0, 720.0) }, t0, t: t0 + dt }
}
fn ecc(g: &mut Rng) -> f64 {
    match g.n(8) { 0 => 0.0, 1 => 1.0 - g.log(1e-10, 1e-1), 2 => g.log(1e-12, 1e-2), 3 => g.range(0.9, 0.999), _ => g.range(0.0, 0.95) }
}

fn elliptic(run: &Run, g: &mut Rng) {
    let q = el(g);
    let e = ecc(g);
    let a = g.log(0.01, 1000.0);
    let (ir, omr, wr) = (q.i.to_radians(), q.om.to_radians(), q.w.to_radians());
    let dt = q.t - q.t0;
    let (j, j0) = (JulianDate::new(q.t), JulianDate::new(q.t0));
    let dt = { let _ = dt; j.raw().value() - j0.raw().value() };
    let w = || format!("a={a} e={e} i={} om={} w={} m0={} t0={} dt={dt}", q.i, q.om, q.w, q.m0, q.t0);
    let chk = |name: &str, p: Option<V3>, n: f64, m0: f64| {
        run.eval(name, (a.to_bits(), e.to_bits(), dt.to_bits()));
        let Some(p) = p else { return };
        let m = m0.to_radians() + n * dt;
        let (x, dx) = kep::elliptic(a, e, ir, omr, wr, m);
        let sens = norm(dx);
        let tol = a * 4e-15 * (1.0 + 1.0 / (1.0 - e).sqrt()) + sens * (8e-16 * (10.0 + m.abs() + m0.abs().to_radians()) + 3e-12 * (n * dt).abs());
        run.within(name, norm(sub(p, x)), tol, || format!("{} got {p:?} want {x:?}", w()));
        // distance from the focus and from the orbit plane
        let r = norm(p);
        run.check(r >= a * (1.0 - e) - tol && r <= a * (1.0 + e) + tol, "elliptic/radius", || format!("{} r={r}", w()));
        let h = mv(&kep::orient(ir, omr, wr), [0.0, 0.0, 1.0]);
        run.within("elliptic/plane", dot(p, h).abs(), a * 4e-15 * 10.0, w);
    };
    let o: KeplerianOrbit = match KeplerianOrbit::try_new(au(a), e, d(q.i), d(q.om), d(q.w), d(q.m0), j0) {
        Ok(o) => o,
        Err(x) => { run.violation("accept", &format!("{x:?} {}", w())); return; }
    };
    let n = TAU / (365.256_898_326 * a.powf(1.5));
    let p = run.no_panic("panic/kepler", || w(), || v3(&o.kepler_position(j)));
    chk("kepler", p, n, q.m0);
    if let Some(p) = p {
        let mut same = |nm: &str, z: Option<V3>| { if let Some(z) = z { run.within(nm, norm(sub(z, p)), a * 1e-13 + norm(kep::elliptic(a, e, ir, omr, wr, q.m0.to_radians() + n * dt).1) * 8e-16 * (20.0 + (n * dt).abs() + q.m0.abs().to_radians()), w); } };
        same("kepler/free-function", run.no_panic("panic/kepler", || w(), || v3(&calculate_orbit_position(&o, j))));
        let pr = PreparedOrbit::try_from(o).unwrap();
        same("kepler/prepared", Some(v3(&pr.position_at(j))));
        let pr = PreparedOrbit::try_from_elements(au(a), e, d(q.i), d(q.om), d(q.w), d(q.m0), j0).unwrap();
        same("kepler/prepared", Some(v3(&calculate_prepared_position(&pr, j))));
        run.within("kepler/mean-motion", (pr.mean_motion().value() / n - 1.0).abs(), 1e-14, w);
    }
    let o2 = KeplerianOrbit::<AstronomicalUnit>::new(au(a), e, d(q.i), d(q.om), d(q.w), d(q.m0), j0);
    if let (Some(p), Some(z)) = (p, run.no_panic("panic/kepler", || w(), || v3(&o2.kepler_position(j)))) {
        run.within("kepler/const-constructor", norm(sub(z, p)), a * 1e-13 + norm(kep::elliptic(a, e, ir, omr, wr, q.m0.to_radians() + n * dt).1) * 8e-16 * (20.0 + (n * dt).abs() + q.m0.abs().to_radians()), w);
    }
    let mu = g.log(1e3, 1e13);
    let nmu = (mu * 86400.0f64.powi(2) / (149_597_870.7 * a).powi(3)).sqrt();
    if (nmu * dt).abs() < 1e7 {
        let p = run.no_panic("panic/mu", || w(), || v3(&o.position_with_mu(j, GravitationalParameter::new(mu))));
        chk("kepler-mu", p, nmu, q.m0);
    }
    // mean-motion orbit
    let nd = g.log(1e-6, 500.0);
    if (nd * dt).abs() < 1e8 {
        let mo = MeanMotionOrbit::try_new(au(a), e, d(q.i), d(q.om), d(q.w), AngularRate::<Degree, Day>::new(nd), j0).unwrap();
        let p = run.no_panic("panic/mean-motion", || w(), || mo.position_at(j));
        if let Some(p) = p { chk("mean-motion", p.ok().map(|p| v3(&p)), nd.to_radians(), 0.0); }
    }
    // conic, given by its periapsis
    let per = a * (1.0 - e);
    let c = ConicOrbit::try_new(au(per), e, d(q.i), d(q.om), d(q.w), d(q.m0), j0).unwrap();
    run.check(c.kind() == ConicKind::Elliptic, "conic/kind", w);
    let aa = per / (1.0 - e);
    if let Some(r) = run.no_panic("panic/conic", || w(), || c.position_at(j)) {
        match r {
            Ok(p) => {
                let (nn, mc) = (K / aa.powf(1.5), q.m0.to_radians() + K / aa.powf(1.5) * dt);
                let (x, dx) = kep::elliptic(aa, e, ir, omr, wr, mc);
                run.eval("conic-elliptic", (a.to_bits(), e.to_bits(), dt.to_bits()));
                run.within("conic-elliptic", norm(sub(v3(&p), x)), aa * (1e-13 + 4e-15 / (1.0 - e).sqrt()) + norm(dx) * (2e-15 * (10.0 + mc.abs() + q.m0.abs().to_radians()) + 1e-14 * (nn * dt).abs()), || format!("{} got {:?} want {x:?}", w(), v3(&p)));
            }
            Err(x) => run.violation("conic/elliptic-error", &format!("{x:?} {}", w())),
        }
    }
    let cm = Comet { name: "x", tail_length: Kilometers::new(1.0), orbit: o, reference: OrbitFrame::Heliocentric };
    run.within("comet/period", (cm.period_years().value() / a.powf(1.5) - 1.0).abs(), 1e-14, w);
}

fn hyperbolic(run: &Run, g: &mut Rng) {
    let q = el(g);
    let e = match g.n(5) { 0 => 1.0 + g.log(1e-8, 1e-1), 1 => g.log(1.01, 100.0), _ => g.range(1.01, 6.0) };
    let per = g.log(0.01, 30.0);
    let a = per / (e - 1.0);
    let (j, j0) = (JulianDate::new(q.t), JulianDate::new(q.t0));
    let dt = j.raw().value() - j0.raw().value();
    let n = K / a.powf(1.5);
    let m0 = match g.n(4) { 0 => 0.0, 1 => g.range(-1e4, 1e4), _ => g.range(-200.0, 200.0) };
    let w = || format!("q={per} e={e} i={} om={} w={} m0={m0} t0={} dt={dt}", q.i, q.om, q.w, q.t0);
    let c = match ConicOrbit::try_new(au(per), e, d(q.i), d(q.om), d(q.w), d(m0), j0) {
        Ok(c) => c,
        Err(x) => { run.violation("accept", &format!("{x:?} {}", w())); return; }
    };
    run.check(c.kind() == ConicKind::Hyperbolic, "conic/kind", w);
    run.eval("conic-hyperbolic", (per.to_bits(), e.to_bits(), dt.to_bits()));
    let Some(r) = run.no_panic("panic/conic", || w(), || c.position_at(j)) else { return };
    let m = m0.to_radians() + n * dt;
    let (x, dx) = kep::hyperbolic(a, e, q.i.to_radians(), q.om.to_radians(), q.w.to_radians(), m);
    match r {
        Ok(p) => {
            let tol = norm(x) * 6e-14 + a * 2e-14 / (e - 1.0).sqrt().min(1.0) + norm(dx) * (4e-15 * (10.0 + m.abs() + m0.abs().to_radians()) + 2e-14 * (n * dt).abs() + 2e-14);
            run.within("conic-hyperbolic", norm(sub(v3(&p), x)), tol, || format!("{} got {:?} want {x:?}", w(), v3(&p)));
        }
        Err(z) => run.violation("conic/hyperbolic-error", &format!("{z:?} M={m} {}", w())),
    }
}

fn validation(run: &Run, g: &mut Rng) {
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let nf = bad[g.n(3) as usize];
    let j = JulianDate::new(2_451_545.0);
    let k = |a: f64, e: f64, i: f64, om: f64, w: f64, m: f64| KeplerianOrbit::<AstronomicalUnit>::try_new(au(a), e, d(i), d(om), d(w), d(m), j).map(|_| ());
    let c = |a: f64, e: f64, i: f64, om: f64, w: f64, m: f64| ConicOrbit::try_new(au(a), e, d(i), d(om), d(w), d(m), j).map(|_| ());
    let mm = |a: f64, e: f64, i: f64, n: f64| MeanMotionOrbit::try_new(au(a), e, d(i), d(1.0), d(2.0), AngularRate::<Degree, Day>::new(n), j).map(|_| ());
    let x = g.log(1e-3, 1e3);
    run.eval("validation", x.to_bits());
    let rej = |n: &str, r: Result<(), ConicError>, want: ConicError| run.check(r == Err(want), n, || format!("{r:?} want {want:?} x={x} nf={nf}"));
    for a in [0.0, -x, nf] {
        rej("reject/axis", k(a, 0.1, 1.0, 2.0, 3.0, 4.0), ConicError::InvalidSemiMajorAxis);
        rej("reject/axis", mm(a, 0.1, 1.0, 1.0), ConicError::InvalidSemiMajorAxis);
        rej("reject/periapsis", c(a, 0.1, 1.0, 2.0, 3.0, 4.0), ConicError::InvalidPeriapsisDistance);
        rej("reject/motion", mm(1.0, 0.1, 1.0, a), ConicError::InvalidMeanMotion);
    }
    for e in [-x, nf, -1e-300] {
        rej("reject/eccentricity", k(1.0, e, 1.0, 2.0, 3.0, 4.0), ConicError::InvalidEccentricity);
        rej("reject/eccentricity", mm(1.0, e, 1.0, 1.0), ConicError::InvalidEccentricity);
        rej("reject/eccentricity", c(1.0, e, 1.0, 2.0, 3.0, 4.0), ConicError::InvalidEccentricity);
    }
    rej("reject/parabolic", k(1.0, 1.0, 1.0, 2.0, 3.0, 4.0), ConicError::ParabolicSemiMajorAxis);
    rej("reject/parabolic", mm(1.0, 1.0, 1.0, 1.0), ConicError::ParabolicSemiMajorAxis);
    rej("reject/parabolic", c(1.0, 1.0, 1.0, 2.0, 3.0, 4.0), ConicError::ParabolicUnsupported);
    rej("reject/hyperbolic", k(1.0, 1.0 + x, 1.0, 2.0, 3.0, 4.0), ConicError::HyperbolicNotSupported);
    rej("reject/hyperbolic", mm(1.0, 1.0 + x, 1.0, 1.0), ConicError::HyperbolicNotSupported);
    for p in 0..3 {
        let mut v = [1.0, 2.0, 3.0];
        v[p] = nf;
        rej("reject/orientation", k(1.0, 0.1, v[0], v[1], v[2], 4.0), ConicError::InvalidOrientation);
        rej("reject/orientation", c(1.0, 0.1, v[0], v[1], v[2], 4.0), ConicError::InvalidOrientation);
    }
    rej("reject/orientation", mm(1.0, 0.1, nf, 1.0), ConicError::InvalidOrientation);
    rej("reject/anomaly", k(1.0, 0.1, 1.0, 2.0, 3.0, nf), ConicError::InvalidMeanAnomaly);
    rej("reject/anomaly", c(1.0, 0.1, 1.0, 2.0, 3.0, nf), ConicError::InvalidMeanAnomaly);
    let un = ConicOrbit::new_unchecked(au(1.0), 1.0, d(0.0), d(0.0), d(0.0), d(0.0), j);
    run.check(matches!(un.position_at(j), Err(ConicError::ParabolicUnsupported)), "parabolic/unsupported", String::new);
}

fn main() {
    let mut run = Run::new("C11", "seeded elements (a 0.01-1000 AU, e 0..1-1e-7 and 1+1e-6..100, all orientations) x epochs within +-60000 d x gravitational parameters; malformed elements");
    run.assume("tolerance grows with the conditioning of the anomaly (position derivative) and with the elapsed phase");
    let n = run.size(40_000, 3_000_000);
    run.par("c11", n, |i| {
        let mut g = run.rng_i("c11", i);
        elliptic(&run, &mut g);
        hyperbolic(&run, &mut g);
        if i % 8 == 0 { validation(&run, &mut g); }
    });
    run.require("kepler", 1000);
    run.require("conic-hyperbolic", 1000);
    run.finish();
}
