//! C13: aberration, light deflection, proper motion and space motion.
use siderust::astro::aberration::*;
use siderust::astro::light_deflection::*;
use siderust::astro::proper_motion::*;
use siderust::coordinates::cartesian::{direction::Direction as CD, position as cpos, Displacement, Velocity};
use siderust::coordinates::frames::*;
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical::{self, position as spos};
use siderust::coordinates::transform::TransformFrame;
use siderust::ephemeris::{AuPerDay, Ephemeris};
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::time::JulianDate;
use vh::la::*;
use vh::{Rng, Run};

type EqJ = EquatorialMeanJ2000;
const C_AUD: f64 = 173.144_632_674_240_33;
fn dir<F: siderust::coordinates::frames::ReferenceFrame>(v: V3) -> CD<F> { CD::<F>::new(v[0], v[1], v[2]) }
fn v3<F: siderust::coordinates::frames::ReferenceFrame>(d: &CD<F>) -> V3 { [d.x(), d.y(), d.z()] }
/// rest-frame direction -> direction seen by an observer moving at beta: null-vector boost
fn boost(u: V3, b: V3) -> V3 {
    let b2 = dot(b, b);
    if b2 == 0.0 { return u; }
    // incoming photon momentum k = -u (energy 1); boost to the observer frame
    let g = 1.0 / (1.0 - b2).sqrt();
    let k = scale(u, -1.0);
    let kb = dot(k, b);
    let kp = add(k, scale(b, (g - 1.0) * kb / b2 - g));
    scale(unit(kp), -1.0)
}
/// rounding of a declination recovered from its sine, at this unit vector
fn polar(u: V3) -> f64 { 1e-15 / (1.0 - u[2].abs()).max(1e-16).sqrt() }
fn velo(g: &mut Rng) -> V3 {
    let m = match g.n(8) { 0 => 0.0, 1 => g.range(0.1, 0.99) * C_AUD, 2 => g.log(1e-12, 1e-6), _ => g.range(0.0, 0.03) };
    scale(g.unit(), m)
}
fn anydir(g: &mut Rng) -> V3 {
    match g.n(10) { 0 => [0.0, 0.0, 1.0], 1 => [0.0, 0.0, -1.0], 2 => [1.0, 0.0, 0.0], 3 => [0.0, -1.0, 0.0], _ => unit(g.unit()) }
}

fn aber(run: &Run, g: &mut Rng) {
    let v = velo(g);
    let u = if g.p(0.1) && norm(v) > 0.0 { scale(unit(v), if g.p(0.5) { 1.0 } else { -1.0 }) } else { anydir(g) };
    let b = scale(v, 1.0 / C_AUD);
    let gam = 1.0 / (1.0 - dot(b, b)).sqrt();
    let tol = 2e-15 * gam * gam * 3.0 + norm(b) * 1e-12;
    let jd = JulianDate::new(g.range(2_400_000.5, 2_500_000.5));
    let vel = Velocity::<EqJ, AuPerDay>::new(v[0], v[1], v[2]);
    let w = || format!("u={u:?} v={v:?} au/d");
    run.eval("aberration", (u[0].to_bits(), v[0].to_bits()));
    let want = boost(u, b);
    let a = apply_aberration_to_direction_with_velocity(dir::<EqJ>(u), &vel);
    run.within("aberration/apply", norm(sub(v3(&a), want)), tol, || format!("{} got {:?} want {want:?}", w(), v3(&a)));
    run.within("aberration/unit", (norm(v3(&a)) - 1.0).abs(), 1e-14, w);
    let r = remove_aberration_from_direction_with_velocity(a, &vel);
    run.within("aberration/roundtrip", norm(sub(v3(&r), u)), 2e-14 * gam * gam, w);
    let r = remove_aberration_from_direction_with_velocity(dir::<EqJ>(u), &vel);
    run.within("aberration/remove", norm(sub(v3(&r), boost(u, scale(b, -1.0)))), tol, w);
    // typed directions with an explicit observer, several frames
    let obs = ObserverState::from_velocity(vel, jd);
    macro_rules! frame { ($F:ty, $n:expr) => {{
        let d0: CD<$F> = dir::<$F>(u);
        let q: CD<EqJ> = d0.to_frame();
        let want: CD<$F> = dir::<EqJ>(boost(v3(&q), b)).to_frame();
        let want_inv: CD<$F> = dir::<EqJ>(boost(v3(&q), scale(b, -1.0))).to_frame();
        run.eval("typed-aberration", ($n, u[0].to_bits()));
        let got = Astrometric::new(d0).to_apparent(&obs);
        run.within("aberration/typed-cartesian", norm(sub(v3(got.direction()), v3(&want))), tol + 1e-14, || format!("{} {}", $n, w()));
        let back = got.to_astrometric(&obs);
        run.within("aberration/typed-roundtrip", norm(sub(v3(back.direction()), u)), 3e-14 * gam * gam, || format!("{} {}", $n, w()));
        let got = Apparent::new(d0).to_astrometric(&obs);
        run.within("aberration/typed-remove", norm(sub(v3(got.direction()), v3(&want_inv))), tol + 1e-14, || format!("{} {}", $n, w()));
        let s: spherical::Direction<$F> = d0.to_spherical();
        let got = Astrometric::new(s).to_apparent(&obs);
        run.within("aberration/typed-spherical", norm(sub(v3(&got.direction().to_cartesian()), v3(&want))), tol * 10.0 + 2e-14 + polar(v3(&want)) + polar(u), || format!("{} {}", $n, w()));
        let got = Apparent::new(s).to_astrometric(&obs).into_inner();
        run.within("aberration/typed-spherical-remove", norm(sub(v3(&got.to_cartesian()), v3(&want_inv))), tol * 10.0 + 2e-14 + polar(v3(&want_inv)) + polar(u), || format!("{} {}", $n, w()));
    }} }
    match g.n(3) { 0 => frame!(EqJ, "EquatorialMeanJ2000"), 1 => frame!(EclipticMeanJ2000, "EclipticMeanJ2000"), _ => frame!(ICRS, "ICRS") }
    // annual aberration uses the Earth's barycentric velocity
    let e: Velocity<EqJ, AuPerDay> = siderust::ephemeris::Vsop87Ephemeris::earth_barycentric_velocity(jd).to_frame();
    let bv = scale([e.x().value(), e.y().value(), e.z().value()], 1.0 / C_AUD);
    run.check(norm(bv) > 9.5e-5 && norm(bv) < 1.05e-4, "aberration/earth-speed", || format!("{bv:?}"));
    run.eval("annual-aberration", jd.raw().value().to_bits());
    let a = apply_aberration_to_direction(dir::<EqJ>(u), jd);
    run.within("aberration/annual", norm(sub(v3(&a), boost(u, bv))), 1e-14, w);
    let r = remove_aberration_from_direction(dir::<EqJ>(u), jd);
    run.within("aberration/annual-remove", norm(sub(v3(&r), boost(u, scale(bv, -1.0)))), 1e-14, w);
    let d = g.log(1e-6, 1e12);
    let p = cpos::EquatorialMeanJ2000::<Kilometer>::new(u[0] * d, u[1] * d, u[2] * d);
    let x = apply_aberration(p, jd);
    let xv = [x.x().value(), x.y().value(), x.z().value()];
    run.within("aberration/position", norm(sub(scale(xv, 1.0 / d), boost(u, bv))), 1e-14, || format!("{} d={d}", w()));
    let y = remove_aberration(x, jd);
    run.within("aberration/position-roundtrip", norm(sub(scale([y.x().value(), y.y().value(), y.z().value()], 1.0 / d), u)), 1e-14, w);
    let o = cpos::EquatorialMeanJ2000::<AstronomicalUnit>::new(0.0, 0.0, 0.0);
    if let Some((a, b)) = run.no_panic("panic/zero", w, || (apply_aberration(o, jd), remove_aberration(o, jd))) {
        run.check(a.x().value() == 0.0 && a.y().value() == 0.0 && a.z().value() == 0.0 && b.x().value() == 0.0, "aberration/zero-position", w);
    }
}

const RS_SUN: f64 = 2.0 * 1.327_124_400_18e11 / (299_792.458 * 299_792.458) / 149_597_870.7;
fn deflect(s: V3, q: V3, rs: f64) -> V3 {
    // turn s away from the body by (rs/d) cot(theta/2), in the plane of the body and the source
    let d = norm(q);
    let body = scale(q, -1.0 / d);
    let th = angle(s, body);
    if th == 0.0 { return s; }
    let perp = sub(s, scale(body, dot(s, body)));
    if norm(perp) == 0.0 { return s; }
    let tdir = unit(sub(scale(unit(perp), (th).cos()), scale(body, th.sin())));
    let t = sub(tdir, scale(s, dot(tdir, s)));
    // (1 - cos)/sin form: |e - (s.e)s| / (1 + s.e) = sin/(1-cos) = cot(th/2)
    let delta = rs / d / (0.5 * th).tan();
    unit(add(s, scale(unit(t), delta)))
}
fn light(run: &Run, g: &mut Rng) {
    let body = anydir(g);
    let th = match g.n(6) { 0 => std::f64::consts::PI - g.log(1e-9, 0.1), 1 => g.log(4e-3, 0.1), 2 => g.log(1e-4, 4e-3), _ => g.range(0.01, 3.14) };
    let p = unit(cross(body, g.unit()));
    let s = unit(add(scale(body, th.cos()), scale(p, th.sin())));
    let d = if g.p(0.5) { g.range(0.9, 1.1) } else { g.log(1e-3, 50.0) };
    let q = scale(body, -d);
    let disp = |q: V3| Displacement::<EqJ, AstronomicalUnit>::new(q[0], q[1], q[2]);
    let w = || format!("s={s:?} q={q:?} theta={th} rad");
    run.eval("deflection", (th.to_bits(), d.to_bits()));
    let tols = |rs: f64| { let dl = rs / d / (0.5 * th).tan(); 3e-16 * 10.0 + dl * (1e-9 + 2e-15 / (th * th).min(1.0)) };
    let got = v3(&solar_deflection(dir::<EqJ>(s), disp(q)));
    run.within("deflection/sun", norm(sub(got, deflect(s, q, RS_SUN))), tols(RS_SUN), || format!("{} got {got:?} want {:?}", w(), deflect(s, q, RS_SUN)));
    run.within("deflection/unit", (norm(got) - 1.0).abs(), 1e-14, w);
    let dl = RS_SUN / d / (0.5 * th).tan();
    let inv = v3(&solar_deflection_inverse(dir::<EqJ>(got), disp(q)));
    if dl < 0.1 * th { run.within("deflection/inverse", norm(sub(inv, s)), 8e-15 + 3.0 * dl * dl + 1.5 * dl * RS_SUN / d / (0.5 * th).sin().powi(2), || format!("{} delta={dl}", w())); }
    let mag = solar_deflection_magnitude(Radians::new(th), AstronomicalUnits::new(d)).value();
    run.within("deflection/magnitude", mag - dl * 180.0 * 3600.0 / std::f64::consts::PI, 1e-8 * mag.abs() + 1e-12, || format!("{} got {mag}", w()));
    for (n, f, ratio) in [("jupiter", jupiter_deflection as fn(CD<EqJ>, Displacement<EqJ, AstronomicalUnit>) -> CD<EqJ>, 1047.348644), ("saturn", saturn_deflection, 3497.9018)] {
        let got = v3(&f(dir::<EqJ>(s), disp(q)));
        let rs = RS_SUN / ratio;
        // the body mass ratio is good to 1e-6
        run.within("deflection/planet", norm(sub(got, deflect(s, q, rs))), tols(rs) + 2e-6 * rs / d / (0.5 * th).tan(), || format!("{n} {}", w()));
    }
    let rs = g.log(1e-16, 1e-6);
    let x = v3(&body_deflection(dir::<EqJ>(s), disp(q), AstronomicalUnits::new(rs)));
    let dl = rs / d / (0.5 * th).tan();
    if dl < 1e-2 { run.within("deflection/body", norm(sub(x, deflect(s, q, rs))), tols(rs), w); }
    let (qj, qs) = (scale(g.unit(), g.range(4.0, 6.5)), scale(g.unit(), g.range(8.0, 11.0)));
    let full = v3(&full_planetary_deflection(dir::<EqJ>(s), disp(q), disp(qj), disp(qs)));
    let want = deflect(deflect(deflect(s, q, RS_SUN), qj, RS_SUN / 1047.348644), qs, RS_SUN / 3497.9018);
    let (tj, ts) = (angle(s, scale(qj, -1.0)), angle(s, scale(qs, -1.0)));
    if tj > 1e-3 && ts > 1e-3 { run.within("deflection/full", norm(sub(full, want)), tols(RS_SUN) + 1e-15 + 2e-6 * RS_SUN / 1047.0 / 4.0 / (0.5 * tj).tan() + 2e-6 * RS_SUN / 3497.0 / 8.0 / (0.5 * ts).tan(), w); }
    // degenerate: no body distance, exactly behind the body, massless
    let z = [(scale(q, 0.0), RS_SUN), (q, 0.0)];
    for (q, rs) in z { let o = v3(&body_deflection(dir::<EqJ>(s), disp(q), AstronomicalUnits::new(rs))); run.check(o == v3(&dir::<EqJ>(s)), "deflection/degenerate", || format!("{q:?} {rs} {o:?}")); }
    let o = v3(&solar_deflection(dir::<EqJ>(body), disp(q)));
    run.check(o.iter().all(|c| c.is_finite()), "deflection/behind", || format!("{o:?} {}", w()));
}

fn pmotion(run: &Run, g: &mut Rng) {
    let ra = g.range(0.0, 360.0);
    let dec = match g.n(12) { 0 => 90.0, 1 => -90.0, 2 => 90.0 - g.log(1e-9, 1.0), 3 => 0.0, 4 => -89.9, _ => g.unit()[2].asin().to_degrees() };
    let dist = g.log(1e-3, 1e9);
    let yrs = match g.n(4) { 0 => 0.0, 1 => g.range(-1.0, 1.0), _ => g.range(-1000.0, 1000.0) };
    let jd = JulianDate::new(2_451_545.0 + yrs * 365.25);
    let yrs = (jd.raw().value() - 2_451_545.0) / 365.25;
    let (pa, pd) = match g.n(4) { 0 => (0.0, g.range(-10.0, 10.0)), 1 => (g.range(-10.0, 10.0), 0.0), _ => (g.gauss() * 2.0, g.gauss() * 2.0) }; // arcsec/yr
    let star = g.p(0.5);
    let w = || format!("ra={ra} dec={dec} pm=({pa},{pd}) as/yr star={star} yrs={yrs}");
    let pos = spos::EquatorialMeanJ2000::<Parsec>::new(Degrees::new(ra), Degrees::new(dec), dist);
    type Rt = siderust::qtty::Per<Arcsecond, Year>;
    let (qa, qd) = (Quantity::<Rt>::new(pa), Quantity::<Rt>::new(pd));
    let pm = if star { ProperMotion::from_mu_alpha_star::<Rt>(qa, qd) } else { ProperMotion::from_mu_alpha::<Rt>(qa, qd) };
    run.eval("proper-motion", (ra.to_bits(), dec.to_bits(), star));
    let Some(r) = run.no_panic("panic/proper-motion", w, || set_proper_motion_since_j2000(pos, pm, jd)) else { return };
    let cd = dec.to_radians().cos();
    match r {
        Err(e) => { run.check(star && cd.abs() <= 1e-11, "proper-motion/refused", || format!("{} {e}", w())); run.count("pole-refusals", 1); }
        Ok(p) => {
            run.check(!(star && cd.abs() < 1e-13), "proper-motion/pole-accepted", w);
            let mu = if star { pa / cd } else { pa };
            let (dra, dde) = (mu * yrs / 3600.0, pd * yrs / 3600.0);
            let (a1, d1) = ((ra + dra).to_radians(), (dec + dde).to_radians());
            let want = [d1.cos() * a1.cos(), d1.cos() * a1.sin(), d1.sin()];
            let (a, d) = (p.ra().value().to_radians(), p.dec().value().to_radians());
            let got = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
            let cond = if star { (dra.to_radians() * d1.cos()).abs() * (4e-15 + 2e-15 / cd.abs()) } else { 0.0 };
            run.within("proper-motion/linear", norm(sub(got, want)), 1e-14 + 1e-15 * dra.abs() + cond, || format!("{} got ({},{}) want ({},{})", w(), p.ra(), p.dec(), ra + dra, dec + dde));
            run.check(p.dec().value().abs() <= 90.0 + 1e-12, "proper-motion/dec-range", || format!("{} {}", w(), p.dec()));
            run.check(p.distance.value() == dist, "proper-motion/distance", w);
        }
    }
    // space motion
    let plx = match g.n(10) { 0 => 0.0, 1 => -g.range(0.0, 10.0), _ => g.log(0.1, 800.0) };
    let rv = if g.p(0.2) { 0.0 } else { g.range(-500.0, 500.0) };
    let epoch = 2_451_545.0 + if g.p(0.5) { 0.0 } else { g.range(-20_000.0, 20_000.0) };
    let ej = JulianDate::new(epoch);
    let dt = jd.raw().value() - ej.raw().value();
    let m = StarSpaceMotion { pm_ra_cos_dec: AngularRate::<MilliArcsecond, Year>::new(pa * 1000.0), pm_dec: AngularRate::<MilliArcsecond, Year>::new(pd * 1000.0), parallax: MilliArcseconds::new(plx), radial_velocity: siderust::qtty::velocity::Velocity::<Kilometer, unit::Second>::new(rv) };
    let pos = spos::EquatorialMeanJ2000::<AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), dist);
    let ws = || format!("{} plx={plx} rv={rv} dt={dt}", w());
    run.eval("space-motion", (ra.to_bits(), plx.to_bits()));
    let Some(r) = run.no_panic("panic/space-motion", ws, || propagate_space_motion(pos, m, jd, ej)) else { return };
    if plx <= 0.0 { run.check(r.is_err(), "space-motion/parallax-accepted", ws); run.count("parallax-refusals", 1); return; }
    match r {
        Err(e) => { run.check(cd.abs() <= 1e-11, "space-motion/refused", || format!("{} {e}", ws())); }
        Ok(p) => {
            run.check(cd.abs() >= 1e-13, "space-motion/pole-accepted", ws);
            let mas = std::f64::consts::PI / 180.0 / 3_600_000.0;
            let r0 = 1.0 / (plx * mas);
            let (a, d) = (ra.to_radians(), dec.to_radians());
            let rh = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
            let ea = [-a.sin(), a.cos(), 0.0];
            let ed = [-d.sin() * a.cos(), -d.sin() * a.sin(), d.cos()];
            let y = dt / 365.25;
            let vr = rv * 86400.0 * 365.25 / 149_597_870.7;
            let x = add(scale(rh, r0 + vr * y), scale(add(scale(ea, pa * 1000.0 * mas), scale(ed, pd * 1000.0 * mas)), r0 * y));
            let (a, d) = (p.ra().value().to_radians(), p.dec().value().to_radians());
            let got = scale([d.cos() * a.cos(), d.cos() * a.sin(), d.sin()], p.distance.value());
            // asin near the pole costs half the digits
            let pole = (1.0 - (x[2] / norm(x)).abs()).max(1e-16).sqrt();
            run.within("space-motion/straight-line", norm(sub(got, x)) / r0, (2e-14 + 1e-15 / pole) * (norm(x) / r0).max(1.0), || format!("{} got {got:?} want {x:?}", ws()));
            run.check((0.0..=360.0).contains(&p.ra().value()), "space-motion/ra-range", ws);
        }
    }
    let z = run.no_panic("panic/space-motion", ws, || (propagate_space_motion_since_j2000(pos, m, jd), propagate_space_motion(pos, m, jd, siderust::J2000)));
    if let Some((a, b)) = z { run.check(match (&a, &b) { (Ok(a), Ok(b)) => a.ra() == b.ra() && a.dec() == b.dec() && a.distance == b.distance, (Err(_), Err(_)) => true, _ => false }, "space-motion/j2000-wrapper", ws); }
}

fn main() {
    let mut run = Run::new("C13", "aberration = Lorentz boost of the photon direction; deflection = (r_s/d)cot(theta/2) away from the body; proper motion = linear in RA/Dec, space motion = straight line in 3-D");
    run.assume("proper-motion rates quoted per year are applied over Julian years of 365.25 days");
    for (k, n) in [("aberration", 2000), ("typed-aberration", 2000), ("annual-aberration", 2000), ("deflection", 2000), ("proper-motion", 2000), ("space-motion", 2000)] { run.require(k, n); }
    // correction policies are sets of stages
    {
        use siderust::astro::apparent::*;
        let stages = CORRECTION_ORDER;
        let all: Vec<(CorrectionPolicy, u8)> = (0..16u8).map(|m| (stages.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).fold(CorrectionPolicy::GEOMETRIC, |p, (_, s)| p | *s), m)).collect();
        for &(p, m) in &all {
            run.eval("policy", m);
            for &(q, k) in &all {
                let mut r = p; r |= q;
                run.check(p.contains(q) == (m & k == k) && (p | q) == all[(m | k) as usize].0 && p.union(q) == r && r == (p | q) && (p == q) == (m == k) && (p.bits() == q.bits()) == (m == k), "policy/algebra", || format!("{p:?} {q:?}"));
            }
            let mut a = AppliedCorrections::from_request(p);
            run.check(a.requested == p && a.applied == CorrectionPolicy::GEOMETRIC && a.light_time_iters == 0, "policy/request", || format!("{a:?}"));
            for s in stages { if p.contains(s) { a.record(s) } }
            run.check(a.applied == p && a.requested == p, "policy/record", || format!("{a:?}"));
        }
        run.check(CorrectionPolicy::APPARENT == all[15].0 && CorrectionPolicy::default() == all[0].0, "policy/names", || format!("{:?}", all));
    }
    let n = run.size(600, 10_000);
    let r = &run;
    run.par("panic", n, |i| {
        let mut g = r.rng_i("c13", i);
        for _ in 0..250 { aber(r, &mut g); light(r, &mut g); light(r, &mut g); pmotion(r, &mut g); pmotion(r, &mut g); }
    });
    run.finish()
}
