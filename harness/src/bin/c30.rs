//! C30: the built-in bodies, stars, observatories, builders and trackable targets.
use siderust::astro::orbit::KeplerianOrbit;
use siderust::astro::proper_motion::ProperMotion;
use siderust::bodies::asteroid::{AsteroidClass, ASTEROID_PRESETS};
use siderust::bodies::comet::{OrbitFrame, COMET_PRESETS};
use siderust::bodies::planets::OrbitExt;
use siderust::bodies::{self as b, catalog as cat, solar_system as ss, Asteroid, Comet, Planet, Satellite, Star};
use siderust::catalogs::observatories as obs;
use siderust::coordinates::{cartesian, centers::*, frames::*, spherical};
use siderust::qtty::{self, *};
use siderust::targets::{CoordinateWithPM, Trackable};
use siderust::time::JulianDate;
use vh::kep::elliptic;
use vh::la::*;
use vh::{Rng, Run};

const R: f64 = std::f64::consts::PI / 180.0;
const N: f64 = 0.985_607_668_6; // Gaussian mean motion, degrees per day
fn rel(a: f64, b: f64) -> f64 { (a - b).abs() / b.abs() }
fn pos(o: &KeplerianOrbit, jd: f64) -> V3 { let p = o.kepler_position(JulianDate::new(jd)); [p.x().value(), p.y().value(), p.z().value()] }
fn xyz<C: ReferenceCenter, F: ReferenceFrame, U: qtty::LengthUnit>(p: &cartesian::Position<C, F, U>) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }

/// Standish (1992) mean elements at J2000: a, e, I, node, longitude of perihelion, mean longitude.
const MEAN: [(&str, f64, f64, f64, f64, f64, f64); 9] = [
    ("Mercury", 0.38709893, 0.20563069, 7.00487, 48.33167, 77.45645, 252.25084), ("Venus", 0.72333199, 0.00677323, 3.39471, 76.68069, 131.53298, 181.97973),
    ("Earth", 1.00000011, 0.01671022, 0.00005, -11.26064, 102.94719, 100.46435), ("Mars", 1.52366231, 0.09341233, 1.85061, 49.57854, 336.04084, 355.45332),
    ("Jupiter", 5.20336301, 0.04839266, 1.30530, 100.55615, 14.75385, 34.40438), ("Saturn", 9.53707032, 0.05415060, 2.48446, 113.71504, 92.43194, 49.94432),
    ("Uranus", 19.19126393, 0.04716771, 0.76986, 74.22988, 170.96424, 313.23218), ("Neptune", 30.06896348, 0.00858587, 1.76917, 131.72169, 44.97135, 304.88003),
    ("Pluto", 39.48168677, 0.24880766, 17.14175, 110.30347, 224.06676, 238.92881)];
// GM (DE440, km3/s2; own body where the system differs), mean radius km
const PHYS: [(f64, f64); 9] = [(22031.868551, 2439.4), (324858.592, 6051.8), (398600.435507, 6371.0084), (42828.31, 3389.5), (126686531.9, 69911.0), (37931206.2, 58232.0), (5793951.3, 25362.0), (6835099.97, 24622.0), (869.61, 1188.3)];
// WGCCRE: pole ra, rate/century, pole dec, rate, W0, W rate/day
const ROT: [(f64, f64, f64, f64, f64, f64); 9] = [(281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108), (272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688), (317.269202, -0.10927547, 54.432516, -0.05827105, 176.049863, 350.891982443297),
    (269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815), (268.056595, -0.006499, 64.495303, 0.002413, 284.95, 870.536), (40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024), (257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928), (299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757), (132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225)];

/// Shape and orientation of an orbit as seen in its positions: extreme radii, plane and apsis, whatever the phase.
fn shape(run: &Run, name: &str, o: &KeplerianOrbit, el: (f64, f64, f64, f64, f64), tol: f64) {
    let (a, e, i, om, w) = el;
    let period = 360.0 / (N / (a * a.sqrt()));
    let m = orient_axes(i, om, w);
    let n = 2000;
    let (mut rmin, mut rmax, mut at) = (f64::INFINITY, 0.0f64, [0.0; 3]);
    let mut area = 0.0;
    let mut last = pos(o, 2_451_545.0);
    for k in 0..=n {
        let p = pos(o, 2_451_545.0 + period * k as f64 / n as f64);
        let r = norm(p);
        if r < rmin { rmin = r; at = p }
        rmax = rmax.max(r);
        run.within(&format!("orbit/plane-{name}"), dot(p, m.1).abs() / r, tol, || format!("{name}: {p:?}"));
        area += dot(cross(last, p), m.1);
        last = p;
    }
    let step = 10.0 * (std::f64::consts::PI / n as f64).powi(2) / (1.0 - e).powi(3);
    run.within(&format!("orbit/perihelion-{name}"), rel(rmin, a * (1.0 - e)), tol + step, || format!("{name}: {rmin} want {}", a * (1.0 - e)));
    run.within(&format!("orbit/aphelion-{name}"), rel(rmax, a * (1.0 + e)), tol + 1e-5, || format!("{name}: {rmax} want {}", a * (1.0 + e)));
    if e > 0.01 { run.within(&format!("orbit/apsis-{name}"), angle(at, m.0), tol / e + 12.0 / n as f64 / (1.0 - e).powf(1.5), || format!("{name}: perihelion seen towards {at:?}")); }
    run.check(area > 0.0, &format!("orbit/sense-{name}"), || format!("{name}: sweeps {area}"));
    run.within(&format!("orbit/closed-{name}"), norm(sub(last, pos(o, 2_451_545.0))) / (a * (1.0 - e)), 1e-3 + 20.0 * tol / (1.0 - e).powf(1.5), || format!("{name}: not closed after {period} d"));
    run.eval("orbit", name.to_string());
}
/// (direction of perihelion, orbit normal)
fn orient_axes(i: f64, om: f64, w: f64) -> (V3, V3) {
    let (p, v) = elliptic(1.0, 0.5, i * R, om * R, w * R, 0.0);
    (unit(p), unit(cross(p, v)))
}

fn data(run: &Run) {
    let planets: [(&Planet, Option<IauRot>); 9] = [(&ss::MERCURY, Some(rot(&ss::Mercury::ROTATION))), (&ss::VENUS, Some(rot(&ss::Venus::ROTATION))), (&ss::EARTH, None), (&ss::MARS, Some(rot(&ss::Mars::ROTATION))), (&ss::JUPITER, Some(rot(&ss::Jupiter::ROTATION))), (&ss::SATURN, Some(rot(&ss::Saturn::ROTATION))), (&ss::URANUS, Some(rot(&ss::Uranus::ROTATION))), (&ss::NEPTUNE, Some(rot(&ss::Neptune::ROTATION))), (&ss::PLUTO, Some(rot(&ss::Pluto::ROTATION)))];
    for (k, (p, r)) in planets.iter().enumerate() {
        let (name, a, e, i, om, lp, l) = MEAN[k];
        for dt in [-20000.0, -3000.0, -400.0, 0.0, 200.0, 5000.0, 18000.0] {
            let (want, _) = elliptic(a, e, i * R, om * R, (lp - om) * R, ((l - lp) + N / (a * a.sqrt()) * dt) * R);
            run.within(&format!("planet/orbit-{name}"), norm(sub(pos(&p.orbit, 2_451_545.0 + dt), want)) / a, 2e-6, || format!("{name} at J2000{dt:+}"));
        }
        run.within(&format!("planet/mass-{name}"), rel(p.mass.value(), PHYS[k].0 * 1e9 / 6.6743e-11), 1e-3, || format!("{name}: {}", p.mass));
        run.within(&format!("planet/radius-{name}"), rel(p.radius.value(), PHYS[k].1), 3e-4, || format!("{name}: {}", p.radius));
        run.check(p.albedo.is_some_and(|x| (0.02..=1.0).contains(&x.value())), &format!("planet/albedo-{name}"), || format!("{:?}", p.albedo));
        let days = a * a.sqrt() * 365.256_898_3;
        run.within(&format!("planet/period-{name}"), rel(p.orbit.period().value() / 86400.0, days), 2e-6, || format!("{name}: {}", p.orbit.period()));
        if let Some(r) = r {
            let t = if k == 3 { ROT[2] } else { ROT[if k < 2 { k } else { k }] };
            let t = match k { 0 => ROT[0], 1 => ROT[1], 3 => ROT[2], _ => t };
            let d = [r.0 - t.0, r.1 - t.1, r.2 - t.2, r.3 - t.3, r.4 - t.4].iter().fold(0.0f64, |m, x| m.max(x.abs()));
            run.within(&format!("planet/rotation-{name}"), d, 1.2e-3, || format!("{name}: {r:?} want {t:?}"));
            run.within(&format!("planet/spin-{name}"), (r.5 - t.5).abs(), 2e-6, || format!("{name}: {} want {}", r.5, t.5));
        }
        run.eval("planet", k);
    }
    let m = rot(&ss::Moon::ROTATION);
    run.check((m.0 - 269.9949).abs() < 1e-4 && (m.1 - 0.0031).abs() < 1e-4 && (m.2 - 66.5392).abs() < 1e-4 && (m.3 - 0.013).abs() < 1e-4 && (m.4 - 38.3213).abs() < 1e-4 && (m.5 - 13.17635815).abs() < 1e-8, "planet/rotation-Moon", || format!("{m:?}"));
    // the orbits against the built-in ephemeris
    macro_rules! near { ($($p:ident $c:ident),*) => { $( for dt in [-700.0, 0.0, 650.0] {
        let jd = 2_451_545.0 + dt;
        let v = xyz(&ss::$p::vsop87a(JulianDate::new(jd)));
        run.within(concat!("planet/ephemeris-", stringify!($p)), norm(sub(pos(&ss::$c.orbit, jd), v)) / norm(v), 6e-3, || format!("{} J2000{dt:+}", stringify!($p)));
    } )* } }
    near!(Mercury MERCURY, Venus VENUS, Earth EARTH, Mars MARS, Jupiter JUPITER, Saturn SATURN, Uranus URANUS, Neptune NEPTUNE);
    // dwarf planets and minor bodies: elements, then where the body really is (perihelion passages)
    let small: Vec<(&str, &KeplerianOrbit, (f64, f64, f64, f64, f64), f64, Option<f64>)> = vec![
        ("Ceres", &ss::CERES.orbit, (2.7675, 0.0758, 10.594, 80.31, 73.6), 3e-3, Some(2_458_236.8)),
        ("Haumea", &ss::HAUMEA.orbit, (43.2, 0.195, 28.2, 121.9, 239.1), 2e-2, None), ("Makemake", &ss::MAKEMAKE.orbit, (45.6, 0.159, 29.0, 79.5, 292.0), 4e-2, None), ("Eris", &ss::ERIS.orbit, (67.8, 0.4396, 44.04, 35.95, 151.2), 1e-2, None),
        ("CeresAsteroid", &ASTEROID_PRESETS[0].orbit, (2.7675, 0.0758, 10.594, 80.31, 73.6), 3e-3, Some(2_458_236.8)),
        ("Bennu", &ASTEROID_PRESETS[1].orbit, (1.1264, 0.20375, 6.035, 2.06, 66.22), 3e-3, Some(2_455_439.1)), ("Apophis", &ASTEROID_PRESETS[2].orbit, (0.9224, 0.1912, 3.331, 204.45, 126.4), 3e-3, None),
        ("Halley", &COMET_PRESETS[0].orbit, (17.834, 0.96714, 162.2627, 58.42, 111.3325), 1e-3, Some(2_446_470.96)), ("Encke", &COMET_PRESETS[1].orbit, (2.2151, 0.8502, 11.78, 334.57, 186.54), 3e-3, Some(2_450_591.6)),
        ("HaleBopp", &COMET_PRESETS[2].orbit, (186.5, 0.995086, 89.43, 282.47, 130.59), 2e-3, Some(2_450_539.64))];
    for (name, o, el, tol, tp) in small {
        shape(run, name, o, el, tol);
        if let Some(tp) = tp {
            // radius at the passage nearest to J2000
            let p = 360.0 / (N / (el.0 * el.0.sqrt()));
            let t = tp - ((tp - 2_451_545.0) / p).round() * p;
            let r = norm(pos(o, t));
            run.within(&format!("small-body/phase-{name}"), rel(r, el.0 * (1.0 - el.1)), 0.03 + 0.02 / (1.0 - el.1).sqrt(), || format!("{name}: {r} AU from the Sun on its perihelion day JD {t:.1} (perihelion distance {})", el.0 * (1.0 - el.1)));
        }
    }
    for (p, m, r) in [(&ss::CERES, 9.38e20, 470.0), (&ss::HAUMEA, 4.0e21, 700.0), (&ss::MAKEMAKE, 3.1e21, 715.0), (&ss::ERIS, 1.65e22, 1163.0)] {
        run.check(rel(p.mass.value(), m) < 0.02 && rel(p.radius.value(), r) < 0.13 && p.albedo.is_some_and(|x| x.value() > 0.02 && x.value() < 1.0), "dwarf/physical", || format!("{p:?}"));
    }
    // moons: GM, radius, and Kepler's third law with the planet
    for (s, name, gm, rad, host, days, e, inc) in [(&ss::MOON, "Moon", 4902.8, 1737.4, 403503.2, 27.321661, 0.0549, 5.145), (&ss::IO, "Io", 5959.9155, 1821.5, 126686531.9, 1.769138, 0.0041, 0.036), (&ss::EUROPA, "Europa", 3202.7121, 1560.8, 126686531.9, 3.551181, 0.009, 0.466), (&ss::GANYMEDE, "Ganymede", 9887.8328, 2631.2, 126686531.9, 7.154553, 0.0013, 0.177),
        (&ss::CALLISTO, "Callisto", 7179.2834, 2410.3, 126686531.9, 16.689018, 0.0074, 0.192), (&ss::TITAN, "Titan", 8978.1371, 2574.76, 37931206.2, 15.945421, 0.0288, 0.34854), (&ss::TRITON, "Triton", 1428.495, 1352.6, 6835099.97, 5.876854, 0.000016, 156.865)] {
        run.check(s.name == name, "moon/name", || format!("{} for {name}", s.name));
        run.within(&format!("moon/mass-{name}"), rel(s.mass.value(), gm * 1e9 / 6.6743e-11), 1.5e-3, || format!("{}", s.mass));
        run.within(&format!("moon/radius-{name}"), rel(s.radius.value(), rad), 2e-3, || format!("{}", s.radius));
        let a = (host * (days * 86400.0 / std::f64::consts::TAU).powi(2)).cbrt() / 149_597_870.7;
        let sh = s.orbit.shape();
        run.within(&format!("moon/distance-{name}"), rel(sh.semi_major_axis().value(), a), 4e-3, || format!("{name}: {} AU, Kepler's third law gives {a}", sh.semi_major_axis().value()));
        run.check((sh.eccentricity() - e).abs() < 1e-3 && (s.orbit.orientation().inclination().value() - inc).abs() < 0.01, "moon/shape", || format!("{name}: {:?}", s.orbit));
        run.check(s.albedo.is_some_and(|x| x.value() > 0.05 && x.value() < 0.9), "moon/albedo", || format!("{:?}", s.albedo));
        run.eval("moon", name.to_string());
    }
    // the Sun at J2000 and the static Lagrange points (on the Earth side of the Sun)
    let su = ss::SUN; let p = su.coordinate.get_position();
    let (ra, de) = (p.azimuth.value() * R, p.polar.value() * R);
    let e = xyz(&ss::Earth::vsop87a(JulianDate::new(2_451_545.0)));
    let (ce, se) = ((23.4392911 * R).cos(), (23.4392911 * R).sin());
    let sun = unit([-e[0], -(e[1] * ce - e[2] * se), -(e[1] * se + e[2] * ce)]);
    run.within("sun/direction", angle([de.cos() * ra.cos(), de.cos() * ra.sin(), de.sin()], sun), 0.003, || format!("ra {} dec {}", p.azimuth, p.polar));
    run.check((-90.0..=90.0).contains(&p.polar.value()), "sun/declination-range", || format!("{}", p.polar));
    run.check(rel(p.distance.value() * 63241.077, 1.0) < 1e-4 && rel(ss::SUN.distance.value() * 63241.077, 1.0) < 1e-4 && ss::SUN.mass.value() == 1.0 && ss::SUN.luminosity.value() == 1.0 && ss::SUN.radius.value() == 1.0, "sun/data", || format!("{:?}", ss::SUN));
    let d: Vec<V3> = ss::LAGRANGE_POINTS.iter().map(|l| { let c = l.position.to_cartesian(); xyz(&c) }).collect();
    run.check(d.len() == 2 && angle(d[0], d[1]) < 1e-6 && rel(norm(d[0]), 0.99) < 2e-3 && rel(norm(d[1]), 1.01) < 2e-3, "lagrange/static", || format!("L1 {:?} L2 {:?}", d[0], d[1]));
    let s = &ss::SOLAR_SYSTEM;
    run.check(s.planets.len() == 8 && s.dwarf_planets.len() == 5 && s.moons.len() == 7 && s.planets.windows(2).all(|w| w[0].orbit.shape().semi_major_axis() < w[1].orbit.shape().semi_major_axis()) && s.sun.name == "Sun" && s.lagrange_points.len() == 2, "solar-system/lists", || format!("{} {} {}", s.planets.len(), s.dwarf_planets.len(), s.moons.len()));
    // stars
    for (s, n, ra, de, ly, teff) in [(&cat::VEGA, "Vega", 279.2347, 38.7837, 25.04, 9600.0), (&cat::POLARIS, "Polaris", 37.9546, 89.2641, 433.0, 6015.0), (&cat::SIRIUS, "Sirius", 101.2872, -16.7161, 8.6, 9940.0), (&cat::CANOPUS, "Canopus", 95.9880, -52.6957, 310.0, 7400.0), (&cat::ARCTURUS, "Arcturus", 213.9153, 19.1824, 36.7, 4286.0),
        (&cat::RIGEL, "Rigel", 78.6345, -8.2016, 860.0, 12100.0), (&cat::BETELGEUSE, "Betelgeuse", 88.7929, 7.4071, 548.0, 3600.0), (&cat::PROCYON, "Procyon", 114.8255, 5.2250, 11.46, 6530.0), (&cat::ALDEBARAN, "Aldebaran", 68.9802, 16.5093, 65.3, 3900.0), (&cat::ALTAIR, "Altair", 297.6958, 8.8683, 16.73, 7700.0)] {
        let p = s.coordinate.get_position();
        run.check(s.name == n && (p.azimuth.value() - ra).abs() < 3e-4 && (p.polar.value() - de).abs() < 3e-4 && rel(s.distance.value(), ly) < 0.02 && p.distance.value() == s.distance.value(), "star/place", || format!("{n}: {s:?}"));
        let t = 5772.0 * (s.luminosity.value() / s.radius.value().powi(2)).powf(0.25);
        run.within("star/temperature", rel(t, teff), 0.4, || format!("{n}: L and R give {t} K"));
        run.eval("star", n.to_string());
    }
    for (o, lon, lat, h) in [(&obs::ROQUE_DE_LOS_MUCHACHOS, -17.8925, 28.7543, 2396.0), (&obs::EL_PARANAL, -70.4043, -24.6272, 2635.0), (&obs::MAUNA_KEA, -155.4681, 19.8207, 4207.0), (&obs::LA_SILLA_OBSERVATORY, -70.7346, -29.2584, 2400.0)] {
        let g = o.geodetic();
        run.check((g.lon.value() - lon).abs() < 1e-3 && (g.lat.value() - lat).abs() < 1e-3 && (g.height.value() - h).abs() < 10.0 && rel(o.reference_pressure.value(), 1013.25 * (-h / 8400.0f64).exp()) < 0.04, "observatory", || format!("{}: {lon} {lat} {h} {:?}", o.name, o.reference_pressure));
        run.eval("observatory", o.name.to_string());
    }
    run.within("comet/period-doc", rel(COMET_PRESETS[0].period_years().value(), 75.3), 0.005, String::new);
    run.within("comet/period-doc", rel(COMET_PRESETS[1].period_years().value(), 3.30), 0.005, String::new);
    run.within("comet/period-doc-HaleBopp", rel(COMET_PRESETS[2].period_years().value(), 2530.0), 0.01, || format!("{}", COMET_PRESETS[2].period_years()));
}
type IauRot = (f64, f64, f64, f64, f64, f64);
fn rot(r: &siderust::astro::IauRotationParams) -> IauRot { (r.alpha0_deg.value(), r.alpha0_rate.value(), r.delta0_deg.value(), r.delta0_rate.value(), r.w0_deg.value(), r.w_rate.value()) }

fn orbit(g: &mut Rng) -> (KeplerianOrbit, [f64; 7]) {
    let q = [g.log(0.01, 500.0), g.range(0.0, 0.99), g.range(0.0, 179.0), g.range(0.0, 360.0), g.range(0.0, 360.0), g.range(0.0, 360.0), 2_451_545.0 + g.range(-30000.0, 30000.0)];
    (KeplerianOrbit::new(AstronomicalUnits::new(q[0]), q[1], Degrees::new(q[2]), Degrees::new(q[3]), Degrees::new(q[4]), Degrees::new(q[5]), JulianDate::new(q[6])), q)
}
/// The same orbit seen from outside: equal positions at two epochs.
fn same(a: &KeplerianOrbit, b: &KeplerianOrbit) -> bool { [2_451_545.0, 2_455_000.25].iter().all(|t| pos(a, *t) == pos(b, *t)) }

fn builders(run: &Run, g: &mut Rng) {
    let (o, q) = orbit(g);
    let (m, r, al) = (g.log(1e10, 1e30), g.log(1e-3, 1e6), g.range(0.0, 1.0));
    let (km, kr, ka) = (Kilograms::new(m), Kilometers::new(r), Albedos::new(al));
    let (hm, hr, ho, ha) = (g.p(0.8), g.p(0.8), g.p(0.8), g.p(0.5));
    let mut pb = Planet::builder();
    let mut order = [0, 1, 2, 3];
    for i in (1..4).rev() { let j = g.n(i + 1); order.swap(i, j) }
    for k in order {
        pb = match k { 0 if hm => pb.mass(km), 1 if hr => pb.radius(kr), 2 if ho => pb.orbit(o), 3 if ha => pb.albedo(ka), _ => pb };
        // an earlier value is overwritten by a later one
    }
    let ok = |p: &Planet, alb: Option<f64>| p.mass.value() == m && p.radius.value() == r && same(&p.orbit, &o) && p.albedo.map(|x| x.value()) == alb;
    let alb = ha.then_some(al);
    let w = || format!("mass {hm} radius {hr} orbit {ho} albedo {alb:?}");
    match pb.clone().try_build() {
        Ok(p) => { run.check(hm && hr && ho && ok(&p, alb), "builder/planet", || format!("{} gives {p:?}", w())); }
        Err(e) => { run.check(!(hm && hr && ho) && { let n = format!("{e:?}"); n.contains(if !hm { "Mass" } else if !hr { "Radius" } else { "Orbit" }) }, "builder/planet-error", || format!("{}: {e:?}", w())); }
    }
    if hm && hr && ho {
        run.check(ok(&pb.clone().build(), alb), "builder/planet-build", w);
        run.check(ok(&pb.build_unchecked(), alb), "builder/planet-unchecked", w);
    }
    let p = Planet::new_const(km, kr, o);
    run.check(ok(&p, None) && ok(&p.with_albedo(ka), Some(al)), "builder/planet-const", w);
    let per = o.period().value();
    run.within("period", rel(per, q[0].powf(1.5) * 360.0 / N * 86400.0), 2e-6, || format!("a {}: {per}", q[0]));
    // asteroid
    let class = *g.pick(&[AsteroidClass::MainBelt, AsteroidClass::NearEarth, AsteroidClass::Trojan, AsteroidClass::Centaur, AsteroidClass::TransNeptunian, AsteroidClass::DwarfPlanet]);
    let mut ab = Asteroid::builder().name("n").designation("d").orbit(o);
    let (hc, hk) = (g.p(0.5), g.p(0.5));
    if hc { ab = ab.composition("C") }
    if hk { ab = ab.class(class) }
    if ha { ab = ab.albedo(ka) }
    let a = ab.build();
    run.check(a.name == "n" && a.designation == "d" && a.composition == if hc { "C" } else { "Unknown" } && a.class == if hk { class } else { AsteroidClass::MainBelt } && a.albedo.map(|x| x.value()) == alb && same(&a.orbit, &o), "builder/asteroid", || format!("{a:?}"));
    let a = Asteroid::new_const("n", "d", "X", class, o).with_albedo(ka);
    run.check(a.name == "n" && a.designation == "d" && a.composition == "X" && a.class == class && a.albedo == Some(ka) && same(&a.orbit, &o), "builder/asteroid-const", || format!("{a:?}"));
    // comet
    let mut cb = Comet::builder().name("c").tail_length(kr).orbit(o);
    let bary = g.p(0.5);
    if bary { cb = cb.reference(OrbitFrame::Barycentric) }
    let c = cb.build();
    run.check(c.name == "c" && c.tail_length == kr && same(&c.orbit, &o) && c.reference == if bary { OrbitFrame::Barycentric } else { OrbitFrame::Heliocentric }, "builder/comet", || format!("{c:?}"));
    run.within("comet/period", rel(c.period_years().value(), q[0].powf(1.5)), 1e-13, || format!("a {}", q[0]));
    // aircraft identity and a star's radial velocity
    use siderust::bodies::aircraft::{Aircraft, WakeCategory};
    let (code, cat) = (g.u64() as u32 & 0xFF_FFFF, *g.pick(&[WakeCategory::Light, WakeCategory::Medium, WakeCategory::Heavy, WakeCategory::Super]));
    let call = format!("CS{:05}", g.n(100_000));
    let ac = Aircraft::new(code, call.clone());
    run.check(ac.wake_category.is_none() && ac.icao24() == code && ac.callsign() == call, "builder/aircraft", || format!("{ac:?}"));
    let ac = ac.with_wake_category(cat);
    run.check(ac.wake_category == Some(cat) && ac.icao24 == code && ac.callsign == call, "builder/aircraft", || format!("{ac:?}"));
    let rv = siderust::qtty::velocity::Velocity::<siderust::qtty::unit::Kilometer, siderust::qtty::unit::Second>::new(g.range(-300.0, 300.0));
    let st = siderust::bodies::catalog::VEGA.with_radial_velocity(rv);
    run.check(st.radial_velocity == Some(rv) && st.name == siderust::bodies::catalog::VEGA.name && st.mass == siderust::bodies::catalog::VEGA.mass, "builder/star-velocity", || format!("{rv:?}"));
    let s = Satellite::new(format!("s{m}"), km, kr, o);
    run.check(s.name == format!("s{m}") && s.mass == km && s.radius == kr && s.albedo.is_none() && same(&s.orbit, &o) && s.with_albedo(ka).albedo == Some(ka), "builder/satellite", String::new);
    run.eval("builder", (m.to_bits(), hm, hr, ho, ha));
}

fn tracks(run: &Run, g: &mut Rng) {
    let jd = JulianDate::new(2_451_545.0 + g.range(-60000.0, 30000.0));
    macro_rules! body { ($($p:ident),*) => { $( let t = ss::$p.track(jd);
        run.check(xyz(t.get_position()) == xyz(&ss::$p::vsop87e(jd)) && *t.get_time() == jd && t.get_proper_motion().is_none(), concat!("track/", stringify!($p)), || format!("{jd:?}"));
        // tracking what was tracked keeps it
        run.check(xyz(&t.track(JulianDate::new(2_400_000.0))) == xyz(t.get_position()), "track/fixed", String::new); )* } }
    body!(Sun, Mercury, Venus, Earth, Mars, Jupiter, Saturn, Uranus, Neptune);
    let m = xyz(&ss::Moon.track(jd));
    run.check(m == xyz(&ss::Moon::get_geo_position::<Kilometer>(jd)) && (356_000.0..407_000.0).contains(&norm(m)), "track/Moon", || format!("{m:?}"));
    let d = spherical::direction::ICRS::new(Degrees::new(g.range(0.0, 360.0)), Degrees::new(g.range(-90.0, 90.0)));
    let t = d.track(jd);
    run.check(t.azimuth == d.azimuth && t.polar == d.polar, "track/direction", || format!("{d:?}"));
    // samples carry time and proper motion through frame and centre changes
    type P = cartesian::Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>;
    type Q = cartesian::Position<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>;
    let u = g.unit();
    let s = g.log(0.01, 100.0);
    let p = P::new(AstronomicalUnits::new(s * u[0]), AstronomicalUnits::new(s * u[1]), AstronomicalUnits::new(s * u[2]));
    let pm = g.p(0.5).then(|| ProperMotion::from_mu_alpha_star::<qtty::Per<Arcsecond, Year>>(qtty::Quantity::new(1e-4 * g.gauss()), qtty::Quantity::new(1e-4 * g.gauss())));
    let mut c = CoordinateWithPM::new_raw(p, jd, pm.clone());
    let out: CoordinateWithPM<Q> = (&c).into();
    let e = xyz(&ss::Earth::vsop87e(jd));
    let sun = xyz(&ss::Sun::vsop87e(jd));
    let h = add(sub(scale(u, s), e), sun);
    let (ce, se) = ((84381.406 / 3600.0 * R).cos(), (84381.406 / 3600.0 * R).sin());
    let want = [h[0], h[1] * ce - h[2] * se, h[1] * se + h[2] * ce];
    run.within("target/transform", norm(sub(xyz(out.get_position()), want)), 1e-8 * (1.0 + s), || format!("{:?} want {want:?}", xyz(out.get_position())));
    let kept = |x: Option<&ProperMotion>| x.map(|m| (m.pm_ra.value(), m.pm_dec.value())) == pm.as_ref().map(|m| (m.pm_ra.value(), m.pm_dec.value()));
    run.check(*out.get_time() == jd && kept(out.get_proper_motion()), "target/kept", String::new);
    let sp: CoordinateWithPM<spherical::Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>> = CoordinateWithPM::new_raw(spherical::Position::from_cartesian(&p), jd, pm.clone());
    let so: CoordinateWithPM<spherical::Position<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>> = (&sp).into();
    run.within("target/spherical", norm(sub(xyz(&so.get_position().to_cartesian()), want)), 1e-8 * (1.0 + s), || format!("{:?}", so.get_position()));
    run.check(*so.get_time() == jd && kept(so.get_proper_motion()), "target/kept-spherical", String::new);
    let (p2, j2) = (P::new(AstronomicalUnits::new(1.0), AstronomicalUnits::new(2.0), AstronomicalUnits::new(s)), JulianDate::new(2_450_000.0 + s));
    c.update(p2, j2);
    run.check(xyz(c.get_position()) == [1.0, 2.0, s] && *c.get_time() == j2 && kept(c.get_proper_motion()), "target/update", String::new);
    let c = CoordinateWithPM::new_static(p, jd);
    run.check(c.get_proper_motion().is_none() && xyz(&c.track(j2)) == xyz(&p), "target/static", String::new);
    // a star without motion stays; full motion only with all three pieces
    let st = Star::new("x", LightYears::new(s), SolarMasses::new(1.0), b::catalog::VEGA.radius, b::catalog::VEGA.luminosity, b::catalog::VEGA.coordinate.clone());
    let at = st.position_at(jd).map(|p| (p.azimuth.value(), p.polar.value()));
    run.check(st.name == "x" && st.distance.value() == s && !st.has_full_space_motion() && at.is_ok_and(|a| (a.0 - 279.2347).abs() < 1e-9 && (a.1 - 38.7837).abs() < 1e-9), "star/still", || format!("{st:?}"));
    let st = st.with_parallax(MilliArcseconds::new(130.0));
    run.check(!st.has_full_space_motion() && st.parallax == Some(MilliArcseconds::new(130.0)), "star/partial", String::new);
    run.eval("track", jd.raw().value().to_bits());
}

fn main() {
    let mut run = Run::new("C30", "built-in data against an independent table (mean elements as longitudes, DE440 masses, WGCCRE rotations, perihelion passages, Kepler's third law); builders and targets as a model");
    run.assume("reference values: Standish (1992) mean elements, DE440 GM, WGCCRE 2015, Hipparcos places, observed perihelion dates");
    data(&run);
    let n = run.size(480000, 2000000);
    run.par("builder/panic", n, |i| builders(&run, &mut run.rng_i("builder", i)));
    run.par("track/panic", n / 20, |i| tracks(&run, &mut run.rng_i("track", i)));
    for (k, m) in [("planet", 9), ("orbit", 10), ("moon", 7), ("star", 10), ("observatory", 4), ("builder", n as u64 / 2), ("track", n as u64 / 40)] { run.require(k, m) }
    run.finish();
}
