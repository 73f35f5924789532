//! C27: stored values - everything serializable comes back as the same value; damaged documents are refused.
use serde::{de::DeserializeOwned, Serialize};
use siderust::astro::conic::{ConicOrbit, MeanMotionOrbit};
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::astro::proper_motion::ProperMotion;
use siderust::bodies::solar_system as ss;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::{cartesian, spherical};
use siderust::ephemeris::lagrange::SunEarthLagrangePoint;
use siderust::event::lunar::phase::*;
use siderust::pod::problem::arc::ArcId;
use siderust::pod::problem::covariance::ParameterCovariance;
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::pod::product::residuals_csv::ResidualRecord;
use siderust::pod::qc::residuals::ResidualStats;
use siderust::pod::run::dataset::DatasetRef;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::targets::CoordinateWithPM;
use siderust::time::{JulianDate, ModifiedJulianDate};
use std::fmt::Debug;
use vh::docs::*;
use vh::{Rng, Run};

/// All leaves of a document, in order, as text.
fn leaves(v: &serde_json::Value, at: &str, out: &mut Vec<(String, String)>) {
    match v {
        serde_json::Value::Object(m) => for (k, x) in m { leaves(x, &format!("{at}.{k}"), out) },
        serde_json::Value::Array(a) => for (i, x) in a.iter().enumerate() { leaves(x, &format!("{at}[{i}]"), out) },
        x => out.push((at.to_string(), x.to_string())),
    }
}
fn keys<'a>(v: &'a serde_json::Value, at: Vec<&'a str>, out: &mut Vec<Vec<&'a str>>) {
    if let serde_json::Value::Object(m) = v { for (k, x) in m { let mut p = at.clone(); p.push(k); out.push(p.clone()); keys(x, p, out) } }
}
fn at<'a>(v: &'a mut serde_json::Value, path: &[&str]) -> &'a mut serde_json::Value { path.iter().fold(v, |v, k| v.get_mut(*k).unwrap()) }

/// Round trip of one value: through the document tree (bits kept) and through text; then the same document damaged.
/// `say` describes the value by everything it is used for.
fn trip<T: Serialize + DeserializeOwned + Debug>(run: &Run, g: &mut Rng, kind: &str, x: &T, say: impl Fn(&T) -> String, optional: &[&str]) {
    run.eval(kind, format!("{x:?}"));
    let want = say(x);
    let sig = |s: &str| format!("{kind}/{s}");
    let doc = match serde_json::to_value(x) { Ok(d) => d, Err(e) => { run.violation(&sig("not-written"), &format!("{x:?}: {e}")); return } };
    match serde_json::from_value::<T>(doc.clone()) {
        Ok(y) => {
            run.check(say(&y) == want, &sig("tree"), || format!("{want}\nread back as {}\nfrom {doc}", say(&y)));
            run.check(serde_json::to_value(&y).is_ok_and(|d| d == doc), &sig("second-document"), || format!("{doc}"));
        }
        Err(e) => { run.violation(&sig("not-read"), &format!("{doc}: {e}")); return }
    }
    for text in [serde_json::to_string(x), serde_json::to_string_pretty(x)].into_iter().flatten() {
        // the text carries shortest-form numbers; the JSON reader may return a neighbour in the last bit
        let same = serde_json::from_str::<T>(&text).ok().and_then(|y| serde_json::to_value(&y).ok()).is_some_and(|d| {
            let (mut a, mut b) = (vec![], vec![]);
            leaves(&d, "", &mut a);
            leaves(&doc, "", &mut b);
            a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| p.0 == q.0 && (p.1 == q.1 || matches!((p.1.parse::<f64>(), q.1.parse::<f64>()), (Ok(u), Ok(v)) if (u - v).abs() <= 3e-16 * u.abs().max(v.abs()))))
        });
        run.check(same, &sig("text"), || text.clone());
    }
    // damage: a missing or a mistyped entry is refused unless the entry may be absent
    let mut ks = vec![];
    keys(&doc, vec![], &mut ks);
    if ks.is_empty() { return }
    let p = g.pick(&ks).clone();
    let last = *p.last().unwrap();
    if optional.contains(&last) { return }
    run.eval("damaged", format!("{kind}{p:?}"));
    let mut d = doc.clone();
    at(&mut d, &p[..p.len() - 1]).as_object_mut().unwrap().remove(last);
    let r = run.no_panic("damaged/panic", || d.to_string(), || serde_json::from_value::<T>(d.clone()).is_ok());
    run.check(r != Some(true), &format!("{kind}/missing-accepted"), || format!("{p:?} removed: {d}"));
    let mut d = doc.clone();
    let slot = at(&mut d, &p);
    let bad = [serde_json::json!("wrong"), serde_json::json!({"x": []})];
    let b = if slot.is_string() { &bad[1] } else { g.pick(&bad) };
    *slot = b.clone();
    let r = run.no_panic("damaged/panic", || d.to_string(), || serde_json::from_value::<T>(d.clone()).is_ok());
    run.check(r != Some(true), &format!("{kind}/mistyped-accepted"), || format!("{p:?}: {d}"));
    if at(&mut d, &p[..p.len() - 1]).is_object() && doc.pointer(&format!("/{}", p.join("/"))).is_some_and(|v| v.is_f64()) {
        *at(&mut d, &p) = serde_json::Value::Null;
        let r = run.no_panic("damaged/panic", || d.to_string(), || serde_json::from_value::<T>(d.clone()).is_ok());
        run.check(r != Some(true), &format!("{kind}/null-accepted"), || format!("{p:?}: {d}"));
    }
    // cut anywhere
    let t = doc.to_string();
    let mut cut = g.n(t.len());
    while !t.is_char_boundary(cut) { cut -= 1 }
    run.check(serde_json::from_str::<T>(&t[..cut]).is_err(), &format!("{kind}/cut-accepted"), || t[..cut].to_string());
}
fn num(g: &mut Rng) -> f64 { match g.n(8) { 0 => 0.0, 1 => -0.0, 2 => g.int(-5, 5) as f64, 3 => mag(g, 1e-300, 1e300), 4 => f64::MIN_POSITIVE, _ => mag(g, 1e-6, 1e9) } }
fn jd(g: &mut Rng) -> JulianDate { JulianDate::new(2_451_545.0 + g.range(-60_000.0, 60_000.0)) }
fn b(x: f64) -> String { format!("{:016x}", x.to_bits()) }

fn positions(run: &Run, g: &mut Rng) {
    macro_rules! cart { ($c:ty, $f:ty, $u:ty, $n:expr) => {{
        let p = cartesian::Position::<$c, $f, $u>::new(num(g), num(g), num(g));
        trip(run, g, $n, &p, |p| format!("{}{}{}", b(p.x().value()), b(p.y().value()), b(p.z().value())), &["center_params"]);
    }} }
    match g.n(9) {
        0 => cart!(Heliocentric, EclipticMeanJ2000, AstronomicalUnit, "position/cartesian"),
        1 => cart!(Barycentric, ICRS, AstronomicalUnit, "position/cartesian"),
        2 => cart!(Geocentric, GCRS, Kilometer, "position/cartesian"),
        3 => cart!(Geocentric, EquatorialMeanJ2000, Meter, "position/cartesian"),
        4 => cart!(SunEarthL2, ICRS, AstronomicalUnit, "position/cartesian"),
        5 => cart!(ss::Moon, ICRS, Kilometer, "position/cartesian"),
        6 => {
            let site = site(g);
            let p = cartesian::Position::<Topocentric, EquatorialMeanJ2000, Kilometer>::new_with_params(site, num(g), num(g), num(g));
            trip(run, g, "position/topocentric", &p, |p| format!("{}{}{}{}{}{}", b(p.x().value()), b(p.y().value()), b(p.z().value()), b(p.center_params().lon.value()), b(p.center_params().lat.value()), b(p.center_params().height.value())), &["center_params"]);
        }
        7 => {
            let par = body(g);
            let p = cartesian::Position::<Bodycentric, EclipticMeanJ2000, AstronomicalUnit>::new_with_params(par, num(g), num(g), num(g));
            trip(run, g, "position/bodycentric", &p, |p| format!("{}{}{}{:?}", b(p.x().value()), b(p.y().value()), b(p.z().value()), p.center_params()), &["center_params"]);
        }
        _ => {
            let p = spherical::Position::<Geocentric, ICRS, AstronomicalUnit>::new(Degrees::new(g.range(-720.0, 720.0)), Degrees::new(g.range(-90.0, 90.0)), AstronomicalUnits::new(g.log(1e-6, 1e9)));
            trip(run, g, "position/spherical", &p, |p| format!("{}{}{}", b(p.azimuth.value()), b(p.polar.value()), b(p.distance.value())), &["center_params"]);
        }
    }
    let d = spherical::Direction::<ICRS>::new(Degrees::new(g.range(0.0, 360.0)), Degrees::new(g.range(-90.0, 90.0)));
    trip(run, g, "direction/spherical", &d, |d| format!("{}{}", b(d.azimuth.value()), b(d.polar.value())), &[]);
}
fn site(g: &mut Rng) -> siderust::coordinates::centers::Geodetic<ECEF> { Geodetic::<ECEF>::new(Degrees::new(g.range(-179.9, 179.9)), Degrees::new(g.range(-90.0, 90.0)), Meters::new(g.range(-400.0, 9000.0))) }
fn kep(g: &mut Rng) -> KeplerianOrbit {
    let d = |g: &mut Rng, a: f64, b: f64| Degrees::new(g.range(a, b));
    KeplerianOrbit::try_new(AstronomicalUnits::new(g.log(1e-3, 1e3)), match g.n(4) { 0 => 0.0, 1 => 1.0 - g.log(1e-9, 1e-1), _ => g.f() * 0.99 }, d(g, 0.0, 180.0), d(g, 0.0, 360.0), d(g, 0.0, 360.0), d(g, -360.0, 360.0), jd(g)).unwrap()
}
fn body(g: &mut Rng) -> BodycentricParams { BodycentricParams::new(kep(g), *g.pick(&[OrbitReferenceCenter::Barycentric, OrbitReferenceCenter::Heliocentric, OrbitReferenceCenter::Geocentric]), GravitationalParameter::new(g.log(1.0, 1e20))) }
fn pos3<C: ReferenceCenter<Params = ()>, F: affn::ReferenceFrame, U: LengthUnit>(p: &cartesian::Position<C, F, U>) -> String { format!("{}{}{}", b(p.x().value()), b(p.y().value()), b(p.z().value())) }

fn orbits(run: &Run, g: &mut Rng) {
    let t = jd(g);
    let k = kep(g);
    trip(run, g, "orbit/keplerian", &k, |k| format!("{k:?}{}", pos3(&k.kepler_position(t))), &[]);
    let p = PreparedOrbit::try_from(k).unwrap();
    trip(run, g, "orbit/prepared", &p, |p| format!("{p:?}{}", pos3(&p.position_at(t))), &[]);
    // a prepared orbit and its elements are the same document
    run.check(serde_json::to_value(p).ok() == serde_json::to_value(k).ok(), "orbit/prepared-document", || format!("{k:?}"));
    let d = |g: &mut Rng, a: f64, b: f64| Degrees::new(g.range(a, b));
    let e = match g.n(3) { 0 => g.f() * 0.999, 1 => 1.0 + g.log(1e-6, 5.0), _ => 0.0 };
    let c = ConicOrbit::try_new(AstronomicalUnits::new(g.log(1e-3, 1e3)), e, d(g, 0.0, 180.0), d(g, 0.0, 360.0), d(g, 0.0, 360.0), d(g, -360.0, 360.0), t).unwrap();
    let tt = JulianDate::new(t.value() + g.range(-2000.0, 2000.0));
    trip(run, g, "orbit/conic", &c, |c| format!("{c:?}{:?}", c.position_at(tt).map(|p| pos3(&p)).ok()), &[]);
    let m = MeanMotionOrbit::try_new(AstronomicalUnits::new(g.log(1e-3, 1e3)), g.f() * 0.99, d(g, 0.0, 180.0), d(g, 0.0, 360.0), d(g, 0.0, 360.0), AngularRate::<Degree, Day>::new(g.log(1e-6, 1e3)), t).unwrap();
    trip(run, g, "orbit/mean-motion", &m, |m| format!("{m:?}{:?}", m.position_at(tt).map(|p| pos3(&p)).ok()), &[]);
    let bp = body(g);
    trip(run, g, "body-centre", &bp, |p| format!("{p:?}"), &[]);
    // elements no constructor takes are not read either
    fn rig<T: Serialize + DeserializeOwned>(run: &Run, g: &mut Rng, kind: &str, x: &T, usable: impl Fn(&T) -> bool) {
        let doc = serde_json::to_value(x).unwrap();
        let mut ks = vec![];
        keys(&doc, vec![], &mut ks);
        let Some(p) = ks.iter().find(|p| p.last().unwrap().contains("eccentricity")) else { run.violation(&format!("{kind}/no-eccentricity"), &doc.to_string()); return };
        let bad: f64 = if kind == "orbit/conic" { *g.pick(&[-1e-9, -0.5, 1.0]) } else { *g.pick(&[-1e-9, -0.5, 1.0, 1.5, 40.0]) };
        let mut d = doc.clone();
        *at(&mut d, p) = serde_json::json!(bad);
        run.eval("bad-elements", (kind, bad.to_bits(), doc.to_string()));
        let r = run.no_panic("bad-elements/panic", || d.to_string(), || serde_json::from_value::<T>(d.clone()).is_ok_and(|x| usable(&x)));
        run.check(r != Some(true), &format!("{kind}/bad-elements-accepted"), || d.to_string());
    }
    rig(run, g, "orbit/keplerian", &k, |_| true);
    rig(run, g, "orbit/prepared", &p, |_| true);
    rig(run, g, "orbit/conic", &c, |c| c.position_at(tt).is_ok());
    rig(run, g, "orbit/mean-motion", &m, |_| true);
}

fn samples(run: &Run, g: &mut Rng) {
    type Rate = siderust::qtty::angular_rate::AngularRate<Degree, siderust::qtty::unit::Year>;
    let pm = if g.p(0.5) { ProperMotion::from_mu_alpha(Rate::new(num(g)), Rate::new(num(g))) } else { ProperMotion::from_mu_alpha_star(Rate::new(num(g)), Rate::new(num(g))) };
    let say_pm = |p: &ProperMotion| format!("{}{}{:?}", b(p.pm_ra.value()), b(p.pm_dec.value()), p.ra_convention);
    trip(run, g, "proper-motion", &pm, say_pm, &[]);
    let p = spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(g.range(0.0, 360.0)), Degrees::new(g.range(-90.0, 90.0)), AstronomicalUnits::new(g.log(1e-6, 1e9)));
    let t = jd(g);
    let s = if g.p(0.5) { CoordinateWithPM::new(p, t, pm) } else { CoordinateWithPM::new_static(p, t) };
    trip(run, g, "sample", &s, |s| format!("{}{}{}{}{:?}", b(s.get_position().azimuth.value()), b(s.get_position().polar.value()), b(s.get_position().distance.value()), b(s.get_time().value()), s.get_proper_motion().map(say_pm)), &["proper_motion", "center_params"]);
    let site = site(g);
    trip(run, g, "site", &site, |s| format!("{}{}{}", b(s.lon.value()), b(s.lat.value()), b(s.height.value())), &[]);
    // Moon
    let th = PhaseThresholds { half_width: Degrees::new(g.range(0.1, 40.0)) };
    trip(run, g, "phase/thresholds", &th, |t| b(t.half_width.value()), &[]);
    let ev = PhaseEvent { mjd: ModifiedJulianDate::new(g.range(30_000.0, 80_000.0)), kind: *g.pick(&PhaseKind::ALL) };
    trip(run, g, "phase/event", &ev, |e| format!("{}{:?}", b(e.mjd.value()), e.kind), &[]);
    let ge = moon_phase_geocentric::<siderust::ephemeris::Vsop87Ephemeris>(t);
    trip(run, g, "phase/geometry", &ge, |m| format!("{}{}{}{}{:?}", b(m.phase_angle.value()), b(m.illuminated_fraction.value()), b(m.elongation.value()), m.waxing, m.label()), &[]);
    trip(run, g, "phase/label", &ge.label(), |l| format!("{l:?}"), &[]);
    trip(run, g, "lagrange-point", g.clone().pick(&[SunEarthLagrangePoint::L1, SunEarthLagrangePoint::L2, SunEarthLagrangePoint::L3, SunEarthLagrangePoint::L4, SunEarthLagrangePoint::L5]), |l| format!("{l:?}"), &[]);
    trip(run, g, "centre", &Geocentric, |c| format!("{c:?}"), &[]);
    trip(run, g, "centre", &Bodycentric, |c| format!("{c:?}"), &[]);
    trip(run, g, "centre", &ss::Neptune, |c| format!("{c:?}"), &[]);
}

fn pod(run: &Run, g: &mut Rng) {
    let kind = |g: &mut Rng| match g.n(13) {
        0 => ParameterKind::StatePositionX, 1 => ParameterKind::StatePositionY, 2 => ParameterKind::StatePositionZ, 3 => ParameterKind::StateVelocityX, 4 => ParameterKind::StateVelocityY, 5 => ParameterKind::StateVelocityZ,
        6 => ParameterKind::ReceiverClockBias { receiver_id: text(g) }, 7 => ParameterKind::DragScale, 8 => ParameterKind::SrpScale, 9 => ParameterKind::CarrierAmbiguity { receiver_id: word(g, 4), satellite_id: text(g), signal: word(g, 3) },
        10 => ParameterKind::SlrRangeBias { station_id: text(g) }, 11 => ParameterKind::EmpiricalAcceleration { frame: word(g, 3), component: *g.pick(&['R', 'T', 'N', 'é', '"']) }, _ => ParameterKind::Custom(text(g)),
    };
    let params: Vec<Parameter> = (0..g.n(6)).map(|_| Parameter { kind: kind(g), initial_value: num(g), apriori_sigma: if g.p(0.5) { Some(g.log(1e-9, 1e9)) } else { None } }).collect();
    let say = |p: &Parameter| format!("{:?}{}{:?}", p.kind, b(p.initial_value), p.apriori_sigma.map(b));
    for p in &params { trip(run, g, "parameter", p, say, &["apriori_sigma"]) }
    let ord = ParameterOrdering { params };
    trip(run, g, "parameters", &ord, |o| o.params.iter().map(say).collect(), &[]);
    let n = ord.params.len();
    let cov = ParameterCovariance { params: ord, data: (0..n * n).map(|_| num(g)).collect() };
    trip(run, g, "covariance", &cov, |c| format!("{}{:?}", c.params.params.iter().map(say).collect::<String>(), c.data.iter().map(|x| b(*x)).collect::<Vec<_>>()), &[]);
    let r = ResidualRecord { epoch_jd_tt: jd(g).value(), obs_type: text(g), satellite: word(g, 3), residual_m: num(g), sigma_m: num(g), rejected: g.p(0.5) };
    trip(run, g, "residual", &r, |r| format!("{r:?}"), &[]);
    let v: Vec<f64> = (0..1 + g.n(20)).map(|_| mag(g, 1e-3, 1e3)).collect();
    trip(run, g, "residual-stats", &ResidualStats::from_slice(&v), |r| format!("{r:?}"), &[]);
    let id = ArcId::new(text(g));
    trip(run, g, "arc-id", &id, |a| a.as_str().to_string(), &[]);
    let d = DatasetRef::from_bytes(format!("/a b/{}", word(g, 4)), word(g, 3), word(g, 9).as_bytes());
    trip(run, g, "dataset", &d, |d| format!("{d:?}"), &[]);
}

fn main() {
    let mut run = Run::new("C27", "values are compared bit for bit after a JSON tree round trip and to the last digit after a text one; restored orbits are propagated; damaged documents must be refused");
    run.assume("finite numbers, which is all JSON can carry");
    let n = run.size(20_000, 400_000);
    run.par("positions", n, |k| positions(&run, &mut run.rng_i("positions", k)));
    run.par("orbits", n, |k| orbits(&run, &mut run.rng_i("orbits", k)));
    run.par("samples", n, |k| samples(&run, &mut run.rng_i("samples", k)));
    run.par("pod", n, |k| pod(&run, &mut run.rng_i("pod", k)));
    for (k, m) in [("position/cartesian", 0.4), ("position/topocentric", 0.05), ("position/bodycentric", 0.05), ("position/spherical", 0.05), ("direction/spherical", 0.9), ("orbit/keplerian", 0.9), ("orbit/prepared", 0.9), ("orbit/conic", 0.9), ("orbit/mean-motion", 0.9), ("bad-elements", 3.0), ("proper-motion", 0.5), ("sample", 0.9), ("phase/geometry", 0.9), ("covariance", 0.4), ("damaged", 0.01)] { run.require(k, (n as f64 * m) as u64) }
    run.finish()
}
