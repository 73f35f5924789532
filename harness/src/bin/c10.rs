//! C10: Moon phase geometry, labels, principal-phase events and illumination windows.
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::ephemeris::{AuPerDay, Ephemeris, Vsop87Ephemeris};
use siderust::event::horizontal as ev;
use siderust::event::lunar::phase::*;
use siderust::qtty::{AstronomicalUnit, Days, Degrees, IlluminationFractions, Kilometer, Meters};
use siderust::time::{Interval, JulianDate, ModifiedJulianDate};
use std::cell::Cell;
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use vh::fakes::*;
use vh::la::*;
use vh::{Rng, Run};

#[derive(Clone, Copy)]
struct Orb { pm: f64, em: f64, inc: f64, ph: f64, sun_rate: f64, sun_lat: f64, ratio: f64 }
thread_local! { static ORB: Cell<Orb> = const { Cell::new(Orb { pm: 27.3, em: 0.05, inc: 0.09, ph: 0.0, sun_rate: 0.0172, sun_lat: 0.0, ratio: 0.00257 }) }; }
/// A synthetic Earth-Moon-Sun system with its own month, eccentricity, inclination and solar motion.
struct OrbEph;
fn moon_v(o: &Orb, t: f64) -> V3 {
    let m = TAU * (t / o.pm) + o.ph;
    let l = m + 2.0 * o.em * m.sin();
    let r = o.ratio * AU_KM * (1.0 - o.em * m.cos());
    let (sl, cl) = l.sin_cos();
    let (si, ci) = o.inc.sin_cos();
    [r * cl, r * sl * ci, r * sl * si]
}
fn earth_v(o: &Orb, t: f64) -> V3 {
    let l = o.sun_rate * t + 1.0 + PI;
    let b = -o.sun_lat * (0.37 * t * o.sun_rate).cos();
    [b.cos() * l.cos(), b.cos() * l.sin(), b.sin()]
}
impl Ephemeris for OrbEph {
    fn sun_barycentric(_: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> { Position::new(0.0, 0.0, 0.0) }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = earth_v(&ORB.with(|c| c.get()), jd.raw().value() - 2_451_545.0);
        Position::new(v[0], v[1], v[2])
    }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = earth_v(&ORB.with(|c| c.get()), jd.raw().value() - 2_451_545.0);
        Position::new(v[0], v[1], v[2])
    }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> { Velocity::new(0.0, 0.0, 0.0) }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let v = moon_v(&ORB.with(|c| c.get()), jd.raw().value() - 2_451_545.0);
        Position::new(v[0], v[1], v[2])
    }
}
fn ms<E: Ephemeris>(jd: f64) -> (V3, V3) {
    let j = JulianDate::new(jd);
    let (m, e) = (E::moon_geocentric(j), E::earth_heliocentric(j));
    ([m.x().value(), m.y().value(), m.z().value()], scale([e.x().value(), e.y().value(), e.z().value()], -AU_KM))
}
fn elong<E: Ephemeris>(jd: f64) -> f64 {
    let (m, s) = ms::<E>(jd);
    (m[1].atan2(m[0]) - s[1].atan2(s[0])).rem_euclid(TAU)
}
fn frac<E: Ephemeris>(jd: f64) -> f64 {
    let (m, s) = ms::<E>(jd);
    0.5 * (1.0 + angle(sub(s, m), scale(m, -1.0)).cos())
}
const MJD0: f64 = 2_400_000.5;

fn geometry<E: Ephemeris>(run: &Run, g: &mut Rng, tag: &str, jd: f64) {
    let j = JulianDate::new(jd);
    let (m, s) = ms::<E>(jd);
    let w = || format!("{tag} jd={jd} moon={m:?} sun={s:?}");
    run.eval("geometry", (tag.len(), jd.to_bits()));
    let q = moon_phase_geocentric::<E>(j);
    let i = angle(sub(s, m), scale(m, -1.0));
    // the law of cosines loses precision near 0 and pi
    let tol = 1e-9 + 1e-13 * (norm(s) / norm(m)).powi(2) / i.sin().abs().max(1e-7);
    run.within("phase-angle", (q.phase_angle.value() - i).abs(), tol.min(1e-4), w);
    let k = q.illuminated_fraction.value();
    run.within("fraction", (k - 0.5 * (1.0 + i.cos())).abs(), 1e-9, w);
    run.check((0.0..=1.0).contains(&k) && (0.0..=PI).contains(&q.phase_angle.value()), "geometry/range", w);
    let e = elong::<E>(jd);
    run.within("elongation", wrap_pi(q.elongation.value() - e).abs(), 1e-11, w);
    run.check((0.0..TAU).contains(&q.elongation.value()) || e < 1e-12, "elongation/range", w);
    if (e % PI).min(PI - e % PI) > 1e-9 { run.check(q.waxing == (e < PI), "waxing", w); }
    // topocentric: parallax-corrected directions, geocentric triangle sides
    let mut lat = g.range(-90.0, 90.0);
    if g.n(6) == 0 { lat = if g.p(0.5) { 90.0 } else { 0.0 }; }
    let site = Geodetic::<ECEF>::new(Degrees::new(g.range(-180.0, 180.0)), Degrees::new(lat), Meters::new(g.range(0.0, 4000.0)));
    let t = moon_phase_topocentric::<E>(j, site);
    let dirn = |v: V3| {
        let eq = mv(&r1(-84381.406 * vh::earthref::AS), v);
        let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(eq[0], eq[1], eq[2]);
        let a = ev::geocentric_j2000_to_apparent_topocentric(&p, site, j).to_cartesian();
        unit([a.x().value(), a.y().value(), a.z().value()])
    };
    let (md, sd) = (dirn(m), dirn(s));
    let psi = angle(md, sd);
    let dra = wrap_pi(md[1].atan2(md[0]) - sd[1].atan2(sd[0]));
    let et = if dra >= 0.0 { psi } else { TAU - psi };
    let w = || format!("{tag} jd={jd} lat={lat} moon={m:?} sun={s:?} got {t:?}");
    if dra.abs() > 1e-7 && dra.abs() < PI - 1e-7 {
        run.within("topocentric/elongation", (t.elongation.value() - et).abs(), 3e-8, w);
        if psi > 1e-7 && psi < PI - 1e-7 { run.check(t.waxing == (dra > 0.0), "topocentric/waxing", w); }
    }
    let (rm, rs) = (norm(m), norm(s));
    let d = (rs * rs + rm * rm - 2.0 * rs * rm * psi.cos()).max(0.0).sqrt();
    let it = ((d * d + rm * rm - rs * rs) / (2.0 * d * rm)).clamp(-1.0, 1.0).acos();
    let tol = 1e-7 + 1e-13 * (rs / rm).powi(2) / it.sin().abs().max(1e-7);
    run.within("topocentric/phase-angle", (t.phase_angle.value() - it).abs(), (tol * (1.0 + rs / d)).min(1e-4), w);
    run.within("topocentric/fraction", (t.illuminated_fraction.value() - 0.5 * (1.0 + t.phase_angle.value().cos())).abs(), 1e-12, w);
}

fn labels(run: &Run, g: &mut Rng) {
    let hw = match g.n(4) { 0 => 22.5, 1 => 45.0, _ => g.range(0.01, 45.0) };
    let mut e = g.range(-720.0, 720.0);
    if g.n(3) == 0 { e = 90.0 * g.int(-4, 8) as f64 + [-hw, hw, 0.0, 45.0][g.n(4) as usize]; }
    let x = e.rem_euclid(360.0);
    let th = PhaseThresholds { half_width: Degrees::new(hw) };
    let lab = MoonPhaseLabel::from_elongation(Degrees::new(e), &th);
    // distance to the nearest quarter
    let q = (x / 90.0).round() as i64;
    let off = x - 90.0 * q as f64;
    use MoonPhaseLabel::*;
    let quarter = [NewMoon, FirstQuarter, FullMoon, LastQuarter][(q.rem_euclid(4)) as usize];
    let between = [WaxingCrescent, WaxingGibbous, WaningGibbous, WaningCrescent][((x / 90.0).floor() as i64).rem_euclid(4) as usize];
    run.eval("label", (e.to_bits(), hw.to_bits()));
    let w = || format!("elongation {e} half width {hw}: {lab:?}");
    if (off.abs() - hw).abs() > 1e-9 {
        let want = if off.abs() < hw { quarter } else { between };
        run.check(lab == want, "label", w);
    } else {
        run.check(lab == quarter || lab == between || hw == 45.0, "label/edge", w);
    }
    let all = [NewMoon, WaxingCrescent, FirstQuarter, WaxingGibbous, FullMoon, WaningGibbous, LastQuarter, WaningCrescent];
    for (k, l) in all.into_iter().enumerate() {
        run.check(Degrees::from(l).value() == 45.0 * k as f64, "label/centre", || format!("{l:?}"));
        run.check(l.is_waxing() == (1..4).contains(&k) && l.is_waning() == (5..8).contains(&k), "label/trend", || format!("{l:?}"));
    }
    let geo = MoonPhaseGeometry { phase_angle: siderust::qtty::Radians::new(0.3), illuminated_fraction: IlluminationFractions::new(0.9), elongation: siderust::qtty::Radians::new(x.to_radians()), waxing: x < 180.0 };
    if (off.abs() - 22.5).abs() > 1e-9 { run.check(geo.label() == if off.abs() < 22.5 { quarter } else { between }, "label/default", w); }
    if (off.abs() - hw).abs() > 1e-9 { run.check(geo.label_with(&th) == lab, "label/with", w); }
}

fn bisect(f: &dyn Fn(f64) -> f64, mut a: f64, mut b: f64) -> f64 {
    let fa = f(a) > 0.0;
    for _ in 0..80 {
        let m = 0.5 * (a + b);
        if (f(m) > 0.0) == fa { a = m } else { b = m }
    }
    0.5 * (a + b)
}

/// `month`: shortest synodic month of the system
fn events<E: Ephemeris>(run: &Run, g: &mut Rng, tag: &str, month: f64, budget: f64) {
    let t0 = g.range(33_000.0, 62_000.0);
    let span = match g.n(5) { 0 => g.range(0.1, 5.0) * month / 29.5, _ => g.range(1.0, budget) * month / 29.5 };
    let step = if g.p(0.5) && month > 20.0 { 0.5 } else { month * g.range(0.004, 0.1) };
    let opts = PhaseSearchOpts { scan_step: Days::new(step), ..Default::default() };
    let win = Interval::new(ModifiedJulianDate::new(t0), ModifiedJulianDate::new(t0 + span));
    let w = || format!("{tag} start={t0} span={span} step={step}");
    let got = find_phase_events::<E>(win, opts);
    // unwrapped elongation
    let n = ((span / month * 120.0).ceil() as usize).max(4);
    let f = |t: f64| elong::<E>(t + MJD0);
    let mut u = f(t0);
    let mut want: Vec<(f64, PhaseKind)> = vec![];
    let mut prev = t0;
    for k in 1..=n {
        let t = t0 + span * k as f64 / n as f64;
        let d = wrap_pi(f(t) - u.rem_euclid(TAU));
        if d <= 0.0 { return; } // retrograde system: skipped
        let v = u + d;
        let (q0, q1) = ((u / FRAC_PI_2).floor() as i64, (v / FRAC_PI_2).floor() as i64);
        for q in q0 + 1..=q1 {
            let target = q as f64 * FRAC_PI_2;
            let r = bisect(&|x| wrap_pi(f(x) - target), prev, t);
            want.push((r, PhaseKind::ALL[q.rem_euclid(4) as usize]));
        }
        u = v;
        prev = t;
    }
    run.eval("phase-events", (tag.len(), t0.to_bits()));
    run.count("phase-event", want.len() as u64);
    let tol = 1e-7 + 2e-9 * month;
    let edge = |t: f64| t - t0 < 10.0 * tol || t0 + span - t < 10.0 * tol;
    let a: Vec<(f64, PhaseKind)> = got.iter().map(|e| (e.mjd.raw().value(), e.kind)).filter(|e| !edge(e.0)).collect();
    let b: Vec<(f64, PhaseKind)> = want.into_iter().filter(|e| !edge(e.0)).collect();
    run.check(a.len() == b.len(), "phase-events/count", || format!("{} got {a:?} want {b:?}", w()));
    if a.len() == b.len() {
        for (x, y) in a.iter().zip(&b) {
            run.check(x.1 == y.1, "phase-events/kind", || format!("{} got {x:?} want {y:?}", w()));
            run.within("phase-events/time", (x.0 - y.0).abs(), tol, || format!("{} got {x:?} want {y:?}", w()));
        }
    }
    run.check(got.windows(2).all(|p| p[0].mjd.raw().value() <= p[1].mjd.raw().value()), "phase-events/order", w);
    run.check(got.iter().all(|e| e.mjd.raw().value() >= t0 && e.mjd.raw().value() <= t0 + span), "phase-events/window", w);

    // illumination windows
    let (k0, k1) = { let a = g.range(0.0, 1.0); let b = g.range(0.0, 1.0); (a.min(b), a.max(b)) };
    let lo = |k: f64| IlluminationFractions::new(k);
    let sets = [
        ("above", illumination_above::<E>(win, lo(k0), opts), k0, 2.0),
        ("below", illumination_below::<E>(win, lo(k1), opts), -1.0, k1),
        ("range", illumination_range::<E>(win, lo(k0), lo(k1), opts), k0, k1),
    ];
    let fine = (step / 12.0).min(month / 200.0);
    let m = ((span / fine).ceil() as usize).clamp(8, 20_000);
    let ks: Vec<f64> = (0..=m).map(|i| frac::<E>(t0 + span * i as f64 / m as f64 + MJD0)).collect();
    let tt = |i: usize| t0 + span * i as f64 / m as f64;
    for (name, got, a, b) in sets {
        let w = || format!("{} {name} [{a},{b}] {:?}", w(), got.iter().map(|p| (p.start.raw().value(), p.end.raw().value())).collect::<Vec<_>>());
        run.eval("illumination", (name.len(), t0.to_bits(), a.to_bits()));
        let iv: Vec<(f64, f64)> = got.iter().map(|p| (p.start.raw().value(), p.end.raw().value())).collect();
        run.check(iv.iter().all(|p| p.0 <= p.1 && p.0 >= t0 - 1e-9 && p.1 <= t0 + span + 1e-9) && iv.windows(2).all(|p| p[0].1 <= p[1].0), "illumination/order", w);
        let inside = |k: f64| k >= a && k <= b;
        // crossings of either bound, with spans of constant state
        let state = |k: f64| (k >= a) as u8 + 2 * (k <= b) as u8;
        let mut i = 0;
        while i <= m {
            let mut j = i;
            while j < m && state(ks[j + 1]) == state(ks[i]) { j += 1; }
            let len = tt(j) - tt(i);
            let long = len > 1.05 * step || (i == 0 && j == m);
            if long {
                for x in i..=j {
                    let t = tt(x);
                    // away from the span ends in time
                    if (i > 0 && x - i < 2) || (j < m && j - x < 2) { continue; }
                    if (ks[x] - a).abs() < 1e-6 || (ks[x] - b).abs() < 1e-6 { continue; }
                    let member = iv.iter().any(|p| t >= p.0 - 1e-9 && t <= p.1 + 1e-9);
                    run.check(member == inside(ks[x]), "illumination/membership", || format!("t={t} k={} member={member} {}", ks[x], w()));
                }
            }
            i = j + 1;
        }
        for p in &iv {
            for e in [p.0, p.1] {
                if e - t0 < 1e-6 || t0 + span - e < 1e-6 { continue; }
                let k = frac::<E>(e + MJD0);
                let slope = (frac::<E>(e + 1e-3 * month + MJD0) - frac::<E>(e - 1e-3 * month + MJD0)).abs() / (2e-3 * month);
                run.within("illumination/edge", (k - a).abs().min((k - b).abs()), 1e-7 + slope * 1e-5, || format!("t={e} k={k} {}", w()));
            }
        }
    }
}

fn series<E: Ephemeris>(run: &Run, g: &mut Rng, tag: &str) {
    let t0 = g.range(40_000.0, 60_000.0);
    let span = if g.n(8) == 0 { -1.0 } else { g.range(0.0, 30.0) };
    let step = g.range(0.1, 7.0);
    // binary fractions: the last sample falls exactly on the inclusive end
    let exact = g.n(3) == 0;
    let (t0, span, step) = if exact { let q = *g.pick(&[0.125, 0.25, 0.5, 1.0, 2.0]); ((t0 * 8.0).floor() / 8.0, q * g.n(12) as f64, q) } else { (t0, span, step) };
    let (a, b) = (ModifiedJulianDate::new(t0), ModifiedJulianDate::new(t0 + span));
    let site = Geodetic::<ECEF>::new(Degrees::new(g.range(-180.0, 180.0)), Degrees::new(g.range(-90.0, 90.0)), Meters::new(0.0));
    let topo = g.n(3) == 0;
    let v = if topo { MoonPhaseSeries::<E>::sample_topocentric(a, b, Days::new(step), site) } else { MoonPhaseSeries::<E>::sample(a, b, Days::new(step)) };
    let w = || format!("{tag} {t0} {span} {step} topo={topo}");
    run.eval("series", t0.to_bits());
    let r = span / step;
    if span < 0.0 { run.check(v.is_empty(), "series/empty", w); } else if exact || (r - r.round()).abs() > 1e-7 { run.check(v.len() == r.floor() as usize + 1, "series/count", w); }
    for (i, (t, q)) in v.iter().enumerate() {
        run.within("series/time", (t.raw().value() - t0 - step * i as f64).abs(), 1e-7, w);
        let j: JulianDate = t.to::<siderust::JD>();
        let o = if topo { moon_phase_topocentric::<E>(j, site) } else { moon_phase_geocentric::<E>(j) };
        run.check(o.phase_angle == q.phase_angle && o.elongation == q.elongation && o.waxing == q.waxing && o.illuminated_fraction == q.illuminated_fraction, "series/value", w);
    }
}

fn main() {
    let mut run = Run::new("C10", "seeded epochs, sites and synthetic Earth-Moon-Sun systems (month 3-60 d, e<=0.3, any inclination) x windows x scan steps x thresholds; built-in ephemeris 1900-2030");
    run.assume("apparent topocentric directions come from the library (C04, C09); scan step at most a tenth of the synodic month, and windows or gaps shorter than one step may be missed");
    let n = run.size(1200, 40_000);
    run.par("c10", n, |i| {
        let mut g = run.rng_i("c10", i);
        let o = Orb {
            pm: g.log(3.0, 60.0), em: g.range(0.0, 0.3), inc: if g.n(4) == 0 { 0.0 } else { g.range(0.0, 0.6) }, ph: g.range(0.0, TAU),
            sun_rate: 0.0172 * g.range(0.0, 1.5), sun_lat: if g.n(3) == 0 { 0.0 } else { g.range(-0.2, 0.2) }, ratio: g.log(1e-4, 0.3),
        };
        ORB.with(|c| c.set(o));
        set_eph(random_eph(&mut g));
        for _ in 0..4 {
            let jd = g.range(2_415_000.5, 2_463_000.0);
            geometry::<OrbEph>(&run, &mut g, "synthetic", jd);
            geometry::<FakeEph>(&run, &mut g, "fixed", jd);
            geometry::<Vsop87Ephemeris>(&run, &mut g, "builtin", jd);
            labels(&run, &mut g);
        }
        let month = TAU / (TAU / o.pm * (1.0 + 2.0 * o.em) - o.sun_rate);
        events::<OrbEph>(&run, &mut g, "synthetic", month, 400.0);
        if i % 16 == 0 { events::<Vsop87Ephemeris>(&run, &mut g, "builtin", 29.0, 120.0); }
        series::<OrbEph>(&run, &mut g, "synthetic");
        if i % 8 == 0 { series::<Vsop87Ephemeris>(&run, &mut g, "builtin"); }
        if i == 0 {
            use siderust::bodies::solar_system::Moon;
            let j = JulianDate::new(2_460_000.3);
            let (a, b) = (Moon::phase_geocentric(j), moon_phase_geocentric::<Vsop87Ephemeris>(j));
            run.check(a.elongation == b.elongation && a.phase_angle == b.phase_angle, "moon/geocentric", String::new);
        }
    });
    run.require("geometry", 1000);
    run.require("phase-events", 300);
    run.finish();
}
