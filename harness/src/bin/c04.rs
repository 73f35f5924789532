//! C04: horizontal coordinates, azimuth conventions, topocentric shift and observer velocity.
use siderust::astro::apparent::CorrectionPolicy;
use siderust::astro::earth_rotation as rot;
use siderust::astro::eop::EopProvider;
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::horizontal::*;
use siderust::coordinates::observation::ObserverState;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::centers::position::to_topocentric::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::horizontal::*;
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::{Transform, TransformCenter};
use siderust::ephemeris::Ephemeris;
use siderust::event::horizontal as ev;
use siderust::qtty::{self, AstronomicalUnit, Degrees, Kilometer, LengthUnit, Meters};
use siderust::JulianDate;
use std::f64::consts::TAU;
use vh::earthref as er;
use vh::fakes::*;
use vh::la::*;
use vh::{Rng, Run};

fn same_site(p: &Geodetic<ECEF>, q: &Geodetic<ECEF>) -> bool {
    p.lon.value() == q.lon.value() && p.lat.value() == q.lat.value() && p.height.value() == q.height.value()
}

fn a3<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &Position<C, F, U>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn ad<F: ReferenceFrame>(p: &Direction<F>) -> V3 {
    [p.x(), p.y(), p.z()]
}
/// unit [N,E,U] from (alt, az) degrees
fn altaz(alt: f64, az: f64) -> V3 {
    let (sa, ca) = alt.to_radians().sin_cos();
    let (sz, cz) = az.to_radians().sin_cos();
    [ca * cz, ca * sz, sa]
}
fn site(g: &mut Rng) -> (Geodetic<ECEF>, f64, f64, f64) {
    let lat = match g.n(8) { 0 => 90.0, 1 => -90.0, 2 => 0.0, _ => g.range(-90.0, 90.0) };
    let lon = match g.n(6) { 0 => 0.0, 1 => 180.0, _ => g.range(-180.0, 180.0) };
    let h = match g.n(4) { 0 => 0.0, 1 => g.range(-400.0, 0.0), _ => g.range(0.0, 6000.0) };
    (Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h)), lon, lat, h)
}
fn target(g: &mut Rng, lst: f64, lat: f64) -> V3 {
    match g.n(7) {
        // exactly at the zenith / nadir / poles
        0 => { let (sp, cp) = lat.to_radians().sin_cos(); let (sl, cl) = lst.sin_cos(); scale([cp * cl, cp * sl, sp], if g.p(0.5) { 1.0 } else { -1.0 }) }
        1 => [0.0, 0.0, if g.p(0.5) { 1.0 } else { -1.0 }],
        _ => g.unit(),
    }
}

fn azimuths(run: &Run, g: &mut Rng) {
    let o = [AzimuthOrigin::North, AzimuthOrigin::East, AzimuthOrigin::South, AzimuthOrigin::West];
    let mut conv = || { let (i, cw) = (g.n(4), g.p(0.5)); (HorizontalConvention::new(o[i], if cw { AzimuthSense::Clockwise } else { AzimuthSense::CounterClockwise }), i as f64 * 90.0, if cw { 1.0 } else { -1.0 }) };
    let (a, b, c) = (conv(), conv(), conv());
    // physical bearing (from north through east) -> number in a convention
    let num = |x: f64, c: &(HorizontalConvention, f64, f64)| (c.2 * (x - c.1)).rem_euclid(360.0);
    let bearing = if g.n(5) == 0 { 90.0 * g.int(-8, 8) as f64 } else { g.range(-720.0, 720.0) };
    let turns = 360.0 * g.int(-2, 2) as f64;
    let da = |x: f64, y: f64| { let d = (x - y).rem_euclid(360.0); d.min(360.0 - d) };
    let z = Degrees::new(num(bearing, &a) + turns);
    let got = convert_azimuth(z, &a.0, &b.0).value();
    let w = || format!("bearing {bearing} {} -> {}: {got}", a.0, b.0);
    run.eval("azimuth", (bearing.to_bits(), format!("{}{}", a.0, b.0)));
    run.within("azimuth", da(got, num(bearing, &b)), 1e-9, w);
    run.check((0.0..360.0).contains(&got), "azimuth/range", w);
    let via = convert_azimuth(convert_azimuth(z, &a.0, &c.0), &c.0, &b.0).value();
    run.within("azimuth/path", da(via, got), 1e-9, w);
    run.within("azimuth/flip", da(flip_north_south(z).value(), z.value() + 180.0) + da(flip_sense(z).value(), -z.value()), 1e-9, w);
    let alt = g.range(-90.0, 90.0);
    let d = spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(num(bearing, &a)));
    let chk = |n: &str, q: &spherical::Direction<Horizontal>, want: f64| { run.within(n, da(q.az().value(), want) + (q.alt().value() - alt).abs(), 1e-9, w); };
    chk("direction", &convert_direction(&d, &a.0, &b.0), num(bearing, &b));
    chk("direction", &direction_to_native(&d, &a.0), bearing);
    let nat = spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(bearing.rem_euclid(360.0)));
    chk("direction", &direction_from_native(&nat, &b.0), num(bearing, &b));
    let (s, _, _, _) = site(g);
    let p = |az: f64| Topocentric::horizontal::<Kilometer, _>(s, Degrees::new(alt), Degrees::new(az.rem_euclid(360.0)), qtty::Kilometers::new(1234.5));
    let chp = |n: &str, q: &spherical::Position<Topocentric, Horizontal, Kilometer>, want: f64| {
        run.within(n, da(q.az().value(), want) + (q.alt().value() - alt).abs() + (q.distance.value() - 1234.5).abs(), 1e-9, w);
        run.check(same_site(q.center_params(), &s), "position/site", w);
    };
    chp("position", &convert_position(&p(num(bearing, &a)), &a.0, &b.0), num(bearing, &b));
    chp("position", &position_to_native(&p(num(bearing, &a)), &a.0), bearing);
    chp("position", &position_from_native(&p(bearing), &b.0), num(bearing, &b));
}

fn nutation<N: NutationModel>(jd: f64) -> (f64, f64) {
    let n = N::nutation(JulianDate::new(jd));
    (n.dpsi.value(), n.deps.value())
}
fn gast(jd_ut1: f64, jd: f64, dpsi: f64) -> f64 {
    let t = er::cent(jd);
    er::gmst06(jd_ut1, t) + dpsi * er::obl(t).cos() + er::eect(t)
}
const TOL: f64 = 5e-8; // asin near the zenith

/// compare unit NEU vectors; also the [0,360) azimuth and finite values
fn cmp(run: &Run, sig: &str, got: V3, want: V3, w: &dyn Fn() -> String) {
    run.within(sig, norm(sub(got, want)), TOL, || format!("{} got {got:?} want {want:?}", w()));
}
fn sph<C: ReferenceCenter, U: LengthUnit>(p: &spherical::Position<C, Horizontal, U>) -> V3 {
    altaz(p.alt().value(), p.az().value())
}

fn horizontal<N: NutationModel, Eop: EopProvider + Default>(run: &Run, g: &mut Rng, tag: &str, e: EopV) {
    let jd = if g.n(4) == 0 { g.range(2_415_020.5, 2_440_000.5) } else { g.range(2_440_000.5, 2_463_000.0) };
    let (s, lon, lat, _) = site(g);
    let j = JulianDate::new(jd);
    let ctx: AstroContext<DefaultEphemeris, Eop> = AstroContext::with_types();
    let engine = ctx.with_model::<N>();
    let ut1 = rot::jd_ut1_from_tt_eop(j, &e.values()).raw().value();
    let w = || format!("[{tag}] jd={jd} lon={lon} lat={lat}");
    run.eval("horizontal", (tag.to_string(), jd.to_bits()));
    // --- explicit UT1/TT, IAU 2006A nutation ---
    let u = if g.p(0.5) { ut1 } else { jd + g.range(-100.0, 100.0) / 86400.0 };
    let lst = gast(u, jd, nutation::<Iau2006A>(jd).0) + lon.to_radians();
    let v = target(g, lst, lat);
    let d = Direction::<EquatorialTrueOfDate>::new(v[0], v[1], v[2]);
    let h = ToHorizontal::to_horizontal(&d, &JulianDate::new(u), &j, &s);
    let want = neu(v, lst, lat);
    cmp(run, "to_horizontal", ad(&h), want, &w);
    let hs = h.to_spherical();
    cmp(run, "to_horizontal/spherical", altaz(hs.alt().value(), hs.az().value()), want, &w);
    run.check((0.0..=360.0).contains(&hs.az().value()), "azimuth/range", || format!("{} az={} h={:?}", w(), hs.az().value(), ad(&h)));
    let back = h.to_equatorial(&JulianDate::new(u), &j, &s);
    cmp(run, "to_equatorial/roundtrip", ad(&back), v, &w);
    let hv = g.unit();
    let eq = Direction::<Horizontal>::new(hv[0], hv[1], hv[2]).to_equatorial(&JulianDate::new(u), &j, &s);
    cmp(run, "to_equatorial", neu(ad(&eq), lst, lat), hv, &w);
    use siderust::coordinates::transform::DirectionAstroExt as X;
    cmp(run, "to_horizontal_precise", ad(&X::to_horizontal_precise(&d, &j, &JulianDate::new(u), &s)), ad(&h), &w);
    let dist = g.log(1e-3, 1e6);
    let p = Position::<Topocentric, EquatorialTrueOfDate, AstronomicalUnit>::new_with_params(s, v[0] * dist, v[1] * dist, v[2] * dist);
    let hp = p.to_horizontal_position(&JulianDate::new(u), &j);
    cmp(run, "horizontal_position", scale(a3(&hp), 1.0 / dist), want, &w);
    run.within("horizontal_position/r", (norm(a3(&hp)) / dist - 1.0).abs(), 1e-13, w);
    let pb = hp.to_equatorial_position(&JulianDate::new(u), &j);
    cmp(run, "horizontal_position/roundtrip", scale(a3(&pb), 1.0 / dist), v, &w);
    run.check(same_site(pb.center_params(), &s) && same_site(hp.center_params(), &s), "horizontal_position/site", w);
    // --- default EOP, UT1 derived ---
    if tag == "default" {
        let du = rot::jd_ut1_from_tt_eop(j, &ctx.eop_at_tt(j)).raw().value();
        let l = gast(du, jd, nutation::<Iau2006A>(jd).0) + lon.to_radians();
        cmp(run, "to_horizontal/tt", ad(&X::to_horizontal(&d, &j, &s)), neu(v, l, lat), &w);
        // fixed star, full pipeline (catalogue direction x NPB, IAU 2000B)
        let st = g.unit();
        let (ra, dec) = (Degrees::new(st[1].atan2(st[0]).to_degrees()), Degrees::new(st[2].asin().to_degrees()));
        let (dp, de) = nutation::<Iau2000B>(jd);
        let l = gast(du, jd, dp) + lon.to_radians();
        let tod = mv(&er::npb(er::cent(jd), dp, de), st);
        let q = ev::star_horizontal(ra, dec, &s, j);
        cmp(run, "star", altaz(q.alt().value(), q.az().value()), neu(tod, l, lat), &w);
        run.check((0.0..360.0).contains(&q.az().value()), "azimuth/range", w);
        let q = ev::star_horizontal_with_policy(ra, dec, &s, j, CorrectionPolicy::APPARENT);
        cmp(run, "star", altaz(q.alt().value(), q.az().value()), neu(tod, l, lat), &w);
        let q = ev::star_horizontal_with_policy(ra, dec, &s, j, CorrectionPolicy::GEOMETRIC);
        cmp(run, "star/geometric", altaz(q.alt().value(), q.az().value()), neu(st, l, lat), &w);
        // mean-of-date chain uses GMST of the default TT->UT1
        let l = er::gmst06(rot::jd_ut1_from_tt(j).raw().value(), er::cent(jd)) + lon.to_radians();
        let v = target(g, l, lat);
        let want = neu(v, l, lat);
        let p = Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::new_with_params(s, v[0] * dist, v[1] * dist, v[2] * dist);
        let hp: Position<Topocentric, Horizontal, Kilometer> = p.transform(j);
        cmp(run, "mean-of-date", scale(a3(&hp), 1.0 / dist), want, &w);
        let back: Position<Topocentric, EquatorialMeanOfDate, Kilometer> = hp.transform(j);
        cmp(run, "mean-of-date/roundtrip", scale(a3(&back), 1.0 / dist), v, &w);
        let (zh, ze): (Position<Topocentric, Horizontal, Kilometer>, Position<Topocentric, EquatorialMeanOfDate, Kilometer>) = (Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::new_with_params(s, 0.0, 0.0, 0.0).transform(j), Position::<Topocentric, Horizontal, Kilometer>::new_with_params(s, 0.0, 0.0, 0.0).transform(j));
        run.check(a3(&zh) == [0.0; 3] && a3(&ze) == [0.0; 3], "mean-of-date/zero-length", || format!("{:?} {:?}", a3(&zh), a3(&ze)));
        let hs: spherical::Position<Topocentric, Horizontal, Kilometer> = p.to_spherical().transform(j);
        cmp(run, "mean-of-date/spherical", sph(&hs), want, &w);
        run.within("mean-of-date/r", (hs.distance.value() / dist - 1.0).abs(), 1e-12, w);
        let eqs: spherical::Position<Topocentric, EquatorialMeanOfDate, Kilometer> = hs.transform(j);
        cmp(run, "mean-of-date/roundtrip", scale(a3(&eqs.to_cartesian()), 1.0 / dist), v, &w);
    }
    // --- event::horizontal with the context's EOP and nutation model ---
    let lst = gast(ut1, jd, nutation::<N>(jd).0) + lon.to_radians();
    let v = target(g, lst, lat);
    let ps = spherical::Position::<Topocentric, EquatorialTrueOfDate, AstronomicalUnit>::new_with_params(s, Degrees::new(v[2].clamp(-1.0, 1.0).asin().to_degrees()), Degrees::new(v[1].atan2(v[0]).to_degrees()), qtty::AstronomicalUnits::new(dist));
    let q = ev::equatorial_to_horizontal_true_of_date_with_ctx(&ps, s, j, &engine);
    cmp(run, "true-of-date", sph(&q), neu(v, lst, lat), &w);
    run.check((0.0..360.0).contains(&q.az().value()) && q.distance.value() == dist && same_site(q.center_params(), &s), "true-of-date/range", || format!("{} az={} r={} vs {dist} lon={} vs {}", w(), q.az().value(), q.distance.value(), q.center_params().lon.value(), s.lon.value()));
    if tag == "default" {
        let l = gast(ut1, jd, nutation::<Iau2006A>(jd).0) + lon.to_radians();
        cmp(run, "true-of-date", sph(&ev::equatorial_to_horizontal_true_of_date(&ps, s, j)), neu(v, l, lat), &w);
        cmp(run, "true-of-date", sph(&ev::equatorial_to_horizontal(&ps, s, j)), neu(v, l, lat), &w);
    }
}

/// ITRS -> mean equator and equinox of J2000; `sense` = +1 for the published Earth-rotation sense.
fn itrs_to_j2000<N: NutationModel>(jd: f64, e: EopV, sense: f64) -> M3 {
    let t = er::cent(jd);
    let (dp, de) = nutation::<N>(jd);
    let (dp, de) = (dp + e.dx * 1e-3 * er::AS / er::obl(t).sin(), de + e.dy * 1e-3 * er::AS);
    let m = er::npb(t, dp, de);
    let (x, y) = (m[2][0], m[2][1]);
    let q = er::c2ixys(x, y, er::s06(t, x, y));
    let ut1 = rot::jd_ut1_from_tt_eop(JulianDate::new(jd), &e.values()).raw().value();
    let w = er::pom(e.xp * er::AS, e.yp * er::AS, -47e-6 * er::AS * t);
    let gcrs_to_itrs = mm(&w, &mm(&r3(sense * er::era(ut1)), &q));
    let bias = er::fw2m(-0.052928 * er::AS, 84381.412819 * er::AS, -0.041775 * er::AS, 84381.406 * er::AS);
    mm(&bias, &tr(&gcrs_to_itrs))
}

fn topocentric<N: NutationModel, Eop: EopProvider + Default>(run: &Run, g: &mut Rng, tag: &str, e: EopV) {
    let jd = g.range(2_441_400.5, 2_463_000.0);
    let j = JulianDate::new(jd);
    let (s, lon, lat, h) = site(g);
    let ctx: AstroContext<FakeEph, Eop> = AstroContext::with_types();
    let engine = ctx.with_model::<N>();
    set_eph(random_eph(g));
    let w = || format!("[{tag}] jd={jd} lon={lon} lat={lat} h={h} {e:?}");
    run.eval("topocentric", (tag.to_string(), jd.to_bits()));
    let r = wgs84(lon, lat, h);
    let good = mv(&itrs_to_j2000::<N>(jd, e, 1.0), r);
    let rev = mv(&itrs_to_j2000::<N>(jd, e, -1.0), r);
    let dist = g.log(1.0, 1e9);
    let x = scale(g.unit(), dist);
    let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(x[0], x[1], x[2]);
    let t: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = to_topocentric_with(&p, s, j, &engine);
    let off = sub(x, a3(&t));
    let tol = 2e-5 + 4e-16 * dist; // 2 cm: truncated CIO locator and UT1 rounding (40 us)
    let (eg, eb) = (norm(sub(off, good)), norm(sub(off, rev)));
    run.check(norm(off) - norm(r) < tol && norm(r) - norm(off) < tol, "topocentric/r", || format!("{} {off:?}", w()));
    if eg > tol {
        // known finding: Earth rotation applied in the wrong sense
        if eb <= tol { run.violation("topocentric/site-rotation-sense", &format!("{} site {off:?}, IERS chain gives {good:?}", w())); }
        else { run.within("topocentric", eg.min(eb), tol, || format!("{} site {off:?} want {good:?} (reversed {rev:?})", w())); }
    }
    run.check(same_site(t.center_params(), &s), "topocentric/site", w);
    // other entry points are the same shift
    let same = |n: &str, q: V3| { run.within(n, norm(sub(q, a3(&t))), 1e-9 + 1e-15 * dist, w); };
    same("topocentric/ctx", a3(&to_topocentric_with_ctx::<_, _, FakeEph, Eop, N>(&p, s, j, &ctx)));
    let q: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = p.to_center_as::<FakeEph, Eop, N>(s, j, &ctx);
    same("topocentric/center", a3(&q));
    if tag == "default" {
        let q: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = p.to_center((s, j));
        let mut o: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = to_topocentric_with(&p, s, j, &AstroContext::<DefaultEphemeris>::default());
        run.within("topocentric/default", norm(sub(a3(&q), a3(&o))), 0.0, w);
        o = p.to_center((s, j));
        let _ = o;
    }
    let back: Position<Geocentric, EquatorialMeanJ2000, Kilometer> = t.to_center_as::<FakeEph, Eop, N>((), j, &ctx);
    run.within("topocentric/back", norm(sub(a3(&back), x)), 1e-8 + 1e-15 * dist, w);
    // AU and other frames: the same physical site
    let pa = Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(x[0] / AU_KM, x[1] / AU_KM, x[2] / AU_KM);
    let ta: Position<Topocentric, EquatorialMeanJ2000, AstronomicalUnit> = to_topocentric_with(&pa, s, j, &engine);
    same("topocentric/au", scale(a3(&ta), AU_KM));
    macro_rules! frame { ($f:ty) => {{
        let m = <() as FrameRotationProvider<EquatorialMeanJ2000, $f>>::rotation::<FakeEph, Eop, N>(j, &ctx);
        let y = m.apply_array(x);
        let pf = Position::<Geocentric, $f, Kilometer>::new(y[0], y[1], y[2]);
        let tf: Position<Topocentric, $f, Kilometer> = to_topocentric_with(&pf, s, j, &engine);
        run.within("topocentric/frame", norm(sub(a3(&tf), m.apply_array(a3(&t)))), 1e-8 + 2e-15 * dist, || format!("{} {}", w(), stringify!($f)));
        let bk: Position<Geocentric, $f, Kilometer> = tf.to_center_as::<FakeEph, Eop, N>((), j, &ctx);
        run.within("topocentric/back", norm(sub(a3(&bk), y)), 1e-8 + 2e-15 * dist, w);
    }} }
    frame!(ICRS);
    frame!(EclipticMeanJ2000);
    // observer velocity: Earth's barycentric velocity plus omega x r about the celestial pole
    let o = ObserverState::topocentric_with(&s, j, &engine);
    let vel = |o: &ObserverState| [o.velocity().x().value(), o.velocity().y().value(), o.velocity().z().value()];
    let ecl2eq = |v: V3| <() as FrameRotationProvider<EclipticMeanJ2000, EquatorialMeanJ2000>>::rotation::<FakeEph, Eop, N>(j, &ctx).apply_array(v);
    let ve = ecl2eq(fe(3, jd));
    let k = 86400.0 / AU_KM;
    let diurnal = sub(vel(&o), ve);
    // about the CIP / ITRS z axis: omega x site
    let pole = mv(&itrs_to_j2000::<N>(jd, e, 1.0), [0.0, 0.0, 1.0]);
    let pole_b = mv(&itrs_to_j2000::<N>(jd, e, -1.0), [0.0, 0.0, 1.0]);
    let vg = scale(cross(pole, good), 7.2921150e-5 * k);
    let vb = scale(cross(pole_b, rev), 7.2921150e-5 * k);
    let vt = 1e-12 + 1e-15;
    if norm(sub(diurnal, vg)) > vt {
        if norm(sub(diurnal, vb)) <= vt { run.violation("observer/site-rotation-sense", &format!("{} {diurnal:?} want {vg:?}", w())); }
        else { run.within("observer", norm(sub(diurnal, vg)).min(norm(sub(diurnal, vb))), vt, || format!("{} {diurnal:?} want {vg:?}", w())); }
    }
    run.check(o.jd().raw().value() == jd, "observer/jd", w);
    let oc = ObserverState::topocentric_with_ctx::<FakeEph, Eop, N>(&s, j, &ctx);
    run.within("observer/ctx", norm(sub(vel(&oc), vel(&o))), 0.0, w);
    if tag == "default" {
        let ev = DefaultEphemeris::earth_barycentric_velocity(j);
        let want = ecl2eq([ev.x().value(), ev.y().value(), ev.z().value()]);
        run.within("observer/geocentric", norm(sub(vel(&ObserverState::geocentric(j)), want)), 1e-15, w);
        let od = ObserverState::topocentric(&s, j);
        let d2 = ObserverState::topocentric_with(&s, j, &AstroContext::<DefaultEphemeris>::default());
        run.within("observer/default", norm(sub(vel(&od), vel(&d2))), 0.0, w);
        run.within("observer/default", norm(sub(sub(vel(&od), want), scale(cross(pole_b, rev), 7.2921150e-5 * k))).min(norm(sub(sub(vel(&od), want), vg))), 1e-11, w);
    }
    let fv = siderust::coordinates::cartesian::Velocity::<EquatorialMeanJ2000, siderust::ephemeris::AuPerDay>::new(ve[0], ve[1], ve[2]);
    run.within("observer/from", norm(sub(vel(&ObserverState::from_velocity(fv, j)), ve)), 0.0, w);
    // apparent topocentric place of date: precession-nutation of the topocentric J2000 vector
    let ap = ev::geocentric_j2000_to_apparent_topocentric_with_ctx(&p, s, j, &engine);
    let c = er::cent(jd);
    let (dp, de) = nutation::<N>(jd);
    let (dp, de) = (dp + e.dx * 1e-3 * er::AS / er::obl(c).sin(), de + e.dy * 1e-3 * er::AS);
    let bias = er::fw2m(-0.052928 * er::AS, 84381.412819 * er::AS, -0.041775 * er::AS, 84381.406 * er::AS);
    let m = mm(&er::npb(c, dp, de), &tr(&bias));
    let wd = mv(&m, unit(a3(&t)));
    let got = unit(a3(&ap.to_cartesian()));
    run.within("apparent-place", angle(got, wd), 3e-9, || format!("{} got {got:?} want {wd:?}", w()));
    run.within("apparent-place/r", (ap.distance.value() / norm(a3(&t)) - 1.0).abs(), 1e-13, w);
    if tag == "default" {
        let a2 = ev::geocentric_j2000_to_apparent_topocentric(&p, s, j);
        let a1 = ev::geocentric_j2000_to_apparent_topocentric_with_ctx(&p, s, j, &AstroContext::<DefaultEphemeris>::default());
        run.within("apparent-place/default", angle(a3(&a1.to_cartesian()), a3(&a2.to_cartesian())), 0.0, w);
    }
    let _ = TAU;
}

fn main() {
    let mut run = Run::new("C04", "seeded sites (poles, equator, date line), epochs, targets (zenith, nadir, celestial poles) x EOP values x nutation models");
    run.assume("TT->UT1 conversion is taken from the library (decided by C02)");
    let n = run.size(3000, 120_000);
    run.par("c04", n, |i| {
        let mut g = run.rng_i("c04", i);
        azimuths(&run, &mut g);
        use siderust::coordinates::transform::context::DefaultEop;
        let e = EopV::random(&mut g);
        set_eop(e);
        horizontal::<Iau2006A, DefaultEop>(&run, &mut g, "default", EopV::default());
        match g.n(3) {
            0 => { horizontal::<Iau2000B, TlsEop>(&run, &mut g, "2000B", e); topocentric::<Iau2000A, TlsEop>(&run, &mut g, "2000A", e); }
            1 => { horizontal::<Iau2000A, TlsEop>(&run, &mut g, "2000A", e); topocentric::<Iau2006A, TlsEop>(&run, &mut g, "2006A", e); }
            _ => { horizontal::<Iau2006A, TlsEop>(&run, &mut g, "2006A", e); topocentric::<Iau2006A, DefaultEop>(&run, &mut g, "default", EopV::default()); }
        }
    });
    run.require("horizontal", 1000);
    run.require("topocentric", 500);
    run.finish();
}
