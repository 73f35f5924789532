//! C09: where the Sun, Moon, planets and stars stand in an observer's sky.
use siderust::astro::apparent::CorrectionPolicy as Pol;
use siderust::astro::earth_rotation as rot;
use siderust::astro::nutation::{Iau2000B, Iau2006A, NutationModel};
use siderust::bodies::solar_system::*;
use siderust::bodies::Star;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::spherical::direction;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::ephemeris::Ephemeris;
use siderust::event::altitude::AltitudeProvider;
use siderust::event::azimuth::AzimuthProvider;
use siderust::event::horizontal as ev;
use siderust::event::lunar::meeus_ch47::moon_position_meeus_ch47;
use siderust::event::solar::*;
use siderust::qtty::{AstronomicalUnit, Degrees, Kilometer, Meter, Meters};
use siderust::time::{JulianDate, ModifiedJulianDate};
use vh::earthref as er;
use vh::fakes::*;
use vh::la::*;
use vh::{Rng, Run};

const EPS0: f64 = 84381.406;

struct Obs {
    s: Geodetic<ECEF>,
    lon: f64,
    lat: f64,
    h: f64,
    jd: f64,
    mjd: f64,
    lst: f64,
    npb: M3,
    npb_b: M3,
    site: V3,
    rev: V3,
}
fn nut<N: NutationModel>(jd: f64) -> (f64, f64) {
    let n = N::nutation(JulianDate::new(jd));
    (n.dpsi.value(), n.deps.value())
}
fn obs(g: &mut Rng) -> Obs {
    let lat = match g.n(10) { 0 => 90.0, 1 => -90.0, 2 => 0.0, _ => g.range(-90.0, 90.0) };
    let lon = match g.n(8) { 0 => 0.0, 1 => 180.0, _ => g.range(-180.0, 180.0) };
    let h = match g.n(4) { 0 => 0.0, 1 => g.range(-400.0, 0.0), _ => g.range(0.0, 6000.0) };
    let mjd = match g.n(5) { 0 => g.range(-55_000.0, 62_000.0), 1 => g.int(41_500, 62_000) as f64, _ => g.range(41_500.0, 62_500.0) };
    let j0: JulianDate = ModifiedJulianDate::new(mjd).to::<siderust::JD>();
    let jd = j0.raw().value();
    let t = er::cent(jd);
    let ctx: AstroContext = AstroContext::default();
    let ut1 = rot::jd_ut1_from_tt_eop(j0, &ctx.eop_at_tt(j0)).raw().value();
    let e = ctx.eop_at_tt(j0);
    let (xp, yp, dx, dy) = (e.xp.value(), e.yp.value(), e.dx.value(), e.dy.value());
    let (dp, de) = nut::<Iau2006A>(jd);
    let (dp, de) = (dp + dx * 1e-3 * er::AS / er::obl(t).sin(), de + dy * 1e-3 * er::AS);
    let m = er::npb(t, dp, de);
    let lst = er::gmst06(ut1, t) + dp * er::obl(t).cos() + er::eect(t) + lon.to_radians();
    let bias = er::fw2m(-0.052928 * er::AS, 84381.412819 * er::AS, -0.041775 * er::AS, 84381.406 * er::AS);
    let site = |sense: f64| {
        let (x, y) = (m[2][0], m[2][1]);
        let q = er::c2ixys(x, y, er::s06(t, x, y));
        let w = er::pom(xp * er::AS, yp * er::AS, -47e-6 * er::AS * t);
        mv(&mm(&bias, &tr(&mm(&w, &mm(&r3(sense * er::era(ut1)), &q)))), wgs84(lon, lat, h))
    };
    let (bp, be) = nut::<Iau2000B>(jd);
    Obs {
        s: Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h)),
        lon, lat, h, jd, mjd, lst,
        // true of date from mean J2000 (frame bias removed), and the star pipeline's matrix applied to catalogue axes
        npb: mm(&m, &tr(&bias)),
        npb_b: er::npb(t, bp, be),
        site: site(1.0), rev: site(-1.0),
    }
}
impl Obs {
    fn w(&self) -> String { format!("mjd={} lon={} lat={} h={}", self.mjd, self.lon, self.lat, self.h) }
    /// unit [N,E,U] of a geocentric J2000 equatorial vector (km) seen from `site`
    fn sky(&self, geo: V3, site: V3) -> V3 { neu(unit(mv(&self.npb, sub(geo, site))), self.lst, self.lat) }
}
fn dir(alt: f64, az: f64) -> V3 {
    let ((sa, ca), (sz, cz)) = (alt.sin_cos(), az.sin_cos());
    [ca * cz, ca * sz, sa]
}
fn radec(ra: f64, dec: f64) -> V3 {
    let ((sd, cd), (sr, cr)) = (dec.to_radians().sin_cos(), ra.to_radians().sin_cos());
    [cd * cr, cd * sr, sd]
}

fn judge(run: &Run, tag: &str, o: &Obs, geo: V3, got: V3) {
    let (good, bad) = (o.sky(geo, o.site), o.sky(geo, o.rev));
    let tol = 4e-8; // 8 mas: nutation model and UT1 rounding; asin near the zenith is judged as a direction
    let (eg, eb) = (angle(got, good), angle(got, bad));
    let w = || format!("{tag} {} got {got:?} want {good:?}", o.w());
    if eg > tol && eb <= tol {
        run.eval("sky/reversed-site", (tag.len(), o.mjd.to_bits()));
        run.violation("sky/site-rotation-sense", &w());
    } else {
        run.eval("sky", (tag.len(), o.mjd.to_bits()));
        run.within("sky/direction", eg.min(eb), tol, w);
    }
}
fn provider<B: AltitudeProvider + AzimuthProvider>(run: &Run, tag: &str, b: &B, o: &Obs, geo: V3) {
    let m = ModifiedJulianDate::new(o.mjd);
    let (alt, az) = (b.altitude_at(&o.s, m).value(), b.azimuth_at(&o.s, m).value());
    run.check((-std::f64::consts::FRAC_PI_2..=std::f64::consts::FRAC_PI_2).contains(&alt) && (0.0..=std::f64::consts::TAU).contains(&az), "sky/range", || format!("{tag} {} {alt} {az}", o.w()));
    judge(run, tag, o, geo, dir(alt, az));
}

fn ecl2eq(v: V3) -> V3 { mv(&r1(-EPS0 * er::AS), v) }

macro_rules! planet {
    ($run:expr, $o:expr, $p:ident) => {{
        let j = JulianDate::new($o.jd);
        let (p, e) = ($p::vsop87e(j), DefaultEphemeris::earth_barycentric(j));
        let v = [p.x().value() - e.x().value(), p.y().value() - e.y().value(), p.z().value() - e.z().value()];
        provider($run, stringify!($p), &$p, $o, scale(ecl2eq(v), AU_KM));
    }};
}

fn bodies(run: &Run, g: &mut Rng) {
    let o = obs(g);
    let j = JulianDate::new(o.jd);
    match g.n(9) {
        0 => planet!(run, &o, Mercury),
        1 => planet!(run, &o, Venus),
        2 => planet!(run, &o, Mars),
        3 => planet!(run, &o, Jupiter),
        4 => planet!(run, &o, Saturn),
        5 => planet!(run, &o, Uranus),
        6 => planet!(run, &o, Neptune),
        7 => {
            let p = DefaultEphemeris::moon_geocentric(j);
            let geo = ecl2eq([p.x().value(), p.y().value(), p.z().value()]);
            provider(run, "Moon", &Moon, &o, geo);
            let h: spherical::Position<Topocentric, Horizontal, Kilometer> = Moon::get_horizontal::<Kilometer>(j, o.s);
            let got = dir(h.alt().value().to_radians(), h.az().value().to_radians());
            judge(run, "Moon horizontal", &o, geo, got);
            let e: spherical::Position<Topocentric, EquatorialTrueOfDate, Kilometer> = Moon::get_apparent_topocentric_equ::<Kilometer>(j, o.s);
            let q = unit([e.to_cartesian().x().value(), e.to_cartesian().y().value(), e.to_cartesian().z().value()]);
            run.within("moon/place", angle(neu(q, o.lst, o.lat), got), 4e-8, || o.w());
            let r = norm(sub(geo, o.site)).min(f64::INFINITY);
            let r2 = norm(sub(geo, o.rev));
            let d = h.distance.value();
            run.within("moon/distance", (d - r).abs().min((d - r2).abs()).max((e.distance.value() - d).abs()), 2e-2, || format!("{} {d} {r} {r2}", o.w()));
            // reduced-term series: arc-minute class
            let m = moon_position_meeus_ch47(j);
            let t = er::cent(o.jd);
            if t.abs() < 2.0 {
                let date = mv(&er::npb(t, 0.0, 0.0), geo);
                let ecl = mv(&r1(er::obl(t)), date);
                let eq = radec(m.ra.value().to_degrees(), m.dec.value().to_degrees());
                run.within("meeus/equatorial", angle(eq, unit(date)), 0.6f64.to_radians(), || o.w());
                run.within("meeus/ecliptic", angle(radec(m.ecl_lon.value().to_degrees(), m.ecl_lat.value().to_degrees()), unit(ecl)), 0.6f64.to_radians(), || o.w());
                run.within("meeus/consistent", angle(mv(&r1(er::obl(t)), eq), radec(m.ecl_lon.value().to_degrees(), m.ecl_lat.value().to_degrees())), 2e-6, || o.w());
                run.within("meeus/distance", (m.dist.value() - norm(geo)).abs(), 3000.0, || o.w());
            }
        }
        _ => {
            let e = DefaultEphemeris::earth_heliocentric(j);
            let ecl = [-e.x().value(), -e.y().value(), -e.z().value()];
            let geo = scale(ecl2eq(ecl), AU_KM);
            provider(run, "Sun", &Sun, &o, geo);
            let h: spherical::Position<Topocentric, Horizontal, AstronomicalUnit> = Sun::get_horizontal::<AstronomicalUnit>(j, o.s);
            judge(run, "Sun horizontal", &o, geo, dir(h.alt().value().to_radians(), h.az().value().to_radians()));
            run.within("sun/distance", (h.distance.value() * AU_KM - norm(geo)).abs(), 7000.0, || o.w());
            let e = Sun::get_apparent_topocentric_equ::<Meter>(j, o.s).to_cartesian();
            let q = unit([e.x().value(), e.y().value(), e.z().value()]);
            run.within("sun/place", angle(neu(q, o.lst, o.lat), dir(h.alt().value().to_radians(), h.az().value().to_radians())), 4e-8, || o.w());
            let c = Sun::get_apparent_geocentric_equ::<AstronomicalUnit>(j).to_cartesian();
            let c = [c.x().value(), c.y().value(), c.z().value()];
            run.within("sun/geocentric", angle(c, mv(&o.npb_b, geo)).max(norm(c) * AU_KM / norm(geo) - 1.0), 1.6e-7, || o.w());
            let l = Sun::ecliptic_longitude_geocentric(j).value();
            run.within("sun/longitude", wrap_pi(l - ecl[1].atan2(ecl[0])).abs(), 3e-8, || o.w());
            run.check((0.0..=std::f64::consts::TAU).contains(&l), "sun/longitude-range", || o.w());
        }
    }
}

fn stars(run: &Run, g: &mut Rng) {
    let o = obs(g);
    let m = ModifiedJulianDate::new(o.mjd);
    let j = JulianDate::new(o.jd);
    let (ra, dec) = match g.n(6) {
        0 => (g.range(0.0, 360.0), 90.0),
        1 => (g.range(0.0, 360.0), -90.0),
        _ => (g.range(0.0, 360.0), g.range(-1.0, 1.0f64).asin().to_degrees()),
    };
    let p = [Pol::GEOMETRIC, Pol::PROPER_MOTION, Pol::APPARENT, Pol::ABERRATION | Pol::LIGHT_TIME][g.n(4) as usize];
    let v = radec(ra, dec);
    let full = neu(unit(mv(&o.npb_b, v)), o.lst, o.lat);
    let geom = neu(v, o.lst, o.lat);
    let want = |p: Pol| if p == Pol::GEOMETRIC { geom } else { full };
    let w = |d: &str| format!("{d} star ra={ra} dec={dec} {} policy {:?}", o.w(), p);
    let d = direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
    let tol = 6e-8;
    run.eval("star", (ra.to_bits(), o.mjd.to_bits()));
    let h = ev::star_horizontal_with_policy(Degrees::new(ra), Degrees::new(dec), &o.s, j, p);
    let hv = dir(h.alt().value().to_radians(), h.az().value().to_radians());
    run.within("star/horizontal-policy", angle(hv, want(p)), tol, || w("horizontal"));
    let h = ev::star_horizontal(Degrees::new(ra), Degrees::new(dec), &o.s, j);
    run.within("star/horizontal", angle(dir(h.alt().value().to_radians(), h.az().value().to_radians()), full), tol, || w("horizontal"));
    let av = |b: V3| unit(b);
    run.within("star/direction", angle(av(dir(d.altitude_at(&o.s, m).value(), d.azimuth_at(&o.s, m).value())), full), tol, || w("direction"));
    run.within("star/direction-policy", angle(dir(d.altitude_at_with_policy(&o.s, m, p).value(), d.azimuth_at_with_policy(&o.s, m, p).value()), want(p)), tol, || w("direction"));
    // catalogue objects
    use siderust::bodies::catalog as c;
    let list = [&c::VEGA, &c::SIRIUS, &c::POLARIS, &c::CANOPUS, &c::ARCTURUS, &c::RIGEL, &c::BETELGEUSE, &c::ALDEBARAN];
    let s: &Star = list[g.n(8) as usize];
    let sv = { let q = s.coordinate.get_position(); radec(q.azimuth.value(), q.polar.value()) };
    let full = neu(unit(mv(&o.npb_b, sv)), o.lst, o.lat);
    let geom = neu(sv, o.lst, o.lat);
    let want = |p: Pol| if p == Pol::GEOMETRIC { geom } else { full };
    run.within("star/catalogue", angle(dir(s.altitude_at(&o.s, m).value(), s.azimuth_at(&o.s, m).value()), full), tol, || format!("{} {}", s.name, o.w()));
    run.within("star/catalogue-policy", angle(dir(s.altitude_at_with_policy(&o.s, m, p).value(), s.azimuth_at_with_policy(&o.s, m, p).value()), want(p)), tol, || format!("{} {}", s.name, o.w()));
}

fn twilight(run: &Run, g: &mut Rng) {
    let x = match g.n(4) {
        0 => [0.0, -6.0, -12.0, -18.0][g.n(4) as usize] + [0.0, 1e-9, -1e-9][g.n(3) as usize],
        _ => g.range(-90.0, 90.0),
    };
    run.eval("twilight", x.to_bits());
    let want = if x > 0.0 { TwilightPhase::Day } else if x > -6.0 { TwilightPhase::Civil } else if x > -12.0 { TwilightPhase::Nautical } else if x > -18.0 { TwilightPhase::Astronomical } else { TwilightPhase::Dark };
    let got = twilight_classification(Degrees::new(x));
    run.check(got == want, "twilight/class", || format!("{x}: {got:?}"));
    let near = [0.0, -6.0, -12.0, -18.0].iter().any(|b: &f64| (x - b).abs() < 1e-12);
    if !near { run.check(twilight_classification(siderust::qtty::Radians::new(x.to_radians())) == want, "twilight/unit", || format!("{x}")); }
    for (t, d, c) in [(Twilight::Civil, -6.0, twilight::CIVIL), (Twilight::Nautical, -12.0, twilight::NAUTICAL), (Twilight::Astronomical, -18.0, twilight::ASTRONOMICAL), (Twilight::Horizon, 0.0, twilight::HORIZON), (Twilight::ApparentHorizon, -0.833, twilight::APPARENT_HORIZON)] {
        run.check(Degrees::from(t).value() == d && c.value() == d, "twilight/altitude", || format!("{t:?}"));
    }
}

fn main() {
    let mut run = Run::new("C09", "seeded sites (poles, equator, date line) x epochs 1707-2030 x Sun, Moon, planets, catalogue and random stars x correction policies");
    run.assume("geocentric positions (C05), TT->UT1 and nutation values (C02) are the library's; the sky geometry is recomputed");
    let n = run.size(6000, 200_000);
    run.par("c09", n, |i| {
        let mut g = run.rng_i("c09", i);
        bodies(&run, &mut g);
        stars(&run, &mut g);
        twilight(&run, &mut g);
    });
    run.require("star", 1000);
    run.require("twilight", 1000);
    run.finish();
}
