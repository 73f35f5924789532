//! C03: center shifts equal the difference of the two centers' ephemeris positions (in the position's
//! frame, for the context's ephemeris and models), invert exactly and compose.
use siderust::astro::nutation::{Iau2000A, Iau2000B, NutationModel};
use siderust::astro::orbit::KeplerianOrbit;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris, DefaultEop, TransformContext};
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::{PositionAstroExt, TransformCenter, UsingEngine};
use siderust::ephemeris::lagrange::{solver, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint};
use siderust::ephemeris::{AuPerDay, Ephemeris};
use siderust::qtty;
use siderust::qtty::{AstronomicalUnit, Degrees, Kilometer};
use siderust::JulianDate;
use vh::kep;
use vh::la::*;
use vh::{Rng, Run};

thread_local! { static FE: std::cell::Cell<[V3; 3]> = const { std::cell::Cell::new([[0.0; 3]; 3]) }; }
/// Ephemeris whose bodies are wherever the monitor puts them.
#[derive(Debug, Clone, Copy, Default)]
struct FakeEph;
fn fe(i: usize, jd: JulianDate) -> V3 {
    let b = FE.with(|c| c.get())[i];
    let t = (jd.raw().value() - 2_451_545.0) / 1000.0;
    [b[0] + 0.01 * t.sin(), b[1] + 0.02 * t.cos(), b[2] - 0.005 * (2.0 * t).sin()]
}
const AU_KM: f64 = 149_597_870.7;
impl Ephemeris for FakeEph {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = fe(0, jd);
        Position::new(v[0], v[1], v[2])
    }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = fe(1, jd);
        Position::new(v[0], v[1], v[2])
    }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = sub(fe(1, jd), fe(0, jd));
        Position::new(v[0], v[1], v[2])
    }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        Velocity::new(0.0, 0.0, 0.0)
    }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let v = scale(fe(2, jd), 0.003 * AU_KM);
        Position::new(v[0], v[1], v[2])
    }
}

fn a3<C: ReferenceCenter, F: ReferenceFrame, U: qtty::LengthUnit>(p: &Position<C, F, U>) -> V3 {
    [p.x().value(), p.y().value(), p.z().value()]
}

/// Barycentric position of a center in EclipticMeanJ2000 (AU), from the ephemeris itself.
trait Where {
    const NAME: &'static str;
    fn at<E: Ephemeris>(jd: JulianDate) -> V3;
}
impl Where for Barycentric {
    const NAME: &'static str = "Barycentric";
    fn at<E: Ephemeris>(_: JulianDate) -> V3 {
        [0.0; 3]
    }
}
impl Where for Heliocentric {
    const NAME: &'static str = "Heliocentric";
    fn at<E: Ephemeris>(jd: JulianDate) -> V3 {
        a3(&E::sun_barycentric(jd))
    }
}
impl Where for Geocentric {
    const NAME: &'static str = "Geocentric";
    fn at<E: Ephemeris>(jd: JulianDate) -> V3 {
        a3(&E::earth_barycentric(jd))
    }
}
macro_rules! planet {
    ($($c:ident),*) => { $( impl Where for $c {
        const NAME: &'static str = stringify!($c);
        fn at<E: Ephemeris>(jd: JulianDate) -> V3 { a3(&<$c>::vsop87e(jd)) }
    } )* };
}
planet!(Mercurycentric, Venuscentric, Marscentric, Jovicentric, Saturnocentric, Uranocentric, Neptunocentric);
impl Where for Plutocentric {
    const NAME: &'static str = "Plutocentric";
    fn at<E: Ephemeris>(jd: JulianDate) -> V3 {
        let o = siderust::bodies::solar_system::PLUTO.orbit;
        add(a3(&o.kepler_position(jd)), a3(&E::sun_barycentric(jd)))
    }
}
impl Where for Selenocentric {
    const NAME: &'static str = "Selenocentric";
    fn at<E: Ephemeris>(jd: JulianDate) -> V3 {
        add(a3(&E::earth_barycentric(jd)), scale(a3(&E::moon_geocentric(jd)), 1.0 / AU_KM))
    }
}
macro_rules! lagrange {
    ($($c:ident $p:ident),*) => { $( impl Where for $c {
        const NAME: &'static str = stringify!($c);
        fn at<E: Ephemeris>(jd: JulianDate) -> V3 {
            match try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::$p, jd) {
                Ok(p) => a3(&p),
                Err(_) => scale(a3(&solver::solve_sun_earth_lagrange::<E>(SunEarthLagrangePoint::$p, jd).unwrap().position), 1.0 / AU_KM),
            }
        }
    } )* };
}
lagrange!(SunEarthL1 L1, SunEarthL2 L2, SunEarthL3 L3, SunEarthL4 L4, SunEarthL5 L5);

fn pair<A, B, F, Ctx>(run: &Run, jd: JulianDate, ctx: &Ctx, fname: &str, tag: &str, g: &mut Rng)
where
    A: Where + ReferenceCenter<Params = ()>,
    B: Where + ReferenceCenter<Params = ()>,
    F: ReferenceFrame,
    Ctx: TransformContext,
    Ctx::Eph: Ephemeris,
    (): CenterShiftProvider<A, B, F> + CenterShiftProvider<B, A, F> + CenterShiftProvider<A, Barycentric, F> + CenterShiftProvider<Barycentric, B, F>,
    (): FrameRotationProvider<EclipticMeanJ2000, F> + FrameRotationProvider<F, ICRS>,
{
    let w = || format!("{}->{} in {fname} [{tag}] jd={}", A::NAME, B::NAME, jd.raw().value());
    let r = *frame_rotation_with::<EclipticMeanJ2000, F, Ctx>(jd, ctx).as_matrix();
    let (pa, pb) = (A::at::<Ctx::Eph>(jd), B::at::<Ctx::Eph>(jd));
    let expect = mv(&r, sub(pa, pb));
    let tol = 1e-13 * (1.0 + norm(pa) + norm(pb));
    let s = center_shift_with::<A, B, F, Ctx>(jd, ctx);
    let s = [s[0].value(), s[1].value(), s[2].value()];
    run.eval("shift", (A::NAME, B::NAME, fname, tag, jd.raw().value().to_bits()));
    run.within("shift", norm(sub(s, expect)), tol, || format!("{} got {s:?} want {expect:?}", w()));
    let b = center_shift_with::<B, A, F, Ctx>(jd, ctx);
    run.within("reverse", norm(add(s, [b[0].value(), b[1].value(), b[2].value()])), tol, w);
    // positions, in AU and km
    let x = scale(g.unit(), g.log(1e-6, 100.0));
    let p = Position::<A, F, AstronomicalUnit>::new(x[0], x[1], x[2]);
    let q: Position<B, F, AstronomicalUnit> = p.to_center_with((), jd, ctx);
    let tolp = tol + 1e-15 * norm(x) * 4.0;
    run.within("position", norm(sub(a3(&q), add(x, expect))), tolp, w);
    let back: Position<A, F, AstronomicalUnit> = q.to_center_with((), jd, ctx);
    run.within("roundtrip", norm(sub(a3(&back), x)), tolp * 3.0, w);
    let hub: Position<Barycentric, F, AstronomicalUnit> = p.to_center_with((), jd, ctx);
    let via: Position<B, F, AstronomicalUnit> = hub.to_center_with((), jd, ctx);
    run.within("via-barycentre", norm(sub(a3(&via), a3(&q))), tolp * 3.0, w);
    let pk = Position::<A, F, Kilometer>::new(x[0] * AU_KM, x[1] * AU_KM, x[2] * AU_KM);
    let qk: Position<B, F, Kilometer> = pk.to_center_with((), jd, ctx);
    run.within("km", norm(sub(scale(a3(&qk), 1.0 / AU_KM), a3(&q))), tolp * 3.0, w);
    let m = *frame_rotation_with::<F, ICRS, Ctx>(jd, ctx).as_matrix();
    let c: Position<B, ICRS, AstronomicalUnit> = p.to_with(&jd, ctx);
    run.within("center+frame", norm(sub(a3(&c), mv(&m, a3(&q)))), tolp * 3.0, w);
    let u: Position<B, ICRS, AstronomicalUnit> = p.using(ctx).to(&jd);
    run.within("using", norm(sub(a3(&u), a3(&c))), 0.0, w);
    let u: Position<B, F, AstronomicalUnit> = p.using(ctx).to_center(&jd);
    run.within("using", norm(sub(a3(&u), a3(&q))), 0.0, w);
}

fn all_pairs<F: ReferenceFrame, Ctx>(run: &Run, jd: JulianDate, ctx: &Ctx, fname: &str, tag: &str, g: &mut Rng)
where
    Ctx: TransformContext,
    Ctx::Eph: Ephemeris,
    (): FrameRotationProvider<EclipticMeanJ2000, F> + FrameRotationProvider<F, ICRS>,
{
    macro_rules! hubs { ($($x:ident),*) => { $(
        pair::<$x, Barycentric, F, Ctx>(run, jd, ctx, fname, tag, g);
        pair::<$x, Heliocentric, F, Ctx>(run, jd, ctx, fname, tag, g);
        pair::<$x, Geocentric, F, Ctx>(run, jd, ctx, fname, tag, g);
    )* } }
    hubs!(Mercurycentric, Venuscentric, Marscentric, Jovicentric, Saturnocentric, Uranocentric, Neptunocentric, Plutocentric, Selenocentric, SunEarthL1, SunEarthL2, SunEarthL3, SunEarthL4, SunEarthL5);
    pair::<Heliocentric, Barycentric, F, Ctx>(run, jd, ctx, fname, tag, g);
    pair::<Geocentric, Barycentric, F, Ctx>(run, jd, ctx, fname, tag, g);
    pair::<Geocentric, Heliocentric, F, Ctx>(run, jd, ctx, fname, tag, g);
    pair::<Barycentric, Barycentric, F, Ctx>(run, jd, ctx, fname, tag, g);
}

fn frames<Ctx>(run: &Run, jd: JulianDate, ctx: &Ctx, tag: &str, g: &mut Rng, which: usize)
where
    Ctx: TransformContext,
    Ctx::Eph: Ephemeris,
{
    match which % 7 {
        0 => all_pairs::<EclipticMeanJ2000, Ctx>(run, jd, ctx, "EclipticMeanJ2000", tag, g),
        1 => all_pairs::<ICRS, Ctx>(run, jd, ctx, "ICRS", tag, g),
        2 => all_pairs::<EquatorialMeanJ2000, Ctx>(run, jd, ctx, "EquatorialMeanJ2000", tag, g),
        3 => all_pairs::<CIRS, Ctx>(run, jd, ctx, "CIRS", tag, g),
        4 if jd.raw().value() < 2_463_200.5 => all_pairs::<ITRF, Ctx>(run, jd, ctx, "ITRF", tag, g),
        4 | 5 => all_pairs::<MarsFixed, Ctx>(run, jd, ctx, "MarsFixed", tag, g),
        _ => all_pairs::<Galactic, Ctx>(run, jd, ctx, "Galactic", tag, g),
    }
}

fn bodycentric<Eph: Ephemeris, N: NutationModel>(run: &Run, g: &mut Rng, jd: JulianDate, tag: &str) {
    let ctx = AstroContext::<Eph, DefaultEop>::with_types();
    let a = g.log(1e-4, 60.0);
    let e = if g.n(4) == 0 { 0.0 } else { g.range(0.0, 0.95) };
    let (i, o, w, m0) = (g.range(0.0, 180.0), g.range(-360.0, 360.0), g.range(-360.0, 360.0), g.range(-360.0, 360.0));
    let ep = g.range(2_440_000.0, 2_460_000.0);
    let orbit = KeplerianOrbit::new(a.into(), e, Degrees::new(i), Degrees::new(o), Degrees::new(w), Degrees::new(m0), JulianDate::new(ep));
    let j = jd.raw().value();
    let centers = [OrbitReferenceCenter::Barycentric, OrbitReferenceCenter::Heliocentric, OrbitReferenceCenter::Geocentric];
    for oc in centers {
        let mu = g.log(1e3, 1.4e11); // km^3/s^2
        let params = match g.n(3) {
            0 => BodycentricParams::new(orbit, oc, qtty::GravitationalParameter::new(mu)),
            1 => BodycentricParams::for_body(orbit, oc, qtty::GravitationalParameter::new(mu)),
            _ => match oc {
                OrbitReferenceCenter::Barycentric => BodycentricParams::barycentric(orbit),
                OrbitReferenceCenter::Heliocentric => BodycentricParams::heliocentric(orbit),
                OrbitReferenceCenter::Geocentric => BodycentricParams::geocentric(orbit),
            },
        };
        let mu = params.mu.value();
        // rad/day for a in AU
        let n = (mu / (a * AU_KM).powi(3)).sqrt() * 86400.0;
        let d = f64::to_radians;
        let rel = kep::elliptic(a, e, d(i), d(o), d(w), d(m0) + n * (j - ep)).0;
        let tol = 1e-12 * (1.0 + a) + a * (1e-9 + n * (j - ep).abs() * 1e-15 + n * 3e-10) * 4.0 / (1.0 - e).powf(1.5);
        let origin = match oc {
            OrbitReferenceCenter::Barycentric => [0.0; 3],
            OrbitReferenceCenter::Heliocentric => Heliocentric::at::<Eph>(jd),
            OrbitReferenceCenter::Geocentric => Geocentric::at::<Eph>(jd),
        };
        let body = add(rel, origin);
        let x = scale(g.unit(), g.log(1e-4, 50.0));
        macro_rules! go {
            ($c:ident, $f:ident) => {{
                let r = *frame_rotation_as::<EclipticMeanJ2000, $f, N, Eph, DefaultEop>(jd, &ctx).as_matrix();
                let p = Position::<$c, $f, AstronomicalUnit>::new(x[0], x[1], x[2]);
                let q: Position<Bodycentric, $f, AstronomicalUnit> = TransformCenter::<Bodycentric, $f, AstronomicalUnit>::to_center_as::<Eph, DefaultEop, N>(&p, params, jd, &ctx);
                let want = add(x, mv(&r, sub($c::at::<Eph>(jd), body)));
                let wd = || format!("{} {}->body({oc:?}) a={a} e={e} jd={j} mu={mu} [{tag}] got {:?} want {want:?}", stringify!($f), stringify!($c), a3(&q));
                run.eval("bodycentric", (stringify!($c), stringify!($f), format!("{oc:?}"), tag, j.to_bits()));
                run.within("bodycentric", norm(sub(a3(&q), want)), tol + 1e-14 * (norm(x) + norm(origin)), wd);
                run.check(*q.center_params() == params, "bodycentric/params", || format!("{:?}", q.center_params()));
                let geo: Position<Geocentric, $f, AstronomicalUnit> = TransformCenter::<Geocentric, $f, AstronomicalUnit>::to_center_as::<Eph, DefaultEop, N>(&q, (), jd, &ctx);
                let wantg = add(x, mv(&r, sub($c::at::<Eph>(jd), Geocentric::at::<Eph>(jd))));
                run.within("bodycentric/back", norm(sub(a3(&geo), wantg)), 1e-12 * (1.0 + a + norm(x) + norm(origin)), || format!("{} geo {:?} want {wantg:?}", wd(), a3(&geo)));
            }};
        }
        go!(Geocentric, EclipticMeanJ2000);
        go!(Heliocentric, EclipticMeanJ2000);
        go!(Barycentric, EclipticMeanJ2000);
        go!(Geocentric, ICRS);
        go!(Heliocentric, ICRS);
        go!(Barycentric, ICRS);
        go!(Geocentric, EquatorialMeanJ2000);
        go!(Heliocentric, EquatorialMeanJ2000);
        go!(Barycentric, EquatorialMeanJ2000);
    }
}

fn main() {
    let mut run = Run::new("C03", "seeded epochs x every implemented ordered pair of centers x 7 frames x 2 ephemerides (built-in; monitor-placed bodies) x nutation models; bodycentric with random orbits about all three centers");
    run.assume("the barycentric position of each center is read from the library's ephemeris functions (judged by C05); frame rotations are judged by C01");
    let n = run.size(240, 4000);
    run.par("shift", n, |i| {
        let mut g = run.rng_i("c03", i);
        let jd = JulianDate::new(match g.n(8) {
            0 => g.range(2_300_000.0, 2_600_000.0),
            1 => 2_415_020.5 + g.range(-1.0, 1.0),
            2 => 2_488_070.5 + g.range(-1.0, 1.0),
            _ => g.range(2_415_020.5, 2_470_000.0),
        });
        let b = [scale(g.unit(), 0.01), scale(g.unit(), g.range(0.9, 1.1)), scale(g.unit(), g.range(0.8, 1.2))];
        FE.with(|c| c.set(b));
        // built-in ephemeris, default and custom models
        frames(&run, jd, &AstroContext::<DefaultEphemeris, DefaultEop>::new(), "default", &mut g, i);
        frames(&run, jd, &AstroContext::<DefaultEphemeris, DefaultEop>::new().with_model::<Iau2000B>(), "2000B", &mut g, i + 1);
        // bodies placed by the monitor
        if jd.raw().value() > 2_415_020.5 && jd.raw().value() < 2_488_070.5 {
            let fc = AstroContext::<FakeEph, DefaultEop>::with_types();
            frames(&run, jd, &fc, "fake", &mut g, i + 2);
            frames(&run, jd, &fc.with_model::<Iau2000A>(), "fake/2000A", &mut g, i + 3);
        }
        // default-context conveniences agree with the explicit context
        let ctx = AstroContext::<DefaultEphemeris, DefaultEop>::new();
        let x = scale(g.unit(), 2.0);
        let p = Position::<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>::new(x[0], x[1], x[2]);
        let q: Position<Geocentric, ICRS, AstronomicalUnit> = p.to(&jd);
        let r: Position<Geocentric, ICRS, AstronomicalUnit> = p.to_with(&jd, &ctx);
        run.within("default-ctx", norm(sub(a3(&q), a3(&r))), 0.0, || format!("{}", jd.raw().value()));
        let q: Position<Geocentric, EclipticMeanJ2000, AstronomicalUnit> = p.to_center(jd);
        let r: Position<Geocentric, EclipticMeanJ2000, AstronomicalUnit> = p.to_center_with((), jd, &ctx);
        run.within("default-ctx", norm(sub(a3(&q), a3(&r))), 0.0, || format!("{}", jd.raw().value()));
        let s0 = center_shift::<Marscentric, Geocentric, ICRS>(jd, &ctx);
        let s1 = center_shift_with::<Marscentric, Geocentric, ICRS, _>(jd, &ctx);
        run.check(s0 == s1, "default-ctx", || format!("{s0:?} {s1:?}"));
        for _ in 0..4 {
            let jd = JulianDate::new(g.range(2_440_000.0, 2_465_000.0));
            bodycentric::<DefaultEphemeris, Iau2000B>(&run, &mut g, jd, "default");
            bodycentric::<FakeEph, Iau2000A>(&run, &mut g, jd, "fake");
        }
    });
    run.require("shift", 2000);
    run.require("bodycentric", 1000);
    run.finish();
}
