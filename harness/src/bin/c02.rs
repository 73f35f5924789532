//! C02: Earth-orientation quantities (nutation, precession, obliquity, CIP/CIO, ERA, sidereal time, polar
//! motion, UT1, EOP coverage) agree with the IAU 2006/2000 models and with one another.
use siderust::astro::cio;
use siderust::astro::earth_rotation as rot;
use siderust::astro::eop::{EopProvider, EopValues, IersEop, NullEop};
use siderust::astro::era;
use siderust::astro::frame_bias::*;
use siderust::astro::nutation::*;
use siderust::astro::polar_motion as pm;
use siderust::astro::precession as pr;
use siderust::astro::sidereal as sid;
use siderust::coordinates::cartesian::Direction;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::ecliptic_of_date::*;
use siderust::qtty::{Arcseconds, MilliArcseconds, Radians, Seconds};
use siderust::JulianDate;
use std::f64::consts::{PI, TAU};
use vh::earthref as er;
use vh::la::*;
use vh::Run;

fn ang(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(TAU);
    d.min(TAU - d)
}
fn dir<F: ReferenceFrame>(v: [f64; 3]) -> Direction<F> {
    Direction::<F>::new(v[0], v[1], v[2])
}
fn arr<F: ReferenceFrame>(d: &Direction<F>) -> [f64; 3] {
    [d.x(), d.y(), d.z()]
}
/// Observed TT-UT1 (s) at 1 January, IERS.
const DT: [(f64, f64); 13] = [
    (2441317.5, 42.23), (2442413.5, 45.48), (2444239.5, 50.54), (2446066.5, 54.34), (2447892.5, 56.86), (2449718.5, 60.78),
    (2451544.5, 63.83), (2453371.5, 64.69), (2455197.5, 66.07), (2457023.5, 67.64), (2458849.5, 69.36), (2433282.5, 29.15), (2437300.5, 33.59),
];

fn golden(run: &Run) {
    let j = |m: f64| JulianDate::new(2_400_000.5 + m);
    let g = |n: &str, got: f64, want: f64, tol: f64| {
        run.eval("golden", n.to_string());
        run.within(&format!("golden/{n}"), (got - want).abs(), tol, || format!("{n}: got {got:e}, SOFA test value {want:e}"));
    };
    let a = Iau2000A::nutation(j(53736.0));
    g("nut00a.dpsi", a.dpsi.value(), -0.9630909107115518431e-5, 1e-13);
    g("nut00a.deps", a.deps.value(), 0.4063239174001678710e-4, 1e-13);
    let b = Iau2000B::nutation(j(53736.0));
    g("nut00b.dpsi", b.dpsi.value(), -0.9632552291148362783e-5, 3e-11);
    g("nut00b.deps", b.deps.value(), 0.4063197106621159367e-4, 3e-11);
    let c = Iau2006A::nutation(j(53736.0));
    g("nut06a.dpsi", c.dpsi.value(), -0.9630912025820308797e-5, 1e-13);
    g("nut06a.deps", c.deps.value(), 0.4063238496887249798e-4, 1e-13);
    g("era00", era::earth_rotation_angle(j(54388.0)).value(), 0.4022837240028158102, 1e-10);
    g("gmst06", sid::gmst_iau2006(j(53736.0), j(53736.0)).value(), 1.754174971870091203, 1e-10);
    g("gst06a", sid::gast_iau2006(j(53736.0), j(53736.0), c.dpsi, c.mean_obliquity).value(), 1.754166137675019159, 2e-10);
    g("sp00", pm::tio_locator_sp(j(52541.0)).value(), -0.6216698469981019309e-11, 1e-16);
    g("eect00", era::complementary_terms_iau2000(j(53736.0)).value(), 0.2046085004885125264e-8, 1e-18);
    g("obl06", pr::mean_obliquity_iau2006(j(54388.0)).value(), 0.4090749229387258204, 1e-14);
    let (ga, ph, ps, ep) = pr::precession_fw_angles(j(50123.9999));
    g("pfw06.gamb", ga.value(), -0.2243387670997995690e-5, 1e-15);
    g("pfw06.phib", ph.value(), 0.4091014602391312808, 1e-13);
    g("pfw06.psib", ps.value(), -0.9501954178013031895e-3, 1e-13);
    g("pfw06.epsa", ep.value(), 0.4091014316587367491, 1e-13);
    let x = cio::cip_cio(j(53736.0), c.dpsi, c.deps);
    g("xys06a.x", x.x.value(), 0.5791308482835292617e-3, 1e-13);
    g("xys06a.y", x.y.value(), 0.4020580099454020310e-4, 1e-13);
    g("xys06a.s", x.s.value(), -0.1220032294164579896e-7, 1.4e-8); // periodic terms of s omitted (documented)
    let q = cio::gcrs_to_cirs_matrix(
        siderust::qtty::Quantity::new(0.5791308486706011000e-3),
        siderust::qtty::Quantity::new(0.4020579816732961219e-4),
        Radians::new(-0.1220040848472271978e-7),
    );
    let want = [
        [0.9999998323037157138, 0.5581984869168499149e-9, -0.5791308491611282180e-3],
        [-0.2384261642670440317e-7, 0.9999999991917468964, -0.4020579110169668931e-4],
        [0.5791308486706011000e-3, 0.4020579816732961219e-4, 0.9999998314954627590],
    ];
    g("c2ixys", mdiff(q.as_matrix(), &want), 0.0, 1e-12);
}

fn main() {
    let mut run = Run::new("C02", "each (quantity, epoch, arguments) is one evaluation; distinct by quantity and epoch bits");
    run.assume("No IERS EOP bundle is available offline, so the IERS provider is observed only in its no-coverage state; real EOP values enter through a custom provider.");
    golden(&run);
    let n = run.size(20_000, 600_000);
    run.require("epoch", n as u64);
    run.require("golden", 20);
    run.par("C02", n, |i| {
        let mut g = run.rng_i("c02", i);
        let jd = match i % 4 {
            0 => g.range(2_441_700.5, 2_461_000.5),
            1 => 2_451_545.0 + 36525.0 * g.range(-20.0, 20.0),
            2 => 2_451_545.0 + 36525.0 * g.range(-2.0, 0.33),
            _ => (g.range(2_441_700.5, 2_461_000.5) * 2.0).floor() / 2.0,
        };
        let j = JulianDate::new(jd);
        let t = er::cent(jd);
        let far = 1.0 + t.abs().powi(3);
        let w = || format!("jd_tt={jd}");
        run.eval("epoch", jd.to_bits());
        // nutation models
        macro_rules! nut {
            ($m:ty, $k:expr, $n:expr) => {{
                let a = <$m>::nutation(j);
                let (p, e) = er::nutation($k, t);
                run.within(concat!("nutation/", $n), (a.dpsi.value() - p).abs().max((a.deps.value() - e).abs()), 1e-13 * far + 1e-12, || format!("{} got {:e},{:e} want {p:e},{e:e}", w(), a.dpsi.value(), a.deps.value()));
                run.within("mean_obliquity", (a.mean_obliquity.value() - er::obl(t)).abs(), 1e-14 * far, w);
                run.within("true_obliquity", (a.true_obliquity().value() - er::obl(t) - a.deps.value()).abs(), 1e-14 * far, w);
                a
            }};
        }
        let na = nut!(Iau2000A, er::Nut::A00, "2000A");
        let nb = nut!(Iau2000B, er::Nut::B00, "2000B");
        let n6 = nut!(Iau2006, er::Nut::None06, "2006");
        let n6a = nut!(Iau2006A, er::Nut::A06, "2006A");
        if (-0.05..0.5).contains(&t) {
            // 2000B is published to agree with 2000A within 1 mas over 1995-2050
            run.within("nutation/B-vs-A", (na.dpsi.value() - nb.dpsi.value()).abs().max((na.deps.value() - nb.deps.value()).abs()), 3e-3 * er::AS, w);
        }
        let fb = nutation_iau2000b(j);
        run.within("nutation/fn2000b", (fb.dpsi.value() - nb.dpsi.value()).abs() + (fb.deps.value() - nb.deps.value()).abs() + (fb.dpsi_deg().value().to_radians() - fb.dpsi.value()).abs() + (fb.deps_deg().value().to_radians() - fb.deps.value()).abs() + (fb.true_obliquity().value() - nb.true_obliquity().value()).abs(), 1e-15, w);
        let e = er::obl(t);
        let nm = mm(&r1(-(e + nb.deps.value())), &mm(&r3(-nb.dpsi.value()), &r1(e)));
        run.within("nutation/matrix", mdiff(nutation_rotation_iau2000b(j).as_matrix(), &nm), 1e-13 * far, w);
        // precession and ecliptic matrices
        let fw = er::fw(t);
        let (a, b, c, d) = pr::precession_fw_angles(j);
        for (k, v) in [a, b, c, d].iter().enumerate() {
            run.within("fw_angles", (v.value() - fw[k]).abs(), 1e-13 * far, || format!("{} #{k}", w()));
        }
        run.within("obliquity", (pr::mean_obliquity_iau2006(j).value() - e).abs(), 1e-14 * far, w);
        let pm0 = er::npb(t, 0.0, 0.0);
        run.within("precession", mdiff(pr::precession_matrix_iau2006(j).as_matrix(), &pm0), 1e-13 * far, w);
        let (p, q) = (g.range(-1e-4, 1e-4), g.range(-1e-4, 1e-4));
        let npb = er::npb(t, p, q);
        run.within("npb", mdiff(pr::precession_nutation_matrix(j, Radians::new(p), Radians::new(q)).as_matrix(), &npb), 1e-13 * far, w);
        let ecm = mm(&r1(e), &pm0);
        run.within("ecliptic/mean", mdiff(pr::gcrs_to_ecliptic_of_date_matrix(j).as_matrix(), &ecm), 1e-13 * far, w);
        run.within("ecliptic/mean-inv", mdiff(pr::ecliptic_of_date_to_gcrs_matrix(j).as_matrix(), &tr(&ecm)), 1e-13 * far, w);
        let ect = mm(&r1(e + nb.deps.value()), &er::npb(t, nb.dpsi.value(), nb.deps.value()));
        run.within("ecliptic/true", mdiff(pr::gcrs_to_true_ecliptic_of_date_matrix(j).as_matrix(), &ect), 1e-13 * far, w);
        run.within("ecliptic/true-inv", mdiff(pr::true_ecliptic_of_date_to_gcrs_matrix(j).as_matrix(), &tr(&ect)), 1e-13 * far, w);
        run.within("ecliptic/eq-mean", mdiff(pr::mean_equatorial_to_ecliptic_of_date_matrix(j).as_matrix(), &r1(e)), 1e-13 * far, w);
        run.within("ecliptic/eq-mean-inv", mdiff(pr::ecliptic_of_date_to_mean_equatorial_matrix(j).as_matrix(), &r1(-e)), 1e-13 * far, w);
        let eqt = mm(&r1(e + nb.deps.value()), &nm);
        run.within("ecliptic/eq-true", mdiff(pr::mean_equatorial_to_true_ecliptic_of_date_matrix(j).as_matrix(), &eqt), 1e-13 * far, w);
        run.within("ecliptic/eq-true-inv", mdiff(pr::true_ecliptic_of_date_to_mean_equatorial_matrix(j).as_matrix(), &tr(&eqt)), 1e-13 * far, w);
        // direction helpers (SOFA ecm06 convention); 1e-7 only where asin is ill-conditioned
        let u = if g.n(5) == 0 { let s = if g.n(2) == 0 { 1.0 } else { -1.0 }; let r = g.unit(); let r = scale(r, 1e-4); let v = [r[0], r[1], s]; scale(v, 1.0 / norm(v)) } else { g.unit() };
        let tolu = 5e-8;
        run.within("ecldir/eq", norm(sub(arr(&dir::<EquatorialMeanOfDate>(u).to_ecliptic_of_date(&j)), mv(&r1(e), u))), tolu, || format!("{} {u:?}", w()));
        run.within("ecldir/icrs", norm(sub(arr(&dir::<ICRS>(u).to_ecliptic_of_date(&j)), mv(&ecm, u))), tolu, || format!("{} {u:?}", w()));
        run.within("ecldir/gcrs", norm(sub(arr(&dir::<GCRS>(u).to_ecliptic_of_date(&j)), mv(&ecm, u))), tolu, || format!("{} {u:?}", w()));
        run.within("ecldir/to-eq", norm(sub(arr(&dir::<EclipticTrueOfDate>(u).to_equatorial_mean_of_date(&j)), mv(&r1(-e), u))), tolu, || format!("{} {u:?}", w()));
        run.within("ecldir/to-icrs", norm(sub(arr(&FromEclipticTrueOfDate::to_icrs(&dir::<EclipticTrueOfDate>(u), &j)), mv(&tr(&ecm), u))), tolu, || format!("{} {u:?}", w()));
        // CIP / CIO
        let k = cio::cip_cio(j, Radians::new(p), Radians::new(q));
        run.within("cip", (k.x.value() - npb[2][0]).abs().max((k.y.value() - npb[2][1]).abs()), 1e-13 * far, w);
        let (kx, ky) = cio::cip_xy(j, Radians::new(p), Radians::new(q));
        run.within("cip_xy", (k.x.value() - kx.value()).abs() + (k.y.value() - ky.value()).abs(), 0.0, w);
        let s = er::s06(t, npb[2][0], npb[2][1]);
        run.within("cio_s", (k.s.value() - s).abs().max((cio::cio_locator_s(j, kx, ky).value() - s).abs()), 1e-14 * far, w);
        let (x, y, s) = (g.range(-0.02, 0.02), g.range(-0.02, 0.02), g.range(-1e-4, 1e-4));
        let q0 = cio::gcrs_to_cirs_matrix(siderust::qtty::Quantity::new(x), siderust::qtty::Quantity::new(y), Radians::new(s));
        run.within("c2ixys", mdiff(q0.as_matrix(), &er::c2ixys(x, y, s)), 1e-14, || format!("x={x} y={y} s={s}"));
        // polar motion
        let (xp, yp) = (g.range(-0.7, 0.7), g.range(-0.7, 0.7));
        let sp = -47e-6 * t * er::AS;
        run.within("tio", (pm::tio_locator_sp(j).value() - sp).abs(), 1e-20 + 1e-12 * sp.abs(), w);
        // the order of the two small rotations differs from IERS (5.3) at second order (xp*yp) only
        let tolp_of = |sp: f64| (xp * yp * er::AS * er::AS).abs() * 1.01 + (xp.abs() + yp.abs()) * er::AS * sp.abs() * 1.01 + 5e-15;
        let tolp = tolp_of(sp);
        let wm = er::pom(xp * er::AS, yp * er::AS, sp);
        run.within("polar/eop", mdiff(pm::polar_motion_matrix_from_eop(Arcseconds::new(xp), Arcseconds::new(yp), j).as_matrix(), &wm), tolp, || format!("{} xp={xp} yp={yp}", w()));
        let s2 = g.range(-1e-9, 1e-9);
        run.within("polar/raw", mdiff(pm::polar_motion_matrix(Radians::new(xp * er::AS), Radians::new(yp * er::AS), Radians::new(s2)).as_matrix(), &er::pom(xp * er::AS, yp * er::AS, s2)), tolp_of(s2), || format!("{} xp={xp} yp={yp}", w()));
        // ERA: reference, split invariance, rate
        let th = era::earth_rotation_angle(j).value();
        run.check((0.0..TAU).contains(&th), "era/range", || format!("{} {th}", w()));
        let tole = 2e-9 * (1.0 + t.abs()); // f64 Julian Date resolution
        run.within("era", ang(th, er::era(jd)), 2e-9 * (1.0 + t.abs() / 10.0), w);
        let d1 = if g.n(2) == 0 { 2_400_000.5 } else { g.range(-1e6, 3e6).floor() };
        let d2 = jd - d1;
        run.within("era/split", ang(era::earth_rotation_angle_parts(d1, d2).value(), th).max(ang(era::earth_rotation_angle_parts(d2, d1).value(), th)), tole * 3.0, || format!("{} d1={d1}", w()));
        let f = (g.f() * 1e6).floor() / 1e6;
        let dd = era::earth_rotation_angle_parts(2_451_545.0, f).value();
        run.within("era/precise", ang(dd, TAU * (0.7790572732640 + 1.00273781191135448 * f)), 1e-12, || format!("f={f}"));
        // sidereal time
        let ut = jd - g.range(0.0, 80.0) / 86400.0;
        let ju = JulianDate::new(ut);
        let gm = sid::gmst_iau2006(ju, j).value();
        run.check((0.0..TAU).contains(&gm), "gmst/range", || format!("{} {gm}", w()));
        run.within("gmst", ang(gm, er::gmst06(ut, t)), 1e-9 * (1.0 + t.abs() / 10.0) + 1e-12 * far, w);
        let ee = era::equation_of_the_equinoxes_iau2000(j, Radians::new(p), Radians::new(e)).value();
        run.within("eqeq", (ee - p * e.cos() - er::eect(t)).abs(), 6e-11 + 1e-15 * far, w);
        run.within("eqeq/ct", (era::complementary_terms_iau2000(j).value() - er::eect(t)).abs(), 6e-11, w);
        run.within("eqeq/classic", (era::equation_of_the_equinoxes(Radians::new(p), Radians::new(e)).value() - p * e.cos()).abs(), 1e-16, w);
        run.within("eqor", (era::equation_of_the_origins_approx(Radians::new(p), Radians::new(e), Radians::new(q)).value() + p * e.cos() + q).abs(), 1e-16, w);
        let ga = sid::gast_iau2006(ju, j, Radians::new(p), Radians::new(e)).value();
        run.check((0.0..TAU).contains(&ga), "gast/range", || format!("{} {ga}", w()));
        run.within("gast", ang(ga, gm + ee), 1e-14, w);
        let gb = sid::gast_iau2006a(ju, j).value();
        let want = gm + n6a.dpsi.value() * e.cos() + er::eect(t);
        run.within("gast/default", ang(gb, want), 1.2e-8 * (1.0 + t.abs()), w); // 2000B vs 2006A < 2 mas
        // CIO chain == equinox chain (to the omitted periodic part of s, 2.7 mas)
        if t.abs() < 3.0 {
            let (np, ne) = (na.dpsi, na.deps);
            let c2 = cio::cip_cio(j, np, ne);
            let cirs = cio::gcrs_to_cirs_matrix(c2.x, c2.y, c2.s);
            let via_cio = mm(&r3(era::earth_rotation_angle(ju).value()), cirs.as_matrix());
            let gast = sid::gast_iau2006(ju, j, np, na.mean_obliquity).value();
            let via_eq = mm(&r3(gast), pr::precession_nutation_matrix(j, np, ne).as_matrix());
            run.eval("cio-vs-equinox", jd.to_bits());
            run.within("cio-vs-equinox", mdiff(&via_cio, &via_eq), 2.0e-8 * (1.0 + t.abs()), w);
        }
        let _ = n6;
        // UT1 / EOP
        if jd < 2_463_200.0 && jd > 2_451_545.0 - 36525.0 * 18.0 {
            let u1 = rot::jd_ut1_from_tt(j).value();
            let dut1 = g.range(-0.9, 0.9);
            let mut ev = EopValues::default();
            ev.dut1 = Seconds::new(dut1);
            let u2 = rot::jd_ut1_from_tt_eop(j, &ev).value();
            run.eval("ut1", jd.to_bits());
            run.within("ut1/dut1", ((u2 - u1) * 86400.0 - dut1).abs(), 2e-4, || format!("{} dut1={dut1}", w()));
            run.within("ut1/utc-alias", (rot::jd_utc_from_tt(j).value() - u1).abs() + (rot::jd_utc_from_tt_delta_t(j).value() - u1).abs(), 0.0, w);
            if (2_441_499.5..2_460_000.5).contains(&jd) {
                let utc = er::utc_from_tt(jd);
                run.within("ut1/near-utc", (u1 - utc).abs() * 86400.0, 1.05, || format!("{} ut1-utc={}", w(), (u1 - utc) * 86400.0));
            }
            run.within("gmst_from_tt", ang(rot::gmst_from_tt(j).value(), er::gmst06(u1, t)).max(ang(rot::gmst_default(j).value(), er::gmst06(u1, t))), 1e-9 * (1.0 + t.abs() / 10.0) + 1e-12 * far, w);
            run.within("gmst_from_tt_eop", ang(rot::gmst_from_tt_eop(j, &ev).value(), er::gmst06(u2, t)), 1e-9 * (1.0 + t.abs() / 10.0) + 1e-12 * far, w);
        }
        // without coverage the fallible lookups refuse and never fabricate values
        let iers = IersEop::new();
        let covered = iers.mjd_range().is_some_and(|(a, b)| (a.value()..=b.value()).contains(&(jd - 2_400_000.5)));
        run.eval("coverage", (covered, jd.to_bits()));
        if !covered {
            run.check(iers.try_eop_at(j).is_err(), "coverage/try_eop_at", w);
            run.check(iers.is_empty() == iers.mjd_range().is_none() && (iers.len() == 0) == iers.is_empty(), "coverage/empty", w);
            let ctx = AstroContext::<DefaultEphemeris, IersEop>::with_types();
            run.check(ctx.try_eop_at(j).is_err(), "coverage/ctx", w);
            if iers.is_empty() {
                run.check(ctx.try_eop_at_tt(j).is_err(), "coverage/ctx_tt", w);
                run.check(rot::try_jd_utc_from_tt(j).is_err(), "coverage/utc", w);
                run.check(rot::try_gmst_with_eop(j).is_err(), "coverage/gmst", w);
            }
            let z = iers.eop_at(j);
            run.check(z.dut1.value() == 0.0 && z.xp.value() == 0.0 && z.yp.value() == 0.0 && z.dx.value() == 0.0 && z.dy.value() == 0.0, "coverage/zero", w);
        }
        let z = NullEop.try_eop_at(j);
        run.check(z.is_ok_and(|z| z.dut1.value() == 0.0 && z.xp.value() == 0.0 && z.yp.value() == 0.0 && z.dx.value() == 0.0 && z.dy.value() == 0.0 && z.lod.value() == 0.0), "null-eop", w);
        let ev = EopValues { dut1: Seconds::new(g.range(-0.9, 0.9)), xp: Arcseconds::new(xp), yp: Arcseconds::new(yp), dx: MilliArcseconds::new(0.0), dy: MilliArcseconds::new(0.0), lod: Seconds::new(0.0) };
        run.within("eop/jd_ut1", ((ev.jd_ut1(j).value() - jd) * 86400.0 - ev.dut1.value()).abs(), 1e-4, w);
        run.sample("epoch", || format!("{} dpsi00A={:e} gmst={gm}", w(), na.dpsi.value()));
    });
    for (jd, dt) in DT {
        let got = (jd - rot::jd_ut1_from_tt(JulianDate::new(jd)).value()) * 86400.0;
        run.eval("deltat", jd.to_bits());
        run.within("deltat", (got - dt).abs(), 0.5, || format!("TT-UT1 at {jd}: {got} s, IERS {dt} s"));
    }
    let b = er::npb(0.0, 0.0, 0.0);
    let m = |r: affn::Rotation3| *r.as_matrix();
    run.eval("bias", 0);
    run.within("bias", mdiff(&m(<GCRS as GcrsFrameBias>::frame_bias_to_eme2000()), &b), 3e-12, String::new);
    run.within("bias", mdiff(&m(<ICRS as IcrsFrameBias>::frame_bias_to_eme2000()), &b), 3e-12, String::new);
    run.within("bias", mdiff(&m(<EME2000 as Eme2000FrameBias>::frame_bias_to_gcrs()), &tr(&b)), 3e-12, String::new);
    run.within("bias", mdiff(&m(<EME2000 as Eme2000FrameBias>::frame_bias_to_icrs()), &tr(&b)), 3e-12, String::new);
    let _ = PI;
    run.finish();
}
