//! C01: every supported frame rotation is a proper rotation, invertible, path-independent, and equals
//! the independently computed orientation of the two frames.
use siderust::astro::eop::{EopProvider, EopValues, IersEop, NullEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position, Vector};
use siderust::coordinates::centers::Barycentric;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::{DirectionAstroExt, PositionAstroExt, SphericalDirectionAstroExt, VectorAstroExt};
use siderust::qtty;
use siderust::JulianDate;
use std::collections::BTreeMap;
use vh::earthref as er;
use vh::la::*;
use vh::Run;

/// EOP provider with known constants: exercises the custom-provider path.
#[derive(Clone, Debug, Default)]
struct ConstEop {
    dut1: f64,
    xp: f64,
    yp: f64,
    dx: f64,
    dy: f64,
}
impl EopProvider for ConstEop {
    fn eop_at(&self, _jd: JulianDate) -> EopValues {
        EopValues {
            dut1: qtty::Seconds::new(self.dut1),
            xp: qtty::Arcseconds::new(self.xp),
            yp: qtty::Arcseconds::new(self.yp),
            dx: qtty::MilliArcseconds::new(self.dx),
            dy: qtty::MilliArcseconds::new(self.dy),
            lod: qtty::Seconds::new(0.0),
        }
    }
}
thread_local! { static CE: std::cell::RefCell<ConstEop> = std::cell::RefCell::new(ConstEop::default()); }
/// Zero-sized handle reading the thread's values, so that `AstroContext::default()` can be used.
#[derive(Clone, Debug, Default)]
struct TlsEop;
impl EopProvider for TlsEop {
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        CE.with(|c| c.borrow().eop_at(jd))
    }
}

type Table = BTreeMap<(&'static str, &'static str), M3>;

/// UT1 is only defined up to the bundled ΔT model's horizon (2034); frames tied to the rotating Earth need it.
const UT1_HORIZON: f64 = 2_463_200.5;
fn ut1(f: &str) -> bool {
    matches!(f, "TIRS" | "ITRF" | "ECEF")
}
fn all<Eop: EopProvider, N: NutationModel>(jd: f64, ctx: &AstroContext<DefaultEphemeris, Eop>) -> Table {
    let mut t = Table::new();
    let j = JulianDate::new(jd);
    macro_rules! go {
        ($($a:ident => $b:ident,)*) => {
            $( if jd < UT1_HORIZON || !(ut1(stringify!($a)) || ut1(stringify!($b))) { t.insert((stringify!($a), stringify!($b)), *frame_rotation_as::<$a, $b, N, DefaultEphemeris, Eop>(j, ctx).as_matrix()); } )*
        };
    }
    vh::for_all_frame_pairs!(go);
    t
}

struct Ref {
    jd: f64,
    nut: er::Nut,
    eop: ConstEop,
    ut1: f64,
}
fn rot_iau(a0: f64, d0: f64, w: f64) -> M3 {
    // ICRS -> body fixed: R3(W) R1(90-d0) R3(90+a0)
    let d = f64::to_radians;
    mm(&r3(d(w)), &mm(&r1(d(90.0 - d0)), &r3(d(90.0 + a0))))
}
impl Ref {
    /// ICRS -> F, and the tolerance (rad) of the published definition relative to the linear models.
    fn icrs_to(&self, f: &str, nutcache: (f64, f64)) -> (M3, f64) {
        let t = er::cent(self.jd);
        let bias = er::npb(0.0, 0.0, 0.0);
        let eps0 = 84381.406 * er::AS;
        let (dp, de) = nutcache;
        let e = er::obl(t);
        let mas = 1e-3 * er::AS;
        let (dpc, dec) = (dp + self.eop.dx * mas / e.sin(), de + self.eop.dy * mas);
        let dd = self.jd - 2_451_545.0;
        let tod = || er::npb(t, dpc, dec);
        let cirs = || {
            let m = tod();
            let (x, y) = (m[2][0], m[2][1]);
            er::c2ixys(x, y, er::s06(t, x, y))
        };
        let tirs = || mm(&r3(er::era(self.ut1)), &cirs());
        let itrf = || mm(&er::pom(self.eop.xp * er::AS, self.eop.yp * er::AS, -47e-6 * t * er::AS), &tirs());
        let body = |a0: f64, a1: f64, d0: f64, d1: f64, w0: f64, w1: f64| rot_iau(a0 + a1 * t, d0 + d1 * t, w0 + w1 * dd);
        match f {
            "ICRS" | "ICRF" | "GCRS" => (I3, 0.0),
            "EquatorialMeanJ2000" | "EME2000" => (bias, 1e-12),
            "EclipticMeanJ2000" => (mm(&r1(eps0), &bias), 1e-12),
            "EquatorialMeanOfDate" => (er::npb(t, 0.0, 0.0), 1e-12),
            "EquatorialTrueOfDate" => (tod(), 1e-10),
            "TEME" => (mm(&r3(dp * e.cos()), &tod()), 1e-10),
            "Galactic" => {
                // Hipparcos definition: pole (192.85948, 27.12825) deg, node l = 32.93192 deg
                let d = f64::to_radians;
                (mm(&r3(d(-32.93192)), &mm(&r1(d(90.0 - 27.12825)), &r3(d(90.0 + 192.85948)))), 1e-10)
            }
            "FK4B1950" => {
                let fk5 = [
                    [0.9999256794956877, -0.0111814832204662, -0.0048590038153592],
                    [0.0111814832391717, 0.9999374848933135, -0.0000271625947142],
                    [0.0048590037723143, -0.0000271702937440, 0.9999881946023742],
                ];
                (mm(&tr(&fk5), &bias), 1e-10)
            }
            "CIRS" => (cirs(), 1e-10),
            "TIRS" => (tirs(), 2e-8),
            "ITRF" | "ECEF" => (itrf(), 2e-8),
            "MercuryFixed" => (body(281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108), 5e-9),
            "VenusFixed" => (body(272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688), 5e-9),
            "MarsFixed" => (body(317.269202, -0.10927547, 54.432516, -0.05827105, 176.049863, 350.891982443297), 2.5e-5),
            "MoonPrincipalAxes" => (body(269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815), 5e-9),
            "JupiterSystemIII" => (body(268.056595, -0.006499, 64.495303, 0.002413, 284.95, 870.5360000), 1e-5),
            "SaturnFixed" => (body(40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024), 5e-9),
            "UranusFixed" => (body(257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928), 5e-9),
            "NeptuneFixed" => (body(299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757), 5e-9),
            "PlutoFixed" => (body(132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225), 5e-9),
            _ => unreachable!("{f}"),
        }
    }
}
const FRAMES: [&str; 24] = [
    "CIRS", "ECEF", "EME2000", "EclipticMeanJ2000", "EquatorialMeanJ2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate",
    "FK4B1950", "GCRS", "Galactic", "ICRF", "ICRS", "ITRF", "JupiterSystemIII", "MarsFixed", "MercuryFixed",
    "MoonPrincipalAxes", "NeptuneFixed", "PlutoFixed", "SaturnFixed", "TEME", "TIRS", "UranusFixed", "VenusFixed",
];

fn main() {
    let run = Run::new("C01", "each (frame pair, epoch, nutation model, EOP provider) evaluated once; distinct = distinct (pair, model, provider, epoch)");
    let n = run.size(800, 20000);
    run.require("pair", 20_000);
    run.par("C01", n, |i| {
        let mut g = run.rng_i("epochs", i);
        let jd = match i % 5 {
            0 => g.range(2_441_700.5, 2_461_000.5),
            1 => g.range(2_451_545.0 - 36525.0 * 2.0, 2_451_545.0 + 36525.0 * 2.0),
            2 => (g.range(2_441_700.5, 2_461_000.5)).floor() + 0.5,
            3 => 2_451_545.0 + g.range(-1.0, 1.0),
            _ => g.range(2_458_000.5, 2_461_000.5),
        };
        let utc = er::utc_from_tt(jd);
        let nutm = *g.pick(&[er::Nut::A00, er::Nut::B00, er::Nut::None06, er::Nut::A06]);
        let eopk = g.n(3);
        let ce = match eopk {
            0 => ConstEop::default(),
            1 => { let mut one = |a: f64| if g.p(0.2) { 0.0 } else { g.range(-a, a) }; ConstEop { dut1: one(0.9), xp: one(0.6), yp: one(0.6), dx: one(1.0), dy: one(1.0) } }
            _ => {
                let v = IersEop::new().try_eop_at(JulianDate::new(utc));
                match v {
                    Ok(v) => ConstEop { dut1: v.dut1.value(), xp: v.xp.value(), yp: v.yp.value(), dx: v.dx.value(), dy: v.dy.value() },
                    Err(_) => ConstEop::default(),
                }
            }
        };
        CE.with(|c| *c.borrow_mut() = ce.clone());
        macro_rules! tab {
            ($n:ty) => {
                match eopk {
                    0 => all::<NullEop, $n>(jd, &AstroContext::<DefaultEphemeris, NullEop>::with_types()),
                    1 => all::<TlsEop, $n>(jd, &AstroContext::<DefaultEphemeris, TlsEop>::with_types()),
                    _ => all::<IersEop, $n>(jd, &AstroContext::<DefaultEphemeris, IersEop>::with_types()),
                }
            };
        }
        let t = match nutm {
            er::Nut::A00 => tab!(Iau2000A),
            er::Nut::B00 => tab!(Iau2000B),
            er::Nut::None06 => tab!(Iau2006),
            er::Nut::A06 => tab!(Iau2006A),
        };
        let what = || format!("jd_tt={jd} nut={nutm:?} eop#{eopk} {ce:?}");
        // proper rotation + inverse
        for ((a, b), m) in &t {
            run.eval("pair", (a, b, nutm, eopk, jd.to_bits()));
            // the published FK4 matrix is orthonormal to 1.4e-10 only
            let tol = if *a == "FK4B1950" || *b == "FK4B1950" { 3e-10 } else { 1e-13 };
            run.within("orthonormal", mdiff(&mm(m, &tr(m)), &I3), tol, || format!("{a}->{b} {}", what()));
            run.within("det", (det(m) - 1.0).abs(), tol, || format!("{a}->{b} {}", what()));
            if let Some(inv) = t.get(&(b, a)) {
                run.within("inverse", mdiff(&mm(inv, m), &I3), tol, || format!("{a}<->{b} {}", what()));
            } else {
                run.violation("no-inverse", &format!("{a}->{b} has no reverse"));
            }
        }
        // path independence over every composable triple
        for ((a, b), m1) in &t {
            for c in FRAMES {
                if c == *a || c == *b {
                    continue;
                }
                if let (Some(m2), Some(m3)) = (t.get(&(*b, c)), t.get(&(*a, c))) {
                    run.count("triples", 1);
                    run.within(&format!("path/{a}->{c}"), mdiff(&mm(m2, m1), m3), if [*a, *b, c].contains(&"FK4B1950") { 6e-10 } else { 1e-12 }, || format!("{a}->{b}->{c} vs {a}->{c} {}", what()));
                }
            }
        }
        // definition oracle (the TT->UT1 conversion itself is monitored by C02)
        let ut1 = if jd < UT1_HORIZON { siderust::astro::earth_rotation::jd_ut1_from_tt_eop(JulianDate::new(jd), &ce.eop_at(JulianDate::new(jd))).value() } else { f64::NAN };
        let rf = Ref { jd, nut: nutm, eop: ce.clone(), ut1 };
        let nc = er::nutation(rf.nut, er::cent(jd));
        for f in FRAMES {
            if self::ut1(f) && jd >= UT1_HORIZON {
                continue;
            }
            let (r, tol) = rf.icrs_to(f, nc);
            if f == "ICRS" {
                continue;
            }
            let far = 1.0 + (er::cent(jd).abs() * 3.0).powi(2);
            run.eval("definition", (f, nutm, eopk, jd.to_bits()));
            if let Some(m) = t.get(&("ICRS", f)) {
                run.within(&format!("definition/{f}"), mdiff(m, &r), (tol * 1.5 + 3e-12) * far, || format!("ICRS->{f} {} got {m:?} want {r:?}", what()));
            }
        }
        // typed application: same matrix through every public entry point, lengths and angles preserved
        if i % 4 == 0 {
            let u = g.unit();
            let v = g.unit();
            let len = g.log(1e-3, 1e9);
            let j = JulianDate::new(jd);
            let ctx = AstroContext::<DefaultEphemeris, NullEop>::with_types();
            macro_rules! apply {
                ($($a:ident => $b:ident,)*) => {$( if jd < UT1_HORIZON || !(self::ut1(stringify!($a)) || self::ut1(stringify!($b))) {
                    let m = *frame_rotation_with::<$a, $b, _>(j, &ctx).as_matrix();
                    let nm = concat!(stringify!($a), "->", stringify!($b));
                    run.eval("apply", (nm, jd.to_bits()));
                    let want = mv(&m, u);
                    let d = Direction::<$a>::new(u[0], u[1], u[2]);
                    let d2: Direction<$b> = d.to_frame_with(&j, &ctx);
                    run.within("apply/direction", norm(sub([d2.x(), d2.y(), d2.z()], want)), 1e-14, || format!("{nm} jd {jd}"));
                    let s2 = SphericalDirectionAstroExt::to_frame_with::<$b, _>(&d.to_spherical(), &j, &ctx).to_cartesian();
                    run.within("apply/spherical", norm(sub([s2.x(), s2.y(), s2.z()], want)), 5e-8, || format!("{nm} jd {jd} {u:?}"));
                    let w = scale(v, len);
                    let p = Position::<Barycentric, $a, qtty::Kilometer>::new(qtty::Kilometers::new(w[0]), qtty::Kilometers::new(w[1]), qtty::Kilometers::new(w[2]));
                    let p2 = PositionAstroExt::to_frame_with::<$b, _>(&p, &j, &ctx);
                    let q = [p2.x().value(), p2.y().value(), p2.z().value()];
                    run.within("apply/position", norm(sub(q, mv(&m, w))) / len, 1e-14, || format!("{nm} jd {jd}"));
                    let vec = Vector::<$a, qtty::Kilometer>::new(qtty::Kilometers::new(w[0]), qtty::Kilometers::new(w[1]), qtty::Kilometers::new(w[2]));
                    let v2 = VectorAstroExt::to_frame_with::<$b, _>(&vec, &j, &ctx);
                    run.within("apply/vector", norm(sub([v2.x().value(), v2.y().value(), v2.z().value()], mv(&m, w))) / len, 1e-14, || format!("{nm} jd {jd}"));
                    // default context = default model and EOP
                    let dctx: AstroContext = AstroContext::default();
                    let md = *frame_rotation_with::<$a, $b, _>(j, &dctx).as_matrix();
                    let dd: Direction<$b> = DirectionAstroExt::to_frame(&d, &j);
                    run.within("apply/default", norm(sub([dd.x(), dd.y(), dd.z()], mv(&md, u))), 1e-14, || format!("{nm} jd {jd}"));
                    run.within("norm", (norm([d2.x(), d2.y(), d2.z()]) - 1.0).abs(), 3e-10, || format!("{nm} jd {jd}"));
                } )*};
            }
            vh::for_all_frame_pairs!(apply);
        }
        run.sample("pair", || what());
    });
    run.finish();
}
