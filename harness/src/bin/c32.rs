//! C32: Earth-orientation data loaded at run time is what the engine uses, in full and at once.
use sha2::{Digest, Sha256};
use siderust::astro::earth_rotation as rot;
use siderust::astro::eop::{EopError, EopProvider, EopValues, IersEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position, Vector};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris, DynAstroContext};
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::DirectionAstroExt as X;
use siderust::coordinates::transform::{PositionAstroExt, VectorAstroExt};
use siderust::event::horizontal as ev;
use siderust::qtty::{self, Degrees, Kilometer, Meters};
use siderust::JulianDate;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use vh::earthref as er;
use vh::la::*;
use vh::{Rng, Run};

/// One generated IERS bundle: daily rows from `first` on (UTC MJD), values exactly as printed.
#[derive(Clone, Debug, Default)]
struct Bundle { first: i64, rows: Vec<Row>, dt: Vec<(f64, f64)> }
#[derive(Clone, Copy, Debug, Default)]
struct Row { xp: f64, yp: f64, dut1: f64, lod: f64, dx: f64, dy: f64, blank_pole: bool, blank_cip: bool }
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct E { dut1: f64, xp: f64, yp: f64, dx: f64, dy: f64, lod: f64 }

const LEAPS: [(i64, i32, u8); 28] = [
    (41317, 1972, 1), (41499, 1972, 7), (41683, 1973, 1), (42048, 1974, 1), (42413, 1975, 1), (42778, 1976, 1), (43144, 1977, 1), (43509, 1978, 1), (43874, 1979, 1),
    (44239, 1980, 1), (44786, 1981, 7), (45151, 1982, 7), (45516, 1983, 7), (46247, 1985, 7), (47161, 1988, 1), (47892, 1990, 1), (48257, 1991, 1), (48804, 1992, 7),
    (49169, 1993, 7), (49534, 1994, 7), (50083, 1996, 1), (50630, 1997, 7), (51179, 1999, 1), (53736, 2006, 1), (54832, 2009, 1), (56109, 2012, 7), (57204, 2015, 7), (57754, 2017, 1),
];
fn leap_mjd(m: f64) -> f64 { er::leap(m + 2_400_000.5) }
/// TAI-UT1 of the generated Earth (s): between leap seconds it grows by one second, with wiggles.
fn tai_ut1(m: f64, ph: f64) -> f64 {
    let i = LEAPS.iter().rposition(|l| m >= l.0 as f64).unwrap_or(0);
    let a = LEAPS[i].0 as f64;
    let base = 10.0 + i as f64;
    let b = LEAPS.get(i + 1).map_or(a + 6000.0, |l| l.0 as f64);
    base - 0.5 + ((m - a) / (b - a)).clamp(0.0, 1.0) + 0.3 * (m / 58.0 + ph).sin() + 0.05 * (m / 3.1).sin()
}
fn rnd(x: f64, s: f64) -> f64 { (x * s).round() / s }
impl Bundle {
    fn new(g: &mut Rng) -> Bundle {
        let first = match g.n(4) { 0 => 41684, 1 => LEAPS[2 + g.n(26)].0 - g.int(1, 60), _ => g.int(41684, 60500) };
        let n = match g.n(4) { 0 => g.int(2, 10), 1 => g.int(2, 400), _ => g.int(1000, 6000) };
        let n = n.min(61500 - first);
        let ph = g.range(0.0, 6.3);
        let (amp, pole_end, cip_end) = (g.pick(&[0.1, 0.6, 2.0]).to_owned(), if g.p(0.4) { n / 2 } else { n }, if g.p(0.5) { n / 3 } else { n });
        let rows = (0..n).map(|k| {
            let m = (first + k) as f64;
            Row {
                xp: rnd(g.range(-amp, amp), 1e6), yp: rnd(g.range(-amp, amp), 1e6), dut1: rnd(leap_mjd(m) - tai_ut1(m, ph), 1e7), lod: rnd(g.range(-4.0, 4.0), 1e4),
                dx: rnd(g.range(-1.5, 1.5), 1e3), dy: rnd(g.range(-1.5, 1.5), 1e3), blank_pole: k > pole_end, blank_cip: k > cip_end,
            }
        }).collect();
        // monthly observed TT-UT1, as in the USNO table
        let mut dt = vec![];
        let mut m = 41714.0;
        while m < 61800.0 { dt.push((m, rnd(32.184 + tai_ut1(m, ph), 1e4))); m += 30.0; }
        Bundle { first, rows, dt }
    }
    fn last(&self) -> i64 { self.first + self.rows.len() as i64 - 1 }
    fn text(&self) -> String {
        let mut s = String::new();
        for (k, r) in self.rows.iter().enumerate() {
            let mut line = vec![b' '; 187];
            let mut put = |at: usize, w: usize, t: String| { assert!(t.len() <= w, "{t:?}"); let p = at - 1 + w - t.len(); line[p..p + t.len()].copy_from_slice(t.as_bytes()); };
            put(8, 8, format!("{:.2}", (self.first + k as i64) as f64));
            put(17, 1, "I".into());
            if !r.blank_pole { put(19, 9, format!("{:.6}", r.xp)); put(38, 9, format!("{:.6}", r.yp)); }
            put(58, 1, if k % 3 == 2 { "P" } else { "I" }.into());
            put(59, 10, format!("{:.7}", r.dut1));
            put(80, 7, format!("{:.4}", r.lod));
            put(96, 1, "I".into());
            if !r.blank_cip { put(98, 9, format!("{:.3}", r.dx)); put(117, 9, format!("{:.3}", r.dy)); }
            s.push_str(std::str::from_utf8(&line).unwrap());
            s.push('\n');
        }
        s
    }
    /// Linear in UTC between daily rows; UT1-TAI, not UT1-UTC, is what varies linearly.
    fn at(&self, mjd: f64) -> Option<E> {
        let k = mjd.floor() as i64 - self.first;
        if k < 0 || mjd > self.last() as f64 { return None; }
        let (a, m) = (self.rows[k as usize], mjd.floor());
        let b = *self.rows.get(k as usize + 1).unwrap_or(&a);
        let f = mjd - m;
        let l = |x: f64, y: f64| x + f * (y - x);
        let cont = l(a.dut1 - leap_mjd(m), b.dut1 - leap_mjd(m + 1.0));
        let (np, nc) = (a.blank_pole || b.blank_pole, a.blank_cip || b.blank_cip);
        let z = |n: bool, v: f64| if n { 0.0 } else { v };
        Some(E { dut1: if f == 0.0 { a.dut1 } else { cont + leap_mjd(mjd) }, xp: z(np, l(a.xp, b.xp)), yp: z(np, l(a.yp, b.yp)), dx: z(nc, l(a.dx, b.dx)), dy: z(nc, l(a.dy, b.dy)), lod: l(a.lod, b.lod) * 1e-3 })
    }
    fn delta_t(&self, jd_tt: f64) -> f64 {
        let mut m = jd_tt - 2_400_000.5;
        let mut d = 0.0;
        for _ in 0..3 {
            let i = self.dt.partition_point(|p| p.0 <= m).clamp(1, self.dt.len() - 1);
            let (a, b) = (self.dt[i - 1], self.dt[i]);
            d = a.1 + (m - a.0) / (b.0 - a.0) * (b.1 - a.1);
            m = jd_tt - 2_400_000.5 - d / 86400.0;
        }
        d
    }
    fn load(&self, dir: &std::path::Path) -> Result<(), String> {
        let b = dir.join("bundle");
        std::fs::create_dir_all(&b).map_err(|e| e.to_string())?;
        let mon = |m: u8| if m == 1 { "Jan.  1" } else { "Jul.  1" };
        let mut u = String::from(" UTC-TAI.history\n");
        for (k, l) in LEAPS.iter().enumerate() {
            let end = LEAPS.get(k + 1).map_or(String::new(), |n| format!(" {}  {} ", n.1, mon(n.2)));
            u.push_str(&format!(" {}  {} -{end}  {}s\n", l.1, mon(l.2), 10 + k));
        }
        let mut o = String::new();
        for (m, d) in &self.dt {
            let (y, mo, da) = ymd(*m as i64);
            o.push_str(&format!(" {y} {mo:2} {da:2}  {d:.4}\n"));
        }
        let p = format!("MJD\tYear\tTT-UT\tUT1-UTC\tError\n{:.3}\t2027.00\t{:.2}\t0.0\t0.0\n{:.3}\t2030.00\t{:.2}\t0.0\t0.0\n", 62000.0, 70.0, 63100.0, 71.0);
        let e = self.text();
        let sha = |t: &str| Sha256::digest(t.as_bytes()).iter().map(|b| format!("{b:02x}")).collect::<String>();
        let prov = format!("fetched_utc = \"2026-01-01T00:00:00\"\nutc_tai_sha256 = \"{}\"\ndelta_t_observed_sha256 = \"{}\"\ndelta_t_predictions_sha256 = \"{}\"\neop_finals_sha256 = \"{}\"\n", sha(&u), sha(&o), sha(&p), sha(&e));
        for (n, t) in [("UTC-TAI.history", &u), ("deltat.data", &o), ("deltat.preds", &p), ("finals2000A.all", &e), ("time_data.provenance.toml", &prov)] {
            std::fs::write(b.join(n), t).map_err(|e| e.to_string())?;
        }
        std::panic::catch_unwind(tempoch::update_runtime_time_data).map_err(|_| "panic".to_string())?.map_err(|e| e.to_string())
    }
}
fn ymd(mjd: i64) -> (i64, i64, i64) {
    // civil from days (Hinnant), epoch 1970-01-01 = MJD 40587
    let z = mjd - 40587 + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}

fn values(e: &E) -> EopValues {
    EopValues { dut1: qtty::Seconds::new(e.dut1), xp: qtty::Arcseconds::new(e.xp), yp: qtty::Arcseconds::new(e.yp), dx: qtty::MilliArcseconds::new(e.dx), dy: qtty::MilliArcseconds::new(e.dy), lod: qtty::Seconds::new(e.lod) }
}
fn of(v: &EopValues) -> E { E { dut1: v.dut1.value(), xp: v.xp.value(), yp: v.yp.value(), dx: v.dx.value(), dy: v.dy.value(), lod: v.lod.value() } }
fn gap(a: &E, b: &E) -> f64 {
    [(a.dut1 - b.dut1) * 10.0, a.xp - b.xp, a.yp - b.yp, a.dx - b.dx, a.dy - b.dy, (a.lod - b.lod) * 1e3].iter().fold(0.0, |m: f64, d| m.max(d.abs()))
}
thread_local! { static CE: std::cell::RefCell<E> = std::cell::RefCell::new(E::default()); }
/// The monitor's own provider: hands out independently interpolated values.
#[derive(Clone, Debug, Default)]
struct Own;
impl EopProvider for Own {
    fn eop_at(&self, _jd: JulianDate) -> EopValues { CE.with(|c| values(&c.borrow())) }
}
type Table = BTreeMap<(&'static str, &'static str), M3>;
fn all<Eop: EopProvider, N: NutationModel>(jd: f64, ctx: &AstroContext<DefaultEphemeris, Eop>) -> Table {
    let mut t = Table::new();
    let j = JulianDate::new(jd);
    macro_rules! go { ($($a:ident => $b:ident,)*) => { $( t.insert((stringify!($a), stringify!($b)), *frame_rotation_as::<$a, $b, N, DefaultEphemeris, Eop>(j, ctx).as_matrix()); )* }; }
    vh::for_all_frame_pairs!(go);
    t
}
fn nutation<N: NutationModel>(jd: f64) -> (f64, f64) { let n = N::nutation(JulianDate::new(jd)); (n.dpsi.value(), n.deps.value()) }
fn gast(u: f64, jd: f64, dpsi: f64) -> f64 { let t = er::cent(jd); er::gmst06(u, t) + dpsi * er::obl(t).cos() + er::eect(t) }
fn ang(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(std::f64::consts::TAU); d.min(std::f64::consts::TAU - d) }
fn neu(v: V3, lst: f64, lat: f64) -> V3 {
    let (sp, cp) = lat.to_radians().sin_cos();
    let (sl, cl) = lst.sin_cos();
    let (x, y) = (v[0] * cl + v[1] * sl, -v[0] * sl + v[1] * cl);
    [-sp * x + cp * v[2], y, cp * x + sp * v[2]]
}

fn lookup(run: &Run, g: &mut Rng, b: &Bundle) {
    let iers = IersEop::new();
    let (a, z) = (b.first as f64, b.last() as f64);
    let mjd = match g.n(8) {
        0 => a, 1 => z, 2 => g.range(a - 400.0, a) - 1e-6, 3 => g.range(z + 1.0, z + 400.0), 4 => g.range(a, z).floor(),
        5 => { let l = LEAPS[g.n(28)].0 as f64; if l > a + 1.0 && l < z - 1.0 { l + g.range(-1.0, 1.0) } else { g.range(a, z) } }
        _ => g.range(a, z),
    };
    let jd = mjd + 2_400_000.5;
    let mjd = jd - 2_400_000.5;
    let j = JulianDate::new(jd);
    let got = iers.try_eop_at(j);
    let ctx = AstroContext::<DefaultEphemeris, IersEop>::with_types();
    let dynctx = DynAstroContext::with_ephemeris_and_eop(Box::new(siderust::ephemeris::Vsop87Ephemeris), IersEop::new());
    let w = || format!("UTC MJD {mjd} of table {a}..{z}: {got:?}");
    run.eval("lookup", mjd.to_bits());
    match b.at(mjd) {
        Some(want) => {
            let Ok(v) = &got else { run.violation("lookup/refused", &w()); return; };
            run.count("covered", 1);
            run.within("lookup/value", gap(&of(v), &want), 2e-9, || format!("{} want {want:?}", w()));
            run.within("lookup/total", gap(&of(&iers.eop_at(j)), &want), 2e-9, w);
            run.check(of(&ctx.eop_at(j)) == of(v) && ctx.try_eop_at(j).is_ok_and(|x| of(&x) == of(v)) && of(&dynctx.eop_at(j)) == of(v) && dynctx.try_eop_at(j).is_ok_and(|x| of(&x) == of(v)) && ctx.eop().try_eop_at(j).is_ok_and(|x| of(&x) == of(v)), "lookup/context", w);
        }
        None if mjd < a || mjd >= z + 1.0 => {
            run.count("uncovered", 1);
            run.check(matches!(got, Err(EopError::NoData { jd_utc, mjd_utc }) if jd_utc == jd && mjd_utc == mjd), "lookup/fabricated", w);
            run.check(of(&iers.eop_at(j)) == E::default() && ctx.try_eop_at(j).is_err() && dynctx.try_eop_at(j).is_err(), "lookup/fallback", w);
        }
        None => {}
    }
    run.check(iers.mjd_range().is_some_and(|(p, q)| p.value() == a && q.value() == z) && iers.len() == b.rows.len() && !iers.is_empty(), "range", || format!("{:?} {} {}", iers.mjd_range(), iers.len(), w()));
}

fn engine<N: NutationModel>(run: &Run, g: &mut Rng, b: &Bundle) {
    let (a, z) = (b.first as f64, b.last() as f64);
    // keep clear of the leap instant itself (a double Julian date resolves 40 us) and of the last row
    let Some(utc) = (0..20).map(|_| { let l = LEAPS[g.n(28)].0 as f64; if g.p(0.2) && l > a + 1.0 && l < z - 1.0 { l + g.range(-0.5, 0.5) } else { g.range(a, z) } }).find(|u| *u > a + 1e-4 && *u < z - 1e-4 && LEAPS.iter().all(|l| (u - l.0 as f64).abs() > 2e-5)) else { return };
    let jd = utc + 2_400_000.5 + (32.184 + leap_mjd(utc)) / 86400.0;
    let j = JulianDate::new(jd);
    let utc = jd - 2_400_000.5 - (32.184 + leap_mjd(utc)) / 86400.0;
    let Some(e) = b.at(utc) else { return };
    let w = || format!("TT JD {jd} UTC MJD {utc} {e:?}");
    run.eval("engine", jd.to_bits());
    let ctx = AstroContext::<DefaultEphemeris, IersEop>::with_types();
    // TT -> UTC -> values
    let Ok(u) = rot::try_jd_utc_from_tt(j) else { run.violation("utc/refused", &w()); return; };
    run.within("utc", (u.value() - 2_400_000.5 - utc).abs() * 86400.0, 2e-4, w);
    let Ok(v) = ctx.try_eop_at_tt(j) else { run.violation("eop-at-tt/refused", &w()); return; };
    run.within("eop-at-tt", gap(&of(&v), &e), 2e-7, || format!("{} got {v:?}", w()));
    run.check(of(&ctx.eop_at_tt(j)) == of(&v), "eop-at-tt/total", w);
    let dynctx = DynAstroContext::with_ephemeris_and_eop(Box::new(siderust::ephemeris::Vsop87Ephemeris), IersEop::new());
    run.check(of(&dynctx.eop_at_tt(j)) == of(&v) && dynctx.try_eop_at_tt(j).is_ok_and(|x| of(&x) == of(&v)), "eop-at-tt/dyn", w);
    // UT1 = UTC + DUT1, whoever provides DUT1
    let ut1 = utc + 2_400_000.5 + e.dut1 / 86400.0;
    run.within("ut1", (rot::jd_ut1_from_tt_eop(j, &values(&e)).value() - ut1).abs() * 86400.0, 2e-4, w);
    let other = E { dut1: g.range(-0.9, 0.9), ..e };
    run.within("ut1/other", (rot::jd_ut1_from_tt_eop(j, &values(&other)).value() - (utc + 2_400_000.5 + other.dut1 / 86400.0)).abs() * 86400.0, 2e-4, || format!("{} dut1={}", w(), other.dut1));
    let dt = b.delta_t(jd);
    if utc > 41715.0 { run.within("ut1/delta-t", ((jd - rot::jd_ut1_from_tt(j).value()) * 86400.0 - dt).abs(), 1e-3, || format!("{} table TT-UT1 {dt}", w())); }
    let t = er::cent(jd);
    run.within("gmst", rot::try_gmst_with_eop(j).map_or(f64::INFINITY, |x| ang(x.value(), er::gmst06(ut1, t))), 2e-8, w);
    run.within("gmst", ang(rot::gmst_from_tt_eop(j, &v).value(), er::gmst06(ut1, t)), 2e-8, w);
    // every frame rotation with the loaded table = with the same numbers handed in
    CE.with(|c| *c.borrow_mut() = e);
    let own = AstroContext::<DefaultEphemeris, Own>::with_types();
    if g.p(0.3) {
        let (p, q) = (all::<IersEop, N>(jd, &ctx), all::<Own, N>(jd, &own));
        for (k, m) in &p { run.eval("frame", (k, jd.to_bits())); run.within("frame", mdiff(m, &q[k]), 2e-8, || format!("{} -> {} {}", k.0, k.1, w())); }
    }
    // terrestrial chain from the definition
    let (dp, de) = nutation::<N>(jd);
    let m = er::npb(t, dp + e.dx * 1e-3 * er::AS / er::obl(t).sin(), de + e.dy * 1e-3 * er::AS);
    let q = er::c2ixys(m[2][0], m[2][1], er::s06(t, m[2][0], m[2][1]));
    let itrs = mm(&er::pom(e.xp * er::AS, e.yp * er::AS, -47e-6 * t * er::AS), &mm(&r3(er::era(ut1)), &q));
    run.within("itrs", mdiff(frame_rotation_as::<GCRS, ITRF, N, DefaultEphemeris, IersEop>(j, &ctx).as_matrix(), &itrs), 3e-8, w);
    // entry points that take no context use the loaded table too
    let (dp, de) = nutation::<Iau2006A>(jd);
    let m = er::npb(t, dp + e.dx * 1e-3 * er::AS / er::obl(t).sin(), de + e.dy * 1e-3 * er::AS);
    let q = er::c2ixys(m[2][0], m[2][1], er::s06(t, m[2][0], m[2][1]));
    let itrs = mm(&er::pom(e.xp * er::AS, e.yp * er::AS, -47e-6 * t * er::AS), &mm(&r3(er::era(ut1)), &q));
    let x = g.unit();
    let want = mv(&itrs, x);
    let d: Direction<ITRF> = X::to_frame(&Direction::<GCRS>::new(x[0], x[1], x[2]), &j);
    run.within("default/direction", norm(sub([d.x(), d.y(), d.z()], want)), 1e-7, w);
    let p: Position<Geocentric, ITRF, Kilometer> = PositionAstroExt::to_frame(&Position::<Geocentric, GCRS, Kilometer>::new(x[0], x[1], x[2]), &j);
    run.within("default/position", norm(sub([p.x().value(), p.y().value(), p.z().value()], want)), 1e-7, w);
    let p: Vector<ITRF, Kilometer> = VectorAstroExt::to_frame(&Vector::<GCRS, Kilometer>::new(x[0], x[1], x[2]), &j);
    run.within("default/vector", norm(sub([p.x().value(), p.y().value(), p.z().value()], want)), 1e-7, w);
    // and so do the horizontal coordinates
    let (lon, lat) = (g.range(-180.0, 180.0), g.range(-90.0, 90.0));
    let site = Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(100.0));
    let lst = gast(ut1, jd, dp) + lon.to_radians();
    let h = X::to_horizontal(&Direction::<EquatorialTrueOfDate>::new(x[0], x[1], x[2]), &j, &site);
    run.within("horizontal", norm(sub([h.x(), h.y(), h.z()], neu(x, lst, lat))), 1e-7, || format!("{} lon={lon} lat={lat}", w()));
    let (ra, dec) = (Degrees::new(x[1].atan2(x[0]).to_degrees()), Degrees::new(x[2].asin().to_degrees()));
    let (dp, de) = nutation::<Iau2000B>(jd);
    let s = ev::star_horizontal(ra, dec, &site, j);
    let (sa, ca) = s.alt().value().to_radians().sin_cos();
    let (sz, cz) = s.az().value().to_radians().sin_cos();
    let want = neu(mv(&er::npb(t, dp, de), x), gast(ut1, jd, dp) + lon.to_radians(), lat);
    run.within("horizontal/star", norm(sub([ca * cz, ca * sz, sa], want)), 2e-7, || format!("{} lon={lon} lat={lat}", w()));
}

fn main() {
    let run = Run::new("C32", "a case is one epoch looked up in (or one transformation chain run on) a freshly generated and loaded IERS bundle; distinct = distinct epochs");
    let dir = std::env::temp_dir().join(format!("vh-c32-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    std::env::set_var("TEMPOCH_DATA_DIR", &dir);
    run.require("lookup", 10_000);
    run.require("engine", 1_000);
    run.require("reload", 8);
    let mut g = run.rng("bundles");
    let mut prev: Option<Bundle> = None;
    for k in 0..run.size(16, 160) {
        let b = Bundle::new(&mut g);
        if let Err(e) = b.load(&dir) {
            run.count("bundles-not-loaded", 1);
            eprintln!("bundle {k} not loaded: {e}");
            continue;
        }
        run.eval("reload", (b.first, b.rows.len()));
        run.par("lookup", 4000, |i| lookup(&run, &mut run.rng_i("lookup", k * 1_000_000 + i), &b));
        run.par("engine", 300, |i| {
            let mut g = run.rng_i("engine", k * 1_000_000 + i);
            match i % 3 { 0 => engine::<Iau2006A>(&run, &mut g, &b), 1 => engine::<Iau2000A>(&run, &mut g, &b), _ => engine::<Iau2000B>(&run, &mut g, &b) }
        });
        // readers during a reload: every answer belongs to one table, old or new, never to a mixture
        if let Some(old) = prev.replace(b.clone()) {
            let (lo, hi) = (old.first.max(b.first) as f64, old.last().min(b.last()) as f64);
            let (stop, seen) = (AtomicBool::new(false), [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)]);
            std::thread::scope(|s| {
                for r in 0..6u64 {
                    let (run, old, b, stop, seen) = (&run, &old, &b, &stop, &seen);
                    s.spawn(move || {
                        let mut g = run.rng_i("race", k * 100 + r as usize);
                        while !stop.load(Ordering::Relaxed) {
                            let mjd = if lo < hi && g.p(0.7) { g.range(lo, hi) } else { g.range(old.first.min(b.first) as f64, old.last().max(b.last()) as f64 + 3.0) };
                            let jd = mjd + 2_400_000.5;
                            let mjd = jd - 2_400_000.5;
                            let got = IersEop::new().try_eop_at(JulianDate::new(jd));
                            let hit = |t: &Bundle| match (&got, t.at(mjd)) { (Ok(v), Some(e)) => gap(&of(v), &e) < 2e-9, (Err(_), None) => true, (Ok(_), None) => mjd < (t.last() + 1) as f64 && mjd > t.last() as f64, _ => false };
                            let (p, q) = (hit(old), hit(b));
                            seen[if p && q { 2 } else { usize::from(q) }].fetch_add(1, Ordering::Relaxed);
                            run.check(p || q, "reload/mixture", || format!("UTC MJD {mjd}: {got:?}; old table gives {:?}, new {:?}", old.at(mjd), b.at(mjd)));
                        }
                    });
                }
                for n in 0..6 {
                    let t = if n % 2 == 0 { &old } else { &b };
                    let _ = t.load(&dir);
                    std::thread::sleep(std::time::Duration::from_millis(g.range(0.0, 8.0) as u64));
                }
                stop.store(true, Ordering::Relaxed);
            });
            let _ = b.load(&dir);
            run.count("reads-of-old-table", seen[0].load(Ordering::Relaxed) as u64);
            run.count("reads-of-new-table", seen[1].load(Ordering::Relaxed) as u64);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    run.finish();
}
