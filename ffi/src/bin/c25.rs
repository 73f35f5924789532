//! C25: the C interface, called the way a C program calls it, under AddressSanitizer.
//! Every output lives in its own exactly-sized heap block pre-filled with a pattern, so a stray write is either
//! an ASan report (the process dies, the wrapper turns that into a violation) or a changed pattern.
use vffi::guard;
use affn::prelude::*;
use qtty::length::{AstronomicalUnits, Kilometers};
use qtty::angular::{Degrees, Radians};
use qtty::time::{Days, Seconds};
use qtty::Quantity;
use qtty::unit::*;
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A};
use siderust::bodies::{self, solar_system as sol};
use siderust::coordinates::centers::{Barycentric, Geodetic};
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::{context::{DefaultEop, DefaultEphemeris}, AstroContext, DirectionAstroExt, PositionAstroExt, SphericalDirectionAstroExt};
use siderust::coordinates::{cartesian, spherical};
use siderust::ephemeris::{DynEphemeris, RuntimeEphemeris};
use siderust::event::azimuth as az;
use siderust::event::lunar::phase as ph;
use siderust::time::{Interval, JulianDate, ModifiedJulianDate};
use siderust::{AltitudeProvider, AzimuthProvider};
use siderust_ffi::SiderustStatus as St;
use siderust_ffi::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_void, CString};
use std::ptr::{null, null_mut};
use vffi::{la::*, tle::TleF, Rng, Run};

struct Count;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64)); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;

/// Exactly-sized, patterned output block.
fn block<T: Copy>() -> *mut T {
    let l = Layout::new::<T>();
    unsafe { let p = std::alloc::alloc(l); std::ptr::write_bytes(p, 0xA5, l.size()); p as *mut T }
}
fn bytes<T: Copy>(p: *const T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(p as *const u8, std::mem::size_of::<T>()).to_vec() } }
fn drop_block<T: Copy>(p: *mut T) { unsafe { std::alloc::dealloc(p as *mut u8, Layout::new::<T>()) } }

/// Call with a real output (and once with a null one): the status, and the value when it is Ok.
fn q<T: Copy>(run: &Run, sig: &str, w: &dyn Fn() -> String, f: &dyn Fn(*mut T) -> St) -> Result<T, St> {
    let s0 = f(null_mut());
    run.check(s0 == St::NullPointer || (s0 != St::Ok && s0 != St::InternalPanic), &format!("null-output/{sig}"), || format!("a null output gave {s0:?} {}", w()));
    let p = block::<T>();
    let s = f(p);
    let r = if s == St::Ok { Ok(unsafe { *p }) } else {
        run.check(bytes(p).iter().all(|b| *b == 0xA5), &format!("output-touched/{sig}"), || format!("{s:?} but the output was written {}", w()));
        Err(s)
    };
    drop_block(p);
    r
}
/// Array-returning call: copies the array out and frees it.
fn arr<T: Copy>(run: &Run, sig: &str, w: &dyn Fn() -> String, f: &dyn Fn(*mut *mut T, *mut usize) -> St, free: unsafe extern "C" fn(*mut T, usize)) -> Result<Vec<T>, St> {
    let (p, n) = (block::<*mut T>(), block::<usize>());
    let s = f(p, n);
    run.check(s != St::InternalPanic, &format!("panic/{sig}"), || format!("internal panic {}", w()));
    let r = if s == St::Ok {
        unsafe {
            let v = if *n == 0 { vec![] } else { std::slice::from_raw_parts(*p, *n).to_vec() };
            free(*p, *n);
            Ok(v)
        }
    } else {
        run.check(bytes(p).iter().chain(&bytes(n)).all(|b| *b == 0xA5), &format!("output-touched/{sig}"), || format!("{s:?} but the outputs were written {}", w()));
        Err(s)
    };
    drop_block(p);
    drop_block(n);
    r
}
fn near(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0) }
fn same(run: &Run, sig: &str, a: &[f64], b: &[f64], w: &dyn Fn() -> String) {
    run.check(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y)), &format!("value/{sig}"), || format!("C {a:?} Rust {b:?} {}", w()));
}
fn no_leak(run: &Run, sig: &str, f: &dyn Fn()) {
    f();
    let a = LIVE.with(|c| c.get());
    f();
    let d = LIVE.with(|c| c.get()) - a;
    run.check(d == 0, &format!("leak/{sig}"), || format!("{d} bytes still held after create and free"));
    run.eval("create-free-balance", (sig.to_string(), a));
}
fn sph(p: f64, a: f64) -> V3 { let (p, a) = (p.to_radians(), a.to_radians()); [p.cos() * a.cos(), p.cos() * a.sin(), p.sin()] }
fn jd(x: f64) -> JulianDate { JulianDate::new(x) }
fn mjd(x: f64) -> ModifiedJulianDate { ModifiedJulianDate::new(x) }

const FR: [SiderustFrame; 15] = [SiderustFrame::ICRS, SiderustFrame::EclipticMeanJ2000, SiderustFrame::EquatorialMeanJ2000, SiderustFrame::EquatorialMeanOfDate, SiderustFrame::EquatorialTrueOfDate, SiderustFrame::Horizontal, SiderustFrame::ECEF, SiderustFrame::Galactic, SiderustFrame::GCRS, SiderustFrame::EclipticOfDate, SiderustFrame::EclipticTrueOfDate, SiderustFrame::CIRS, SiderustFrame::TIRS, SiderustFrame::ITRF, SiderustFrame::ICRF];
const CE: [SiderustCenter; 5] = [SiderustCenter::Barycentric, SiderustCenter::Heliocentric, SiderustCenter::Geocentric, SiderustCenter::Topocentric, SiderustCenter::Bodycentric];
const MODELS: [SiderustEarthOrientationModel; 4] = [SiderustEarthOrientationModel::Iau2000A, SiderustEarthOrientationModel::Iau2000B, SiderustEarthOrientationModel::Iau2006, SiderustEarthOrientationModel::Iau2006A];
const UNITS: [SiderustLengthUnit; 5] = [SiderustLengthUnit::AU, SiderustLengthUnit::Km, SiderustLengthUnit::LightYear, SiderustLengthUnit::Parsec, SiderustLengthUnit::Meter];

macro_rules! five { ($f:expr, $F:ident => $b:expr) => { match $f {
    SiderustFrame::ICRS => { type $F = ICRS; Some($b) }
    SiderustFrame::EclipticMeanJ2000 => { type $F = EclipticMeanJ2000; Some($b) }
    SiderustFrame::EquatorialMeanJ2000 => { type $F = EquatorialMeanJ2000; Some($b) }
    SiderustFrame::EquatorialMeanOfDate => { type $F = EquatorialMeanOfDate; Some($b) }
    SiderustFrame::EquatorialTrueOfDate => { type $F = EquatorialTrueOfDate; Some($b) }
    _ => None,
} } }
macro_rules! with_ctx { ($m:expr, $c:ident => $b:expr) => {{
    let base: AstroContext<DefaultEphemeris, DefaultEop> = AstroContext::default();
    match $m {
        None => { let $c = base; $b }
        Some(SiderustEarthOrientationModel::Iau2000A) => { let $c = base.with_model::<Iau2000A>(); $b }
        Some(SiderustEarthOrientationModel::Iau2000B) => { let $c = base.with_model::<Iau2000B>(); $b }
        Some(SiderustEarthOrientationModel::Iau2006) => { let $c = base.with_model::<Iau2006>(); $b }
        Some(SiderustEarthOrientationModel::Iau2006A) => { let $c = base.with_model::<Iau2006A>(); $b }
    }
}} }
/// The Rust answer for a direction (unit vector in, vector out).
fn rust_dir(v: V3, src: SiderustFrame, dst: SiderustFrame, t: f64, m: Option<SiderustEarthOrientationModel>) -> Option<V3> {
    let t = jd(t);
    with_ctx!(m, c => {
        let icrs = five!(src, F => { let d = cartesian::Direction::<F>::new_unchecked(v[0], v[1], v[2]); let o: cartesian::Direction<ICRS> = d.to_frame_with::<ICRS, _>(&t, &c); o })?;
        five!(dst, F => { let o: cartesian::Direction<F> = icrs.to_frame_with::<F, _>(&t, &c); [o.x(), o.y(), o.z()] })
    })
}
fn rust_hor(v: V3, src: SiderustFrame, tt: f64, ut: Option<f64>, site: &Geodetic<ECEF>, m: Option<SiderustEarthOrientationModel>) -> Option<V3> {
    let tod = rust_dir(v, src, SiderustFrame::EquatorialTrueOfDate, tt, m)?;
    let d = cartesian::Direction::<EquatorialTrueOfDate>::new_unchecked(tod[0], tod[1], tod[2]);
    let h = match ut { None => d.to_horizontal(&jd(tt), site), Some(u) => d.to_horizontal_precise(&jd(tt), &jd(u), site) };
    // altitude and azimuth as the Rust spherical direction reports them
    let s = spherical::Direction::from_cartesian(&h);
    Some(sph(s.polar.value(), s.azimuth.value()))
}
fn hostile(g: &mut Rng) -> f64 { *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e308, -1e308, 5e-324, -1.0, 1e18]) }
/// Times: |t| near the largest float makes the time library's checked constructor panic, which the C layer contains.
fn hostile_t(g: &mut Rng) -> f64 { let x = hostile(g); if x.is_finite() && x.abs() > 1e300 { f64::NAN } else { x } }
fn epoch(g: &mut Rng) -> f64 { if g.p(0.12) { hostile_t(g) } else { g.range(2_400_000.0, 2_500_000.0) } }
fn site(g: &mut Rng) -> SiderustGeodetict { SiderustGeodetict { lon_deg: g.range(-180.0, 180.0), lat_deg: g.range(-89.0, 89.0), height_m: g.range(-300.0, 5000.0) } }

fn frames(run: &Run, i: usize) {
    let g = &mut run.rng_i("frames", i);
    let (src, dst) = (if g.p(0.85) { FR[g.n(5)] } else { *g.pick(&FR) }, if g.p(0.85) { FR[g.n(5)] } else { *g.pick(&FR) });
    let (pol, azi) = ((g.range(-1.0, 1.0f64)).asin().to_degrees(), g.range(-30.0, 390.0));
    let t = epoch(g);
    let m = if g.p(0.5) { Some(*g.pick(&MODELS)) } else { None };
    let s = site(g);
    let ut = if g.p(0.1) { hostile_t(g) } else { t + g.range(-0.0012, 0.0012) };
    let w = || format!("{src:?}->{dst:?} at {t} model {m:?} polar {pol} azimuth {azi}");
    run.eval("frames", (src as i32, dst as i32, t.to_bits()));
    let mut ctx: *mut SiderustContext = null_mut();
    if let Some(m) = m {
        run.check(siderust_context_create_with_model(m, &mut ctx) == St::Ok && !ctx.is_null(), "status/context", || w());
        let back = q(run, "context-model", &w, &|o| siderust_context_get_model(ctx, o));
        run.check(back == Ok(m), "value/context-model", || format!("{back:?} {}", w()));
    }
    let ok_t = siderust_ffi::ffi_utils::jd_from_f64(t).is_ok();
    // a Rust call that panics must come back as an error status
    let settled = |sig: &str, got: Result<V3, St>, want: &dyn Fn() -> Option<V3>, times_ok: bool| match (got, if times_ok { guard(|| want()) } else { Ok(None) }, times_ok) {
        (Err(St::InternalPanic), Err(_), true) => run.count("panic-contained", 1),
        (got, Err(p), _) => { run.check(false, &format!("status/{sig}"), || format!("C {got:?}, Rust panics: {p} {}", w())); }
        (got, Ok(want), times_ok) => match (got, want, times_ok) {
        (Ok(v), Some(x), true) => { run.within(&format!("value/{sig}"), norm(sub(v, x)), 1e-9 * norm(x).max(1.0), || format!("C {v:?} Rust {x:?} {}", w())); }
        (Err(St::InvalidFrame), None, _) | (Err(St::InvalidArgument), _, false) => run.count("refused", 1),
        (g, x, _) => { run.check(false, &format!("status/{sig}"), || format!("C {g:?} Rust {x:?} {}", w())); }
        },
    };
    let want = |v: V3| rust_dir(v, src, dst, t, m);
    let d = q::<SiderustSphericalDir>(run, "spherical-dir", &w, &|o| match m { None => siderust_spherical_dir_transform_frame(pol, azi, src, dst, t, o), Some(_) => siderust_spherical_dir_transform_frame_with_context(pol, azi, src, dst, t, ctx, o) });
    if let Ok(d) = &d { run.check(d.frame == dst, "frame-tag/spherical-dir", || format!("{:?} {}", d.frame, w())); }
    settled("spherical-dir", d.map(|d| sph(d.polar_deg, d.azimuth_deg)), &|| want(sph(pol, azi)), ok_t);
    let v = scale(g.unit(), g.log(1e-3, 1e3));
    let c = q::<SiderustCartesianPos>(run, "cartesian-dir", &w, &|o| match m { None => siderust_cartesian_dir_transform_frame(v[0], v[1], v[2], src, dst, t, o), Some(_) => siderust_cartesian_dir_transform_frame_with_context(v[0], v[1], v[2], src, dst, t, ctx, o) });
    if let Ok(d) = &c { run.check(d.frame == dst, "frame-tag/cartesian-dir", || format!("{:?} {}", d.frame, w())); }
    settled("cartesian-dir", c.map(|d| [d.x, d.y, d.z]), &|| want(v), ok_t);
    // positions: ICRF is accepted too (identical axes to ICRS)
    let icrf = |f| if f == SiderustFrame::ICRF { SiderustFrame::ICRS } else { f };
    let pos = SiderustCartesianPos { x: v[0], y: v[1], z: v[2], frame: src, center: *g.pick(&CE), length_unit: *g.pick(&UNITS) };
    let c = q::<SiderustCartesianPos>(run, "cartesian-pos", &w, &|o| match m { None => siderust_cartesian_pos_transform_frame(pos, dst, t, o), Some(_) => siderust_cartesian_pos_transform_frame_with_context(pos, dst, t, ctx, o) });
    if let Ok(d) = &c { run.check(d.frame == dst && d.center == pos.center && d.length_unit == pos.length_unit, "frame-tag/cartesian-pos", || format!("{d:?} from {pos:?} {}", w())); }
    settled("cartesian-pos", c.map(|d| [d.x, d.y, d.z]), &|| rust_dir(v, icrf(src), icrf(dst), t, m), ok_t);
    // a position through the position API as well
    if let (Ok(c), true) = (c, src == SiderustFrame::ICRS && dst == SiderustFrame::EclipticMeanJ2000 && m.is_none()) {
        let p = cartesian::Position::<Barycentric, ICRS, AstronomicalUnit>::new(v[0], v[1], v[2]);
        let p: cartesian::Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> = PositionAstroExt::to_frame::<EclipticMeanJ2000>(&p, &jd(t));
        same(run, "position-api", &[c.x, c.y, c.z], &[p.x().value(), p.y().value(), p.z().value()], &w);
    }
    let st = s.to_rust();
    let h = q::<SiderustSphericalDir>(run, "horizontal", &w, &|o| siderust_spherical_dir_to_horizontal(pol, azi, src, t, s, o));
    if let Ok(d) = &h { run.check(d.frame == SiderustFrame::Horizontal, "frame-tag/horizontal", || w()); }
    settled("horizontal", h.map(|d| sph(d.polar_deg, d.azimuth_deg)), &|| rust_hor(sph(pol, azi), src, t, None, &st, None), ok_t);
    let ok2 = ok_t && siderust_ffi::ffi_utils::jd_from_f64(ut).is_ok();
    let h = q::<SiderustSphericalDir>(run, "horizontal-precise", &w, &|o| match m { None => siderust_spherical_dir_to_horizontal_precise(pol, azi, src, t, ut, s, o), Some(_) => siderust_spherical_dir_to_horizontal_precise_with_context(pol, azi, src, t, ut, s, ctx, o) });
    settled("horizontal-precise", h.map(|d| sph(d.polar_deg, d.azimuth_deg)), &|| rust_hor(sph(pol, azi), src, t, Some(ut), &st, m), ok2);
    if i % 16 == 0 {
        let o = &mut SiderustSphericalDir { polar_deg: 0.0, azimuth_deg: 0.0, frame: src };
        run.check(siderust_spherical_dir_transform_frame_with_context(pol, azi, src, dst, t, null(), o) == St::NullPointer, "null-context", || w());
        run.check(siderust_spherical_dir_to_horizontal_precise_with_context(pol, azi, src, t, t, s, null(), o) == St::NullPointer, "null-context", || w());
        no_leak(run, "context", &|| { let mut c = null_mut(); siderust_context_create_default(&mut c); unsafe { siderust_context_free(c) } });
    }
    unsafe { siderust_context_free(ctx) };
    let e = q::<SiderustCartesianPos>(run, "geodetic-ecef", &w, &|o| siderust_geodetic_to_cartesian_ecef(s, o)).unwrap();
    let x = st.to_cartesian::<Meter>();
    same(run, "geodetic-ecef", &[e.x, e.y, e.z], &[x.x().value(), x.y().value(), x.z().value()], &w);
    run.check(e.frame == SiderustFrame::ECEF && e.length_unit == SiderustLengthUnit::Meter && e.center == SiderustCenter::Geocentric, "frame-tag/geodetic-ecef", || format!("{e:?}"));
}
type Pt = [f64; 3];
fn xyz(p: &SiderustCartesianPos) -> Pt { [p.x, p.y, p.z] }
fn centres(run: &Run, i: usize) {
    let g = &mut run.rng_i("centres", i);
    let t = epoch(g);
    let ok_t = ffi_utils::jd_from_f64(t).is_ok();
    let v = scale(g.unit(), g.log(1e-3, 50.0));
    let (a, b) = (*g.pick(&CE), *g.pick(&CE));
    let w = || format!("{a:?}->{b:?} {v:?} at {t}");
    run.eval("centres", (a as i32, b as i32, t.to_bits()));
    // origins of the three supported centres, barycentric, from the Rust ephemeris
    use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
    let origin = |c: SiderustCenter| -> Option<Pt> { Some(match c {
        SiderustCenter::Barycentric => [0.0; 3],
        SiderustCenter::Heliocentric => { let s = <Vsop87Ephemeris as Ephemeris>::sun_barycentric(jd(t)); [s.x().value(), s.y().value(), s.z().value()] }
        SiderustCenter::Geocentric => { let s = <Vsop87Ephemeris as Ephemeris>::sun_barycentric(jd(t)); let e = <Vsop87Ephemeris as Ephemeris>::earth_heliocentric(jd(t)); [s.x().value() + e.x().value(), s.y().value() + e.y().value(), s.z().value() + e.z().value()] }
        _ => return None }) };
    let known = |c| matches!(c, SiderustCenter::Barycentric | SiderustCenter::Heliocentric | SiderustCenter::Geocentric);
    let pos = |c, v: Pt| SiderustCartesianPos { x: v[0], y: v[1], z: v[2], frame: SiderustFrame::EclipticMeanJ2000, center: c, length_unit: SiderustLengthUnit::AU };
    let r = q::<SiderustCartesianPos>(run, "centre", &w, &|o| siderust_cartesian_pos_transform_center(pos(a, v), b, t, o));
    match &r {
        Ok(p) if known(a) && known(b) && (ok_t || a == b) => {
            run.check(p.center == b, "frame-tag/centre", || format!("{p:?} {}", w()));
            let x = if a == b { v } else { sub(add(v, origin(a).unwrap()), origin(b).unwrap()) };
            run.within("value/centre", norm(sub(xyz(p), x)), 1e-9 * (1.0 + norm(v)), || format!("C {p:?} Rust {x:?} {}", w()));
        }
        Err(St::InvalidCenter) if !(known(a) && known(b)) => run.count("refused", 1),
        Err(St::InvalidArgument) if !ok_t => run.count("refused", 1),
        o => { run.check(false, "status/centre", || format!("{o:?} {}", w())); }
    }
    // orbits
    let h = g.p(0.2);
    let mut val = |x: f64| if h && g.p(0.25) { hostile(g) } else { x };
    let (sa, ec) = (val(2.3), val(0.31));
    let orbit = SiderustOrbit { semi_major_axis_au: sa, eccentricity: ec, inclination_deg: val(17.0), lon_ascending_node_deg: val(81.0), arg_periapsis_deg: val(219.0), mean_anomaly_deg: val(300.0), epoch_jd: { let x = val(2_451_545.0); if x.is_finite() && x.abs() > 1e300 { f64::NAN } else { x } } };
    let orbit = if h { orbit } else { SiderustOrbit { semi_major_axis_au: g.log(0.1, 60.0), eccentricity: g.range(0.0, 0.97), inclination_deg: g.range(0.0, 180.0), lon_ascending_node_deg: g.range(-400.0, 400.0), arg_periapsis_deg: g.range(-400.0, 400.0), mean_anomaly_deg: g.range(-400.0, 400.0), epoch_jd: g.range(2.43e6, 2.47e6) } };
    let w = || format!("{orbit:?} at {t}");
    let valid = siderust::PreparedOrbit::try_from_elements(AstronomicalUnits::new(orbit.semi_major_axis_au), orbit.eccentricity, Degrees::new(orbit.inclination_deg), Degrees::new(orbit.lon_ascending_node_deg), Degrees::new(orbit.arg_periapsis_deg), Degrees::new(orbit.mean_anomaly_deg), match ffi_utils::jd_from_f64(orbit.epoch_jd) { Ok(j) => j, Err(_) => jd(2_451_545.0) });
    let valid = if ffi_utils::jd_from_f64(orbit.epoch_jd).is_ok() { valid.ok() } else { None };
    // values far outside any real orbit are compared for status only: the two paths reduce huge angles differently
    let plain = [orbit.inclination_deg, orbit.lon_ascending_node_deg, orbit.arg_periapsis_deg, orbit.mean_anomaly_deg].iter().all(|x| x.abs() < 1e6) && (0.0..=180.0).contains(&orbit.inclination_deg) && (1e-6..1e6).contains(&orbit.semi_major_axis_au) && (orbit.eccentricity == 0.0 || orbit.eccentricity > 1e-100) && orbit.epoch_jd.abs() < 1e7 && t.abs() < 1e7;
    let at = |o: &siderust::PreparedOrbit| guard(|| { let x = o.position_at(jd(t)); [x.x().value(), x.y().value(), x.z().value()] });
    let p = q::<*mut c_void>(run, "prepared-create", &w, &|o| siderust_prepared_orbit_create(orbit, o as *mut SiderustPreparedOrbitHandle));
    run.check(p.is_ok() == valid.is_some() && p.map_or_else(|e| e == St::InvalidArgument, |x| !x.is_null()), "status/prepared-create", || format!("{p:?} Rust {} {}", valid.is_some(), w()));
    if let (Ok(hd), Some(o)) = (p, &valid) {
        let r = q::<SiderustCartesianPos>(run, "prepared-position", &w, &|out| siderust_prepared_orbit_position(hd, t, out));
        if ok_t { match (r, at(o)) { (Ok(r), Ok(x)) => if plain { same(run, "prepared-position", &xyz(&r), &x, &w) }, (Err(St::InternalPanic), Err(_)) => run.count("panic-contained", 1), (e, x) => { run.check(!plain && !e.is_ok_and(|p| xyz(&p).iter().any(|x| x.is_nan())), "status/prepared-position", || format!("{e:?} Rust {x:?} {}", w())); } } }
        else { run.check(r.is_err(), "status/prepared-position", || format!("{r:?} {}", w())); }
        run.check(siderust_prepared_orbit_destroy(hd) == St::Ok, "status/prepared-destroy", || w());
        no_leak(run, "prepared", &|| { let mut h = null_mut(); siderust_prepared_orbit_create(orbit, &mut h); siderust_prepared_orbit_destroy(h); });
    }
    run.check(siderust_prepared_orbit_destroy(null_mut()) == St::NullPointer && siderust_prepared_orbit_position(null_mut(), t, null_mut()) == St::NullPointer, "null-handle/prepared", || w());
    let oc = g.n(5) as u8;
    let k = q::<SiderustCartesianPos>(run, "kepler", &w, &|o| siderust_kepler_position_ex(orbit, oc, t, o));
    match (&k, oc < 3, &valid) {
        (Ok(p), true, Some(o)) if ok_t => {
            if let (true, Ok(x)) = (plain, at(o)) { same(run, "kepler", &xyz(p), &x, &w) }
            run.check(p.center == CE[oc as usize], "frame-tag/kepler", || format!("{p:?} {}", w()));
        }
        (Err(St::InvalidCenter), false, _) => run.count("refused", 1),
        (Err(St::InvalidArgument), _, v) if !ok_t || v.is_none() => run.count("refused", 1),
        (Err(St::InternalPanic), true, Some(o)) if !plain || at(o).is_err() => run.count("panic-contained", 1),
        (r, _, v) => { run.check(false, "status/kepler", || format!("{r:?} valid {} centre {oc} {}", v.is_some(), w())); }
    }
    // bodycentric: out = pos - body, and back
    if let (Some(o), true) = (&valid, ok_t && plain) {
        let bc = oc % 3;
        let par = SiderustBodycentricParams { orbit, orbit_center: bc, _pad: [0; 7] };
        let x = o.position_at(jd(t));
        let x = [x.x().value(), x.y().value(), x.z().value()];
        let w = || format!("{a:?} {v:?} {par:?} at {t}");
        let r = q::<SiderustCartesianPos>(run, "to-bodycentric", &w, &|out| siderust_to_bodycentric(pos(a, v), par, t, out));
        if known(a) {
            let body = sub(add(x, origin(CE[bc as usize]).unwrap()), origin(a).unwrap());
            match r { Ok(r) => { run.within("value/to-bodycentric", norm(sub(xyz(&r), sub(v, body))), 1e-9 * (1.0 + norm(x) + norm(v)), || format!("C {r:?} body {body:?} {}", w())); run.check(r.center == SiderustCenter::Bodycentric, "frame-tag/to-bodycentric", || w()); }
                e => { run.check(false, "status/to-bodycentric", || format!("{e:?} {}", w())); } }
        } else { run.check(r.is_err_and(|e| e == St::InvalidCenter), "status/to-bodycentric", || format!("{r:?} {}", w())); }
        let r = q::<SiderustCartesianPos>(run, "from-bodycentric", &w, &|out| siderust_from_bodycentric(pos(SiderustCenter::Bodycentric, v), par, t, out));
        let body = sub(add(x, origin(CE[bc as usize]).unwrap()), origin(SiderustCenter::Geocentric).unwrap());
        match r { Ok(r) => { run.within("value/from-bodycentric", norm(sub(xyz(&r), add(v, body))), 1e-9 * (1.0 + norm(x) + norm(v)), || format!("C {r:?} body {body:?} {}", w())); run.check(r.center == SiderustCenter::Geocentric, "frame-tag/from-bodycentric", || w()); }
            e => { run.check(false, "status/from-bodycentric", || format!("{e:?} {}", w())); } }
    }
    else if oc < 3 {
        let par = SiderustBodycentricParams { orbit, orbit_center: oc, _pad: [0; 7] };
        for r in [q::<SiderustCartesianPos>(run, "to-bodycentric", &w, &|out| siderust_to_bodycentric(pos(SiderustCenter::Heliocentric, v), par, t, out)), q::<SiderustCartesianPos>(run, "from-bodycentric", &w, &|out| siderust_from_bodycentric(pos(SiderustCenter::Bodycentric, v), par, t, out))] {
            run.check(if valid.is_none() || !ok_t { r.is_err_and(|e| e == St::InvalidArgument) } else { true }, "status/bodycentric-elements", || format!("{r:?} {}", w()));
        }
    }
    // the other two element kinds
    let mm = SiderustMeanMotionOrbit { semi_major_axis_au: orbit.semi_major_axis_au, eccentricity: orbit.eccentricity, inclination_deg: orbit.inclination_deg, lon_ascending_node_deg: orbit.lon_ascending_node_deg, arg_periapsis_deg: orbit.arg_periapsis_deg, mean_motion_deg_per_day: if g.p(0.1) { hostile(g) } else { g.log(1e-3, 20.0) }, epoch_jd: orbit.epoch_jd };
    let rust = guard(|| mm.try_to_rust_validated().ok().and_then(|o| if ok_t { o.position_at(jd(t)).ok() } else { None }));
    let r = q::<SiderustCartesianPos>(run, "mean-motion", &|| format!("{mm:?} at {t}"), &|o| siderust_mean_motion_position(mm, t, o));
    match (&r, &rust) { (Ok(p), Ok(Some(x))) => if plain { same(run, "mean-motion", &xyz(p), &[x.x().value(), x.y().value(), x.z().value()], &|| format!("{mm:?}")) }, (Err(St::InvalidArgument), Ok(None)) => {}, (Err(St::InternalPanic), Err(_)) => run.count("panic-contained", 1), _ => { run.check(false, "status/mean-motion", || format!("{r:?} Rust {:?} {mm:?} at {t}", rust.as_ref().map(|r| r.is_some()))); } }
    let co = SiderustConicOrbit { periapsis_distance_au: orbit.semi_major_axis_au, eccentricity: orbit.eccentricity * g.range(0.5, 2.5), inclination_deg: orbit.inclination_deg, lon_ascending_node_deg: orbit.lon_ascending_node_deg, arg_periapsis_deg: orbit.arg_periapsis_deg, mean_anomaly_deg: orbit.mean_anomaly_deg, epoch_jd: orbit.epoch_jd };
    let rust = guard(|| co.try_to_rust_validated().ok().and_then(|o| if ok_t { o.position_at(jd(t)).ok() } else { None }));
    let r = q::<SiderustCartesianPos>(run, "conic", &|| format!("{co:?} at {t}"), &|o| siderust_conic_position(co, t, o));
    match (&r, &rust) { (Ok(p), Ok(Some(x))) => if plain { same(run, "conic", &xyz(p), &[x.x().value(), x.y().value(), x.z().value()], &|| format!("{co:?}")) }, (Err(St::InvalidArgument), Ok(None)) => {}, (Err(St::InternalPanic), Err(_)) => run.count("panic-contained", 1), _ => { run.check(false, "status/conic", || format!("{r:?} Rust {:?} {co:?} at {t}", rust.as_ref().map(|r| r.is_some()))); } }
}
fn vsop(run: &Run, i: usize) {
    let g = &mut run.rng_i("vsop", i);
    let t = epoch(g);
    let ok = ffi_utils::jd_from_f64(t).is_ok();
    macro_rules! planet { ($($P:ident $h:ident $b:ident),*) => { $({
        let w = || format!("{} at {t}", stringify!($P));
        run.eval("ephemeris", (stringify!($P), t.to_bits()));
        for (hel, f) in [(true, $h as extern "C" fn(f64, *mut SiderustCartesianPos) -> St), (false, $b)] {
            let r = q::<SiderustCartesianPos>(run, "vsop87", &w, &|o| f(t, o));
            match r {
                Ok(p) if ok => {
                    let x = if hel { let p = sol::$P::vsop87a(jd(t)); [p.x().value(), p.y().value(), p.z().value()] } else { let p = sol::$P::vsop87e(jd(t)); [p.x().value(), p.y().value(), p.z().value()] };
                    same(run, "vsop87", &xyz(&p), &x, &w);
                    run.check(p.center == if hel { SiderustCenter::Heliocentric } else { SiderustCenter::Barycentric } && p.frame == SiderustFrame::EclipticMeanJ2000 && p.length_unit == SiderustLengthUnit::AU, "frame-tag/vsop87", || format!("{p:?} {}", w()));
                }
                Err(St::InvalidArgument) if !ok => {}
                e => { run.check(false, "status/vsop87", || format!("{e:?} {}", w())); }
            }
        }
    })* } }
    planet!(Mercury siderust_vsop87_mercury_heliocentric siderust_vsop87_mercury_barycentric, Venus siderust_vsop87_venus_heliocentric siderust_vsop87_venus_barycentric, Earth siderust_vsop87_earth_heliocentric siderust_vsop87_earth_barycentric,
        Mars siderust_vsop87_mars_heliocentric siderust_vsop87_mars_barycentric, Jupiter siderust_vsop87_jupiter_heliocentric siderust_vsop87_jupiter_barycentric, Saturn siderust_vsop87_saturn_heliocentric siderust_vsop87_saturn_barycentric,
        Uranus siderust_vsop87_uranus_heliocentric siderust_vsop87_uranus_barycentric, Neptune siderust_vsop87_neptune_heliocentric siderust_vsop87_neptune_barycentric);
    use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
    let w = || format!("at {t}");
    if ok {
        let p = q::<SiderustCartesianPos>(run, "sun-barycentric", &w, &|o| siderust_vsop87_sun_barycentric(t, o)).unwrap();
        let x = <Vsop87Ephemeris as Ephemeris>::sun_barycentric(jd(t));
        same(run, "sun-barycentric", &xyz(&p), &[x.x().value(), x.y().value(), x.z().value()], &w);
        let p = q::<SiderustCartesianPos>(run, "moon-geocentric", &w, &|o| siderust_vsop87_moon_geocentric(t, o)).unwrap();
        let x = <Vsop87Ephemeris as Ephemeris>::moon_geocentric(jd(t));
        same(run, "moon-geocentric", &xyz(&p), &[x.x().value(), x.y().value(), x.z().value()], &w);
        run.check(p.length_unit == SiderustLengthUnit::Km && p.center == SiderustCenter::Geocentric, "frame-tag/moon-geocentric", || format!("{p:?}"));
    }
}
fn window(g: &mut Rng) -> (TempochPeriodMjd, bool) {
    let a = g.range(45000.0, 63700.0);
    let (a, b) = match g.n(14) { 0 => (a, a - 1.0), 1 => (f64::NAN, a), 2 => (a, f64::NAN), 3 => (a, f64::INFINITY), 4 => (a, a), _ => (a, a + g.range(0.05, 2.0)) };
    let ok = a.is_finite() && b.is_finite() && a <= b;
    (TempochPeriodMjd { start_mjd: a, end_mjd: b }, ok)
}
fn opts(g: &mut Rng) -> (SiderustSearchOpts, bool) {
    let x = match g.n(12) { 0 => f64::NAN, 1 => 0.0, 2 => -1e-9, 3 => f64::INFINITY, _ => g.log(1e-9, 1e-4) };
    (SiderustSearchOpts { time_tolerance_days: x }, x.is_finite() && x > 0.0)
}
fn per(v: &[TempochPeriodMjd]) -> Vec<f64> { v.iter().flat_map(|p| [p.start_mjd, p.end_mjd]).collect() }
fn rper(v: &[Interval<ModifiedJulianDate>]) -> Vec<f64> { v.iter().flat_map(|p| [p.start.raw().value(), p.end.raw().value()]).collect() }

fn subject_calls<P: AltitudeProvider + AzimuthProvider>(run: &Run, g: &mut Rng, sub: SiderustSubject, p: &P, name: &str) {
    let s = site(g);
    let st = s.to_rust();
    let (win, wok) = window(g);
    let (op, ook) = opts(g);
    let ok = wok && ook;
    let w = || format!("{name} {s:?} {win:?} {op:?}");
    let t = if g.p(0.1) { hostile_t(g) } else { g.range(45000.0, 63700.0) };
    let tok = ffi_utils::mjd_from_f64(t).is_ok();
    run.eval("subjects", (name.to_string(), t.to_bits()));
    let a = q::<f64>(run, "altitude-at", &w, &|o| siderust_altitude_at(sub, s, t, o));
    match (a, guard(|| if tok { p.altitude_at(&st, mjd(t)).value() } else { 0.0 })) { (Ok(a), Ok(x)) if tok => same(run, "altitude-at", &[a], &[x], &w), (Err(St::InvalidArgument), _) if !tok => {}, (Err(St::InternalPanic), Err(_)) => run.count("panic-contained", 1), (e, _) => { run.check(false, "status/altitude-at", || format!("{e:?} at {t} {}", w())); } }
    let a = q::<f64>(run, "azimuth-at", &w, &|o| siderust_azimuth_at(sub, s, t, o));
    match (a, guard(|| if tok { p.azimuth_at(&st, mjd(t)).value() } else { 0.0 })) { (Ok(a), Ok(x)) if tok => same(run, "azimuth-at", &[a], &[x], &w), (Err(St::InvalidArgument), _) if !tok => {}, (Err(St::InternalPanic), Err(_)) => run.count("panic-contained", 1), (e, _) => { run.check(false, "status/azimuth-at", || format!("{e:?} at {t} {}", w())); } }
    let (h, h2) = (g.range(-30.0, 60.0), g.range(0.0, 40.0));
    let (z, z2) = (g.range(0.0, 360.0), g.range(0.0, 360.0));
    let rw = || Interval::new(mjd(win.start_mjd), mjd(win.end_mjd));
    let ro = || op.try_to_rust().unwrap();
    fn settle(run: &Run, sig: &str, ok: bool, got: Result<Vec<f64>, St>, want: &dyn Fn() -> Vec<f64>, w: &dyn Fn() -> String) {
        match got { Ok(v) if ok => { run.eval("searches", (sig.to_string(), v.len(), v.first().map(|x| x.to_bits()))); same(run, sig, &v, &want(), w) }
            Err(St::InvalidArgument | St::InvalidPeriod) if !ok => run.count("refused", 1), e => { run.check(false, &format!("status/{sig}"), || format!("{e:?} {}", w())); } }
    }
    let d = Degrees::new;
    match g.n(9) {
        0 => settle(run, "above", ok, arr(run, "above", &w, &|o, n| siderust_above_threshold(sub, s, win, h, op, o, n), siderust_periods_free).map(|v| per(&v)), &|| rper(&siderust::above_threshold(p, &st, rw(), d(h), ro())), &w),
        1 => settle(run, "below", ok, arr(run, "below", &w, &|o, n| siderust_below_threshold(sub, s, win, h, op, o, n), siderust_periods_free).map(|v| per(&v)), &|| rper(&siderust::below_threshold(p, &st, rw(), d(h), ro())), &w),
        2 => settle(run, "altitude-ranges", ok, arr(run, "altitude-ranges", &w, &|o, n| siderust_altitude_ranges(sub, s, win, h, h + h2, op, o, n), siderust_periods_free).map(|v| per(&v)), &|| rper(&siderust::altitude_ranges(p, &st, rw(), d(h), d(h + h2), ro())), &w),
        3 => settle(run, "crossings", ok, arr(run, "crossings", &w, &|o, n| siderust_crossings(sub, s, win, h, op, o, n), siderust_crossings_free).map(|v| v.iter().flat_map(|e| [e.mjd, (e.direction == SiderustCrossingDirection::Rising) as i32 as f64]).collect()),
            &|| siderust::crossings(p, &st, rw(), d(h), ro()).iter().flat_map(|e| [e.mjd.raw().value(), (e.direction == siderust::CrossingDirection::Rising) as i32 as f64]).collect(), &w),
        4 => settle(run, "culminations", ok, arr(run, "culminations", &w, &|o, n| siderust_culminations(sub, s, win, op, o, n), siderust_culminations_free).map(|v| v.iter().flat_map(|e| [e.mjd, e.altitude_deg, (e.kind == SiderustCulminationKind::Max) as i32 as f64]).collect()),
            &|| siderust::culminations(p, &st, rw(), ro()).iter().flat_map(|e| [e.mjd.raw().value(), e.altitude.value(), (e.kind == siderust::CulminationKind::Max) as i32 as f64]).collect(), &w),
        5 => settle(run, "azimuth-crossings", ok, arr(run, "azimuth-crossings", &w, &|o, n| siderust_azimuth_crossings(sub, s, win, z, op, o, n), siderust_azimuth_crossings_free).map(|v| v.iter().map(|e| e.mjd).collect()),
            &|| az::azimuth_crossings(p, &st, rw(), d(z), ro()).iter().map(|e| e.mjd.raw().value()).collect(), &w),
        6 => settle(run, "azimuth-extrema", ok, arr(run, "azimuth-extrema", &w, &|o, n| siderust_azimuth_extrema(sub, s, win, op, o, n), siderust_azimuth_extrema_free).map(|v| v.iter().flat_map(|e| [e.mjd, e.azimuth_deg, (e.kind == SiderustAzimuthExtremumKind::Max) as i32 as f64]).collect()),
            &|| az::azimuth_extrema(p, &st, rw(), ro()).iter().flat_map(|e| [e.mjd.raw().value(), e.azimuth.value(), (e.kind == az::AzimuthExtremumKind::Max) as i32 as f64]).collect(), &w),
        7 => settle(run, "in-azimuth-range", ok, arr(run, "in-azimuth-range", &w, &|o, n| siderust_in_azimuth_range(sub, s, win, z, z2, op, o, n), siderust_periods_free).map(|v| per(&v)), &|| rper(&az::in_azimuth_range(p, &st, rw(), d(z), d(z2), ro())), &w),
        _ => settle(run, "outside-azimuth-range", ok, arr(run, "outside-azimuth-range", &w, &|o, n| siderust_outside_azimuth_range(sub, s, win, z, z2, op, o, n), siderust_periods_free).map(|v| per(&v)), &|| rper(&az::outside_azimuth_range(p, &st, rw(), d(z), d(z2), ro())), &w),
    }
    if g.p(0.2) && ok {
        run.check(siderust_above_threshold(sub, s, win, h, op, null_mut(), null_mut()) == St::NullPointer, "null-output/above", || w());
        no_leak(run, "periods", &|| { let (mut o, mut n) = (null_mut(), 0); if siderust_above_threshold(sub, s, win, h, op, &mut o, &mut n) == St::Ok { unsafe { siderust_periods_free(o, n) } } });
    }
}
fn dir_zero() -> SiderustSphericalDir { SiderustSphericalDir { polar_deg: 0.0, azimuth_deg: 0.0, frame: SiderustFrame::ICRS } }
fn blank(kind: SiderustSubjectKind) -> SiderustSubject { SiderustSubject { kind, body: SiderustBody::Sun, star_handle: null(), icrs_dir: dir_zero(), generic_target_handle: null() } }
fn subjects(run: &Run, i: usize) {
    let g = &mut run.rng_i("subjects", i);
    match i % 4 {
        0 => {
            macro_rules! b { ($($n:expr, $B:ident, $v:expr);*) => { match g.n(9) { $( $n => { let s = SiderustSubject { body: SiderustBody::$B, ..blank(SiderustSubjectKind::Body) }; subject_calls(run, g, s, &$v, stringify!($B)) } )* _ => unreachable!() } } }
            b!(0, Sun, bodies::Sun; 1, Moon, bodies::Moon; 2, Mercury, sol::Mercury; 3, Venus, sol::Venus; 4, Mars, sol::Mars; 5, Jupiter, sol::Jupiter; 6, Saturn, sol::Saturn; 7, Uranus, sol::Uranus; 8, Neptune, sol::Neptune)
        }
        1 => star(run, g),
        2 => {
            let (ra, de) = (g.range(0.0, 360.0), g.range(-89.0, 89.0));
            let s = SiderustSubject { icrs_dir: SiderustSphericalDir { polar_deg: de, azimuth_deg: ra, frame: SiderustFrame::ICRS }, ..blank(SiderustSubjectKind::Icrs) };
            subject_calls(run, g, s, &spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(de)), "icrs");
        }
        _ => target(run, g),
    }
    let s = site(g);
    for k in [SiderustSubjectKind::Star, SiderustSubjectKind::GenericTarget] {
        let p = block::<f64>();
        run.check(siderust_altitude_at(blank(k), s, 60000.0, p) == St::NullPointer && bytes(p).iter().all(|b| *b == 0xA5), "null-handle/subject", || format!("{k:?}"));
        drop_block(p);
    }
}
fn star(run: &Run, g: &mut Rng) {
    if g.p(0.4) {
        let names = ["VEGA", "SIRIUS", "POLARIS", "CANOPUS", "ARCTURUS", "RIGEL", "BETELGEUSE", "PROCYON", "ALDEBARAN", "ALTAIR"];
        let stars: [&siderust::bodies::Star<'static>; 10] = [&bodies::VEGA, &bodies::SIRIUS, &bodies::POLARIS, &bodies::CANOPUS, &bodies::ARCTURUS, &bodies::RIGEL, &bodies::BETELGEUSE, &bodies::PROCYON, &bodies::ALDEBARAN, &bodies::ALTAIR];
        let k = g.n(10);
        let mut nm = names[k].to_string();
        if g.p(0.5) { nm = nm.to_lowercase() }
        let c = CString::new(nm.clone()).unwrap();
        let h = q::<*mut SiderustStar>(run, "star-catalog", &|| nm.clone(), &|o| siderust_star_catalog(c.as_ptr(), o));
        let Ok(h) = h else { run.check(false, "status/star-catalog", || format!("{h:?} {nm}")); return };
        same(run, "star-fields", &[siderust_star_distance_ly(h), siderust_star_mass_solar(h), siderust_star_radius_solar(h), siderust_star_luminosity_solar(h)], &[stars[k].distance.value(), stars[k].mass.value(), stars[k].radius.value(), stars[k].luminosity.value()], &|| nm.clone());
        subject_calls(run, g, SiderustSubject { star_handle: h, ..blank(SiderustSubjectKind::Star) }, stars[k], "star");
        unsafe { siderust_star_free(h) };
        let bad = CString::new(format!("{nm}x")).unwrap();
        let r = q::<*mut SiderustStar>(run, "star-catalog", &|| nm.clone(), &|o| siderust_star_catalog(bad.as_ptr(), o));
        run.check(r == Err(St::UnknownStar), "status/star-catalog", || format!("{r:?}"));
        let bad = CString::new(vec![0xff, 0xfe, b'a']).unwrap();
        let r = q::<*mut SiderustStar>(run, "star-catalog", &|| nm.clone(), &|o| siderust_star_catalog(bad.as_ptr(), o));
        run.check(r == Err(St::InvalidArgument), "status/star-catalog", || format!("{r:?}"));
        return;
    }
    let len = g.n(40);
    let name: String = (0..len).map(|_| char::from_u32(*g.pick(&[0x41, 0x7a, 0x20, 0xe9, 0x4e2d, 0x1f30])).unwrap_or('x')).collect();
    let c = CString::new(name.clone()).unwrap();
    let (ra, de, dist, ep) = (g.range(0.0, 360.0), g.range(-89.0, 89.0), g.log(1.0, 1e4), g.range(2.43e6, 2.47e6));
    let pm = SiderustProperMotion { pm_ra_deg_yr: g.range(-1e-3, 1e-3), pm_dec_deg_yr: g.range(-1e-3, 1e-3), ra_convention: if g.p(0.5) { SiderustRaConvention::MuAlpha } else { SiderustRaConvention::MuAlphaStar } };
    let has = g.p(0.5);
    let w = || format!("{name:?} ra {ra} dec {de} epoch {ep} pm {has} {pm:?}");
    let mk = |o| siderust_star_create(c.as_ptr(), dist, 1.5, 2.5, 3.5, ra, de, ep, if has { &pm } else { null() }, o);
    let h = match q::<*mut SiderustStar>(run, "star-create", &w, &mk) { Ok(h) => h, e => { run.check(false, "status/star-create", || format!("{e:?} {}", w())); return } };
    no_leak(run, "star", &|| { let mut p = null_mut(); mk(&mut p); unsafe { siderust_star_free(p) } });
    same(run, "star-fields", &[siderust_star_distance_ly(h), siderust_star_mass_solar(h), siderust_star_radius_solar(h), siderust_star_luminosity_solar(h)], &[dist, 1.5, 2.5, 3.5], &w);
    // the name buffer: every length around the needed one
    for cap in [0, 1, name.len(), name.len() + 1, name.len() + 9] {
        let mut buf = vec![0xA5u8; cap].into_boxed_slice();
        let wr = block::<usize>();
        let s = siderust_star_name(h, buf.as_mut_ptr() as *mut _, cap, if cap % 2 == 0 { wr } else { null_mut() });
        if cap > name.len() { run.check(s == St::Ok && &buf[..name.len()] == name.as_bytes() && buf[name.len()] == 0 && buf[name.len() + 1..].iter().all(|b| *b == 0xA5) && (cap % 2 == 1 || unsafe { *wr } == name.len()), "value/star-name", || format!("{s:?} cap {cap} {}", w())); }
        else { run.check(s == St::InvalidArgument && buf.iter().all(|b| *b == 0xA5) && bytes(wr).iter().all(|b| *b == 0xA5), "status/star-name", || format!("{s:?} cap {cap} {}", w())); }
        drop_block(wr);
    }
    // an equal Rust star
    use siderust::astro::proper_motion::{ProperMotion, RaProperMotionConvention};
    use siderust::coordinates::centers::Geocentric;
    use siderust::targets::CoordinateWithPM;
    let pos = spherical::Position::<Geocentric, EquatorialMeanJ2000, LightYear>::new(Degrees::new(ra), Degrees::new(de), qtty::length::LightYears::new(dist));
    let t = if has { CoordinateWithPM::new(pos, jd(ep), ProperMotion { pm_ra: Quantity::new(pm.pm_ra_deg_yr), pm_dec: Quantity::new(pm.pm_dec_deg_yr), ra_convention: if pm.ra_convention == SiderustRaConvention::MuAlpha { RaProperMotionConvention::MuAlpha } else { RaProperMotionConvention::MuAlphaStar } }) } else { CoordinateWithPM::new_static(pos, jd(ep)) };
    let rs = siderust::bodies::Star::new(name.clone(), qtty::length::LightYears::new(dist), Quantity::new(1.5), Quantity::new(2.5), Quantity::new(3.5), t);
    subject_calls(run, g, SiderustSubject { star_handle: h, ..blank(SiderustSubjectKind::Star) }, &rs, "star");
    unsafe { siderust_star_free(h); siderust_star_free(null_mut()) };
    let bad = q::<*mut SiderustStar>(run, "star-create", &w, &|o| siderust_star_create(c.as_ptr(), dist, 1.5, 2.5, 3.5, ra, de, f64::NAN, null(), o));
    run.check(bad == Err(St::InvalidArgument), "status/star-create", || format!("{bad:?}"));
    let p = block::<*mut SiderustStar>();
    run.check(siderust_star_create(null(), dist, 1.5, 2.5, 3.5, ra, de, ep, null(), p) == St::NullPointer && siderust_star_catalog(null(), p) == St::NullPointer && siderust_star_distance_ly(null()).is_nan(), "null-handle/star", || w());
    drop_block(p);
}
fn target(run: &Run, g: &mut Rng) {
    let src = if g.p(0.8) { *g.pick(&[FR[0], FR[1], FR[2], FR[3], FR[4], SiderustFrame::ICRF]) } else { *g.pick(&FR) };
    let t = epoch(g);
    let ok_t = ffi_utils::jd_from_f64(t).is_ok();
    let (lat, lon) = (g.range(-89.0, 89.0), g.range(0.0, 360.0));
    let r = if g.p(0.15) { hostile(g) } else { g.log(1e-3, 1e6) };
    let kind = *g.pick(&[SiderustTargetCoordKind::SphericalDir, SiderustTargetCoordKind::SphericalPos, SiderustTargetCoordKind::CartesianPos]);
    let v = scale(sph(lat, lon), r.abs());
    let coord = match kind {
        SiderustTargetCoordKind::SphericalDir => SiderustTargetCoordUnion { spherical_dir: SiderustSphericalDir { polar_deg: lat, azimuth_deg: lon, frame: src } },
        SiderustTargetCoordKind::SphericalPos => SiderustTargetCoordUnion { spherical_pos: SiderustSphericalPos { lon_deg: lon, lat_deg: lat, distance: r, frame: src, center: *g.pick(&CE), length_unit: *g.pick(&UNITS) } },
        SiderustTargetCoordKind::CartesianPos => SiderustTargetCoordUnion { cartesian_pos: SiderustCartesianPos { x: v[0], y: v[1], z: v[2], frame: src, center: *g.pick(&CE), length_unit: *g.pick(&UNITS) } },
    };
    let data = SiderustGenericTargetData { kind, _pad1: [0; 4], coord, epoch_jd: t, has_proper_motion: g.p(0.5), _pad2: [0; 7], proper_motion: SiderustProperMotion { pm_ra_deg_yr: 1e-4, pm_dec_deg_yr: -2e-4, ra_convention: SiderustRaConvention::MuAlphaStar } };
    let w = || format!("{kind:?} {src:?} lat {lat} lon {lon} r {r} epoch {t}");
    run.eval("targets", (src as i32, kind as i32, t.to_bits()));
    let ic = if src == SiderustFrame::ICRF { SiderustFrame::ICRS } else { src };
    let want = if ok_t { rust_dir(sph(lat, lon), ic, SiderustFrame::ICRS, t, None) } else { None };
    let shape_ok = match kind { SiderustTargetCoordKind::SphericalDir => true, SiderustTargetCoordKind::SphericalPos => r.is_finite() && r > 0.0, _ => v.iter().all(|x| x.is_finite()) && norm(v) > 1e-15 && norm(v) < 1e150 };
    let h = q::<*mut SiderustGenericTarget>(run, "target-create", &w, &|o| siderust_generic_target_create(data, o));
    match (h, want) {
        (Ok(h), Some(x)) if shape_ok => {
            let e = q::<f64>(run, "target-epoch", &w, &|o| siderust_generic_target_epoch_jd(h, o));
            run.check(e == Ok(t), "value/target-epoch", || format!("{e:?} {}", w()));
            let back = q::<SiderustGenericTargetData>(run, "target-data", &w, &|o| siderust_generic_target_get_data(h, o)).unwrap();
            run.check(back.kind == kind && back.epoch_jd == t && back.has_proper_motion == data.has_proper_motion && bytes(&back.coord)[..16] == bytes(&data.coord)[..16] && back.proper_motion.pm_dec_deg_yr == -2e-4, "value/target-data", || w());
            let s = spherical::direction::ICRS::new(Radians::new(x[1].atan2(x[0])).to::<Degree>(), Radians::new((x[2] / norm(x)).clamp(-1.0, 1.0).asin()).to::<Degree>());
            let sub = SiderustSubject { generic_target_handle: h, ..blank(SiderustSubjectKind::GenericTarget) };
            let sit = site(g);
            let a = q::<f64>(run, "target-altitude", &w, &|o| siderust_altitude_at(sub, sit, 60_000.3, o)).unwrap();
            run.within("value/target-altitude", (a - s.altitude_at(&sit.to_rust(), mjd(60_000.3)).value()).abs(), 1e-7, || w());
            unsafe { siderust_generic_target_free(h) };
            no_leak(run, "target", &|| { let mut p = null_mut(); siderust_generic_target_create(data, &mut p); unsafe { siderust_generic_target_free(p) } });
        }
        (Err(St::InvalidFrame), _) if rust_dir([1.0, 0.0, 0.0], ic, FR[0], 2_451_545.0, None).is_none() => run.count("refused", 1),
        (Err(St::InvalidArgument), _) if !ok_t || !shape_ok => run.count("refused", 1),
        (h, x) => { run.check(false, "status/target-create", || format!("{h:?} {x:?} {}", w())); }
    }
    let (ra, de) = (g.range(0.0, 360.0), g.range(-89.0, 89.0));
    let h = if g.p(0.5) { q::<*mut SiderustGenericTarget>(run, "target-icrs", &w, &|o| siderust_generic_target_create_icrs(ra, de, 2_451_545.0, o)) } else { q(run, "target-icrs-pm", &w, &|o| siderust_generic_target_create_icrs_with_pm(ra, de, 2_451_545.0, 1e-5, 2e-5, SiderustRaConvention::MuAlpha, o)) };
    if let Ok(h) = h {
        subject_calls(run, g, SiderustSubject { generic_target_handle: h, ..blank(SiderustSubjectKind::GenericTarget) }, &spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(de)), "target");
        unsafe { siderust_generic_target_free(h); siderust_generic_target_free(null_mut()) };
    } else { run.check(false, "status/target-icrs", || w()); }
}
fn phases(run: &Run, i: usize) {
    let g = &mut run.rng_i("phase", i);
    let t = epoch(g);
    let ok = ffi_utils::jd_from_f64(t).is_ok();
    let s = site(g);
    let w = || format!("at {t} {s:?}");
    type V = siderust::ephemeris::Vsop87Ephemeris;
    run.eval("phase", t.to_bits());
    for topo in [false, true] {
        let r = q::<SiderustMoonPhaseGeometry>(run, "moon-phase", &w, &|o| if topo { siderust_moon_phase_topocentric(t, s, o) } else { siderust_moon_phase_geocentric(t, o) });
        let rust = if ok { guard(|| if topo { ph::moon_phase_topocentric::<V>(jd(t), s.to_rust()) } else { ph::moon_phase_geocentric::<V>(jd(t)) }) } else { Err(String::new()) };
        match (r, rust) {
            (Ok(p), Ok(x)) => {
                same(run, "moon-phase", &[p.phase_angle_rad, p.illuminated_fraction, p.elongation_rad, p.waxing as f64], &[x.phase_angle.value(), x.illuminated_fraction.value(), x.elongation.value(), x.waxing as i32 as f64], &w);
                let l = q::<SiderustMoonPhaseLabel>(run, "moon-label", &w, &|o| siderust_moon_phase_label(p, o)).unwrap();
                let rl = ph::MoonPhaseLabel::from_elongation(x.elongation.to::<Degree>(), &Default::default());
                run.check(format!("{l:?}") == format!("{rl:?}"), "value/moon-label", || format!("{l:?} {rl:?} {}", w()));
            }
            (Err(St::InvalidArgument), _) if !ok => {}
            (Err(St::InternalPanic), Err(_)) if ok => run.count("panic-contained", 1),
            (e, _) => { run.check(false, "status/moon-phase", || format!("{e:?} {}", w())); }
        }
    }
    if i % 3 == 0 {
        let (mut win, wok) = window(g);
        if wok { win.end_mjd += 20.0 }
        let (op, ook) = opts(g);
        let (k, k2) = (g.range(0.0, 1.0), g.range(0.0, 1.0));
        let ro = || ph::PhaseSearchOpts { time_tolerance: Days::new(op.time_tolerance_days), ..Default::default() };
        let rw = || Interval::new(mjd(win.start_mjd), mjd(win.end_mjd));
        let w = || format!("{win:?} {op:?} {k}");
        let (got, want, sig): (Result<Vec<f64>, St>, Box<dyn Fn() -> Vec<f64>>, &str) = match g.n(4) {
            0 => (arr(run, "phase-events", &w, &|o, n| siderust_find_phase_events(win, op, o, n), siderust_phase_events_free).map(|v| v.iter().flat_map(|e| [e.mjd, e.kind as i32 as f64]).collect()),
                Box::new(|| ph::find_phase_events::<V>(rw(), ro()).iter().flat_map(|e| [e.mjd.raw().value(), match e.kind { ph::PhaseKind::NewMoon => 0.0, ph::PhaseKind::FirstQuarter => 1.0, ph::PhaseKind::FullMoon => 2.0, ph::PhaseKind::LastQuarter => 3.0 }]).collect()), "phase-events"),
            1 => (arr(run, "illumination-above", &w, &|o, n| siderust_moon_illumination_above(win, k, op, o, n), siderust_periods_free).map(|v| per(&v)), Box::new(|| rper(&ph::illumination_above::<V>(rw(), Quantity::new(k), ro()))), "illumination-above"),
            2 => (arr(run, "illumination-below", &w, &|o, n| siderust_moon_illumination_below(win, k, op, o, n), siderust_periods_free).map(|v| per(&v)), Box::new(|| rper(&ph::illumination_below::<V>(rw(), Quantity::new(k), ro()))), "illumination-below"),
            _ => (arr(run, "illumination-range", &w, &|o, n| siderust_moon_illumination_range(win, k.min(k2), k.max(k2), op, o, n), siderust_periods_free).map(|v| per(&v)), Box::new(|| rper(&ph::illumination_range::<V>(rw(), Quantity::new(k.min(k2)), Quantity::new(k.max(k2)), ro()))), "illumination-range"),
        };
        match got { Ok(v) if wok && ook => { run.eval("searches", (sig, v.len())); same(run, sig, &v, &want(), &w) } Err(St::InvalidArgument | St::InvalidPeriod) if !(wok && ook) => run.count("refused", 1), e => { run.check(false, &format!("status/{sig}"), || format!("{e:?} {}", w())); } }
    }
    let a = g.range(-100.0, 100.0);
    let p = q::<SiderustTwilightPhase>(run, "twilight", &w, &|o| siderust_twilight_classification_deg(a, o)).unwrap();
    let p2 = q::<SiderustTwilightPhase>(run, "twilight", &w, &|o| siderust_twilight_classification_rad(a.to_radians(), o)).unwrap();
    let x = siderust::event::solar::classification::twilight_classification(Degrees::new(a));
    run.check(format!("{p:?}") == format!("{x:?}") && p == p2, "value/twilight", || format!("{a} {p:?} {p2:?} {x:?}"));
}
fn kernels(run: &Run, i: usize) {
    use vffi::daf::{cheb_seg, Writer};
    let g = &mut run.rng_i("kernel", i);
    let t0 = g.range(-1e8, 1e8);
    let span = g.range(20.0, 60.0) * 86400.0;
    let mut segs: Vec<_> = [(3, 0, 1.5e8), (10, 0, 1e6), (301, 3, 4e5), (399, 3, 5e3)].iter().map(|&(t, c, s)| cheb_seg(g, t, c, t0, span, s, 3)).collect();
    if g.p(0.2) { let k = g.n(segs.len()); segs.remove(k); }
    for s in &mut segs { s.frame = 1; }
    let mut b = Writer { big: g.p(0.3), per_record: 1 + g.n(20), gap: g.n(2), locator: if g.p(0.5) { b"DAF/SPK " } else { b"NAIF/DAF" } }.spk(&segs);
    match g.n(5) { 0 => { let n = g.n(b.len()); b.truncate(n) } 1 => { for _ in 0..1 + g.n(4) { let k = g.n(b.len().min(3000)); b[k] = g.u64() as u8 } } _ => {} }
    let rust = RuntimeEphemeris::from_bytes(&b).ok();
    // an exactly-sized copy so that reads past the end are caught
    let data: Box<[u8]> = b.clone().into_boxed_slice();
    let w = || format!("kernel case {i} ({} bytes)", data.len());
    run.eval("kernels", (i, data.len()));
    let h = if i % 4 == 0 {
        let dir = std::env::temp_dir().join(format!("vffi-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let f = dir.join(format!("k{i}.bsp"));
        std::fs::write(&f, &b).unwrap();
        let c = CString::new(f.to_str().unwrap()).unwrap();
        let h = q::<*mut SiderustRuntimeEphemeris>(run, "kernel-file", &w, &|o| siderust_runtime_ephemeris_load_bsp(c.as_ptr(), o));
        let _ = std::fs::remove_file(&f);
        let gone = q::<*mut SiderustRuntimeEphemeris>(run, "kernel-file", &w, &|o| siderust_runtime_ephemeris_load_bsp(c.as_ptr(), o));
        run.check(gone == Err(St::DataError), "status/kernel-file", || format!("{gone:?} for a missing file"));
        h
    } else { q(run, "kernel-bytes", &w, &|o| siderust_runtime_ephemeris_load_bytes(data.as_ptr(), data.len(), o)) };
    run.check(h.is_ok() == rust.is_some() && (h.is_ok() || h == Err(St::DataError)), "status/kernel", || format!("{h:?} Rust {} {}", rust.is_some(), w()));
    if let (Ok(h), Some(r)) = (h, rust) {
        no_leak(run, "kernel", &|| { let mut p = null_mut(); if siderust_runtime_ephemeris_load_bytes(data.as_ptr(), data.len(), &mut p) == St::Ok { unsafe { siderust_runtime_ephemeris_free(p) } } });
        for _ in 0..6 {
            let t = if g.p(0.1) { hostile_t(g) } else { 2_451_545.0 + (t0 + g.range(-0.2, 1.2) * span) / 86400.0 };
            let ok = ffi_utils::jd_from_f64(t).is_ok();
            let w = || format!("kernel case {i} at {t}");
            let call = |sig: &str, f: extern "C" fn(*const SiderustRuntimeEphemeris, f64, *mut SiderustCartesianPos) -> St, x: Option<Result<[f64; 3], String>>| {
                run.check(f(null(), t, null_mut()) == St::NullPointer, "null-handle/kernel", || w());
                match (q::<SiderustCartesianPos>(run, sig, &w, &|o| f(h, t, o)), x) {
                    (Ok(p), Some(Ok(x))) => { run.count("kernel-values", 1); same(run, sig, &xyz(&p), &x, &w) }
                    (Err(St::OutOfRange | St::DataError), Some(Err(_))) | (Err(St::InvalidArgument), None) => run.count("refused", 1),
                    (p, x) => { run.check(false, &format!("status/{sig}"), || format!("{p:?} {x:?} {}", w())); }
                }
            };
            let e = |e: siderust::ephemeris::EphemerisError| format!("{e:?}");
            call("kernel-sun", siderust_runtime_ephemeris_sun_barycentric, ok.then(|| r.try_sun_barycentric(jd(t)).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(e)));
            call("kernel-earth", siderust_runtime_ephemeris_earth_barycentric, ok.then(|| r.try_earth_barycentric(jd(t)).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(e)));
            call("kernel-earth-helio", siderust_runtime_ephemeris_earth_heliocentric, ok.then(|| r.try_earth_heliocentric(jd(t)).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(e)));
            call("kernel-moon", siderust_runtime_ephemeris_moon_geocentric, ok.then(|| r.try_moon_geocentric(jd(t)).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(e)));
            let v = q::<SiderustCartesianVel>(run, "kernel-velocity", &w, &|o| siderust_runtime_ephemeris_earth_barycentric_velocity(h, t, o));
            match (v, ok.then(|| r.try_earth_barycentric_velocity(jd(t)))) { (Ok(v), Some(Ok(x))) => same(run, "kernel-velocity", &[v.vx, v.vy, v.vz], &[x.x().value(), x.y().value(), x.z().value()], &w), (Err(_), Some(Err(_)) | None) => {}, (v, _) => { run.check(false, "status/kernel-velocity", || format!("{v:?} {}", w())); } }
        }
        // the dynamics context keeps its own copy: use after freeing the ephemeris handle
        let mut c = null_mut();
        siderust_dynamics_context_new(&mut c);
        run.check(siderust_dynamics_context_with_ephemeris(c, h) == St::Ok && siderust_dynamics_context_with_ephemeris(c, null()) == St::NullPointer, "status/dynamics-ephemeris", || w());
        unsafe { siderust_runtime_ephemeris_free(h) };
        propagate(run, g, c);
        unsafe { siderust_dynamics_context_free(c) };
    }
    let p = block::<*mut SiderustRuntimeEphemeris>();
    run.check(siderust_runtime_ephemeris_load_bytes(null(), 0, p) == St::NullPointer && siderust_runtime_ephemeris_load_bsp(null(), p) == St::NullPointer, "null-handle/kernel", || w());
    drop_block(p);
}
unsafe extern "C" fn dens(_: f64, u: *mut c_void) -> f64 { *(u as *mut f64) }
unsafe extern "C" fn coef(n: u32, m: u32, u: *mut c_void) -> f64 { *(u as *mut f64) * (n + m) as f64 }
fn propagate(run: &Run, g: &mut Rng, ctx: *mut SiderustDynamicsContext) {
    use siderust::coordinates::centers::Geocentric;
    let mu = if g.p(0.15) { hostile(g) } else { g.log(1e4, 1e6) };
    let mut ud = 1e-12f64;
    if !ctx.is_null() {
        let vt = SiderustAtmosphereVtable { density: dens, user_data: &mut ud as *mut f64 as *mut c_void };
        let gv = SiderustGravityVtable { gm_km3_s2: mu, reference_radius_km: 6378.0, max_degree: 4, max_order: 4, c_normalized: coef, s_normalized: coef, user_data: &mut ud as *mut f64 as *mut c_void };
        run.check(siderust_dynamics_context_with_atmosphere(ctx, &vt) == St::Ok && siderust_dynamics_context_with_atmosphere(ctx, null()) == St::NullPointer, "status/dynamics-atmosphere", || String::new());
        let s = siderust_dynamics_context_with_gravity_field(ctx, &gv);
        run.check(s == if mu.is_finite() && mu > 0.0 { St::Ok } else { St::InvalidArgument }, "status/dynamics-gravity", || format!("{s:?} mu {mu}"));
    }
    let p = q::<*mut SiderustPropagator>(run, "propagator", &|| format!("mu {mu}"), &|o| siderust_propagator_two_body_new(mu, o));
    run.check(p.is_ok() == (mu.is_finite() && mu > 0.0), "status/propagator", || format!("{p:?} mu {mu}"));
    let (mu, p) = match p { Ok(p) if (1e4..=1e6).contains(&mu) => (mu, p), Ok(p) => { unsafe { siderust_propagator_free(p) }; return } _ => {
        (siderust::astro::dynamics::units::GM_EARTH.value(), q::<*mut SiderustPropagator>(run, "propagator", &String::new, &siderust_propagator_two_body_earth_new_).unwrap()) } };
    let r0 = g.log(7000.0, 50000.0);
    let u = g.unit();
    let t = unit(cross(u, g.unit()));
    let vc = (mu / r0).sqrt();
    let (x, v) = (scale(u, r0), add(scale(t, vc * g.range(0.9, 1.2)), scale(u, vc * g.range(-0.1, 0.1))));
    let t0 = g.range(2.43e6, 2.47e6);
    let s0 = q::<*mut SiderustOrbitState>(run, "orbit-state", &|| format!("{x:?} {v:?}"), &|o| siderust_orbit_state_new(t0, x[0], x[1], x[2], v[0], v[1], v[2], o)).unwrap();
    let bad = q::<*mut SiderustOrbitState>(run, "orbit-state", &String::new, &|o| siderust_orbit_state_new(t0, x[0], f64::NAN, x[2], v[0], v[1], v[2], o));
    run.check(bad == Err(St::InvalidArgument), "status/orbit-state", || format!("{bad:?}"));
    let get = |s: *const SiderustOrbitState| {
        let (a, b, c, d) = ([0.0f64; 3], [0.0f64; 3], 0.0f64, 0);
        let (mut a, mut b, mut c) = (a, b, c);
        let _ = d;
        let [a0, a1, a2] = &mut a;
        let [b0, b1, b2] = &mut b;
        let ok = siderust_orbit_state_position(s, a0, a1, a2) == St::Ok && siderust_orbit_state_velocity(s, b0, b1, b2) == St::Ok && siderust_orbit_state_epoch_jd(s, &mut c) == St::Ok;
        run.check(ok && siderust_orbit_state_position(s, null_mut(), null_mut(), null_mut()) == St::NullPointer && siderust_orbit_state_epoch_jd(null(), &mut c) == St::NullPointer, "status/orbit-state-get", String::new);
        siderust_orbit_state_epoch_jd(s, &mut c);
        (a, b, c)
    };
    let (a, b, c) = get(s0);
    run.check(a == x && b == v && (c - t0).abs() < 1e-8, "value/orbit-state", || format!("{a:?} {b:?} {c} from {x:?} {v:?} {t0}"));
    let dt = if g.p(0.15) { hostile(g) } else { g.range(-0.6, 0.6) * std::f64::consts::TAU * (r0.powi(3) / mu).sqrt() };
    if dt.is_finite() && dt.abs() > 1e7 { unsafe { siderust_orbit_state_free(s0); siderust_propagator_free(p) }; return }
    let o = block::<*mut SiderustOrbitState>();
    let st = siderust_propagator_propagate(p, s0, dt, ctx, o);
    let w = || format!("mu {mu} {x:?} {v:?} dt {dt}: {st:?}");
    run.eval("propagations", (dt.to_bits(), r0.to_bits()));
    if st == SiderustDynamicsStatus::Ok {
        let s1 = unsafe { *o };
        let (a, b, c) = get(s1);
        // two-body invariants and the elapsed time are the oracle
        let en = |x: V3, v: V3| dot(v, v) / 2.0 - mu / norm(x);
        run.within("value/propagate-energy", ((en(a, b) - en(x, v)) / en(x, v)).abs(), 1e-6, || w());
        run.within("value/propagate-momentum", norm(sub(cross(a, b), cross(x, v))) / norm(cross(x, v)), 1e-6, || w());
        run.within("value/propagate-epoch", ((c - t0) * 86400.0 - dt).abs(), 1e-3, || w());
        let o2 = block::<*mut SiderustOrbitState>();
        if siderust_propagator_propagate(p, s1, -dt, null(), o2) == SiderustDynamicsStatus::Ok {
            let (a2, b2, _) = get(unsafe { *o2 });
            run.within("value/propagate-return", norm(sub(a2, x)) / r0 + norm(sub(b2, v)) / vc, 1e-5, || w());
            unsafe { siderust_orbit_state_free(*o2) };
        } else { run.check(false, "status/propagate-return", || w()); }
        drop_block(o2);
        unsafe { siderust_orbit_state_free(s1) };
    } else {
        run.check(!dt.is_finite() && st == SiderustDynamicsStatus::InvalidStepRequest && bytes(o).iter().all(|b| *b == 0xA5), "status/propagate", || w());
    }
    run.check(siderust_propagator_propagate(null(), s0, dt, ctx, o) == SiderustDynamicsStatus::NullPointer && siderust_propagator_propagate(p, null(), dt, ctx, o) == SiderustDynamicsStatus::NullPointer && siderust_propagator_propagate(p, s0, dt, ctx, null_mut()) == SiderustDynamicsStatus::NullPointer, "null-handle/propagate", || w());
    drop_block(o);
    unsafe { siderust_orbit_state_free(s0); siderust_propagator_free(p); siderust_orbit_state_free(null_mut()); siderust_propagator_free(null_mut()) };
}
#[allow(non_snake_case)]
fn siderust_propagator_two_body_earth_new_(o: *mut *mut SiderustPropagator) -> St { siderust_propagator_two_body_earth_new(o) }

fn satellites(run: &Run, i: usize) {
    use siderust::astro::sgp4::{GravityModel, Sgp4Propagator};
    let g = &mut run.rng_i("sat", i);
    let f = TleF::random(g);
    let (mut l1, mut l2) = f.lines();
    if g.p(0.2) {
        // damage: the reader decides, the C side must agree
        let l = if g.p(0.5) { &mut l1 } else { &mut l2 };
        match g.n(3) { 0 => { let n = g.n(l.len()); l.truncate(n) } 1 => { let k = g.n(l.len()); l.replace_range(k..k + 1, g.pick(&["x", "9", " ", "é", "-"])) } _ => l.push_str("  ") }
    }
    let rust = siderust::formats::tle::parse_tle(l1.trim(), l2.trim()).ok();
    let (a, b) = (CString::new(l1.clone()).unwrap(), CString::new(l2.clone()).unwrap());
    let w = || format!("{l1:?} {l2:?}");
    run.eval("satellites", (l1.clone(), l2.clone()));
    let h = q::<*mut SiderustTle>(run, "tle-parse", &w, &|o| siderust_tle_parse(a.as_ptr(), b.as_ptr(), o));
    run.check(h.is_ok() == rust.is_some() && (h.is_ok() || h == Err(St::InvalidArgument)), "status/tle-parse", || format!("{h:?} Rust {} {}", rust.is_some(), w()));
    if let (Ok(h), Some(t)) = (h, rust) {
        let id = q::<u32>(run, "tle-id", &w, &|o| siderust_tle_norad_id(h, o));
        run.check(id == Ok(t.norad_id.0), "value/tle-id", || format!("{id:?} {}", w()));
        let k = g.n(3);
        let m = [GravityModel::Wgs72, GravityModel::Wgs72Iau, GravityModel::Wgs84][k];
        let rp = Sgp4Propagator::from_tle_with_model(&t, m);
        let p = q::<*mut SiderustSgp4>(run, "sgp4-new", &w, &|o| siderust_sgp4_new(h, k as i32, o));
        run.check(p.is_ok() == rp.is_ok(), "status/sgp4-new", || format!("{p:?} Rust {} {}", rp.is_ok(), w()));
        unsafe { siderust_tle_free(h) };
        if let (Ok(p), Ok(rp)) = (p, rp) {
            let code = q::<i32>(run, "sgp4-model", &w, &|o| siderust_sgp4_gravity_model(p, o));
            run.check(code == Ok(k as i32), "value/sgp4-model", || format!("{code:?} {k}"));
            let e = q::<f64>(run, "sgp4-epoch", &w, &|o| siderust_sgp4_epoch_jd_utc(p, o));
            run.check(e == Ok(rp.epoch_jd_utc().raw().value()), "value/sgp4-epoch", || format!("{e:?}"));
            for _ in 0..4 {
                let t = if g.p(0.15) { hostile_t(g) } else { e.unwrap_or(2.46e6) + g.range(-3.0, 3.0) };
                let rt = guard(|| tempoch::JulianDate::<tempoch::UTC>::try_new(Quantity::<Day>::new(t)).ok().and_then(|t| rp.propagate_at(t).ok()));
                let (px, vx) = (block::<[f64; 3]>(), block::<[f64; 3]>());
                let s = siderust_sgp4_propagate_at(p, t, px as *mut f64, vx as *mut f64);
                match (s, &rt) {
                    (St::Ok, Ok(Some(r))) => { let (x, v) = (r.position().as_array(), r.velocity().as_array()); let c: Vec<f64> = unsafe { (*px).iter().chain(&*vx).copied().collect() }; same(run, "sgp4", &c, &[x[0].value(), x[1].value(), x[2].value(), v[0].value(), v[1].value(), v[2].value()], &w); run.count("sgp4-states", 1) }
                    (St::InternalPanic, Err(_)) => run.count("panic-contained", 1),
                    (St::InvalidArgument, Ok(None)) => { run.check(bytes(px).iter().chain(&bytes(vx)).all(|b| *b == 0xA5), "output-touched/sgp4", || w()); }
                    _ => { run.check(false, "status/sgp4", || format!("{s:?} Rust {} at {t} {}", rt.as_ref().map_or(false, |r| r.is_some()), w())); }
                }
                run.check(siderust_sgp4_propagate_at(p, t, null_mut(), vx as *mut f64) == St::NullPointer && siderust_sgp4_propagate_at(null(), t, px as *mut f64, vx as *mut f64) == St::NullPointer, "null-handle/sgp4", || w());
                drop_block(px);
                drop_block(vx);
            }
            siderust_sgp4_free(p);
            no_leak(run, "tle-sgp4", &|| { let (mut t, mut p) = (null_mut(), null_mut()); siderust_tle_parse(a.as_ptr(), b.as_ptr(), &mut t); siderust_sgp4_new(t, 0, &mut p); siderust_tle_free(t); siderust_sgp4_free(p) });
        }
    }
    let o = block::<*mut SiderustTle>();
    run.check(siderust_tle_parse(null(), b.as_ptr(), o) == St::NullPointer && siderust_tle_parse(a.as_ptr(), null(), o) == St::NullPointer && siderust_sgp4_new(null(), 0, o as *mut _) == St::NullPointer, "null-handle/tle", || w());
    drop_block(o);
    siderust_tle_free(null_mut());
    siderust_sgp4_free(null_mut());
}
fn text_and_grids(run: &Run, i: usize) {
    let g = &mut run.rng_i("oem", i);
    let n = g.n(8);
    let mut s = String::from("CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = V\n\nMETA_START\nOBJECT_NAME = A\nOBJECT_ID = 2024-001A\nCENTER_NAME = EARTH\nREF_FRAME = GCRF\nTIME_SYSTEM = UTC\nSTART_TIME = 2024-01-01T00:00:00\nSTOP_TIME = 2024-01-02T00:00:00\nMETA_STOP\n\n");
    for k in 0..n { s.push_str(&format!("2024-01-01T{:02}:{:02}:{:06.3} {:.6} {:.6} {:.6} {:.9} {:.9} {:.9}\n", k, g.n(60), g.range(0.0, 59.9), g.range(-8e3, 8e3), g.range(-8e3, 8e3), g.range(-8e3, 8e3), g.range(-8.0, 8.0), g.range(-8.0, 8.0), g.range(-8.0, 8.0))); }
    let mut raw = s.into_bytes();
    if g.p(0.4) { for _ in 0..1 + g.n(3) { let k = g.n(raw.len()); raw[k] = *g.pick(&[b'x', b'\n', b' ', 0xff, b'=', b'9', b'.', b'-']) } }
    let c = CString::new(raw.clone()).unwrap();
    let w = || format!("OEM case {i}: {:?}", String::from_utf8_lossy(&raw));
    run.eval("documents", raw.clone());
    let rust = std::str::from_utf8(&raw).ok().and_then(|t| siderust::formats::ccsds::oem::read_oem(t.as_bytes()).ok());
    let (o, cnt) = (block::<*mut SiderustOemState>(), block::<std::ffi::c_ulong>());
    let st = siderust_oem_parse_str(c.as_ptr(), o, cnt);
    match (st, &rust) {
        (St::Ok, Some(r)) => {
            let want: Vec<f64> = r.segments.iter().flat_map(|s| &s.states).flat_map(|s| [s.epoch_jd, s.position_km[0], s.position_km[1], s.position_km[2], s.velocity_km_s[0], s.velocity_km_s[1], s.velocity_km_s[2]]).collect();
            let k = unsafe { *cnt } as usize;
            let got: Vec<f64> = if k == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(*o, k) }.iter().flat_map(|s| [s.epoch_jd, s.pos_km[0], s.pos_km[1], s.pos_km[2], s.vel_kms[0], s.vel_kms[1], s.vel_kms[2]]).collect() };
            same(run, "oem", &got, &want, &w);
            run.count("oem-states", k as u64);
            siderust_oem_states_free(unsafe { *o }, unsafe { *cnt });
            no_leak(run, "oem", &|| { let (mut o, mut n) = (null_mut(), 0); if siderust_oem_parse_str(c.as_ptr(), &mut o, &mut n) == St::Ok { siderust_oem_states_free(o, n) } });
        }
        (St::InvalidArgument, None) => { run.check(bytes(o).iter().chain(&bytes(cnt)).all(|b| *b == 0xA5), "output-touched/oem", || w()); run.count("refused", 1) }
        _ => { run.check(false, "status/oem", || format!("{st:?} Rust {} {}", rust.is_some(), w())); }
    }
    run.check(siderust_oem_parse_str(null(), o, cnt) == St::NullPointer && siderust_oem_parse_str(c.as_ptr(), null_mut(), cnt) == St::NullPointer && siderust_oem_parse_str(c.as_ptr(), o, null_mut()) == St::NullPointer, "null-output/oem", || w());
    drop_block(o);
    drop_block(cnt);
    // sky grids
    let (lo, eq) = (g.range(-10.0, 60.0), g.p(0.5));
    let (hi, ds, da) = (lo + g.range(0.0, 40.0), g.range(1.0, 20.0), g.range(2.0, 60.0));
    let w = || format!("grid {lo} {hi} {ds} {da} {eq}");
    let v = arr(run, "sky-grid", &w, &|o, n| unsafe { sampling::siderust_sky_grid_cells(lo, hi, ds, da, eq, o, n) }, sampling::siderust_sky_grid_cells_free);
    let base = if eq { siderust::coordinates::SkyGrid::equal_area(Degrees::new(ds), Degrees::new(da)) } else { siderust::coordinates::SkyGrid::with_steps(Degrees::new(ds), Degrees::new(da)) };
    let want: Vec<f64> = base.with_alt_range(Degrees::new(lo), Degrees::new(hi)).iter_cells().flat_map(|c| [c.direction.polar.value(), c.direction.azimuth.value(), c.solid_angle.value()]).collect();
    match v { Ok(v) => same(run, "sky-grid", &v.iter().flat_map(|c| [c.altitude_deg, c.azimuth_deg, c.solid_angle_sr]).collect::<Vec<_>>(), &want, &w), e => { run.check(false, "status/sky-grid", || format!("{e:?} {}", w())); } }
    if g.p(0.3) {
        let (mut ds, mut da, mut lo2) = (ds, da, lo);
        let bad = *g.pick(&[0.0, -1.0, f64::NAN, f64::NEG_INFINITY]);
        match g.n(3) { 0 => ds = bad, 1 => da = bad, _ => lo2 = f64::NAN }
        let w = || format!("grid {lo2} {hi} {ds} {da} {eq}");
        let v = arr(run, "sky-grid-bad", &w, &|o, n| unsafe { sampling::siderust_sky_grid_cells(lo2, hi, ds, da, eq, o, n) }, sampling::siderust_sky_grid_cells_free);
        let rust = guard(|| (if eq { siderust::coordinates::SkyGrid::equal_area(Degrees::new(ds), Degrees::new(da)) } else { siderust::coordinates::SkyGrid::with_steps(Degrees::new(ds), Degrees::new(da)) }).with_alt_range(Degrees::new(lo2), Degrees::new(hi)).iter_cells().count());
        run.check(match (&v, &rust) { (Ok(v), Ok(n)) => v.len() == *n, (Err(St::InvalidArgument), _) | (Err(St::InternalPanic), Err(_)) => true, _ => false }, "status/sky-grid-bad", || format!("C {:?} Rust {rust:?} {}", v.as_ref().map(|v| v.len()), w()));
    }
    // Lambert
    let (r1, r2) = (scale(g.unit(), g.log(6500.0, 5e4)), scale(g.unit(), g.log(6500.0, 5e4)));
    let tof = if g.p(0.1) { hostile(g) } else { g.log(600.0, 1e5) };
    let mu = if g.p(0.1) { hostile(g) } else { 398600.4418 };
    let br = g.n(2) as i32;
    let (b1, b2) = (Box::new(r1), Box::new(r2));
    let (o1, o2, dg) = (block::<[f64; 3]>(), block::<[f64; 3]>(), block::<SiderustLambertDiagnostics>());
    let st = siderust_lambert_solve(b1.as_ptr(), b2.as_ptr(), tof, mu, br, o1 as *mut f64, o2 as *mut f64, if g.p(0.5) { dg } else { null_mut() });
    let w = || format!("lambert {r1:?} {r2:?} {tof} {mu} branch {br}");
    use keplerian::lambert::{lambert, LambertBranch};
    let pr = |r: V3| affn::cartesian::Position::<(), ICRS, Kilometer>::new(r[0], r[1], r[2]);
    let rust = lambert(pr(r1), pr(r2), Seconds::new(tof), siderust::astro::dynamics::units::GravitationalParameter::new(mu), if br == 1 { LambertBranch::Retrograde } else { LambertBranch::Prograde }).ok();
    run.eval("lambert", (tof.to_bits(), r1[0].to_bits()));
    match (st, rust) {
        (St::Ok, Some(s)) => unsafe { same(run, "lambert", &[(*o1).to_vec(), (*o2).to_vec()].concat(), &[s.v1.x().value(), s.v1.y().value(), s.v1.z().value(), s.v2.x().value(), s.v2.y().value(), s.v2.z().value()], &w) },
        (St::InvalidArgument, None) => { run.check(bytes(o1).iter().chain(&bytes(o2)).chain(&bytes(dg)).all(|b| *b == 0xA5), "output-touched/lambert", || w()); run.count("refused", 1) }
        (s, r) => { run.check(false, "status/lambert", || format!("{s:?} Rust {} {}", r.is_some(), w())); }
    }
    run.check(siderust_lambert_solve(null(), b2.as_ptr(), tof, mu, br, o1 as *mut f64, o2 as *mut f64, null_mut()) == St::NullPointer && siderust_lambert_solve(b1.as_ptr(), b2.as_ptr(), tof, mu, br, o1 as *mut f64, null_mut(), null_mut()) == St::NullPointer, "null-output/lambert", || w());
    drop_block(o1);
    drop_block(o2);
    drop_block(dg);
}
fn constants(run: &Run) {
    let ps: [(extern "C" fn(*mut SiderustPlanet) -> St, &siderust::bodies::Planet); 8] = [(siderust_planet_mercury, &bodies::MERCURY), (siderust_planet_venus, &bodies::VENUS), (siderust_planet_earth, &bodies::EARTH), (siderust_planet_mars, &bodies::MARS), (siderust_planet_jupiter, &bodies::JUPITER), (siderust_planet_saturn, &bodies::SATURN), (siderust_planet_uranus, &bodies::URANUS), (siderust_planet_neptune, &bodies::NEPTUNE)];
    for (k, (f, p)) in ps.iter().enumerate() {
        let r = q::<SiderustPlanet>(run, "planet", &|| k.to_string(), &|o| f(o)).unwrap();
        let (s, o) = (p.orbit.shape(), p.orbit.orientation());
        same(run, "planet", &[r.mass_kg, r.radius_km, r.orbit.semi_major_axis_au, r.orbit.eccentricity, r.orbit.inclination_deg, r.orbit.lon_ascending_node_deg, r.orbit.arg_periapsis_deg, r.orbit.mean_anomaly_deg, r.orbit.epoch_jd],
            &[p.mass.value(), p.radius.value(), s.semi_major_axis().value(), s.eccentricity(), o.inclination().value(), o.longitude_of_ascending_node().value(), o.argument_of_periapsis().value(), p.orbit.mean_anomaly_at_epoch.value(), p.orbit.epoch.raw().value()], &|| format!("planet {k}"));
        run.eval("constants", k);
    }
    use siderust::catalogs::observatories as ob;
    let os: [(extern "C" fn(*mut SiderustGeodetict) -> St, &Geodetic<ECEF>); 4] = [(siderust_observatory_roque_de_los_muchachos, &ob::ROQUE_DE_LOS_MUCHACHOS.geodetic), (siderust_observatory_el_paranal, &ob::EL_PARANAL.geodetic), (siderust_observatory_mauna_kea, &ob::MAUNA_KEA.geodetic), (siderust_observatory_la_silla, &ob::LA_SILLA_OBSERVATORY.geodetic)];
    for (k, (f, s)) in os.iter().enumerate() {
        let r = q::<SiderustGeodetict>(run, "observatory", &|| k.to_string(), &|o| f(o)).unwrap();
        same(run, "observatory", &[r.lon_deg, r.lat_deg, r.height_m], &[s.lon.value(), s.lat.value(), s.height.value()], &|| k.to_string());
        run.eval("constants", 100 + k);
    }
    let r = q::<SiderustGeodetict>(run, "geodetic-new", &String::new, &|o| siderust_geodetic_new(1.0, 2.0, 3.0, o)).unwrap();
    same(run, "geodetic-new", &[r.lon_deg, r.lat_deg, r.height_m], &[1.0, 2.0, 3.0], &String::new);
}
fn main() {
    let mut run = Run::new("C25", "seeded calls of every exported C function with valid, boundary and hostile arguments (null pointers, NaN and infinite numbers, unsupported frames and centres, damaged text and kernels, every buffer length), outputs in exactly sized patterned heap blocks, whole process under AddressSanitizer");
    run.assume("handles and arrays are passed back only to the matching free function, once, as the C documentation requires");
    run.assume("the sibling tempoch C crate (not in this repository) is replaced by its one shared struct");
    constants(&run);
    run.par("frames", run.size(700, 12_000), |i| frames(&run, i));
    run.par("centres", run.size(1_200, 20_000), |i| centres(&run, i));
    run.par("vsop", run.size(24, 400), |i| vsop(&run, i));
    run.par("subjects", run.size(400, 6_000), |i| subjects(&run, i));
    run.par("phase", run.size(120, 2_000), |i| phases(&run, i));
    run.par("kernels", run.size(160, 2_500), |i| kernels(&run, i));
    run.par("satellites", run.size(500, 8_000), |i| satellites(&run, i));
    run.par("text", run.size(400, 6_000), |i| text_and_grids(&run, i));
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vffi-{}", std::process::id())));
    for (k, n) in [("frames", 600), ("centres", 1_000), ("ephemeris", 150), ("subjects", 200), ("searches", 150), ("targets", 60), ("phase", 100), ("kernels", 100), ("propagations", 30), ("satellites", 400), ("documents", 300), ("lambert", 300), ("create-free-balance", 300)] { run.require(k, n) }
    run.finish();
}
