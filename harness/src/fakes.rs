//! User-side providers whose values the monitors choose: Earth-orientation values and ephemerides.
use crate::la::*;
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::ephemeris::{AuPerDay, Ephemeris};
use siderust::qtty::{self, AstronomicalUnit, Kilometer};
use siderust::JulianDate;

pub const AU_KM: f64 = 149_597_870.7;

/// dut1 (s), xp, yp (arcsec), dx, dy (mas)
#[derive(Clone, Copy, Debug, Default)]
pub struct EopV {
    pub dut1: f64,
    pub xp: f64,
    pub yp: f64,
    pub dx: f64,
    pub dy: f64,
}
impl EopV {
    pub fn values(&self) -> EopValues {
        EopValues {
            dut1: qtty::Seconds::new(self.dut1),
            xp: qtty::Arcseconds::new(self.xp),
            yp: qtty::Arcseconds::new(self.yp),
            dx: qtty::MilliArcseconds::new(self.dx),
            dy: qtty::MilliArcseconds::new(self.dy),
            lod: qtty::Seconds::new(0.0),
        }
    }
    pub fn random(g: &mut crate::Rng) -> Self {
        EopV { dut1: g.range(-0.9, 0.9), xp: g.range(-0.5, 0.5), yp: g.range(-0.5, 0.6), dx: g.range(-1.0, 1.0), dy: g.range(-1.0, 1.0) }
    }
}
thread_local! {
    static CE: std::cell::Cell<EopV> = const { std::cell::Cell::new(EopV { dut1: 0.0, xp: 0.0, yp: 0.0, dx: 0.0, dy: 0.0 }) };
    static FE: std::cell::Cell<[V3; 4]> = const { std::cell::Cell::new([[0.0; 3]; 4]) };
}
pub fn set_eop(e: EopV) {
    CE.with(|c| c.set(e));
}
/// Sun bary, Earth bary, Moon geo (0.003 AU units), Earth velocity (AU/day)
pub fn set_eph(e: [V3; 4]) {
    FE.with(|c| c.set(e));
}
pub fn random_eph(g: &mut crate::Rng) -> [V3; 4] {
    [scale(g.unit(), g.range(0.0, 0.02)), scale(g.unit(), g.range(0.8, 1.2)), scale(g.unit(), g.range(0.8, 1.2)), scale(g.unit(), g.range(0.005, 0.03))]
}
#[derive(Clone, Debug, Default)]
pub struct TlsEop;
impl EopProvider for TlsEop {
    fn eop_at(&self, _: JulianDate) -> EopValues {
        CE.with(|c| c.get()).values()
    }
}
/// Ephemeris whose bodies are wherever the monitor puts them.
#[derive(Debug, Clone, Copy, Default)]
pub struct FakeEph;
pub fn fe(i: usize, jd: f64) -> V3 {
    let b = FE.with(|c| c.get())[i];
    let t = (jd - 2_451_545.0) / 1000.0;
    if i == 3 {
        return b;
    }
    [b[0] + 0.01 * t.sin(), b[1] + 0.02 * t.cos(), b[2] - 0.005 * (2.0 * t).sin()]
}
impl Ephemeris for FakeEph {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = fe(0, jd.raw().value());
        Position::new(v[0], v[1], v[2])
    }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = fe(1, jd.raw().value());
        Position::new(v[0], v[1], v[2])
    }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let v = sub(fe(1, jd.raw().value()), fe(0, jd.raw().value()));
        Position::new(v[0], v[1], v[2])
    }
    fn earth_barycentric_velocity(jd: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        let v = fe(3, jd.raw().value());
        Velocity::new(v[0], v[1], v[2])
    }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let v = scale(fe(2, jd.raw().value()), 0.003 * AU_KM);
        Position::new(v[0], v[1], v[2])
    }
}
/// WGS84 geodetic (deg, deg, m) -> ECEF km
pub fn wgs84(lon: f64, lat: f64, h: f64) -> V3 {
    let (a, f) = (6378.137, 1.0 / 298.257223563);
    let e2 = f * (2.0 - f);
    let (sp, cp) = lat.to_radians().sin_cos();
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    let (sl, cl) = lon.to_radians().sin_cos();
    let h = h / 1000.0;
    [(n + h) * cp * cl, (n + h) * cp * sl, (n * (1.0 - e2) + h) * sp]
}
/// Local [north, east, up] components of a true/mean-of-date vector for local sidereal time `lst`.
pub fn neu(v: V3, lst: f64, lat_deg: f64) -> V3 {
    let (sp, cp) = lat_deg.to_radians().sin_cos();
    let (sl, cl) = lst.sin_cos();
    let up = [cp * cl, cp * sl, sp];
    let east = [-sl, cl, 0.0];
    let north = cross(up, east);
    [dot(v, north), dot(v, east), dot(v, up)]
}
