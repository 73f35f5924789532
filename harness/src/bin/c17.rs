//! C17: observation models, range corrections and residual statistics vs independently evaluated measurement equations.
use siderust::astro::dynamics::{OrbitState, Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::observation::batch::ObservationBatch;
use siderust::pod::observation::corrections::*;
use siderust::pod::observation::gnss_obs::*;
use siderust::pod::observation::obs_trait::*;
use siderust::pod::observation::provider_bundle::{NullProviderBundle, ProviderBundle};
use siderust::pod::observation::slr_obs::SlrNormalPointObs;
use siderust::pod::qc::orbit_compare::{rtn_diff, rtn_summary};
use siderust::pod::qc::residuals::{ResidualStats, ResidualsByGroup};
use siderust::pod::qc::slr_validation::SlrValidationReport;
use siderust::qtty::{Hertzs, Meters};
use siderust::time::JulianDate;
use std::collections::BTreeMap;
use std::f64::consts::PI;
use vh::la::*;
use vh::{Rng, Run};

const C: f64 = 299_792_458.0;
const GM: f64 = 3.986_004_418e14;
const OMEGA: f64 = 7.292_115_146_706_979e-5;
fn pos(v: V3) -> Position<GCRS> { Position::<GCRS>::new(v[0], v[1], v[2]) }
fn vel(v: V3) -> Velocity<GCRS> { Velocity::<GCRS>::new(v[0], v[1], v[2]) }
fn st(jd: f64, r: V3, v: V3) -> CartesianState { OrbitState::new(JulianDate::new(jd).to_j2000s(), pos(r), vel(v)) }

struct Prov { rx: f64, clocks: BTreeMap<String, f64>, drift: f64, t0: f64 }
impl ProviderBundle for Prov {
    fn gnss_satellite_state_gcrs(&self, _: &str, _: JulianDate) -> Option<(Position<GCRS>, Velocity<GCRS>)> { None }
    fn gnss_satellite_clock_m(&self, prn: &str, e: JulianDate) -> Meters { Meters::new(self.clocks.get(prn).copied().unwrap_or(f64::NAN) + self.drift * (e.value() - self.t0)) }
    fn receiver_clock_m(&self) -> Meters { Meters::new(self.rx) }
    fn station_gcrs_km(&self, _: &str, _: JulianDate) -> Option<Position<GCRS>> { None }
}

/// IS-GPS-200 20.3.3.5.2.5, written in seconds from the published algorithm.
fn klobuchar(p: &KlobucharParams) -> f64 {
    let psi = 0.0137 / (p.elevation_sc + 0.11) - 0.022;
    let a = PI * p.azimuth_sc;
    let mut phi = p.receiver_lat_sc + psi * a.cos();
    if phi > 0.416 { phi = 0.416 }
    if phi < -0.416 { phi = -0.416 }
    let lam = p.receiver_lon_sc + psi * a.sin() / (PI * phi).cos();
    let pm = phi + 0.064 * (PI * (lam - 1.617)).cos();
    let t = (43_200.0 * lam + p.utc_seconds).rem_euclid(86_400.0);
    let poly = |c: &[f64; 4]| c.iter().enumerate().map(|(i, k)| k * pm.powi(i as i32)).sum::<f64>();
    let per = poly(&p.beta).max(72_000.0);
    let amp = poly(&p.alpha).max(0.0);
    let f = 1.0 + 16.0 * (0.53 - p.elevation_sc).powi(3);
    let x = 2.0 * PI * (t - 50_400.0) / per;
    C * f * if x.abs() < PI / 2.0 { 5e-9 + amp * x.cos() } else { 5e-9 }
}
fn klob(g: &mut Rng) -> KlobucharParams {
    let mut p = KlobucharParams::gps_default();
    if g.p(0.6) { p.alpha = [g.range(0.0, 3e-8), g.range(-3e-8, 3e-8), g.range(-1.2e-7, 1.2e-7), g.range(-2e-7, 2e-7)]; p.beta = [g.range(6e4, 1.4e5), g.range(-2e5, 2e5), g.range(-6e5, 6e5), g.range(-6e5, 6e5)]; }
    p.receiver_lat_sc = if g.p(0.1) { *g.pick(&[-0.5, 0.5, 0.0]) } else { g.range(-0.5, 0.5) };
    p.receiver_lon_sc = g.range(0.0, 2.0);
    p.elevation_sc = if g.p(0.1) { *g.pick(&[0.0, 0.5]) } else { g.range(0.0, 0.5) };
    p.azimuth_sc = g.range(0.0, 2.0);
    p.utc_seconds = g.range(0.0, 86_400.0);
    p
}
fn saastamoinen(el: f64) -> f64 {
    let s = if el.sin() < 0.07 { 0.07 } else { el.sin() };
    0.002_277 / s * (1013.25 + (1255.0 / 288.15 + 0.05) * 11.691)
}

fn gnss(run: &Run, g: &mut Rng) {
    let jd = g.range(2_450_000.5, 2_462_000.5);
    let (r, v) = (scale(g.unit(), g.range(6400.0, 45_000.0)), scale(g.unit(), g.range(0.0, 9.0)));
    let ns = 1 + g.n(8);
    let prov = Prov { rx: g.gauss() * 1e4, clocks: (0..ns).map(|i| (format!("G{:02}", i + 1), g.gauss() * 1e5)).collect(), drift: g.gauss(), t0: jd };
    let state = st(jd, r, v);
    for i in 0..ns {
        let prn = format!("G{:02}", i + 1);
        let (rs, vs) = (scale(g.unit(), g.range(20_000.0, 45_000.0)), scale(g.unit(), g.range(0.5, 5.0)));
        let epoch = JulianDate::new(jd + g.range(-0.5, 0.5));
        let el = match g.n(6) { 0 => PI / 2.0, 1 => 0.0, 2 => g.range(-0.2, 0.1), _ => g.range(0.0, PI / 2.0) };
        let (trop, tm) = if g.p(0.5) { (TropModel::Saastamoinen { elevation_rad: el }, saastamoinen(el)) } else { (TropModel::None, 0.0) };
        let f1 = 1_575_420_000.0;
        let f = *g.pick(&[f1, 1_227_600_000.0, 1_176_450_000.0, 1_602_000_000.0, 1_561_098_000.0, 1_278_750_000.0]);
        let (iono, im) = match g.n(4) { 0 => (IonoModel::IonoFree, 0.0), 1 => (IonoModel::None, 0.0), _ => { let k = klob(g); (IonoModel::Klobuchar(k), klobuchar(&k) * (f1 / f) * (f1 / f)) } };
        let measured = g.range(1e7, 6e7);
        let sigma = g.log(1e-3, 10.0);
        let null = g.p(0.3);
        let clk = if null { 0.0 } else { prov.rx - prov.gnss_satellite_clock_m(&prn, epoch).value() };
        let pr: &dyn ProviderBundle = if null { &NullProviderBundle } else { &prov };
        let rho = norm(sub(r, rs)) * 1e3;
        let sag = OMEGA * (rs[0] * r[1] - rs[1] * r[0]) * 1e6 / C;
        let rel = 2.0 * dot(rs, vs) * 1e6 / C;
        let n = if g.p(0.2) { 0 } else { g.int(-200_000_000, 200_000_000) as i32 };
        let code = GnssPseudorangeObs { prn: prn.clone(), epoch, measured_m: Meters::new(measured), sigma: Meters::new(sigma), sat_pos_gcrs_km: pos(rs), sat_vel_gcrs_km_s: vel(vs), trop, iono: iono.clone(), frequency_hz: Hertzs::new(f) };
        let phase = GnssCarrierPhaseObs { prn: prn.clone(), epoch, measured_m: Meters::new(measured), sigma: Meters::new(sigma), sat_pos_gcrs_km: pos(rs), sat_vel_gcrs_km_s: vel(vs), trop, iono: iono.clone(), frequency_hz: Hertzs::new(f), integer_ambiguity: n };
        let ctx = || format!("r={r:?} rs={rs:?} vs={vs:?} trop={trop:?} iono={iono:?} f={f} clk={clk} N={n}");
        run.eval("pseudorange", (measured.to_bits(), f.to_bits()));
        match Observation::residual(&code, &state, pr) {
            Ok(o) => { let w = measured - (rho + clk + tm + im + sag + rel); run.within("gnss/pseudorange", (o - w).abs(), 3e-7, || format!("{o} vs {w}: {}", ctx())); }
            Err(e) => run.violation("gnss/pseudorange-error", &format!("{e:?}")),
        }
        run.eval("carrier", (measured.to_bits(), n));
        let lam = C / f;
        match Observation::residual(&phase, &state, pr) {
            Ok(o) => {
                let w = measured - (rho + clk + tm - im + sag + rel + n as f64 * lam);
                run.within("gnss/carrier", (o.residual_m - w).abs(), 3e-7, || format!("{} vs {w}: {}", o.residual_m, ctx()));
                run.within("gnss/cycles", (o.cycles * lam - o.residual_m).abs(), 1e-7 + 1e-15 * o.residual_m.abs(), || format!("{} cycles, {} m: {}", o.cycles, o.residual_m, ctx()));
            }
            Err(e) => run.violation("gnss/carrier-error", &format!("{e:?}")),
        }
        run.check(Observation::epoch(&code) == epoch && Observation::epoch(&phase) == epoch && Observation::sigma(&code).value() == sigma && Observation::sigma(&phase).value() == sigma && Observation::obs_type(&code) == ObsType::GnssPseudorange && Observation::obs_type(&phase) == ObsType::GnssCarrierPhase, "gnss/metadata", ctx);
    }
}

fn shapiro(ra: f64, rb: f64, rho: f64) -> f64 { 2.0 * GM / (C * C) * ((ra + rb + rho) / (ra + rb - rho)).ln() }

fn slr(run: &Run, g: &mut Rng) {
    let jd = g.range(2_450_000.5, 2_462_000.5);
    let rst = scale(g.unit(), g.range(6350.0, 6385.0));
    let u = loop { let u = g.unit(); if dot(u, rst) > 0.0 { break u } };
    let rs = add(rst, scale(u, g.log(300.0, 40_000.0)));
    let vs = scale(g.unit(), g.range(1.0, 8.0));
    let el = match g.n(5) { 0 => PI / 2.0, 1 => g.range(-0.5, 0.06), 2 => 3f64.to_radians(), _ => g.range(0.05, PI / 2.0) };
    let lam = *g.pick(&[0.532, 0.355, 0.423, 1.064, 0.694]);
    let measured = g.range(6e5, 8e7);
    let o = SlrNormalPointObs { station_id: "7840".into(), epoch: JulianDate::new(jd), measured_m: Meters::new(measured), sigma: Meters::new(0.01), station_gcrs_km: pos(rst), sat_pos_gcrs_km: pos(rs), sat_vel_gcrs_km_s: vel(vs), elevation_rad: el, wavelength_um: lam };
    let tau = norm(sub(rs, rst)) * 1e3 / C;
    let rr = sub(rs, scale(vs, tau));
    let rho = norm(sub(rr, rst)) * 1e3;
    let e = if el < 3f64.to_radians() { 3f64.to_radians() } else { el };
    let fl = 0.9650 + 0.0164 / lam.powi(2) + 0.000_228 / lam.powi(4);
    let trop = fl * 0.002_277 * 1013.25 / (e.sin() + 0.0014 / (e.tan() + 0.045));
    let want = measured - 2.0 * (rho + trop + shapiro(norm(rst) * 1e3, norm(rr) * 1e3, rho));
    run.eval("slr", (jd.to_bits(), lam.to_bits()));
    // the state passed in must not matter: the observation carries its own geometry
    let s1 = st(jd, rs, vs);
    let s2 = st(jd + 1.0, scale(g.unit(), 9000.0), vs);
    match (Observation::residual(&o, &s1, &NullProviderBundle), Observation::residual(&o, &s2, &NullProviderBundle)) {
        (Ok(a), Ok(b)) => {
            run.within("slr/residual", (a - want).abs(), 3e-7, || format!("{a} vs {want} el={el} lam={lam} rst={rst:?} rs={rs:?} vs={vs:?}"));
            run.check(a == b, "slr/state-dependence", || format!("{a} {b}"));
        }
        e => run.violation("slr/error", &format!("{e:?}")),
    }
}

fn corrections(run: &Run, g: &mut Rng) {
    let rx = scale(g.unit(), g.range(6350.0, 10_000.0));
    // not seen through the centre of the Earth, where the relativistic delay diverges
    let sat = loop { let u = g.unit(); if dot(u, unit(rx)) > -0.98 { break scale(u, g.range(15_000.0, 42_000.0)) } };
    let u = unit(sub(sat, rx));
    let mut reg = CorrectionRegistry::new();
    let mut want_names = vec![];
    let rho0 = norm(sub(sat, rx)) * 1e3 + g.gauss() * 100.0;
    let mut want = rho0;
    let k = g.n(7);
    let mut desc = vec![];
    for _ in 0..k {
        let off: V3 = [g.gauss() * 2.0, g.gauss() * 2.0, g.gauss() * 2.0];
        match g.n(6) {
            0 => { reg.push(Box::new(ShapiroDelay)); want_names.push("ShapiroDelay"); let (a, b) = (norm(rx) * 1e3, norm(sat) * 1e3); want += 2.0 * GM / (C * C) * ((a + b + want) / (a + b - want)).ln(); desc.push("shapiro".to_string()) }
            1 => { reg.push(Box::new(PhaseCenterOffset::from_metres(off))); want_names.push("PhaseCenterOffset"); want -= dot(off, u); desc.push(format!("pco {off:?}")) }
            2 => { reg.push(Box::new(PhaseCenterOffset::new(scale(off, 1e-3)))); want_names.push("PhaseCenterOffset"); want -= dot(off, u); desc.push(format!("pco-km {off:?}")) }
            3 => { reg.push(Box::new(EarthTideDisplacement::from_metres(off[0], off[1], off[2]))); want_names.push("EarthTideDisplacement"); want -= dot(off, u); desc.push(format!("tide {off:?}")) }
            4 => { reg.push(Box::new(EarthTideDisplacement::from_km(off[0] * 1e-3, off[1] * 1e-3, off[2] * 1e-3))); want_names.push("EarthTideDisplacement"); want -= dot(off, u); desc.push(format!("tide-km {off:?}")) }
            _ => { let (m, c) = (1.0 + g.gauss() * 1e-6, g.gauss()); struct Aff(f64, f64); impl Correction for Aff { fn name(&self) -> &str { "affine" } fn apply_to_range(&self, r: Meters, _: Position<GCRS>, _: Position<GCRS>) -> Meters { Meters::new(r.value() * self.0 + self.1) } } reg.push(Box::new(Aff(m, c))); want_names.push("affine"); want = want * m + c; desc.push(format!("affine {m} {c}")) }
        }
    }
    let got = reg.apply(Meters::new(rho0), pos(rx), pos(sat)).value();
    run.eval("corrections", (k, rho0.to_bits()));
    run.within("corrections/pipeline", (got - want).abs(), 2e-7, || format!("{got} vs {want} rx={rx:?} sat={sat:?} {desc:?}"));
    run.check(reg.names() == want_names && reg.len() == k && reg.is_empty() == (k == 0), "corrections/names", || format!("{:?} {want_names:?}", reg.names()));
    let z = EarthTideDisplacement::zero().apply_to_range(Meters::new(rho0), pos(rx), pos(sat)).value();
    run.check(z == rho0, "corrections/zero-tide", || format!("{z} {rho0}"));
    // coincident end points have no line of sight
    for c in [&PhaseCenterOffset::from_metres([1.0, 2.0, 3.0]) as &dyn Correction, &EarthTideDisplacement::from_metres(1.0, 2.0, 3.0)] {
        run.check(c.apply_to_range(Meters::new(rho0), pos(rx), pos(rx)).value() == rho0, "corrections/no-line-of-sight", || String::new());
    }
    // displacing the station physically and measuring again agrees with the correction to second order
    let d: V3 = [g.gauss() * 0.3, g.gauss() * 0.3, g.gauss() * 0.3];
    let moved = norm(sub(sat, add(rx, scale(d, 1e-3)))) * 1e3;
    let geo = norm(sub(sat, rx)) * 1e3;
    let t = EarthTideDisplacement::from_metres(d[0], d[1], d[2]).apply_to_range(Meters::new(geo), pos(rx), pos(sat)).value();
    run.within("corrections/tide-physical", (t - moved).abs(), 1e-6, || format!("{t} vs {moved} d={d:?}"));
}

struct Tag { e: JulianDate, id: f64, fail: bool }
impl Observation for Tag {
    type Residual = f64;
    fn residual(&self, s: &CartesianState, p: &dyn ProviderBundle) -> Result<f64, siderust::pod::observation::PodObservationsError> {
        if self.fail { return Err(siderust::pod::observation::PodObservationsError::MissingStationPosition { station_id: format!("{}", self.id) }); }
        Ok(self.id + s.position.x().value() + p.receiver_clock_m().value())
    }
    fn obs_type(&self) -> ObsType { ObsType::Doppler }
    fn epoch(&self) -> JulianDate { self.e }
    fn sigma(&self) -> Meters { Meters::new(self.id) }
}

fn batch(run: &Run, g: &mut Rng) {
    let base = g.range(2_450_000.5, 2_462_000.5);
    let eps: Vec<f64> = (0..1 + g.n(5)).map(|i| base + i as f64 * *g.pick(&[1.0 / 86400.0, 1e-3, 1.0 / 8_640_000.0])).collect();
    let n = g.len(30, 2000);
    let prov = Prov { rx: 0.25, clocks: BTreeMap::new(), drift: 0.0, t0: base };
    let mut b = ObservationBatch::new();
    let mut log = vec![];
    for i in 0..n {
        let e = *g.pick(&eps);
        let fail = g.p(0.15);
        log.push((e, i as f64, fail));
        b.push(Box::new(Tag { e: JulianDate::new(e), id: i as f64, fail }));
    }
    run.check(b.len() == n && b.is_empty() == (n == 0) && b.epochs().iter().map(|e| e.value()).eq(log.iter().map(|l| l.0)), "batch/contents", || format!("{n}"));
    let s = st(base, [7.5, 0.0, 0.0], [0.0, 1.0, 0.0]);
    for e in eps.iter().copied().chain([base - 1.0]) {
        let got = b.residuals_at_epoch_with(JulianDate::new(e), &s, &prov);
        let want: Vec<_> = log.iter().filter(|l| l.0 == e).collect();
        run.eval("batch", (e.to_bits(), n));
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, w)| match a {
            Ok(ObsResidual::Scalar(x)) => !w.2 && *x == w.1 + 7.5 + 0.25,
            Err(siderust::pod::observation::PodObservationsError::MissingStationPosition { station_id }) => w.2 && *station_id == format!("{}", w.1),
            _ => false,
        });
        run.check(ok, "batch/residuals", || format!("epoch {e}: got {got:?} want {want:?}"));
        run.check(b.residuals_at_epoch(JulianDate::new(e)).len() == want.len(), "batch/count", || String::new());
    }
}

fn qc(run: &Run, g: &mut Rng) {
    let n = g.len(20, 1000);
    let extra = g.n(4);
    let (mut est, mut refs, mut want) = (vec![], vec![], vec![]);
    for i in 0..n.max(1) {
        let jd = 2_455_000.5 + i as f64 * 0.01;
        let r = scale(g.unit(), g.range(6500.0, 45_000.0));
        let v = scale(g.unit(), g.range(1.0, 9.0));
        if norm(cross(unit(r), unit(v))) < 0.05 { continue; }
        let d = scale(g.unit(), g.log(1e-6, 100.0));
        let re = add(r, d);
        let ve = add(v, scale(g.unit(), 1e-3));
        refs.push(st(jd, r, v));
        est.push(st(jd + 1e-6, re, ve));
        let rh = unit(r);
        let nh = unit(cross(r, v));
        let th = cross(nh, rh);
        let dd = sub(re, r);
        want.push([dot(dd, rh) * 1e3, dot(dd, th) * 1e3, dot(dd, nh) * 1e3]);
    }
    for _ in 0..extra { if g.p(0.5) { est.push(st(2_455_555.5, [7000.0, 0.0, 0.0], [0.0, 7.0, 0.0])) } else { refs.push(st(2_455_555.5, [7000.0, 0.0, 0.0], [0.0, 7.0, 0.0])) } }
    let m = est.len().min(refs.len());
    let got = rtn_diff(&est, &refs);
    run.eval("rtn", (m, want.len(), g.u64()));
    run.check(got.len() == m, "qc/rtn-length", || format!("{} vs {m}", got.len()));
    for (k, (a, w)) in got.iter().zip(&want).enumerate() {
        let e = (a.r_m - w[0]).abs().max((a.t_m - w[1]).abs()).max((a.n_m - w[2]).abs());
        run.within("qc/rtn", e, 2e-7 + 1e-14 * norm(*w), || format!("{a:?} vs {w:?}"));
        run.within("qc/rtn-epoch", (a.jd_tt - (2_455_000.5 + 1e-6)).rem_euclid(0.01).min(0.01 - (a.jd_tt - (2_455_000.5 + 1e-6)).rem_euclid(0.01)), 2e-9, || format!("{k} {}", a.jd_tt));
        let p = a.position_rtn_km();
        run.check((p.x().value() - a.r_m / 1e3).abs() <= 1e-15 * a.r_m.abs() && (p.y().value() - a.t_m / 1e3).abs() <= 1e-15 * a.t_m.abs() && (p.z().value() - a.n_m / 1e3).abs() <= 1e-15 * a.n_m.abs(), "qc/rtn-km", || format!("{a:?}"));
    }
    let s = rtn_summary(&got);
    let rms = |k: usize| if got.is_empty() { 0.0 } else { (got.iter().map(|d| [d.r_m, d.t_m, d.n_m][k].powi(2)).sum::<f64>() / got.len() as f64).sqrt() };
    let w = [rms(0), rms(1), rms(2)];
    run.check(s.n == got.len(), "qc/summary-n", || format!("{}", s.n));
    run.within("qc/summary", (s.rms_r_m - w[0]).abs() + (s.rms_t_m - w[1]).abs() + (s.rms_n_m - w[2]).abs() + (s.rms_3d_m - norm(w)).abs(), 1e-12 * norm(w) + 1e-300, || format!("{s:?} vs {w:?}"));
    // residual statistics
    let nv = g.len(60, 5000);
    let off = if g.p(0.3) { g.gauss() * 1e3 } else { 0.0 };
    let sc = g.log(1e-3, 1e3);
    let names = ["G01", "G02", "R07", "E11", ""];
    let data: Vec<(&str, f64)> = (0..nv).map(|_| (*g.pick(&names), off + sc * g.gauss())).collect();
    let stat = |v: &[f64]| -> [f64; 5] {
        if v.is_empty() { return [0.0; 5]; }
        let n = v.len() as f64;
        let mean = v.iter().sum::<f64>() / n;
        let var = if v.len() > 1 { v.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (n - 1.0) } else { 0.0 };
        let mut s = v.to_vec();
        s.sort_by(f64::total_cmp);
        [mean, var.sqrt(), (v.iter().map(|x| x * x).sum::<f64>() / n).sqrt(), s[0], s[s.len() - 1]]
    };
    let near = |a: &ResidualStats, v: &[f64], sig: &str| {
        let w = stat(v);
        let got = [a.mean, a.std, a.rms, a.min, a.max];
        let tol = 1e-12 * (off.abs() + 10.0 * sc);
        run.check(a.n == v.len() && got[3] == w[3] && got[4] == w[4] && (0..3).all(|k| (got[k] - w[k]).abs() <= tol), sig, || format!("{a:?} vs {w:?} from {v:?}"));
    };
    let all: Vec<f64> = data.iter().map(|d| d.1).collect();
    run.eval("stats", (nv, sc.to_bits()));
    near(&ResidualStats::from_slice(&all), &all, "qc/stats");
    let by = ResidualsByGroup::from_pairs(data.iter().copied());
    near(&by.overall, &all, "qc/group-overall");
    let mut want_groups: BTreeMap<String, Vec<f64>> = BTreeMap::new();
    for (k, v) in &data { want_groups.entry(k.to_string()).or_default().push(*v); }
    if run.check(by.groups.keys().eq(want_groups.keys()), "qc/group-keys", || format!("{:?} {:?}", by.groups.keys(), want_groups.keys())) {
        for (k, v) in &want_groups { near(&by.groups[k], v, "qc/group"); }
    }
    let rep = SlrValidationReport::from_pairs(all.iter().enumerate().map(|(i, v)| (2_455_000.5 + i as f64, *v)));
    near(&rep.stats, &all, "qc/slr-stats");
    run.check(rep.residuals.len() == nv && rep.residuals.iter().enumerate().all(|(i, r)| r.jd_tt == 2_455_000.5 + i as f64 && r.residual_m == all[i]), "qc/slr-residuals", || String::new());
}

fn main() {
    let run = Run::new("C17", "measurement equations, corrections and residual statistics vs independent evaluation");
    run.par("gnss", run.size(240000, 3840000), |i| { let mut g = run.rng_i("gnss", i); gnss(&run, &mut g) });
    run.par("slr", run.size(720000, 11520000), |i| { let mut g = run.rng_i("slr", i); slr(&run, &mut g) });
    run.par("corrections", run.size(720000, 11520000), |i| { let mut g = run.rng_i("corr", i); corrections(&run, &mut g) });
    run.par("batch", run.size(120000, 1920000), |i| { let mut g = run.rng_i("batch", i); batch(&run, &mut g) });
    run.par("qc", run.size(240000, 3840000), |i| { let mut g = run.rng_i("qc", i); qc(&run, &mut g) });
    for k in ["pseudorange", "carrier", "slr", "corrections", "batch", "rtn", "stats"] { run.require(k, 10_000); }
    run.finish();
}
