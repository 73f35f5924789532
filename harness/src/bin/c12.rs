//! C12: TLE mean-element propagation.
use siderust::astro::sgp4::{GravityModel, TlePropagator};
use siderust::formats::tle::parse_tle;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::{Days, Minutes};
use tempoch::{JulianDate, UTC};
use std::f64::consts::TAU;
use vh::kep;
use vh::la::*;
use vh::tle::TleF;
use vh::{Rng, Run};

fn one(run: &Run, g: &mut Rng) {
    let mut f = TleF::random(g);
    if f.yy < 72 && f.yy >= 57 { f.yy = 72 + f.yy % 28; }
    if g.p(0.7) { f.ndot8 = g.n(40_001) as i64 - 20_000; if f.nddot.1 > -4 { f.nddot.1 = -4; } }
    let (l1, l2) = f.lines();
    let w = || format!("\n{l1}\n{l2}\n");
    let t = match run.no_panic("panic/parse", w, || parse_tle(&l1, &l2)) { Some(Ok(t)) => t, Some(Err(e)) => { run.violation("parse", &format!("{e} {}", w())); return; } None => return };
    let (model, mu, re, j2) = match g.n(4) {
        0 => (None, 398600.8, 6378.135, 1.082616e-3),
        1 => (Some(GravityModel::Wgs72), 398600.8, 6378.135, 1.082616e-3),
        2 => (Some(GravityModel::Wgs72Iau), 398600.8, 6378.135, 1.082616e-3),
        _ => (Some(GravityModel::Wgs84), 398600.5, 6378.137, 1.08262998905e-3),
    };
    let p = match model { None => TlePropagator::from_tle(&t), Some(m) => TlePropagator::from_tle_with_model(&t, m) };
    let p = match p { Ok(p) => p, Err(e) => { run.violation("accept", &format!("{e} {}", w())); return; } };
    run.check(p.gravity_model() == model.unwrap_or_default(), "model", w);
    let (d, fr) = f.jd();
    let ep = p.epoch_jd_utc().raw().value();
    // the epoch's civil date and time
    let ch = p.epoch_jd_utc().to_j2000s().try_to_chrono().map(|c| c.timestamp() as f64 + c.timestamp_subsec_nanos() as f64 * 1e-9 - if c.timestamp_subsec_nanos() >= 1_000_000_000 { 1.0 } else { 0.0 });
    match ch { Ok(c) => { run.within("epoch", c - ((d - 2_440_587.5) * 86400.0 + fr * 86400.0), 1e-4, || format!("{ep} {}", w())); } Err(x) => run.violation("epoch", &format!("{x:?}")) }
    let (n0, h, s, b) = (f.n(), f.ndot(), f.nddot(), f.bstar());
    let (inc, om0, w0, m0, e) = (TleF::deg(f.i4).to_radians(), TleF::deg(f.raan4).to_radians(), TleF::deg(f.argp4).to_radians(), TleF::deg(f.m4).to_radians(), f.e());
    for _ in 0..6 {
        let by_min = g.p(0.5);
        let dt = match g.n(5) { 0 => 0.0, 1 => g.range(-0.1, 0.1), 2 => g.range(-60.0, 60.0), _ => g.range(-3.0, 3.0) };
        let (dt, got) = if by_min {
            let m = dt * 1440.0;
            let Some(r) = run.no_panic("panic/propagate", w, || p.propagate_minutes(Minutes::new(m))) else { return };
            if let Ok(s) = &r { run.within("state-epoch", s.epoch().raw().value() - (ep + dt), 1e-9, w); }
            (m / 1440.0, r)
        } else {
            let j = JulianDate::<UTC>::try_new(Days::new(ep + dt)).unwrap();
            let dt = j.raw().value() - ep;
            let Some(r) = run.no_panic("panic/propagate", w, || p.propagate_at(j)) else { return };
            if let Ok(s) = &r { run.check(s.epoch() == j, "state-epoch", w); }
            (dt, r)
        };
        // the columns hold half the first and a sixth of the second derivative of n
        let n = n0 + 2.0 * h * dt + 3.0 * s * dt * dt - 1e-5 * b * dt.abs();
        let ww = || format!("dt={dt} d {}", w());
        if n <= 1e-6 { if n < -1e-6 { run.count("decayed", 1); run.check(got.is_err(), "negative-motion-accepted", ww); } continue }
        let got = match got { Ok(s) => s, Err(x) => { run.violation("refused", &format!("{x} {}", ww())); continue } };
        run.eval(match f.e7 { 0 => "circular", 1..=100_000 => "near-circular", 100_001..=7_999_999 => "eccentric", _ => "highly-eccentric" }, (f.norad, f.day8, dt.to_bits()));
        // relative rounding of n(t) when the derivatives nearly cancel it
        let ne = 2e-15 * (n0 + (2.0 * h * dt).abs() + (3.0 * s * dt * dt).abs()) / n;
        let nr = n * TAU / 86400.0;
        let a = (mu / (nr * nr)).cbrt();
        let k = j2 * (re / (a * (1.0 - e * e))).powi(2) * nr;
        let (ci, sec) = (inc.cos(), dt * 86400.0);
        let om = om0 - 1.5 * k * ci * sec;
        let ap = w0 + 0.75 * k * (5.0 * ci * ci - 1.0) * sec;
        let m = m0 + TAU * (n0 * dt + h * dt * dt + s * dt * dt * dt) + 0.75 * k * (1.0 - e * e).sqrt() * (3.0 * ci * ci - 1.0) * sec;
        let mw = m.rem_euclid(TAU);
        let (x, dx) = kep::elliptic(a, e, inc, om, ap, mw);
        let step = 1e-4 * (1.0 - e);
        let (dp, dm) = (kep::elliptic(a, e, inc, om, ap, mw + step).1, kep::elliptic(a, e, inc, om, ap, mw - step).1);
        let d2 = norm(scale(sub(dp, dm), 0.5 / step));
        let perr = 4e-16 * (10.0 + m.abs() + (om - om0).abs() + TAU * (n0 * dt).abs() + TAU * (h * dt * dt).abs() + TAU * (s * dt * dt * dt).abs() * 3.0) + ne * ((om - om0).abs() + (ap - w0).abs()) * 3.0 + 3e-13 * (om - om0).abs().max((ap - w0).abs());
        let q = got.position();
        let v = got.velocity();
        let q = [q.x().value(), q.y().value(), q.z().value()];
        let v = [v.x().value(), v.y().value(), v.z().value()];
        run.within("position", norm(sub(q, x)), a * (1e-13 + ne + perr * 3.0) + norm(dx) * perr * 3.0, || format!("{} got {q:?} want {x:?}", ww()));
        let vx = scale(dx, nr);
        run.within("velocity", norm(sub(v, vx)), norm(vx) * (1e-12 + ne + perr * 3.0) + 3.0 * nr * (d2 * perr + 1e-9 * 0.0) + nr * 1e-13 * d2, || format!("{} got {v:?} want {vx:?}", ww()));
        // energy and plane, straight from the state
        run.within("vis-viva", (dot(v, v) / 2.0 - mu / norm(q) + mu / (2.0 * a)) / (mu / norm(q)), 1e-12 + 2.0 * ne / (1.0 - e) + 1e-13 / (1.0 - e), ww);
        let hh = cross(q, v);
        run.within("inclination", angle(hh, [inc.sin() * om.sin(), -inc.sin() * om.cos(), inc.cos()]), 1e-12 / (1.0 - e) + perr, ww);
    }
    for x in [f64::NAN, f64::INFINITY] { run.check(p.propagate_minutes(Minutes::new(x)).is_err(), "non-finite-time-accepted", w); }
    let mut bad = vec![];
    for x in [1.0, 1.5, -0.1, f64::NAN, f64::INFINITY] { let mut t = t.clone(); t.eccentricity = x; bad.push(("e", x, t)); }
    for x in [0.0, -1.0, f64::NAN, f64::INFINITY] { let mut t = t.clone(); t.mean_motion = AngularRate::new(x); bad.push(("n", x, t)); }
    for (k, x, t) in bad { run.check(TlePropagator::from_tle(&t).is_err(), "bad-elements-accepted", || format!("{k}={x}")); }
}

fn main() {
    let run = Run::new("C12", "TLE propagation = two-body motion on the mean elements with J2 secular drift and the printed mean-motion derivatives, solved independently");
    let mut run = run;
    run.assume("TLE columns hold n'/2 and n''/6; the J2 drift uses the mean orbit of date; the drag term lowers n by 1e-5 B* per day as implemented");
    for k in ["circular", "near-circular", "eccentric", "highly-eccentric"] { run.require(k, 1000); }
    let n = run.size(64, 3000);
    let r = &run;
    run.par("panic", n, |i| { let mut g = r.rng_i("c12", i); for _ in 0..1500 { one(r, &mut g); } });
    run.finish()
}
