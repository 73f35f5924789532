//! C14: numerical propagation: trajectories, state transition matrices, reversibility, events.
use qtty::{IntegratorTolerances, Second};
use qtty::length::Kilometers;
use siderust::astro::dynamics::forces::{AccelerationModel, CompositeModel, TwoBody, J2};
use siderust::astro::dynamics::propagation::*;
use siderust::astro::dynamics::*;
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::pod::propagation as pp;
use siderust::pod::propagation::Integrator;
use siderust::time::JulianDate;
use std::f64::consts::TAU;
use std::sync::Mutex;
use tempoch::{Time, TT};
use vh::kep;
use vh::la::*;
use vh::ode::gbs;
use vh::{Rng, Run};

const MU: f64 = 398_600.441_8;
const RE: f64 = 6378.137;
const J2C: f64 = 1.082_626_68e-3;
type S6 = [f64; 6];
fn vec6(s: &OrbitState) -> S6 {
    [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()]
}
fn mk(t: Time<TT>, y: &S6) -> OrbitState { OrbitState::new(t, Position::<GCRS>::new(y[0], y[1], y[2]), Velocity::<GCRS>::new(y[3], y[4], y[5])) }
fn perr(a: &S6, b: &S6) -> f64 { norm([a[0] - b[0], a[1] - b[1], a[2] - b[2]]) }
fn verr(a: &S6, b: &S6) -> f64 { norm([a[3] - b[3], a[4] - b[4], a[5] - b[5]]) }

struct Orb { a: f64, e: f64, i: f64, om: f64, w: f64, m: f64, n: f64, y: S6, t: Time<TT> }
fn kepstate(o: &Orb, dt: f64) -> S6 {
    let (p, v) = kep::elliptic(o.a, o.e, o.i, o.om, o.w, o.m + o.n * dt);
    [p[0], p[1], p[2], v[0] * o.n, v[1] * o.n, v[2] * o.n]
}
fn orb(g: &mut Rng) -> Orb {
    let rp = g.range(6600.0, 9000.0);
    let e = match g.n(4) { 0 => 0.0, 1 => g.log(1e-6, 1e-1), _ => g.range(0.0, 0.7) };
    let a = rp / (1.0 - e) * if g.p(0.3) { g.range(1.0, 4.0) } else { 1.0 };
    let i = match g.n(5) { 0 => 0.0, 1 => TAU / 4.0, _ => g.range(0.0, TAU / 2.0) };
    let mut o = Orb { a, e, i, om: g.range(0.0, TAU), w: g.range(0.0, TAU), m: g.range(0.0, TAU), n: (MU / a / a / a).sqrt(), y: [0.0; 6], t: JulianDate::new(g.range(2_440_000.5, 2_462_000.5)).to_j2000s() };
    o.y = kepstate(&o, 0.0);
    o
}
fn acc_j2(y: &S6) -> V3 {
    let r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
    let r = r2.sqrt();
    let s = y[2] / r;
    let k = 1.5 * J2C * (RE / r).powi(2);
    let c = -MU / (r2 * r);
    [c * y[0] * (1.0 + k * (1.0 - 5.0 * s * s)), c * y[1] * (1.0 + k * (1.0 - 5.0 * s * s)), c * y[2] * (1.0 + k * (3.0 - 5.0 * s * s))]
}
/// Reference flow of the two-body (+J2) problem.
fn flow(y: &S6, dt: f64, period: f64, j2: bool) -> S6 {
    let f = |_t: f64, y: &S6| -> S6 {
        let a = if j2 { acc_j2(y) } else { let r = norm([y[0], y[1], y[2]]); let c = -MU / (r * r * r); [c * y[0], c * y[1], c * y[2]] };
        [y[3], y[4], y[5], a[0], a[1], a[2]]
    };
    gbs(&f, *y, 0.0, dt, ((dt.abs() / period * 150.0).ceil() as usize).max(2))
}
/// Monitor model: J2 + two body, logging every epoch at which the integrator evaluates it.
struct Spy { log: Mutex<Vec<f64>>, t0: Time<TT> }
impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Spy {
    fn name(&self) -> &'static str { "spy" }
    fn acceleration(&self, s: &OrbitState, _c: &DynamicsContext) -> Result<Acceleration<GCRS, AccelerationUnit>, principia::PrincipiaError> {
        self.log.lock().unwrap().push((s.epoch - self.t0).value());
        let a = acc_j2(&vec6(s));
        Ok(Acceleration::new(a[0], a[1], a[2]))
    }
}
/// Time-dependent force: two-body plus a constant-direction acceleration A sin(w t).
#[derive(Clone, Copy)]
struct Forced { a: f64, w: f64, dir: V3, t0: Time<TT> }
impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Forced {
    fn name(&self) -> &'static str { "forced" }
    fn acceleration(&self, s: &OrbitState, _c: &DynamicsContext) -> Result<Acceleration<GCRS, AccelerationUnit>, principia::PrincipiaError> {
        let y = vec6(s);
        let r = norm([y[0], y[1], y[2]]);
        let c = -MU / (r * r * r);
        let k = self.a * (self.w * (s.epoch - self.t0).value()).sin();
        Ok(Acceleration::new(c * y[0] + k * self.dir[0], c * y[1] + k * self.dir[1], c * y[2] + k * self.dir[2]))
    }
}
fn composite() -> CompositeModel<DynamicsContext, TT, Geocentric, GCRS> {
    CompositeModel::empty().push(Box::new(TwoBody::new(GM_EARTH))).push(Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)))
}
fn tol(rel: f64) -> IntegratorTolerances { IntegratorTolerances::uniform(rel, 1e-9, 1e-12) }
fn spacecraft(o: OrbitState) -> SpacecraftState { SpacecraftState { orbit: o, properties: SpacecraftProperties::demo_leo() } }

fn trajectories(run: &Run, g: &mut Rng) {
    let o = orb(g);
    let period = TAU / o.n;
    let dt = match g.n(6) { 0 => 0.0, 1 => g.range(-2.0, 2.0), 2 => g.range(-60.0, 60.0), _ => g.range(-2.5, 2.5) * period };
    let s0 = mk(o.t, &o.y);
    let use_j2 = g.p(0.5);
    let ctx = DynamicsContext::empty();
    let truth = if use_j2 { flow(&o.y, dt, period, true) } else { kepstate(&o, dt) };
    let model = if use_j2 { composite() } else { CompositeModel::empty().push(Box::new(TwoBody::new(GM_EARTH))) };
    // sensitivity scale: one orbit of along-track error growth
    let vmax = (MU * (1.0 + o.e) / (o.a * (1.0 - o.e))).sqrt();
    let rp = o.a * (1.0 - o.e);
    let revs = 1.0 + dt.abs() / period;
    let amp = revs * revs * (1.0 + o.e) / (1.0 - o.e).powi(2) * (o.a / rp);
    let step = 0.004 * rp / vmax * g.range(0.2, 1.0) * if g.p(0.3) { -1.0 } else { 1.0 };
    let w = || format!("a={} e={} i={} m={} dt={dt} j2={use_j2} step={step}", o.a, o.e, o.i, o.m);
    let judge = |name: &str, r: Result<OrbitState, String>, lim: f64| {
        run.eval(name, (o.a.to_bits(), dt.to_bits()));
        let s = match r { Ok(s) => s, Err(e) => { run.violation(&format!("{name}/error"), &format!("{e} {}", w())); return; } };
        let y = vec6(&s);
        run.within(&format!("{name}/position"), perr(&y, &truth), lim, || format!("{} got {y:?} want {truth:?}", w()));
        run.within(&format!("{name}/velocity"), verr(&y, &truth), lim * vmax / rp, w);
        run.within(&format!("{name}/epoch"), ((s.epoch - o.t).value() - dt).abs(), 3e-6 + 1e-9 * revs * 200.0, || format!("{} final epoch off by {}", w(), (s.epoch - o.t).value() - dt));
        if dt == 0.0 { run.check(y == o.y, &format!("{name}/zero-span"), w); }
    };
    let base = 2e-6 * amp; // km
    let rel = *g.pick(&[1e-10, 1e-12]);
    let adlim = base + amp * rel * 4e6;
    let e2s = |e: pp::DynamicsError| format!("{e:?}");
    let rk = pp::Rk4Integrator { step: Second::new(step) };
    judge("rk4", rk.propagate(&model, s0, Second::new(dt), &ctx).map_err(e2s), base);
    let d5 = pp::Dopri5Integrator { tolerances: tol(rel) };
    judge("dopri5", d5.propagate(&model, s0, Second::new(dt), &ctx).map_err(e2s), adlim);
    let d8 = pp::Dop853Integrator { tolerances: tol(rel) };
    judge("dop853", d8.propagate(&model, s0, Second::new(dt), &ctx).map_err(e2s), adlim);
    judge("propagate_orbit", pp::propagate_orbit(&d8, &model, s0, Second::new(dt), &ctx).map_err(|e| format!("{e:?}")), adlim);
    let sc = spacecraft(s0);
    match pp::propagate_spacecraft(&rk, &model, sc, Second::new(dt), &ctx) {
        Ok(r) => { run.check(r.properties == sc.properties, "propagate_spacecraft/properties", w); judge("propagate_spacecraft", Ok(r.orbit), base) }
        Err(e) => run.violation("propagate_spacecraft/error", &format!("{e:?} {}", w())),
    }
    let cfg = PropagatorConfig { tolerances: tol(rel), ..Default::default() };
    let e3s = |e: DynamicsError| format!("{e:?}");
    macro_rules! high { ($name:expr, $i:expr, $lim:expr) => {{
        if use_j2 { judge($name, Propagator::<_, Geocentric, GCRS, _>::new($i, composite(), cfg.clone(), DynamicsContext::empty()).propagate(s0, Second::new(dt)).map_err(e3s), $lim) }
        else { judge($name, Propagator::<_, Geocentric, GCRS, _>::new($i, TwoBody::new(GM_EARTH), cfg.clone(), DynamicsContext::empty()).propagate(s0, Second::new(dt)).map_err(e3s), $lim) }
    }} }
    high!("propagator-rk4", FixedRk4Adapter::new(Second::new(step)), base);
    high!("propagator-dopri5", principia::Dopri5::new(tol(rel)), adlim);
    high!("propagator-dop853", principia::Dop853::new(tol(rel)), adlim);
    // reversibility: forth and back returns to the start
    if let Ok(f) = d8.propagate(&model, s0, Second::new(dt), &ctx) {
        if let Ok(b) = d8.propagate(&model, f, Second::new(-dt), &ctx) {
            run.within("reverse/position", perr(&vec6(&b), &o.y), 2.0 * adlim * revs, w);
            run.within("reverse/epoch", (b.epoch - o.t).value().abs(), 1e-5, w);
        }
    }
    // splitting the span changes nothing beyond integration error
    let k = g.range(0.1, 0.9);
    let split = rk.propagate(&model, s0, Second::new(k * dt), &ctx).and_then(|m| rk.propagate(&model, m, Second::new((1.0 - k) * dt), &ctx));
    judge("split", split.map_err(e2s), base);
    // spied evaluation epochs stay inside the requested span and reach both ends
    if dt != 0.0 && g.p(0.3) {
        let spy = Spy { log: Mutex::new(vec![]), t0: o.t };
        let dts = dt.clamp(-3000.0, 3000.0);
        let r = rk.propagate(&spy, s0, Second::new(dts), &ctx);
        let log = spy.log.lock().unwrap();
        run.count("force evaluations observed", log.len() as u64);
        let (lo, hi) = (dts.min(0.0) - 2e-6 - 1e-6, dts.max(0.0) + 3e-6);
        run.check(log.iter().all(|&t| t >= lo - 3e-6 && t <= hi + 3e-6), "rk4/evaluates-outside-span", || format!("{} dts={dts}", w()));
        let hmax = step.abs() + 1e-6;
        run.check(log.windows(2).all(|p| (p[1] - p[0]).abs() <= hmax), "rk4/step-larger-than-requested", || format!("{} max jump {}", w(), log.windows(2).map(|p| (p[1] - p[0]).abs()).fold(0.0, f64::max)));
        run.check(r.is_ok(), "rk4/spy-error", w);
    }
}

fn forced(run: &Run, g: &mut Rng) {
    let o = orb(g);
    let period = TAU / o.n;
    let dt = g.range(-1.0, 1.0) * period.min(12_000.0);
    let u = g.unit();
    let f = Forced { a: g.log(1e-8, 1e-5), w: TAU / g.range(800.0, 8000.0), dir: u, t0: o.t };
    let refm = |a: f64| {
        let ff = |t: f64, y: &S6| -> S6 {
            let r = norm([y[0], y[1], y[2]]);
            let c = -MU / (r * r * r);
            let k = a * (f.w * t).sin();
            [y[3], y[4], y[5], c * y[0] + k * u[0], c * y[1] + k * u[1], c * y[2] + k * u[2]]
        };
        gbs(&ff, o.y, 0.0, dt, 200)
    };
    let truth = refm(f.a);
    let ctx = DynamicsContext::empty();
    let vmax = (MU * (1.0 + o.e) / (o.a * (1.0 - o.e))).sqrt();
    let rp = o.a * (1.0 - o.e);
    let amp = (1.0 + o.e) / (1.0 - o.e).powi(2) * (o.a / rp);
    let rk = pp::Rk4Integrator { step: Second::new(0.004 * rp / vmax) };
    let d8 = pp::Dop853Integrator { tolerances: tol(1e-12) };
    let d5 = pp::Dopri5Integrator { tolerances: tol(1e-12) };
    let w = || format!("a={} e={} dt={dt} A={} w={}", o.a, o.e, f.a, f.w);
    let s0 = mk(o.t, &o.y);
    for (n, r) in [("rk4", rk.propagate(&f, s0, Second::new(dt), &ctx)), ("dop853", d8.propagate(&f, s0, Second::new(dt), &ctx)), ("dopri5", d5.propagate(&f, s0, Second::new(dt), &ctx))] {
        run.eval("forced", (n, o.a.to_bits()));
        match r {
            Ok(s) => { run.within(&format!("forced/{n}"), perr(&vec6(&s), &truth), 6.0 * (4e-6 * amp + 2e-6 * f.a / 1e-5), || w()); }
            Err(e) => run.violation(&format!("forced/{n}-error"), &format!("{e:?} {}", w())),
        }
    }
    // parameter sensitivity (final state w.r.t. the acceleration amplitude)
    let eps = f.a * 0.5;
    let (hi, lo) = (refm(f.a + eps), refm(f.a - eps));
    match pp::param_partials_central_diff(&d8, s0, Second::new(dt), &ctx, f.a, eps, |p| Forced { a: p, ..f }) {
        Ok(c) => {
            run.eval("param-column", o.a.to_bits());
            let sp = (0..3).map(|i| ((hi[i] - lo[i]) / (2.0 * eps)).abs()).fold(0.0, f64::max);
            let sv = (3..6).map(|i| ((hi[i] - lo[i]) / (2.0 * eps)).abs()).fold(0.0, f64::max);
            for i in 0..6 {
                let want = (hi[i] - lo[i]) / (2.0 * eps);
                let (sc, noise) = if i < 3 { (sp, 8e-6 * amp / eps) } else { (sv, 8e-6 * amp * vmax / rp / eps) };
                run.within("param-column/value", (c.0[i] - want).abs(), 1e-6 * sc + noise, || format!("{} i={i} got {} want {want}", w(), c.0[i]));
            }
            // the agreement of two columns: the largest difference over the largest element of the reference
            let other = pp::ParamColumn(std::array::from_fn(|i| c.0[i] * g.range(0.5, 1.5)));
            let want = (0..6).map(|i| (c.0[i] - other.0[i]).abs()).fold(0.0, f64::max) / (0..6).map(|i| other.0[i].abs()).fold(0.0, f64::max);
            run.within("param-column/difference", (c.max_relative_difference(&other) - want).abs(), 1e-13, || format!("{c:?} {other:?} want {want}"));
            run.check(c.max_relative_difference(&c) == 0.0, "param-column/self-difference", || format!("{c:?}"));
        }
        Err(e) => run.violation("param-column/error", &format!("{e:?}")),
    }
    for bad in [0.0, -1.0, f64::NAN, f64::INFINITY] {
        run.check(pp::param_partials_central_diff(&d8, s0, Second::new(1.0), &ctx, f.a, bad, |p| Forced { a: p, ..f }).is_err(), "param-column/bad-epsilon-accepted", || format!("eps={bad}"));
    }
}

fn mat(m: &StateTransitionMatrix<GCRS>) -> [[f64; 6]; 6] { *m.as_array() }
fn stm(run: &Run, g: &mut Rng) {
    let o = orb(g);
    let period = TAU / o.n;
    let use_j2 = g.p(0.6);
    let s0 = mk(o.t, &o.y);
    let ctx = DynamicsContext::empty();
    let model = || if use_j2 { composite() } else { CompositeModel::empty().push(Box::new(TwoBody::new(GM_EARTH))) };
    let dt = g.range(-0.4, 0.4) * period.min(9000.0) * (1.0 - o.e);
    // finite-difference reference of the flow (central, Richardson-free; steps scaled per block)
    let rp = o.a * (1.0 - o.e);
    let refstm = |dt: f64| {
        let mut m = [[0.0; 6]; 6];
        for j in 0..6 {
            let h = if j < 3 { 1e-4 * rp } else { 1e-4 * 8.0 };
            let at = |k: f64| { let mut y = o.y; y[j] += k * h; flow(&y, dt, period, use_j2) };
            let (p1, m1, p2, m2) = (at(1.0), at(-1.0), at(2.0), at(-2.0));
            for i in 0..6 { m[i][j] = (8.0 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12.0 * h) }
        }
        m
    };
    let scale = [rp, rp, rp, 8.0, 8.0, 8.0];
    let mx = |m: &[[f64; 6]; 6]| (0..6).flat_map(|i| (0..6).map(move |j| (i, j))).map(|(i, j)| (m[i][j] * scale[j] / scale[i]).abs()).fold(0.0, f64::max);
    let diff = |a: &[[f64; 6]; 6], b: &[[f64; 6]; 6]| { let mut d = *a; for i in 0..6 { for j in 0..6 { d[i][j] -= b[i][j] } } mx(&d) };
    let w = || format!("a={} e={} m={} dt={dt} j2={use_j2}", o.a, o.e, o.m);
    let want = refstm(dt);
    let pr = Propagator::<_, Geocentric, GCRS, _>::new(FixedRk4Adapter::new(Second::new(10.0)), model(), PropagatorConfig::default(), DynamicsContext::empty());
    let big = mx(&want);
    let lim = 3e-5 * big; // propagate_stm: RK4 at dt/100 (30 s at most)
    match pr.propagate_with_stm(s0, Second::new(dt)) {
        Ok((s, phi)) => {
            run.eval("stm", o.a.to_bits());
            let m = mat(&phi);
            run.within("stm/derivative-of-flow", diff(&m, &want), lim, || format!("{} got {m:?} want {want:?}", w()));
            run.within("stm/state", perr(&vec6(&s), &flow(&o.y, dt, period, use_j2)), 1e-4 * big, w);
            run.within("stm/epoch", ((s.epoch - o.t).value() - dt).abs(), 1e-5, w);
            // conservative force: symplectic map, Phi^T J Phi = J
            let mut worst = 0.0f64;
            for i in 0..6 {
                for j in 0..6 {
                    let mut x = 0.0;
                    for k in 0..3 { x += m[k][i] * m[k + 3][j] - m[k + 3][i] * m[k][j] }
                    let jj = if j == i + 3 { 1.0 } else if i == j + 3 { -1.0 } else { 0.0 };
                    worst = worst.max((x - jj).abs() * scale[i] * scale[j] / (rp * 8.0));
                }
            }
            run.within("stm/symplectic", worst, 1e-4 * big, w);
        }
        Err(e) => run.violation("stm/error", &format!("{e:?} {}", w())),
    }
    // cumulative arc
    let n = 1 + g.n(6);
    let step = dt / n as f64;
    match (pp::VariationalPropagator { step: Second::new(step) }).propagate(&model(), s0, n, &ctx) {
        Ok(arc) => {
            run.eval("arc", o.a.to_bits());
            run.check(arc.len() == n && arc.is_empty() == (n == 0), "arc/length", || format!("{} n={n} len={}", w(), arc.len()));
            for (k, (s, phi)) in arc.steps.iter().enumerate() {
                let tk = step * (k + 1) as f64;
                run.within("arc/epoch", ((s.epoch - o.t).value() - tk).abs(), 1e-5, w);
                run.within("arc/state", perr(&vec6(s), &flow(&o.y, tk, period, use_j2)), 1e-4 * big, || format!("{} k={k}", w()));
                if k + 1 == n || k == n / 2 {
                    let r = refstm(tk);
                    run.within("arc/cumulative-stm", diff(&mat(phi), &r), 3e-5 * mx(&r), || format!("{} k={k} of {n}", w()));
                }
            }
            run.check(arc.final_state().map(vec6) == arc.steps.last().map(|s| vec6(&s.0)) && arc.final_stm().map(mat) == arc.steps.last().map(|s| mat(&s.1)), "arc/final", w);
        }
        Err(e) => run.violation("arc/error", &format!("{e:?} {}", w())),
    }
    // STM prediction diagnostic: small for a correct pair, equal to its definition
    let dy: S6 = { let u = g.unit(); let v = g.unit(); [u[0] * 1e-2, u[1] * 1e-2, u[2] * 1e-2, v[0] * 1e-5, v[1] * 1e-5, v[2] * 1e-5] };
    match pp::validation::max_rel_stm_predict_error(&model(), s0, Second::new(dt), Second::new(dt.abs() / 400.0), dy, &ctx) {
        Ok(x) => { run.eval("diagnostic", o.a.to_bits()); run.check(x.is_finite() && x < 2e-2, "diagnostic/large", || format!("{} {x}", w())); }
        Err(e) => run.violation("diagnostic/error", &format!("{e:?}")),
    }
}

fn events(run: &Run, g: &mut Rng) {
    let mut o = orb(g);
    if o.e < 0.02 { o.e = g.range(0.02, 0.6); o.a = g.range(6600.0, 9000.0) / (1.0 - o.e); o.n = (MU / o.a.powi(3)).sqrt(); o.y = kepstate(&o, 0.0); }
    let period = TAU / o.n;
    // threshold radius inside the radial range, away from the extremes
    let ea = g.range(0.25, 2.9);
    let thr = o.a * (1.0 - o.e * ea.cos());
    let md = ea - o.e * ea.sin(); // rising at mean anomaly md, falling at -md
    let span = g.range(0.05, 3.0) * period * if g.p(0.3) { -1.0 } else { 1.0 };
    let dirn = *g.pick(&[principia::EventDirection::Rising, principia::EventDirection::Falling, principia::EventDirection::Either]);
    let terminal = g.p(0.4);
    let (vmax, rp) = ((MU * (1.0 + o.e) / (o.a * (1.0 - o.e))).sqrt(), o.a * (1.0 - o.e));
    let step = (period / 400.0).min(0.02 * rp / vmax);
    let revs = 1.0 + span.abs() / period;
    let lim = 2.5e-3 * revs * revs * (1.0 + o.e) / (1.0 - o.e).powi(2) * (o.a / rp);
    let every = if g.p(0.5) { Some(g.range(0.6, 30.0) * step) } else { None };
    let w = || format!("a={} e={} m={} thr={thr} span={span} dir={dirn:?} terminal={terminal} every={every:?}", o.a, o.e, o.m);
    // expected crossing times; "rising" refers to the order in which the samples are visited
    let mut exp: Vec<f64> = vec![];
    for k in -6..=6 {
        for (m, outward) in [(md, true), (-md, false)] {
            let t = (m - o.m + TAU * k as f64) / o.n;
            let inside = if span > 0.0 { t > 0.0 && t < span } else { t < 0.0 && t > span };
            if inside {
                let rising = outward == (span > 0.0);
                if match dirn { principia::EventDirection::Rising => rising, principia::EventDirection::Falling => !rising, principia::EventDirection::Either => true } { exp.push(t) }
            }
        }
    }
    exp.sort_by(|a, b| a.abs().total_cmp(&b.abs()));
    let near_edge = (-6..=6).any(|k| [md, -md].iter().any(|m| { let t = (m - o.m + TAU * k as f64) / o.n; t.abs() < 2.0 * step || (t - span).abs() < 2.0 * step }));
    if near_edge { return; }
    let cfg = PropagatorConfig { event_dt: every.map(Second::new), max_steps: 40_000, ..Default::default() };
    let pr = Propagator::<_, Geocentric, GCRS, _>::new(FixedRk4Adapter::new(Second::new(step)), TwoBody::new(GM_EARTH), cfg, DynamicsContext::empty());
    let ev = principia::RadialThresholdEvent::new(Kilometers::new(thr)).direction(dirn).terminal(terminal);
    let r = match pr.propagate_with_events(mk(o.t, &o.y), Second::new(span), ev) { Ok(r) => r, Err(e) => { run.violation("events/error", &format!("{e:?} {}", w())); return; } };
    run.eval("events", (o.a.to_bits(), span.to_bits()));
    let want: Vec<f64> = if terminal { exp.iter().take(1).cloned().collect() } else { exp.clone() };
    let got: Vec<f64> = r.events.iter().map(|e| (e.state.epoch - o.t).value()).collect();
    run.count("events observed", got.len() as u64);
    run.check(got.len() == want.len(), "events/count", || format!("{} got {got:?} want {want:?}", w()));
    for (a, b) in got.iter().zip(&want) { run.within("events/time", (a - b).abs(), 0.51 * step, || format!("{} got {a} want {b}", w())); }
    let ends = (r.samples.last().unwrap().epoch - o.t).value();
    if terminal && !want.is_empty() {
        run.check((ends - want[0]) * span.signum() >= -0.5 * step && (ends - want[0]).abs() <= step * 1.01, "events/terminal-stop", || format!("{} ends {ends} event {:?}", w(), want));
    } else {
        run.within("events/reaches-end", (ends - span).abs(), 1e-5, w);
    }
    run.check((r.samples[0].epoch - o.t).value() == 0.0, "events/first-sample", w);
    for s in &r.samples {
        let t = (s.epoch - o.t).value();
        run.within("events/sample-state", perr(&vec6(s), &kepstate(&o, t)), lim, || format!("{} t={t}", w()));
    }
    if let Some(d) = every {
        let inner = &r.samples[1..r.samples.len().max(2) - 1];
        for (k, s) in inner.iter().enumerate() {
            run.within("events/output-spacing", ((s.epoch - o.t).value().abs() - d * (k + 1) as f64).abs(), 1e-4, || format!("{} k={k}", w()));
        }
        let n = (ends.abs() / d).floor() as usize;
        run.check(r.samples.len() >= n, "events/outputs-missing", || format!("{} have {} expected about {n}", w(), r.samples.len()));
    }
}

fn rejects(run: &Run, g: &mut Rng) {
    let o = orb(g);
    let s0 = mk(o.t, &o.y);
    let ctx = DynamicsContext::empty();
    let m = TwoBody::new(GM_EARTH);
    for bad in [0.0, f64::NAN, -0.0] {
        run.eval("reject", bad.to_bits());
        run.check((pp::Rk4Integrator { step: Second::new(bad) }).propagate(&m, s0, Second::new(100.0), &ctx).is_err(), "rk4/bad-step-accepted", || format!("{bad}"));
        let pr = Propagator::<_, Geocentric, GCRS, _>::new(FixedRk4Adapter::new(Second::new(bad)), m, PropagatorConfig::default(), DynamicsContext::empty());
        run.check(pr.propagate(s0, Second::new(100.0)).is_err(), "propagator/bad-step-accepted", || format!("{bad}"));
    }
    // a step budget too small for the span is an error, never a shortened arc
    let dt = g.range(500.0, 5000.0) * if g.p(0.5) { 1.0 } else { -1.0 };
    let need = (dt.abs() / 10.0).ceil() as usize;
    let cap = g.n(need - 2) + 1;
    let cfg = PropagatorConfig { max_steps: cap, ..Default::default() };
    let pr = Propagator::<_, Geocentric, GCRS, _>::new(FixedRk4Adapter::new(Second::new(10.0)), m, cfg, DynamicsContext::empty());
    run.check(pr.propagate(s0, Second::new(dt)).is_err(), "propagator/step-budget-ignored", || format!("dt={dt} cap={cap}"));
    // models that need context data which is not there report it
    let geo = siderust::astro::dynamics::forces::Geopotential::new(4, 4);
    let drag = siderust::astro::dynamics::forces::DragForce::new(qtty::DragCoefficient::new(2.2), qtty::AreaToMass::new(0.01));
    let tb = siderust::astro::dynamics::forces::ThirdBody::sun_and_moon();
    let rk = pp::Rk4Integrator { step: Second::new(10.0) };
    run.check(rk.propagate(&geo, s0, Second::new(50.0), &ctx).is_err() && rk.propagate(&drag, s0, Second::new(50.0), &ctx).is_err() && rk.propagate(&tb, s0, Second::new(50.0), &ctx).is_err(), "missing-context-accepted", || String::new());
    let pr = Propagator::<_, Geocentric, GCRS, _>::new(FixedRk4Adapter::new(Second::new(10.0)), siderust::astro::dynamics::forces::Geopotential::new(4, 4), PropagatorConfig::default(), DynamicsContext::empty());
    run.check(pr.propagate(s0, Second::new(50.0)).is_err(), "missing-context-accepted", || String::new());
}

fn main() {
    let mut run = Run::new("C14", "numerical propagation vs analytic two-body motion and an independent extrapolation integrator");
    run.assume("Integrator kernels come from the principia crate; the monitor judges what the siderust entry points return.");
    run.par("trajectories", run.size(6000, 60_000), |i| { let mut g = run.rng_i("traj", i); trajectories(&run, &mut g) });
    run.par("forced", run.size(4000, 40_000), |i| { let mut g = run.rng_i("forced", i); forced(&run, &mut g) });
    run.par("stm", run.size(2500, 25_000), |i| { let mut g = run.rng_i("stm", i); stm(&run, &mut g) });
    run.par("events", run.size(15_000, 150_000), |i| { let mut g = run.rng_i("events", i); events(&run, &mut g) });
    run.par("rejects", run.size(200, 4000), |i| { let mut g = run.rng_i("rejects", i); rejects(&run, &mut g) });
    for k in ["rk4", "dopri5", "dop853", "propagate_orbit", "propagate_spacecraft", "propagator-rk4", "propagator-dopri5", "propagator-dop853", "split"] { run.require(k, run.size(4000, 40_000) as u64); }
    for k in ["forced", "param-column", "stm", "arc", "diagnostic", "events", "reject"] { run.require(k, 400); }
    run.finish();
}
