//! C16: estimation - weighted least squares, Gauss-Newton, scalar-update EKF and process noise vs independent linear algebra.
use siderust::astro::dynamics::{OrbitState, StateCovariance, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::nonlinear::{gauss_newton, NonlinearError, NonlinearOptions};
use siderust::pod::estimation::sequential::OrbitEkf;
use siderust::pod::estimation::wls::{NormalEquations, WlsSolverError};
use siderust::pod::problem::covariance::ParameterCovariance;
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::pod::process::noise::*;
use siderust::qtty;
use siderust::qtty::*;
use siderust::time::JulianDate;
use vh::{Rng, Run};

type Mx = Vec<Vec<f64>>;
fn zeros(n: usize, m: usize) -> Mx { vec![vec![0.0; m]; n] }
/// Householder QR least squares of `h x = y`: (solution, (R^T R)^-1, condition estimate).
fn qr_ls(h: &Mx, y: &[f64]) -> Option<(Vec<f64>, Mx, f64)> {
    let (m, n) = (h.len(), h[0].len());
    if m < n { return None; }
    let mut a = h.clone();
    let mut b = y.to_vec();
    for k in 0..n {
        let al = (k..m).map(|i| a[i][k] * a[i][k]).sum::<f64>().sqrt();
        if al == 0.0 { return None; }
        let s = if a[k][k] > 0.0 { -al } else { al };
        let mut v: Vec<f64> = (k..m).map(|i| a[i][k]).collect();
        v[0] -= s;
        let vv: f64 = v.iter().map(|x| x * x).sum();
        if vv == 0.0 { continue; }
        for j in k..n {
            let d: f64 = (k..m).map(|i| v[i - k] * a[i][j]).sum::<f64>() * 2.0 / vv;
            for i in k..m { a[i][j] -= d * v[i - k]; }
        }
        let d: f64 = (k..m).map(|i| v[i - k] * b[i]).sum::<f64>() * 2.0 / vv;
        for i in k..m { b[i] -= d * v[i - k]; }
    }
    // R^-1 by back substitution
    let mut ri = zeros(n, n);
    for c in 0..n {
        for i in (0..=c).rev() {
            let mut s = if i == c { 1.0 } else { 0.0 };
            for j in i + 1..=c { s -= a[i][j] * ri[j][c]; }
            if a[i][i] == 0.0 { return None; }
            ri[i][c] = s / a[i][i];
        }
    }
    let x: Vec<f64> = (0..n).map(|i| (i..n).map(|j| ri[i][j] * b[j]).sum()).collect();
    let mut cov = zeros(n, n);
    for i in 0..n { for j in 0..n { cov[i][j] = (0..n).map(|k| ri[i][k] * ri[j][k]).sum(); } }
    let fr = (0..n).map(|i| (i..n).map(|j| a[i][j] * a[i][j]).sum::<f64>()).sum::<f64>().sqrt();
    let fi = ri.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
    Some((x, cov, fr * fi / n as f64))
}

struct Row { p: Vec<(usize, f64)>, res: f64, sig: f64 }
fn bad_row(g: &mut Rng, n: usize) -> (Vec<(usize, f64)>, f64, f64, &'static str) {
    let mut p: Vec<(usize, f64)> = (0..n).map(|i| (i, g.gauss() * 1e6)).collect();
    match g.n(6) {
        0 => (p, 1e9, 0.0, "sigma=0"),
        1 => (p, 1e9, -g.log(1e-3, 10.0), "sigma<0"),
        2 => (p, 1e9, *g.pick(&[f64::NAN, f64::INFINITY]), "sigma non-finite"),
        3 => (p, *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1.0, "residual"),
        4 => { let k = g.n(n); p[k].1 = *g.pick(&[f64::NAN, f64::INFINITY]); (p, 1.0, 1.0, "partial") }
        _ => { p.push((n + g.n(3), 1.0)); let k = g.n(p.len()); let last = p.len() - 1; p.swap(k, last); (p, 1.0, 1.0, "index") }
    }
}

fn wls(run: &Run, g: &mut Rng) {
    let n = if g.p(0.3) { 6 } else { 1 + g.n(12) };
    let m = n + g.len(50, 3000);
    let cs: Vec<f64> = (0..n).map(|_| g.log(1e-4, 1e4)).collect();
    let dense = g.p(0.5);
    let mut rows = vec![];
    for r in 0..m {
        let mut p = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { order.swap(i, g.n(i + 1)); }
        for &i in &order { if dense || g.p(0.4) || i == r % n { p.push((i, g.gauss() * cs[i])); if g.p(0.05) { p.push((i, g.gauss() * cs[i])); } } }
        rows.push(Row { p, res: g.gauss() * g.log(1e-3, 1e3), sig: g.log(1e-3, 1e2) });
    }
    let mut ne = NormalEquations::new(n);
    let mut nbad = 0;
    for r in &rows {
        if g.p(0.15) {
            let (p, res, sig, what) = bad_row(g, n);
            run.check(ne.add_row(&p, res, sig).is_err(), "wls/bad-row-accepted", || format!("{what} n={n} res={res} sigma={sig}"));
            nbad += 1;
        }
        if let Err(e) = ne.add_row(&r.p, r.res, r.sig) { run.violation("wls/row-rejected", &format!("{e:?} {:?} {} {}", r.p, r.res, r.sig)); return; }
    }
    run.eval("wls-rows-rejected", (nbad, n, m));
    let mut h = zeros(m, n);
    let mut y = vec![0.0; m];
    let mut chi2 = 0.0;
    let mut habs = vec![0.0; n];
    for (k, r) in rows.iter().enumerate() {
        let mut a = vec![0.0; n];
        for &(i, v) in &r.p { h[k][i] += v / r.sig / cs[i]; a[i] += v.abs() / r.sig / cs[i]; }
        for i in 0..n { habs[i] += a[i] * a[i]; }
        y[k] = r.res / r.sig;
        chi2 += y[k] * y[k];
    }
    // scale columns to unit norm for the condition estimate
    let sc: Vec<f64> = (0..n).map(|j| (0..m).map(|k| h[k][j] * h[k][j]).sum::<f64>().sqrt()).collect();
    if sc.iter().any(|s| *s == 0.0) { return; }
    for k in 0..m { for j in 0..n { h[k][j] /= sc[j]; } }
    let Some((x, cov, cond)) = qr_ls(&h, &y) else { return };
    if cond > 1e4 { run.count("wls_ill_conditioned_skipped", 1); return; }
    let res = match ne.solve() { Ok(r) => r, Err(e) => { run.violation("wls/solve-failed", &format!("{e:?} n={n} m={m} cond={cond:.2e}")); return } };
    run.eval("wls", (n, m, x[0].to_bits()));
    run.sample("wls", || format!("n={n} m={m} cond={cond:.2e} update0={}", res.update[0]));
    let d = |i: usize| sc[i] * cs[i];
    let xn = x.iter().fold(0.0f64, |a, b| a.max(b.abs())) + cov.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs())).sqrt() * chi2.sqrt();
    // duplicate indices in one row may cancel
    let amp = (0..n).map(|i| habs[i].sqrt() / sc[i]).fold(1.0, f64::max);
    let tol = 4e-15 * cond * cond * amp * amp * (n * m) as f64;
    let e = (0..n).map(|i| (res.update[i] * d(i) - x[i]).abs()).fold(0.0, f64::max);
    run.within("wls/update", e, tol * xn.max(1e-300), || format!("n={n} m={m} cond={cond:.2e} got {:?} want(scaled) {x:?}", res.update));
    let cn = cov.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let mut e = 0.0f64;
    for i in 0..n { for j in 0..n { e = e.max((res.covariance[i][j] * d(i) * d(j) - cov[i][j]).abs()); } }
    run.within("wls/covariance", e, tol * cn, || format!("n={n} m={m} cond={cond:.2e} cov {:?}", res.covariance));
    run.within("wls/chi2", (res.chi2 - chi2).abs(), 1e-12 * chi2.max(1e-300), || format!("{} vs {chi2}", res.chi2));
    let dof = m.saturating_sub(n).max(1) as f64;
    run.within("wls/reduced-chi2", (res.reduced_chi2() - chi2 / dof).abs(), 1e-12 * chi2.max(1e-300), || format!("{} vs {} n={n} m={m}", res.reduced_chi2(), chi2 / dof));
    run.check(res.n_obs == m && res.n_params == n && res.update.len() == n, "wls/counts", || format!("n_obs {} of {m}, n_params {} of {n}", res.n_obs, res.n_params));
    match res.to_state_covariance() {
        Some(sc6) => {
            run.eval("wls-state-cov", x[0].to_bits());
            let rm = sc6.to_row_major();
            let ok = n == 6 && (0..6).all(|i| (0..6).all(|j| (rm[i][j] - res.covariance[i][j]).abs() <= tol * cn / d(i) / d(j) + 1e-300));
            run.check(ok, "wls/state-covariance", || format!("n={n} {rm:?} vs {:?}", res.covariance));
        }
        None => { run.check(n != 6, "wls/state-covariance", || "missing for six parameters".into()); }
    }
    // an unobserved parameter is an error, never a made-up estimate
    let drop = g.n(n);
    let mut ne = NormalEquations::new(n);
    for r in &rows { let p: Vec<_> = r.p.iter().copied().filter(|q| q.0 != drop).collect(); let _ = ne.add_row(&p, r.res, r.sig); }
    run.eval("wls-unobservable", (n, drop, m));
    run.check(matches!(ne.solve(), Err(WlsSolverError::NotPositiveDefinite(_))), "wls/unobservable-solved", || format!("n={n} unobserved {drop}"));
}

fn gn(run: &Run, g: &mut Rng) {
    // trilateration with a clock bias, or exponential decay with offset
    let tri = g.p(0.6);
    let n = if tri { 4 } else { 3 };
    let m = n + 2 + g.n(20);
    let truth: Vec<f64> = if tri { vec![g.gauss() * 3000.0, g.gauss() * 3000.0, g.gauss() * 3000.0, g.gauss() * 50.0] } else { vec![g.range(0.5, 20.0), g.range(0.2, 1.5), g.range(-3.0, 3.0)] };
    let st: Vec<[f64; 3]> = (0..m).map(|_| { let u = g.unit(); let r = g.range(15_000.0, 40_000.0); [u[0] * r, u[1] * r, u[2] * r] }).collect();
    let ts: Vec<f64> = (0..m).map(|k| 5.0 * (k as f64 + g.f()) / m as f64).collect();
    let noise = if g.p(0.4) { 0.0 } else { g.log(1e-6, 1e-3) };
    let model = |p: &[f64], k: usize| -> (f64, Vec<f64>) {
        if tri {
            let d = [p[0] - st[k][0], p[1] - st[k][1], p[2] - st[k][2]];
            let r = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
            (r + p[3], vec![d[0] / r, d[1] / r, d[2] / r, 1.0])
        } else {
            let e = (-p[1] * ts[k]).exp();
            (p[0] * e + p[2], vec![e, -p[0] * ts[k] * e, 1.0])
        }
    };
    let sig: Vec<f64> = (0..m).map(|_| g.log(0.3, 3.0)).collect();
    let obs: Vec<f64> = (0..m).map(|k| model(&truth, k).0 + noise * sig[k] * g.gauss()).collect();
    let init: Vec<f64> = truth.iter().map(|t| if tri { t + g.gauss() * 100.0 } else { t * (1.0 + 0.05 * g.gauss()) }).collect();
    let opts = NonlinearOptions { max_iter: 1 + g.n(30), tol_rel: g.log(1e-9, 1e-4), tol_chi2_rel: g.log(1e-6, 1e-2) };
    let mut log: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    let out = gauss_newton(init.clone(), opts, |p| {
        let mut ne = NormalEquations::new(n);
        for k in 0..m { let (y, h) = model(p, k); ne.add_row(&h.iter().copied().enumerate().collect::<Vec<_>>(), obs[k] - y, sig[k])?; }
        let up = ne.clone().solve()?.update;
        log.push((p.to_vec(), up));
        Ok(ne)
    });
    run.eval("gauss-newton", (tri, truth[0].to_bits(), opts.max_iter));
    let ctx = || format!("tri={tri} m={m} noise={noise:e} opts={opts:?} calls={}", log.len());
    // trajectory: each linearisation point is the previous one plus the solved update
    run.check(log.len() >= 1 && log[0].0 == init, "gn/first-point", ctx);
    for w in log.windows(2) {
        let e = (0..n).map(|i| (w[1].0[i] - w[0].0[i] - w[0].1[i]).abs() / w[0].0[i].abs().max(1.0)).fold(0.0, f64::max);
        run.within("gn/step", e, 1e-12, || format!("{:?} + {:?} -> {:?}; {}", w[0].0, w[0].1, w[1].0, ctx()));
    }
    let rel = |k: usize| (0..n).map(|i| log[k].1[i].abs() / (log[k].0[i] + log[k].1[i]).abs().max(1.0).min(log[k].0[i].abs().max(1.0))).fold(0.0, f64::max);
    match out {
        Ok(r) => {
            run.count("gn_converged", 1);
            run.check(r.iterations == log.len() && r.iterations <= opts.max_iter, "gn/iterations", || format!("reported {} ; {}", r.iterations, ctx()));
            let last = log.last().unwrap();
            let e = (0..n).map(|i| (r.parameters[i] - last.0[i] - last.1[i]).abs() / last.0[i].abs().max(1.0)).fold(0.0, f64::max);
            run.within("gn/result", e, 1e-12, || format!("{:?} {last:?} {}", r.parameters, ctx()));
            run.check(rel(log.len() - 1) <= 1.001 * opts.tol_rel, "gn/returned-before-convergence", || format!("last step {:e} {}", rel(log.len() - 1), ctx()));
            run.check(r.last.update == last.1, "gn/last-result", ctx);
            // stationarity of the weighted sum of squares at the returned point
            let mut h = zeros(m, n);
            let mut y = vec![0.0; m];
            for k in 0..m { let (v, p) = model(&r.parameters, k); for i in 0..n { h[k][i] = p[i] / sig[k]; } y[k] = (obs[k] - v) / sig[k]; }
            if let Some((dx, _, cond)) = qr_ls(&h, &y) {
                if cond < 1e3 {
                    let e = (0..n).map(|i| dx[i].abs() / r.parameters[i].abs().max(1.0)).fold(0.0, f64::max);
                    run.eval("gn-stationary", truth[0].to_bits());
                    run.within("gn/stationary", e, opts.tol_rel + 1e-10 * cond, || format!("cond {cond:e} {} {:?}", ctx(), r.parameters));
                    if noise == 0.0 {
                        let e = (0..n).map(|i| (r.parameters[i] - truth[i]).abs() / truth[i].abs().max(1.0)).fold(0.0, f64::max);
                        run.within("gn/exact-data-truth", e, opts.tol_rel + 1e-10 * cond, || format!("cond {cond:e} {} {:?} truth {truth:?}", ctx(), r.parameters));
                    }
                }
            }
        }
        Err(NonlinearError::DidNotConverge(k)) => {
            run.count("gn_not_converged", 1);
            run.check(k == opts.max_iter && log.len() == opts.max_iter, "gn/gave-up-early", || format!("{k} {}", ctx()));
            // two consecutive points already stationary to well below every tolerance must count as converged
            if log.len() >= 3 {
                let l = log.len();
                run.check(!(rel(l - 1) < 1e-3 * opts.tol_rel && rel(l - 2) < 1e-3 * opts.tol_rel && rel(l - 3) < 1e-3 * opts.tol_rel), "gn/converged-not-recognised", || format!("{:e} {:e} {}", rel(l - 1), rel(l - 2), ctx()));
            }
        }
        Err(NonlinearError::Solver(e)) => {
            // only legitimate if the assembler itself failed (it records every success)
            run.check(log.len() < opts.max_iter && tri == false, "gn/solver-error", || format!("{e:?} {}", ctx()));
        }
    }
    // never-converging problem reports exhaustion; bad options and mismatched dimensions are errors
    let mut ne1 = NormalEquations::new(1);
    ne1.add_row(&[(0, 1.0)], 1.0, 1.0).unwrap();
    let mx = 1 + g.n(20);
    let r = gauss_newton(vec![g.gauss()], NonlinearOptions { max_iter: mx, tol_rel: 1e-3, tol_chi2_rel: 1e-3 }, |_| Ok(ne1.clone()));
    // a constant unit step keeps |step|/max(|p|,1) above 1e-3 for fewer than a thousand iterations
    run.check(matches!(r, Err(NonlinearError::DidNotConverge(k)) if k == mx), "gn/drifting-accepted", || format!("max_iter {mx}"));
    let bad = [NonlinearOptions { max_iter: 0, ..Default::default() }, NonlinearOptions { tol_rel: f64::NAN, ..Default::default() }, NonlinearOptions { tol_rel: -1.0, ..Default::default() }, NonlinearOptions { tol_chi2_rel: f64::NAN, ..Default::default() }, NonlinearOptions { tol_chi2_rel: -1e-9, ..Default::default() }];
    let mut calls = 0;
    for o in bad { run.check(gauss_newton(vec![0.0], o, |_| { calls += 1; Ok(ne1.clone()) }).is_err() && calls == 0, "gn/bad-options", || format!("{o:?}")); }
    run.check(gauss_newton(vec![0.0, f64::NAN], NonlinearOptions::default(), |_| Ok(ne1.clone())).is_err(), "gn/nan-start", || String::new());
    run.check(gauss_newton(vec![0.0, 1.0], NonlinearOptions::default(), |_| Ok(ne1.clone())).is_err(), "gn/dimension-mismatch", || String::new());
}

const DS: [f64; 6] = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3];
fn spd(g: &mut Rng, lo: f64, hi: f64) -> Mx {
    let mut a = zeros(6, 6);
    for k in 0..6 { let u: Vec<f64> = (0..6).map(|_| g.gauss()).collect(); let s = g.log(lo, hi); for i in 0..6 { for j in 0..6 { a[i][j] += s * u[i] * u[j] * DS[i] * DS[j]; } } let _ = k; }
    a
}
fn to_cov(a: &Mx) -> StateCovariance<GCRS> { StateCovariance::from_row_major(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j]))) }
fn st6(s: &OrbitState) -> [f64; 6] { [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()] }
fn mk6(jd: f64, y: &[f64]) -> OrbitState { OrbitState::new(JulianDate::new(jd).to_j2000s(), affn_pos(y), Velocity::<GCRS>::new(y[3], y[4], y[5])) }
fn affn_pos(y: &[f64]) -> siderust::astro::dynamics::Position<GCRS> { siderust::astro::dynamics::Position::<GCRS>::new(y[0], y[1], y[2]) }

fn ekf(run: &Run, g: &mut Rng) {
    let mut jd = g.range(2_440_000.5, 2_462_000.5);
    let mut x: Vec<f64> = (0..6).map(|i| if i < 3 { g.gauss() * 7000.0 } else { g.gauss() * 5.0 }).collect();
    let diag = g.p(0.3);
    let mut p = if diag { let mut a = zeros(6, 6); for i in 0..6 { a[i][i] = (g.log(0.01, 10.0) * DS[i]).powi(2); } a } else { spd(g, 1e-3, 10.0) };
    let mut f = if diag {
        OrbitEkf::from_stddevs(mk6(jd, &x), std::array::from_fn(|i| p[i][i].sqrt()), std::array::from_fn(|i| p[i + 3][i + 3].sqrt()))
    } else { OrbitEkf::new(mk6(jd, &x), to_cov(&p)) };
    let steps = 3 + g.n(20);
    let mut trace = vec![];
    for step in 0..steps {
        match g.n(5) {
            0 => {
                let dt = if g.p(0.2) { 0.0 } else { g.range(-100.0, 300.0) };
                let mut phi = [[0.0; 6]; 6];
                for i in 0..6 { for j in 0..6 { phi[i][j] = if i == j { 1.0 } else { 0.0 } + 0.05 * g.gauss() * DS[i] / DS[j]; } }
                for i in 0..3 { phi[i][i + 3] += dt; }
                let q = if g.p(0.5) { Some(spd(g, 1e-5, 1.0)) } else { None };
                let mut pp = zeros(6, 6);
                for i in 0..6 { for j in 0..6 { for k in 0..6 { for l in 0..6 { pp[i][j] += phi[i][k] * p[k][l] * phi[j][l]; } } if let Some(q) = &q { pp[i][j] += q[i][j]; } } }
                p = pp;
                jd += dt / 86400.0;
                for i in 0..6 { x[i] += g.gauss() * DS[i]; }
                let sp = mk6(jd, &x);
                f.predict(sp, phi, q.as_ref().map(to_cov));
                run.check(f.state().epoch == sp.epoch && st6(f.state()) == st6(&sp), "ekf/predict-state", || format!("{:?}", trace));
                trace.push(format!("predict q={}", q.is_some()));
                run.eval("ekf-predict", (x[0].to_bits(), step));
            }
            1 if g.p(0.5) => {
                // invalid inputs leave the filter untouched
                let (s0, c0) = (st6(f.state()), f.covariance().to_row_major());
                let mut h: [f64; 6] = std::array::from_fn(|i| g.gauss() / DS[i]);
                let (mut z, mut r) = (g.gauss(), g.log(1e-4, 1.0));
                let what = match g.n(4) { 0 => { r = *g.pick(&[-1e-9, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); "r" } 1 => { z = *g.pick(&[f64::NAN, f64::INFINITY]); "innovation" } 2 => { h[g.n(6)] = *g.pick(&[f64::NAN, f64::INFINITY]); "h" } _ => { h = [0.0; 6]; r = 0.0; "h=0,r=0" } };
                run.eval("ekf-reject", (what, z.to_bits()));
                let ok = f.update_scalar(h, z, r).is_err() && st6(f.state()) == s0 && f.covariance().to_row_major() == c0;
                run.check(ok, "ekf/bad-update", || format!("{what} h={h:?} z={z} r={r}"));
            }
            _ => {
                let sparse = g.p(0.4);
                let mut h: [f64; 6] = std::array::from_fn(|i| if sparse && g.p(0.6) { 0.0 } else { g.gauss() / DS[i] });
                if h.iter().all(|v| *v == 0.0) { h[g.n(6)] = 1.0; }
                let hph: f64 = (0..6).map(|i| (0..6).map(|j| h[i] * p[i][j] * h[j]).sum::<f64>()).sum();
                let exact = g.p(0.04);
                let r = if exact { 0.0 } else { hph * g.log(1e-2, 1e2) };
                let z = (hph + r).sqrt() * g.gauss();
                let s = hph + r;
                let ph: Vec<f64> = (0..6).map(|i| (0..6).map(|j| p[i][j] * h[j]).sum()).collect();
                let mut pn = p.clone();
                for i in 0..6 { for j in 0..6 { pn[i][j] -= ph[i] * ph[j] / s; } }
                let s0 = *f.state();
                let rec = match f.update_scalar(h, z, r) { Ok(r) => r, Err(e) => { run.violation("ekf/update-failed", &format!("{e:?} r={r} hph={hph} {trace:?}")); return } };
                run.eval("ekf-update", (z.to_bits(), step));
                run.check(f.state().epoch == s0.epoch, "ekf/update-epoch", || String::new());
                let k: Vec<f64> = (0..6).map(|i| ph[i] / s).collect();
                let got = st6(f.state());
                let e = (0..6).map(|i| (got[i] - x[i] - k[i] * z).abs() / (p[i][i].sqrt() * 1e-9 + x[i].abs() * 1e-15)).fold(0.0, f64::max);
                run.within("ekf/state", e, 50.0, || format!("h={h:?} z={z} r={r} got {got:?} from {x:?} gain {k:?} {trace:?}"));
                for i in 0..6 { x[i] = got[i]; }
                let c = f.covariance().to_row_major();
                let mut e = 0.0f64;
                for i in 0..6 { for j in 0..6 { e = e.max((c[i][j] - pn[i][j]).abs() / (p[i][i] * p[j][j]).sqrt()); } }
                run.within("ekf/covariance", e, 1e-7, || format!("h={h:?} r={r} got {c:?} want {pn:?} {trace:?}"));
                run.within("ekf/innovation-variance", (rec.variance - s).abs() / s, 1e-7, || format!("{} vs {s}", rec.variance));
                run.within("ekf/nis", (rec.nis - z * z / s).abs() / (z * z / s).max(1e-300), 1e-7, || format!("{} vs {}", rec.nis, z * z / s));
                run.check(rec.innovation == z, "ekf/innovation", || format!("{} vs {z}", rec.innovation));
                let dg = (0..6).all(|i| c[i][i] <= p[i][i] * (1.0 + 1e-9) && c[i][i] >= -1e-12 * p[i][i]);
                run.check(dg, "ekf/variance-grew", || format!("{c:?} from {p:?}"));
                if exact { trace.push("exact".into()); let hp: f64 = (0..6).map(|i| (0..6).map(|j| h[i] * c[i][j] * h[j]).sum::<f64>()).sum(); run.within("ekf/exact-measurement", hp.abs() / hph, 1e-9, || format!("{hp}")); return; }
                trace.push(format!("update r={r:.1e}"));
                p = (0..6).map(|i| c[i].to_vec()).collect();
                continue;
            }
        }
        let c = f.covariance().to_row_major();
        let mut e = 0.0f64;
        for i in 0..6 { for j in 0..6 { e = e.max((c[i][j] - p[i][j]).abs() / (p[i][i] * p[j][j]).sqrt()); } }
        run.within("ekf/predict-covariance", e, 1e-9, || format!("{c:?} vs {p:?} {trace:?}"));
        p = (0..6).map(|i| c[i].to_vec()).collect();
        let mut sym = 0.0f64;
        for i in 0..6 { for j in 0..6 { sym = sym.max((c[i][j] - c[j][i]).abs()); } }
        run.check(sym == 0.0, "ekf/asymmetric", || format!("{c:?}"));
    }
}

fn noise(run: &Run, g: &mut Rng) {
    let gm = |g: &mut Rng| GaussMarkovParams { sigma: if g.p(0.1) { 0.0 } else { g.log(1e-6, 10.0) }, tau: Second::new(g.log(1e-2, 1e7)) };
    let q: [f64; 3] = std::array::from_fn(|_| if g.p(0.15) { 0.0 } else { g.log(1e-20, 1e-4) });
    let m = ProcessNoiseModel {
        position_velocity: WhiteAccelPsd(q),
        drag_scale: if g.p(0.5) { Some(gm(g)) } else { None },
        srp_scale: if g.p(0.5) { Some(gm(g)) } else { None },
        empirical_white: if g.p(0.5) { Some(std::array::from_fn(|_| qtty::KmPerSecondsSquared::new(g.log(1e-12, 1e-5)))) } else { None },
    };
    let dt = if g.p(0.05) { 0.0 } else { g.log(1e-3, 1e6) };
    let n = 6 + m.drag_scale.is_some() as usize + m.srp_scale.is_some() as usize + 3 * m.empirical_white.is_some() as usize;
    run.eval("process-noise", (n, dt.to_bits(), q[0].to_bits()));
    let mut want = zeros(n, n);
    for i in 0..3 {
        want[i][i] = q[i] * dt * dt * dt / 3.0;
        want[i][i + 3] = q[i] * dt * dt / 2.0;
        want[i + 3][i] = want[i][i + 3];
        want[i + 3][i + 3] = q[i] * dt;
    }
    let mut k = 6;
    for s in [m.drag_scale, m.srp_scale].into_iter().flatten() { want[k][k] = s.sigma * s.sigma * -(-2.0 * dt / s.tau.value()).exp_m1(); k += 1; }
    if let Some(e) = m.empirical_white { for s in e { want[k][k] = s.value() * s.value() * dt; k += 1; } }
    match m.q_matrix(Second::new(dt)) {
        Ok(got) => {
            let dims = got.len() == n && got.iter().all(|r| r.len() == n) && m.dim() == n;
            if run.check(dims, "noise/dimension", || format!("{} {n} {}", got.len(), m.dim())) {
                for i in 0..n { for j in 0..n {
                    let s = if i == j && i >= 6 && i < n - 3 * m.empirical_white.is_some() as usize { let s = if i == 6 && m.drag_scale.is_some() { m.drag_scale } else { m.srp_scale }.unwrap().sigma; 1e-15 * s * s } else { 0.0 };
                    run.within("noise/q-matrix", (got[i][j] - want[i][j]).abs(), 1e-13 * want[i][j].abs() + s, || format!("[{i}][{j}] {} vs {} dt={dt} {m:?}", got[i][j], want[i][j]));
                } }
            }
            run.check(matches!(m.is_psd(Second::new(dt)), Ok(true)), "noise/psd", || format!("dt={dt} {m:?}"));
        }
        Err(e) => run.violation("noise/rejected", &format!("{e:?} dt={dt} {m:?}")),
    }
    let (sg, tau) = (g.log(1e-9, 1e2), g.log(1e-3, 1e6));
    run.check(WhiteAccelPsd::isotropic(qtty::KmPerSecondsSquared::new(sg)).0.iter().all(|q| ((q - sg * sg) / (sg * sg)).abs() < 1e-15), "noise/isotropic", || format!("{sg}"));
    match (GaussMarkovParams { sigma: sg, tau: Second::new(tau) }).variance_after(Second::new(dt)) {
        Ok(v) => { run.within("noise/gauss-markov", (v - sg * sg * -(-2.0 * dt / tau).exp_m1()).abs(), 2e-16 * 4.0 * sg * sg, || format!("{v} sigma={sg} tau={tau} dt={dt}")); }
        Err(e) => run.violation("noise/gauss-markov-rejected", &format!("{e:?} sigma={sg} tau={tau} dt={dt}")),
    }
    for (s, t) in [(-sg, tau), (f64::NAN, tau), (sg, 0.0), (sg, -tau), (sg, f64::INFINITY)] { run.check((GaussMarkovParams { sigma: s, tau: Second::new(t) }).variance_after(Second::new(dt)).is_err(), "noise/gauss-markov-accepted", || format!("{s} {t}")); }
    // invalid inputs are errors
    let mut b = m;
    let mut bdt = dt;
    let what = match g.n(5) {
        0 => { bdt = *g.pick(&[-1.0, f64::NAN, f64::INFINITY, -1e-300]); "dt" }
        1 => { b.position_velocity.0[g.n(3)] = *g.pick(&[-1e-12, f64::NAN, f64::INFINITY]); "psd" }
        2 => { b.drag_scale = Some(GaussMarkovParams { sigma: *g.pick(&[-1.0, f64::NAN, f64::INFINITY]), tau: Second::new(10.0) }); "sigma" }
        3 => { b.srp_scale = Some(GaussMarkovParams { sigma: 1.0, tau: Second::new(*g.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY])) }); "tau" }
        _ => { let mut e = [qtty::KmPerSecondsSquared::new(1e-9); 3]; e[g.n(3)] = qtty::KmPerSecondsSquared::new(*g.pick(&[-1e-9, f64::NAN, f64::INFINITY])); b.empirical_white = Some(e); "empirical" }
    };
    run.eval("process-noise-reject", (what, dt.to_bits()));
    run.check(b.q_matrix(Second::new(bdt)).is_err() && b.is_psd(Second::new(bdt)).is_err(), "noise/invalid-accepted", || format!("{what} {b:?} dt={bdt}"));
    // schedules
    let segs: Vec<PiecewiseSegment> = (0..g.n(7)).map(|i| PiecewiseSegment { duration: Second::new(g.n(400) as f64 * 0.5), sigma_pos_m: 1.0 + i as f64, sigma_vel_mps: 0.01 * (1.0 + i as f64) }).collect();
    let total: f64 = segs.iter().map(|s| s.duration.value()).sum();
    let pn = ProcessNoise::PiecewiseConstant { intervals: segs.clone() };
    for _ in 0..8 {
        let edge: f64 = segs.iter().take(g.n(segs.len() + 1)).map(|s| s.duration.value()).sum();
        let t = match g.n(4) { 0 => edge, 1 => f64::from_bits(edge.to_bits().saturating_sub(1)), 2 => g.range(0.0, 1.3 * total + 1.0), _ => edge + 1e-9 };
        let want = if segs.is_empty() { (0.0, 0.0) } else {
            let mut idx = segs.len() - 1;
            let mut end = 0.0;
            for (i, s) in segs.iter().enumerate() { end += s.duration.value(); if t < end { idx = i; break; } }
            (segs[idx].sigma_pos_m, segs[idx].sigma_vel_mps)
        };
        run.eval("noise-schedule", (t.to_bits(), segs.len()));
        run.check(pn.sigma_at(Second::new(t)) == want, "noise/schedule", || format!("t={t} got {:?} want {want:?} {segs:?}", pn.sigma_at(Second::new(t))));
    }
    let (a, b2) = (g.log(1e-3, 10.0), g.log(1e-6, 1.0));
    let w = ProcessNoise::WhiteNoise { sigma_pos_m: a, sigma_vel_mps: b2 };
    run.check(w.sigma_at(Second::new(dt)) == (a, b2) && w.is_active() && !ProcessNoise::None.is_active() && ProcessNoise::None.sigma_at(Second::new(dt)) == (0.0, 0.0), "noise/white", || String::new());
    // parameter covariance validation
    let np = 1 + g.n(6);
    let kinds = ["ax", "by", "cz", "dw", "ev", "fu"];
    let ord = ParameterOrdering { params: (0..np).map(|i| Parameter { kind: ParameterKind::Custom(kinds[i].into()), initial_value: 0.0, apriori_sigma: None }).collect() };
    for i in 0..np { run.check(ord.index_of(&ParameterKind::Custom(kinds[i].into())) == Some(i), "params/index", || String::new()); }
    run.check(ord.index_of(&ParameterKind::DragScale).is_none() && ord.len() == np, "params/index", || String::new());
    let mut data = vec![0.0; np * np];
    for i in 0..np { for j in 0..=i { let v = if i == j { g.log(1e-9, 1.0) } else { g.gauss() }; data[i * np + j] = v; data[j * np + i] = v; } }
    let tol = g.log(1e-12, 1e-3);
    let good = ParameterCovariance { params: ord.clone(), data: data.clone() };
    run.eval("parameter-covariance", data[0].to_bits());
    run.check(good.validate_dim().is_ok() && good.validate_symmetric(tol).is_ok() && good.validate_diagonal_nonneg().is_ok(), "params/valid-rejected", || format!("{good:?}"));
    let mut c = good.clone();
    if g.p(0.5) { c.data.push(0.0) } else { c.data.pop(); }
    run.check(c.validate_dim().is_err() && c.validate_symmetric(tol).is_err() && c.validate_diagonal_nonneg().is_err(), "params/dimension", || format!("{} {np}", c.data.len()));
    let mut c = good.clone();
    let i = g.n(np);
    c.data[i * np + i] = -g.log(1e-12, 1.0);
    run.check(c.validate_diagonal_nonneg().is_err(), "params/negative-variance", || format!("{i} {c:?}"));
    if np > 1 {
        let (i, j) = { let i = g.n(np); let mut j = g.n(np - 1); if j >= i { j += 1; } (i, j) };
        let mut c = good.clone();
        c.data[i * np + j] = 0.5; c.data[j * np + i] = 0.5 + tol * 2.0;
        run.check(c.validate_symmetric(tol).is_err(), "params/asymmetric", || format!("({i},{j}) tol={tol}"));
        c.data[j * np + i] = 0.5 + tol * 0.5;
        run.check(c.validate_symmetric(tol).is_ok(), "params/asymmetric-tolerance", || format!("({i},{j}) tol={tol}"));
    }
}

fn main() {
    let run = Run::new("C16", "estimation vs Householder QR least squares, the textbook Kalman update and closed-form process noise");
    run.par("wls", run.size(144000, 2304000), |i| { let mut g = run.rng_i("wls", i); wls(&run, &mut g) });
    run.par("gn", run.size(96000, 1536000), |i| { let mut g = run.rng_i("gn", i); gn(&run, &mut g) });
    run.par("ekf", run.size(144000, 2304000), |i| { let mut g = run.rng_i("ekf", i); ekf(&run, &mut g) });
    run.par("noise", run.size(240000, 3840000), |i| { let mut g = run.rng_i("noise", i); noise(&run, &mut g) });
    for k in ["wls", "gauss-newton", "gn-stationary", "ekf-update", "ekf-predict", "process-noise", "process-noise-reject", "noise-schedule", "parameter-covariance", "wls-unobservable"] { run.require(k, 1500); }
    run.require("ekf-reject", 500);
    run.require("wls-state-cov", 500);
    run.finish();
}
