//! C29: atmosphere, photometry, moonlight, sky grid and aircraft models.
use siderust::atmosphere::*;
use siderust::bodies::aircraft::{isa, AircraftState, AircraftTrack};
use siderust::coordinates::{centers::Geodetic, frames::ECEF, SkyGrid};
use siderust::event::lunar::photometry as lp;
use siderust::photometry::passbands::{self, bessell1990};
use siderust::qtty::{self, Degrees, Kilometers, Meters, Nanometers, Pascals, Radians};
use siderust::targets::Trackable;
use std::f64::consts::{FRAC_PI_2, PI};
use vh::{Rng, Run};

fn rel(a: f64, b: f64) -> f64 { if a == b { 0.0 } else { (a - b).abs() / (b.abs() + 1e-300) } }
fn rad(x: f64) -> Radians { Radians::new(x) }
fn nm(x: f64) -> Nanometers { Nanometers::new(x) }

fn air(run: &Run, g: &mut Rng) {
    let z = match g.n(5) { 0 => 0.0, 1 => g.log(1e-8, 0.1), 2 => FRAC_PI_2 - g.log(1e-6, 0.1), _ => g.range(0.0, 1.569) };
    let c = z.cos();
    let own = [
        ("plane", 1.0 / c, airmass::<PlaneParallel>(rad(z)).value(), 1e-11 / c),
        ("young", (1.002432 * c * c + 0.148386 * c + 0.0096467) / (c.powi(3) + 0.149864 * c * c + 0.0102963 * c + 0.000303978), airmass::<Young1994>(rad(z)).value(), 1e-11),
        ("rozenberg", 1.0 / (c + 0.025 * (-11.0 * c).exp()), airmass::<Rozenberg1966>(rad(z)).value(), 1e-11),
        ("ks91", (1.0 - 0.96 * z.sin().powi(2)).powf(-0.5), airmass::<KrisciunasSchaefer1991>(rad(z)).value(), 1e-11),
        ("default", (1.0 - 0.96 * z.sin().powi(2)).powf(-0.5), airmass::<DefaultAirmassFormula>(rad(z)).value(), 1e-11),
    ];
    let z2 = z + (1.5700 - z).max(0.0) * g.f() + 1e-6;
    let second = [airmass::<PlaneParallel>(rad(z2)).value(), airmass::<Young1994>(rad(z2)).value(), airmass::<Rozenberg1966>(rad(z2)).value(), airmass::<KrisciunasSchaefer1991>(rad(z2)).value(), airmass::<DefaultAirmassFormula>(rad(z2)).value()];
    for (i, (n, want, got, tol)) in own.into_iter().enumerate() {
        run.within(&format!("airmass/{n}"), rel(got, want), tol, || format!("z {z}: {got} want {want}"));
        if i != 0 || z2 < 1.5706 { run.check(second[i] > got - 1e-12 * got, &format!("airmass/monotone-{n}"), || format!("X({z2}) = {} < X({z}) = {got}", second[i])); }
        run.check(got >= 1.0 - 4e-4, &format!("airmass/at-least-one-{n}"), || format!("X({z}) = {got}"));
    }
    // transmission composes: two layers, and through their total depth
    let (t1, t2, x) = (g.log(1e-4, 3.0), g.log(1e-4, 3.0), own[3].2);
    let tr = |t: f64| transmission(qtty::OpticalDepths::new(t), qtty::Airmasses::new(x)).value();
    run.within("transmission/value", rel(tr(t1), (-t1 * x).exp()), 1e-13, || format!("tau {t1} X {x}"));
    run.within("transmission/layers", rel(tr(t1 + t2), tr(t1) * tr(t2)), 1e-12 * (1.0 + x), || format!("{t1} {t2} {x}"));

    let l = match g.n(4) { 0 => g.range(250.0, 400.0), 1 => g.range(900.0, 2500.0), _ => g.range(380.0, 900.0) };
    let (p, h, hs) = (g.range(300.0, 1050.0), g.range(-0.4, 6.0), g.range(6.0, 9.0));
    let u = l * 1e-3;
    let sea = |u: f64| 0.0021520 * (1.0455996 - 341.29061 / (u * u) - 0.90230850 * u * u) / (1.0 + 0.0027059889 / (u * u) - 85.968563 * u * u);
    let ray = |p: f64, h: f64, hs: f64| p / 1013.25 * sea(u) * (-h / hs).exp();
    let got = rayleigh_optical_depth_bodhaine99(nm(l), qtty::Hectopascals::new(p), Kilometers::new(h), Kilometers::new(hs)).value();
    run.within("rayleigh/depth", rel(got, ray(p, h, hs)), 1e-12, || format!("{l} nm {p} hPa {h} km H {hs}: {got}"));
    let m = MieParams { tau0: qtty::OpticalDepths::new(g.log(1e-3, 1.0)), alpha: g.range(-2.5, 0.5), lambda_ref: nm(g.range(300.0, 1000.0)) };
    let want = m.tau0.value() * (l / m.lambda_ref.value()).powf(m.alpha);
    run.within("mie/depth", rel(mie_optical_depth(&m, nm(l)).value(), want), 1e-12, || format!("{l} nm {m:?}"));
    for (n, pr, mp, tau, pp, hh) in [
        ("Paranal", AtmosphereProfile::EL_PARANAL, MieParams::PARANAL, 0.05, 744.0, 2.635), ("La Palma", AtmosphereProfile::ROQUE_DE_LOS_MUCHACHOS, MieParams::LA_PALMA, 0.02, 770.0, 2.396),
        ("Mauna Kea", AtmosphereProfile::MAUNA_KEA, MieParams::MAUNA_KEA, 0.03, 615.0, 4.205), ("La Silla", AtmosphereProfile::LA_SILLA, MieParams::LA_SILLA, 0.04, 770.0, 2.4)] {
        let want = ray(pp, hh, 8.0) + tau * (l / 550.0).powf(-1.38);
        run.within("profile/depth", rel(pr.optical_depth(nm(l)).value(), want), 1e-12, || format!("{n} {l} nm"));
        run.within("profile/aerosol", rel(mie_optical_depth(&mp, nm(l)).value(), tau * (l / 550.0).powf(-1.38)), 1e-12, || format!("{n} {l} nm"));
        run.within("profile/transmission", rel(pr.transmission(nm(l), qtty::Airmasses::new(x)).value(), (-want * x).exp()), 1e-12 * (1.0 + x), || format!("{n} {l} nm X {x}"));
    }
    let own = AtmosphereProfile { surface_pressure: qtty::Hectopascals::new(p), observer_altitude: Kilometers::new(h), rayleigh_scale_height: Kilometers::new(hs), mie_params: m };
    run.within("profile/own", rel(own.optical_depth(nm(l)).value(), ray(p, h, hs) + want), 1e-12, || format!("{own:?} {l}"));
    run.eval("air", &[z, l, p, h].map(f64::to_bits));
    if g.p(0.001) { run.sample("air", || format!("z {z:.4} rad X {x:.4}; {l:.1} nm tau {:.4}", ray(p, h, hs) + want)) }
}

fn phase(run: &Run, g: &mut Rng, ozone: &[(f64, f64)]) {
    let t = g.range(-1.0, 7.0);
    let want = 3.0 / (16.0 * PI) * (1.0 + t.cos().powi(2));
    run.within("phase/rayleigh", rel(rayleigh_phase(rad(t)).value(), want), 1e-12, || format!("{t}"));
    run.within("phase/rayleigh", rel(RayleighPhaseFunction.phase(nm(g.range(300.0, 900.0)), rad(t)).value(), want), 1e-12, || format!("{t}"));
    // ozone
    let l = match g.n(6) { 0 => g.range(100.0, 300.0), 1 => g.range(1000.0, 3000.0), 2 => ozone[g.n(ozone.len())].0, _ => g.range(300.0, 1000.0) };
    let k = ozone.partition_point(|p| p.0 <= l);
    let want = if k == 0 { ozone[0].1 } else if k == ozone.len() { ozone[k - 1].1 } else { let (a, b) = (ozone[k - 1], ozone[k]); a.1 + (b.1 - a.1) * (l - a.0) / (b.0 - a.0) };
    let got = ozone::transmittance_at(nm(l)).value();
    run.within("ozone/value", (got - want).abs(), 1e-9, || format!("{l} nm: {got} want {want}"));
    // van Rhijn: ray-sphere path-length ratio through a thin shell
    let (z, h, r) = (match g.n(4) { 0 => FRAC_PI_2, 1 => 0.0, _ => g.range(0.0, FRAC_PI_2) }, g.log(1.0, 1000.0), g.range(1000.0, 70000.0));
    let cosx = |r: f64| { let b = r * z.cos(); let s = -b + (b * b + h * (2.0 * r + h)).sqrt(); (r * z.cos() + s) / (r + h) };
    let v = van_rhijn_factor_with_radius(rad(z), Kilometers::new(h), Kilometers::new(r)).value();
    run.within("van-rhijn/radius", rel(v, 1.0 / cosx(r)), 1e-9 * r / h, || format!("z {z} h {h} R {r}: {v} want {}", 1.0 / cosx(r)));
    let v = van_rhijn_factor(rad(z), Kilometers::new(h)).value();
    run.within("van-rhijn/earth", rel(v, 1.0 / cosx(6371.0)), 2e-6 * 6371.0 / h, || format!("z {z} h {h}: {v}"));
    let bad = *g.pick(&[(f64::NAN, 90.0, 6371.0), (1.0, f64::INFINITY, 6371.0), (1.0, 0.0, 6371.0), (1.0, -3.0, 6371.0), (1.0, 90.0, 0.0), (1.0, 90.0, f64::NAN), (f64::INFINITY, 90.0, 6371.0), (1.0, 90.0, -1.0)]);
    run.check(van_rhijn_factor_with_radius(rad(bad.0), Kilometers::new(bad.1), Kilometers::new(bad.2)).value().is_nan(), "van-rhijn/invalid", || format!("{bad:?}"));
    // tabulated phase function: bilinear inside, clamped outside
    let (nx, ny) = (g.int(2, 6) as usize, g.int(2, 8) as usize);
    let axis = |g: &mut Rng, n: usize, a: f64, d: f64| { let mut x = a; (0..n).map(|_| { x += g.range(0.05, 1.0) * d; x }).collect::<Vec<f64>>() };
    let (wl, an) = (axis(g, nx, 300.0, 150.0), axis(g, ny, -5.0, 40.0));
    let val: Vec<f64> = (0..nx * ny).map(|_| g.log(1e-3, 10.0)).collect();
    let tab = TabulatedPhaseFunction::from_raw_row_major(&wl, &an, &val).unwrap();
    for _ in 0..4 {
        let (x, y) = (match g.n(4) { 0 => wl[g.n(nx)], _ => g.range(wl[0] - 60.0, wl[nx - 1] + 60.0) }, match g.n(4) { 0 => an[g.n(ny)], _ => g.range(an[0] - 10.0, an[ny - 1] + 10.0) });
        let loc = |a: &[f64], x: f64| { let x = x.clamp(a[0], a[a.len() - 1]); let i = a.partition_point(|v| *v <= x).clamp(1, a.len() - 1) - 1; (i, (x - a[i]) / (a[i + 1] - a[i])) };
        let ((i, s), (j, t)) = (loc(&wl, x), loc(&an, y));
        let at = |i: usize, j: usize| val[j * nx + i];
        let want = (1.0 - t) * ((1.0 - s) * at(i, j) + s * at(i + 1, j)) + t * ((1.0 - s) * at(i, j + 1) + s * at(i + 1, j + 1));
        let got = tab.phase(nm(x), rad(y.to_radians())).value();
        run.within("phase/tabulated", (got - want).abs(), 1e-10, || format!("{x} nm {y} deg on {wl:?} x {an:?}: {got} want {want}"));
        run.check(tab.interp_at(nm(x), rad(y.to_radians())).value() == got, "phase/two-ways", || format!("{x} {y}"));
    }
    if nx > 2 { let mut w = wl.clone(); w.swap(0, 1); run.check(TabulatedPhaseFunction::from_raw_row_major(&w, &an, &val).is_err(), "phase/unsorted", || format!("{w:?}")); }
    run.check(TabulatedPhaseFunction::from_raw_row_major(&wl, &an, &val[1..]).is_err(), "phase/short", String::new);
    run.eval("phase", &[t, l, z, h].map(f64::to_bits));
}

const U: (f64, f64, &[i32]) = (300.0, 5.0, &[0, 16, 68, 167, 287, 423, 560, 673, 772, 841, 905, 943, 981, 993, 1000, 989, 916, 804, 625, 423, 238, 114, 51, 19, 0]);
const B: (f64, f64, &[i32]) = (360.0, 10.0, &[0, 30, 134, 567, 920, 978, 1000, 978, 935, 853, 740, 640, 536, 424, 325, 235, 150, 95, 43, 9, 0]);
const V: (f64, f64, &[i32]) = (470.0, 10.0, &[0, 30, 163, 458, 780, 967, 1000, 973, 898, 792, 684, 574, 461, 359, 270, 197, 135, 81, 45, 25, 17, 13, 9, 0]);
const R: (f64, f64, &[i32]) = (550.0, 10.0, &[0, 230, 740, 910, 980, 1000, 980, 960, 930, 900, 860, 810, 780, 720, 670, 610, 560, 510, 460, 400, 350, 308, 266, 224, 182, 140, 118, 96, 74, 52, 30, 24, 18, 12, 6, 0]);
const I: (f64, f64, &[i32]) = (700.0, 10.0, &[0, 24, 232, 555, 785, 910, 965, 985, 990, 995, 1000, 1000, 990, 980, 950, 910, 860, 750, 560, 330, 150, 30, 0]);

fn bands(run: &Run, g: &mut Rng) {
    for (n, s, (a, d, t)) in [("U", bessell1990::u(), U), ("B", bessell1990::b(), B), ("V", bessell1990::v(), V), ("R", bessell1990::r(), R), ("I", bessell1990::i(), I), ("jB", passbands::johnson_b(), B), ("jV", passbands::johnson_v(), V)] {
        let hi = a + d * (t.len() - 1) as f64;
        for _ in 0..3 {
            let l = match g.n(5) { 0 => g.range(100.0, a), 1 => g.range(hi, 3000.0), 2 => a + d * g.n(t.len()) as f64, _ => g.range(a, hi) };
            let want = if l < a || l > hi { 0.0 } else { let k = (((l - a) / d) as usize).min(t.len() - 2); let f = (l - a) / d - k as f64; (t[k] as f64 * (1.0 - f) + t[k + 1] as f64 * f) / 1000.0 };
            let got = s.interp_at(nm(l)).value();
            run.within(&format!("passband/{n}"), (got - want).abs(), 2e-3, || format!("{n}({l}) = {got} want {want}"));
            run.eval("band", &[l, a].map(f64::to_bits));
        }
    }
}

fn moon(run: &Run, g: &mut Rng) {
    let (l, al, d, e) = (g.range(200.0, 1400.0), g.range(-PI, PI), g.range(350000.0, 410000.0), g.log(1e-3, 3.0));
    let alb = 0.075 + 0.065 * (l.clamp(300.0, 1100.0) - 300.0) / 800.0;
    let a = al.to_degrees().abs();
    let att = 10f64.powf(-0.4 * (0.026 * a + 4e-9 * a.powi(4)));
    run.within("moon/albedo", rel(lp::lunar_full_moon_albedo_jones2013(nm(l)).value(), alb), 1e-12, || format!("{l}"));
    run.within("moon/phase", rel(lp::lunar_phase_attenuation_jones2013(rad(al)).value(), att), 1e-12, || format!("{al}"));
    run.within("moon/phase-albedo", rel(lp::lunar_albedo_jones2013(rad(al), nm(l)).value(), att * alb), 1e-12, || format!("{al} {l}"));
    let got = lp::reflected_lunar_spectral_radiance_jones2013(e, nm(l), rad(al), Kilometers::new(d)).value();
    let want = e * (1737.4 / d).powi(2) * (384400.0 / d).powi(2) * att * alb;
    run.within("moon/radiance", rel(got, want), 1e-12, || format!("{e} {l} {al} {d}: {got} want {want}"));
    let mut v = [e, l, al, d];
    v[g.n(4)] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    if g.p(0.3) { v = [e, l, al, *g.pick(&[0.0, -1.0, -384400.0])] }
    let got = lp::reflected_lunar_spectral_radiance_jones2013(v[0], nm(v[1]), rad(v[2]), Kilometers::new(v[3])).value();
    run.check(got.is_nan(), "moon/invalid", || format!("{v:?} gives {got}"));
    run.eval("moon", &[l, al, d].map(f64::to_bits));
}

fn grid(run: &Run, g: &mut Rng) {
    let equal = g.p(0.5);
    let divides = g.p(0.5);
    let (lo, hi) = if g.p(0.5) { (0.0, 90.0) } else { let a = g.range(-90.0, 80.0); (a, a + (90.0 - a) * g.range(0.05, 1.0)) };
    let (na, nz) = (g.int(1, 40) as usize, g.int(1, 60) as usize);
    let (da, dz) = if divides { ((hi - lo) / na as f64, 360.0 / nz as f64) } else { (g.log(0.8, 100.0), *g.pick(&[g.clone().log(1.5, 400.0), 144.0, 80.0, 7.0, 360.0])) };
    let mut gr = if equal { SkyGrid::equal_area(Degrees::new(da), Degrees::new(dz)) } else if da == dz { SkyGrid::uniform(Degrees::new(da)) } else { SkyGrid::with_steps(Degrees::new(da), Degrees::new(dz)) };
    if (lo, hi) != (0.0, 90.0) || g.p(0.3) { gr = gr.with_alt_range(Degrees::new(lo), Degrees::new(hi)) }
    let what = || format!("equal {equal} alt {lo}..{hi} steps {da} {dz}");
    let cells: Vec<_> = gr.iter_cells().collect();
    run.check(gr.len() == cells.len() && gr.is_empty() == cells.is_empty(), "grid/len", || format!("{}: {} of {}", what(), gr.len(), cells.len()));
    run.check(gr.iter().zip(&cells).all(|(d, c)| d.polar == c.direction.polar && d.azimuth == c.direction.azimuth) && (&gr).into_iter().count() == cells.len()
        && gr.with_solid_angle().zip(&cells).all(|((d, s), c)| d.polar == c.direction.polar && d.azimuth == c.direction.azimuth && s == c.solid_angle), "grid/same-traversal", what);
    // rows
    let mut rows: Vec<(f64, Vec<(f64, f64)>)> = vec![];
    for c in &cells {
        let (alt, az, s) = (c.direction.polar.value(), c.direction.azimuth.value(), c.solid_angle.value());
        run.check(alt >= lo - 1e-9 && alt <= hi + 1e-9 && (0.0..360.0).contains(&az), "grid/range", || format!("{}: alt {alt} az {az}", what()));
        if rows.last().map(|r| r.0) != Some(alt) { rows.push((alt, vec![])) }
        rows.last_mut().unwrap().1.push((az, s));
    }
    run.check(rows.windows(2).all(|w| w[1].0 > w[0].0 && (w[1].0 - w[0].0 - da).abs() < 1e-9), "grid/rows", what);
    if divides { run.check(rows.len() == na, "grid/row-count", || format!("{}: {} rows, want {na}", what(), rows.len())); }
    for (i, (alt, row)) in rows.iter().enumerate() {
        run.within("grid/altitude", (alt - lo - (i as f64 + 0.5) * da).abs(), 1e-9, what);
        let c = alt.to_radians().cos().max(0.0);
        let step = if equal { 360.0 / row.len() as f64 } else { dz };
        run.check(row.iter().enumerate().all(|(j, r)| (r.0 - (j as f64 + 0.5) * step).abs() < 1e-9), "grid/azimuths", || format!("{}: row {alt}", what()));
        run.check(row.iter().all(|r| rel(r.1, c * da.to_radians() * step.to_radians()) < 1e-9 || r.1.abs() < 1e-15), "grid/cell-angle", || format!("{}: row {alt}: {:?}", what(), row[0]));
        // no gap or overlap larger than half a cell around the ring
        let want = 360.0 * if equal { c } else { 1.0 } / dz;
        run.check((row.len() as f64 - want).abs() <= 0.5 + 1e-9 || (equal && row.len() == 1), "grid/cells-per-row", || format!("{}: row {alt} has {} cells, want {want}", what(), row.len()));
    }
    if divides && da <= 30.0 {
        // midpoint rule over altitude is exact up to sinc(Δ/2)
        let total: f64 = cells.iter().map(|c| c.solid_angle.value()).sum();
        let x = da.to_radians() / 2.0;
        let want = 2.0 * PI * (hi.to_radians().sin() - lo.to_radians().sin()) * x / x.sin();
        run.within("grid/total", rel(total, want), 1e-9, || format!("{}: {total} want {want}", what()));
    }
    if g.p(0.05) { for (a, z) in [(0.0, 5.0), (-1.0, 5.0), (5.0, 0.0), (5.0, -1.0), (f64::NAN, 5.0), (5.0, f64::NAN)] {
        let gr = SkyGrid::with_steps(Degrees::new(a), Degrees::new(z));
        run.check(gr.is_empty() && gr.iter().next().is_none(), "grid/degenerate", || format!("{a} {z}"));
    } }
    run.eval("grid", &[lo, hi, da, dz].map(f64::to_bits));
    run.count("grid cells", cells.len() as u64);
}

fn aircraft(run: &Run, g: &mut Rng) {
    // ISA: hydrostatic balance checked by integrating dp/dh = -p g M/(R T)
    let h = if g.p(0.7) { g.range(-500.0, 11000.0) } else { g.range(11000.0, 20000.0) };
    let temp = |h: f64| if h <= 11000.0 { 288.15 - 0.0065 * h } else { 216.65 };
    let n = 200;
    let simpson = |a: f64, b: f64| { let s = (b - a) / n as f64; (0..=n).map(|i| (if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }) / temp(a + i as f64 * s)).sum::<f64>() * s / 3.0 };
    let int = if h > 11000.0 { simpson(0.0, 11000.0) + (h - 11000.0) / 216.65 } else { simpson(0.0, h) };
    let p = isa::pressure_at_altitude(Meters::new(h)).value();
    let want = 101325.0 * (-9.80665 * 0.0289644 / 8.314462618 * int).exp();
    run.within("isa/pressure", rel(p, want), 1e-8, || format!("h {h}: {p} want {want}"));
    run.within("isa/temperature", (isa::temperature_at_altitude(Meters::new(h)).value() - temp(h)).abs(), 1e-9, || format!("{h}"));
    run.within("isa/pressure-altitude", (isa::pressure_altitude_m(Pascals::new(p)).value() - h).abs(), 1e-5, || format!("{h} via {p}"));
    let z = g.range(-500.0, 100000.0);
    let gp = isa::geopotential_altitude_m(Meters::new(z)).value();
    // ∫ g/g0 dz with inverse-square gravity
    let want = (0..1000).map(|i| { let m = (i as f64 + 0.5) / 1000.0 * z; (6356766.0 / (6356766.0 + m)).powi(2) }).sum::<f64>() / 1000.0 * z;
    run.within("isa/geopotential", (gp - want).abs(), 1e-6 + 1e-8 * z.abs(), || format!("{z}: {gp} want {want}"));
    run.within("isa/geometric", (isa::geometric_altitude_m(Meters::new(gp)).value() - z).abs(), 1e-7, || format!("{z}"));
    // dead reckoning against the great circle on the 6371 km sphere
    let (lat, lon, alt) = (g.range(-80.0f64, 80.0), g.range(-179.0, 179.0), g.range(0.0, 15000.0));
    let (crs, gs, vr) = (g.range(0.0f64, 360.0), g.range(0.0, 350.0), g.range(-30.0, 30.0));
    let dt = g.range(-120.0, 120.0);
    let t0 = siderust::time::JulianDate::new(2451545.0 + g.range(0.0, 9000.0));
    let t1 = siderust::time::JulianDate::new(t0.raw().value() + dt / 86400.0);
    let el = (t1.raw().value() - t0.raw().value()) * 86400.0;
    let mut st = AircraftState::new(Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(alt)), Degrees::new(crs));
    run.check(st.ground_speed.value() == 0.0 && st.vertical_rate.value() == 0.0 && st.barometric_altitude_m().value() == alt, "aircraft/new", || format!("{st:?}"));
    st.ground_speed = siderust::bodies::MetersPerSecond::new(gs);
    st.vertical_rate = siderust::bodies::MetersPerSecond::new(vr);
    let now = AircraftTrack::new(st.clone(), t0).track(t1);
    let (la, lo, c) = (lat.to_radians(), lon.to_radians(), crs.to_radians());
    let s = gs * el / 6371000.0;
    let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
    let (no, ea) = ([-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos()], [-lo.sin(), lo.cos(), 0.0]);
    let want: Vec<f64> = (0..3).map(|i| up[i] * s.cos() + s.sin() * (no[i] * c.cos() + ea[i] * c.sin())).collect();
    let (a2, o2) = (now.position.lat.value().to_radians(), now.position.lon.value().to_radians());
    let got = [a2.cos() * o2.cos(), a2.cos() * o2.sin(), a2.sin()];
    let err = (0..3).map(|i| (got[i] - want[i]).powi(2)).sum::<f64>().sqrt() * 6371000.0;
    run.within("aircraft/track", err, 1e-6 + 1.2 * 6371000.0 * s * s * (1.0 + la.tan().abs()), || format!("{lat} {lon} course {crs} {gs} m/s {el} s: off {err} m"));
    run.within("aircraft/climb", (now.position.height.value() - alt - vr * el).abs(), 1e-7, || format!("{alt} {vr} {el}"));
    run.check(now.ground_speed == st.ground_speed && now.track_angle == st.track_angle && now.vertical_rate == st.vertical_rate, "aircraft/constant-velocity", || format!("{now:?}"));
    let back = AircraftTrack::new(st.clone(), t0).track(t0);
    run.check(back == st, "aircraft/at-epoch", || format!("{back:?} from {st:?}"));
    run.eval("aircraft", &[h, lat, crs, gs].map(f64::to_bits));
}

fn main() {
    let mut run = Run::new("C29", "each published formula re-evaluated independently (airmass, scattering, ozone table, Bessell passbands, Jones moonlight), ray-shell geometry, sky grids reassembled row by row and summed, ISA by quadrature, dead reckoning against great circles");
    run.assume("the Bessell (1990) passband tables and the bundled ozone table are the reference data");
    let txt = std::fs::read_to_string("/repo/src/atmosphere/o3trans.dat").unwrap();
    let ozone: Vec<(f64, f64)> = txt.lines().filter_map(|l| { let mut t = l.split_whitespace().map(|x| x.parse::<f64>().unwrap()); Some((t.next()? * 1000.0, t.next()?)) }).collect();
    let n = run.size(240000, 4000000);
    run.par("air/panic", n, |i| air(&run, &mut run.rng_i("air", i)));
    run.par("phase/panic", n, |i| phase(&run, &mut run.rng_i("phase", i), &ozone));
    run.par("band/panic", n / 4, |i| bands(&run, &mut run.rng_i("band", i)));
    run.par("moon/panic", n, |i| moon(&run, &mut run.rng_i("moon", i)));
    run.par("grid/panic", n / 4, |i| grid(&run, &mut run.rng_i("grid", i)));
    run.par("aircraft/panic", n, |i| aircraft(&run, &mut run.rng_i("aircraft", i)));
    for (k, m) in [("air", n / 2), ("phase", n / 2), ("band", n / 2), ("moon", n / 2), ("grid", n / 5), ("aircraft", n / 2)] { run.require(k, m as u64) }
    run.finish();
}
