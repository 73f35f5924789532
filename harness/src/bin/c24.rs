//! C24: mission geometry (pointing, shadows, obstruction, masks, solar times) and the mission registry.
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::mission::context::MissionContext;
use siderust::mission::geometry::*;
use siderust::mission::site::Location;
use siderust::qtty::{Meters, Radians};
use std::collections::BTreeMap;
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use vh::la::*;
use vh::{Rng, Run};

type P = affn::cartesian::Position<Geocentric, GCRS, qtty::length::Meter>;
type V = affn::cartesian::Velocity<GCRS, qtty::Per<qtty::length::Meter, qtty::time::Second>>;
fn p(v: V3) -> P { P::new(v[0], v[1], v[2]) }
fn v(x: V3) -> V { V::new(x[0], x[1], x[2]) }
fn rad(x: f64) -> Radians { Radians::new(x) }
fn dirn(g: &mut Rng) -> V3 { match g.n(8) { 0 => [0.0, 0.0, if g.p(0.5) { 1.0 } else { -1.0 }], 1 => [1.0, 0.0, 0.0], _ => g.unit() } }
/// A unit vector perpendicular to `a`.
fn perp(g: &mut Rng, a: V3) -> V3 { loop { let b = cross(a, g.unit()); if norm(b) > 0.1 { return unit(b) } } }

fn pointing(run: &Run, g: &mut Rng) {
    let (lat, lon) = (match g.n(6) { 0 => FRAC_PI_2, 1 => -FRAC_PI_2, 2 => 0.0, _ => g.range(-1.0, 1.0).asin() }, g.range(-PI, TAU));
    let up = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
    let east = [-lon.sin(), lon.cos(), 0.0];
    let north = cross(up, east);
    let obs = scale(up, g.range(6.35e6, 6.39e6));
    let (el, az) = (match g.n(6) { 0 => g.range(-1e-3, 1e-3), _ => g.range(-1.0, 1.0).asin() * 0.9999 }, match g.n(6) { 0 => FRAC_PI_2 * g.n(4) as f64, _ => g.range(0.0, TAU) });
    let dist = g.log(10.0, 1e12);
    let d = add(add(scale(east, el.cos() * az.sin()), scale(north, el.cos() * az.cos())), scale(up, el.sin()));
    let tgt = add(obs, scale(d, dist));
    let s = g.log(1.0, 1e4);
    let (ov, tv) = (scale(g.unit(), g.range(0.0, 500.0)), scale(g.unit(), s));
    run.eval("pointing", (lat.to_bits(), az.to_bits(), dist.to_bits()));
    let r = azimuth_elevation_range(&p(obs), &v(ov), &p(tgt), &v(tv), LocalFrame::new(rad(lat), rad(lon)));
    // angles come back as radians (see known findings for the unit they carry)
    let (a, e) = (r.pointing.az().value(), r.pointing.alt().value());
    let got = add(add(scale(east, e.cos() * a.sin()), scale(north, e.cos() * a.cos())), scale(up, e.sin()));
    run.within("pointing/direction", angle(got, d), 1e-13 + 4e-9 / dist + if e.abs() > 1.5 { 1e-7 } else { 0.0 } + 1e-13 / e.cos().abs().max(1e-8), || format!("alt {e} az {a}, want {el} {az} at {lat} {lon}, {dist} m"));
    run.within("pointing/range", (r.range.value() - dist).abs(), 1e-14 * dist + 5e-9, || format!("{:?} want {dist}", r.range));
    let rr = dot(sub(tv, ov), d);
    run.within("pointing/rate", (r.range_rate.value() - rr).abs(), (1e-12 + 1e-8 / dist) * (norm(tv) + norm(ov)), || format!("{:?} want {rr}", r.range_rate));
    run.within("pointing/light-time", (r.light_time.value() * 299_792_458.0 - dist).abs(), 1e-13 * dist + 5e-9, || format!("{:?}", r.light_time));
}

fn obstruction(run: &Run, g: &mut Rng) {
    let radius = g.log(1.0, 1e9);
    // closest point of the line at a chosen distance from the centre, endpoints at chosen places along it
    let h = radius * match g.n(4) { 0 => 1.0 + g.log(1e-9, 1e-2) * if g.p(0.5) { 1.0 } else { -1.0 }, 1 => 0.0, _ => g.range(0.0, 3.0) };
    let n = dirn(g);
    let t = perp(g, n);
    let s = |g: &mut Rng| radius * match g.n(4) { 0 => g.gauss() * 1e-3, 1 => g.log(1.0, 100.0) * if g.p(0.5) { 1.0 } else { -1.0 }, _ => g.range(-3.0, 3.0) };
    let (s0, s1) = (s(g), s(g));
    let (a, b) = (add(scale(n, h), scale(t, s0)), add(scale(n, h), scale(t, s1)));
    let near = if s0 * s1 <= 0.0 { h } else { h.hypot(s0.abs().min(s1.abs())) };
    let size = s0.abs().max(s1.abs()).max(h) / radius;
    if (near / radius - 1.0).abs() < 1e-12 * size * size || (s0 - s1).abs() < 1e-6 * radius { return }
    run.eval("obstruction", (h.to_bits(), s0.to_bits(), s1.to_bits()));
    let want = near <= radius;
    run.count(if want { "blocked lines" } else { "clear lines" }, 1);
    for (x, y) in [(a, b), (b, a)] {
        run.check(line_of_sight_obstructed(&p(x), &p(y), Meters::new(radius)) == want, "obstruction", || format!("{x:?} to {y:?}, radius {radius}, nearest {near}: want {want}"));
    }
    run.check(line_of_sight_obstructed(&p(a), &p(a), Meters::new(radius)) == (norm(a) <= radius) || (norm(a) / radius - 1.0).abs() < 1e-12, "obstruction/point", || format!("{a:?} {radius}"));
}

/// Share of the small disc (angular radius `t`) hidden by a disc of angular radius `o` at separation `s`, on the sphere.
fn hidden(t: f64, o: f64, s: f64) -> f64 {
    // rings of the small disc around its centre: hidden share of a ring at angle r
    let n = 4000;
    let (mut num, mut den) = (0.0, 0.0);
    for k in 0..n {
        let r = t * (k as f64 + 0.5) / n as f64;
        let x = (o.cos() - r.cos() * s.cos()) / (r.sin() * s.sin());
        num += r.sin() * x.clamp(-1.0, 1.0).acos();
        den += r.sin() * PI;
    }
    num / den
}
fn shadows(run: &Run, g: &mut Rng) {
    let real = g.p(0.5);
    let earth = 6378137.0 / g.range(6.4e6, 4.3e7);
    let (t, o) = if real { (696e6 / (1.5e11 * g.range(0.9, 1.1)), *g.pick(&[earth, 0.0045, 0.0047, 0.0052]) as f64) } else { (g.log(1e-4, 0.1).sin(), g.log(1e-4, 1.3).sin()) };
    let (t, o) = (t.asin(), o.asin());
    let s = match g.n(6) { 0 => g.range(0.0, 1.0) * (t - o).abs(), 1 => (t + o) * g.range(1.0, 1.3), 2 => g.range(0.0, PI), 3 => (t - o).abs() + g.log(1e-9, 1e-2) * t.min(o), _ => (t - o).abs() + 2.0 * t.min(o) * g.f() };
    if s > PI { return }
    let eye = scale(dirn(g), g.log(1.0, 1e8));
    let a = dirn(g);
    let b = { let q = perp(g, a); add(scale(a, s.cos()), scale(q, s.sin())) };
    let d_o = if real { 7e6 } else { g.log(1e3, 1e9) };
    let d_t = d_o * g.log(20.0, 2e4);
    let (sun, body) = (add(eye, scale(a, d_t)), add(eye, scale(b, d_o)));
    let (rs, ro) = (d_t * t.sin(), d_o * o.sin());
    let f = occultation_fraction(&p(eye), &p(sun), Meters::new(rs), &p(body), Meters::new(ro));
    let e = eclipse_state(&p(eye), &p(sun), Meters::new(rs), &p(body), Meters::new(ro));
    let ee = solar_eclipsing(&p(eye), &p(sun), Meters::new(rs), &p(body), Meters::new(ro));
    run.eval("shadow", (t.to_bits(), o.to_bits(), s.to_bits()));
    let note = || format!("light {t} rad, body {o} rad, apart {s} rad: {f} {e:?} {ee}");
    run.check((0.0..=1.0).contains(&f), "shadow/range", note);
    run.check(ee == !matches!(e, EclipseState::Sunlight) && (f == 0.0) == matches!(e, EclipseState::Sunlight), "shadow/consistent", note);
    // angles from vectors of this size are good to about 4e-8 rad near alignment and opposition
    let eps = 1e-7_f64.min(1e-15 / s.sin().abs().max(1e-12) * 10.0 + 1e-13) + 1e-15 * norm(eye) / d_o;
    if s > t + o + eps {
        run.check(f == 0.0 && matches!(e, EclipseState::Sunlight), "shadow/sunlight", note);
        run.count("in sunlight", 1);
    } else if s + t < o - eps {
        run.check(f == 1.0 && matches!(e, EclipseState::Umbra), "shadow/umbra", note);
        run.count("in umbra", 1);
    } else if s + o < t - eps {
        // annular: ratio of the caps
        let want = ((o / 2.0).sin() / (t / 2.0).sin()).powi(2);
        run.within("shadow/annular", (f - want).abs(), 0.1 * t * t + 1e-9, note);
        run.check(matches!(e, EclipseState::Penumbra), "shadow/annular", note);
        run.count("annular", 1);
    } else if s < t + o - eps && s > (t - o).abs() + eps {
        run.check(f > 0.0 && matches!(e, EclipseState::Penumbra) || f > 1.0 - 1e-6 || f > 1.0 - 1e-4 - 3e-8 * (o / t).powi(2) || eps > 1e-3 * t.min(o) || hidden(t, o, s) < 1e-4 + 3e-8 * (o / t).powi(2), "shadow/penumbra", note);
        // the flat-disc formula differs from the sphere by the curvature of the limb over the small disc
        run.within("shadow/fraction", (f - hidden(t, o, s)).abs(), 0.5 * t + 0.1 * o * o * (o < 0.3) as u8 as f64 * t + 2.0 * eps / t.min(o) + 2e-8 * (o / t).powi(2) + 2e-3, note);
        if o < 0.05 { run.within("shadow/small-discs", (f - hidden(t, o, s)).abs(), 2e-3 + 2.0 * eps / t.min(o), note); }
        run.count("in penumbra", 1);
    }
}

fn mask(run: &Run, g: &mut Rng) {
    let n = g.n(9);
    let pts: Vec<(f64, f64)> = (0..n).map(|_| (match g.n(5) { 0 => FRAC_PI_2 * g.n(4) as f64, 1 => g.range(-PI, 0.0), 2 => g.range(TAU, 3.0 * PI), _ => g.range(0.0, TAU) }, g.range(-0.1, 1.2))).collect();
    let m = TerrainMask::new(pts.iter().map(|(a, e)| (rad(*a), rad(*e))).collect());
    let mut sorted: Vec<(f64, f64)> = pts.iter().map(|(a, e)| (a.rem_euclid(TAU), *e)).collect();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if sorted.windows(2).any(|w| w[1].0 - w[0].0 < 1e-9) { return }
    for _ in 0..6 {
        let i = g.n(n.max(1));
        let q = if n == 0 { g.range(-7.0, 14.0) } else { match g.n(4) { 0 => sorted[i].0, 1 => sorted[i].0 + TAU, _ => g.range(-7.0, 14.0) } };
        run.eval("mask", (q.to_bits(), n));
        let a = q.rem_euclid(TAU);
        let want = if n == 0 { 0.0 } else {
            // the sample at or before the azimuth and the one after, going round
            let k = sorted.iter().rposition(|x| x.0 <= a);
            let (lo, hi) = match k { Some(k) => (sorted[k], if k + 1 < n { sorted[k + 1] } else { (sorted[0].0 + TAU, sorted[0].1) }), None => ((sorted[n - 1].0 - TAU, sorted[n - 1].1), sorted[0]) };
            lo.1 + (hi.1 - lo.1) * (a - lo.0) / (hi.0 - lo.0)
        };
        let slope = if n < 2 { 0.0 } else { (0..n).map(|k| { let (x, y) = (sorted[k], sorted[(k + 1) % n]); (y.1 - x.1).abs() / (y.0 - x.0).rem_euclid(TAU).max(1e-9) }).fold(0.0, f64::max) };
        let got = m.elevation_at(rad(q)).value();
        let tol = 1e-14 + 1e-14 * slope;
        run.within("mask/elevation", (got - want).abs(), tol, || format!("{got} want {want} at {q} in {sorted:?}"));
        let e = want + g.range(-0.2, 0.2);
        if (e - want).abs() > tol * 2.0 { run.check(m.clears(rad(q), rad(e)) == (e > want), "mask/clears", || format!("elevation {e}, mask {want} at {q}")); }
    }
}

fn solar(run: &Run, g: &mut Rng) {
    let (a, b) = (g.range(-20.0, 20.0), g.range(-20.0, 20.0));
    run.eval("solar-time", (a.to_bits(), b.to_bits()));
    let want = (43200.0 + (a - b) * 86400.0 / TAU).rem_euclid(86400.0);
    for t in [local_solar_time(rad(a), rad(b)).value(), ltan(rad(a), rad(b)).value()] {
        let d = (t - want).rem_euclid(86400.0);
        run.check(d.min(86400.0 - d) < 1e-8 && (0.0..86400.0).contains(&t), "solar-time", || format!("{t} want {want} for {a} {b}"));
    }
    // beta: the Sun at a known angle out of the plane of a known orbit
    let (r, n) = { let r = dirn(g); (r, perp(g, r)) };
    let along = cross(n, r);
    let vel = add(scale(along, g.log(10.0, 1e4)), scale(r, g.range(-3e3, 3e3)));
    let (beta, az) = (match g.n(4) { 0 => 0.0, 1 => FRAC_PI_2, _ => g.range(-FRAC_PI_2, FRAC_PI_2) }, g.range(0.0, TAU));
    let s = add(scale(n, beta.sin()), scale(add(scale(r, az.cos()), scale(along, az.sin())), beta.cos()));
    run.eval("beta", (beta.to_bits(), az.to_bits()));
    let k = g.log(1e5, 1e9);
    let got = beta_angle(&p(scale(r, k)), &v(vel), &affn::cartesian::Direction::<GCRS>::new(s[0], s[1], s[2])).value();
    run.within("beta", (got - beta).abs(), if beta.abs() > 1.5 { 1e-7 } else { 1e-12 } + 1e-12 * norm(vel) / dot(vel, along).abs(), || format!("{got} want {beta}"));
    // instruments
    let (h, w, l, off) = (g.range(0.0, PI), g.range(0.0, PI), g.range(0.0, PI), g.range(-PI, PI));
    run.check(Fov::Conical { half_angle: rad(h) }.contains_boresight(rad(off)) == (off.abs() <= h) && Fov::Conical { half_angle: rad(h) }.contains_boresight(rad(-h)), "fov/cone", || format!("{h} {off}"));
    run.check(Fov::Rectangular { across_track: rad(w), along_track: rad(l) }.contains_boresight(rad(off)) == (off.abs() <= w.min(l) / 2.0), "fov/rectangle", || format!("{w} {l} {off}"));
}

fn registry(run: &Run, g: &mut Rng) {
    let mut c = MissionContext::new();
    let (mut ls, mut is): (BTreeMap<String, String>, BTreeMap<String, String>) = Default::default();
    for step in 0..g.n(40) {
        let k = (*g.pick(&["a", "b", "A", "", "site é", "long alias"])).to_string();
        let id = format!("n{step}");
        let lid = |l: &Location| l.id.clone();
        match g.n(6) {
            0 => { c.add_location(k.clone(), Location::new(&*id, LocalFrame::new(rad(0.1), rad(step as f64)))); ls.insert(k, id); }
            1 => { c.add_instrument(k.clone(), Instrument::new(&*id, Fov::Conical { half_angle: rad(0.1) })); is.insert(k, id); }
            2 => { let r = c.remove_location(&k).map(|l| lid(&l)); run.check(r == ls.remove(&k), "registry/remove", || format!("{k} {r:?}")); }
            3 => { let r = c.remove_instrument(&k).map(|l| l.id); run.check(r == is.remove(&k), "registry/remove", || format!("{k} {r:?}")); }
            4 => { c = c.with_location(k.clone(), Location::new(&*id, LocalFrame::new(rad(0.1), rad(step as f64))).with_mask(TerrainMask::new(vec![(rad(0.0), rad(step as f64))]))); ls.insert(k, id); }
            _ => { c = c.with_instrument(k.clone(), Instrument::new(&*id, Fov::Rectangular { across_track: rad(0.1), along_track: rad(0.2) })); is.insert(k, id); }
        }
        run.eval("registry", (step, ls.len(), is.len()));
        let l: BTreeMap<String, String> = c.locations().map(|(k, l)| (k.clone(), lid(l))).collect();
        let i: BTreeMap<String, String> = c.instruments().map(|(k, l)| (k.clone(), l.id.clone())).collect();
        run.check(l == ls && i == is && c.locations().count() == ls.len() && c.instruments().count() == is.len(), "registry/contents", || format!("{l:?} {i:?} want {ls:?} {is:?}"));
        run.check(["a", "b", "A", "", "zz"].iter().all(|k| c.location(k).map(lid).as_ref() == ls.get(*k) && c.instrument(k).map(|x| x.id.clone()).as_ref() == is.get(*k)), "registry/lookup", || format!("{ls:?}"));
    }
}

fn main() {
    let mut run = Run::new("C24", "geometry is constructed from the answer (angles, distances, separations) and the library's result compared with it");
    run.assume("the light source lies beyond the occulting body; the hidden share uses flat discs (spherical truth within half the angular radius of the light); grazing lines within 1e-12 of the body surface excepted");
    let n = run.size(200_000, 4_000_000);
    run.par("pointing", n, |k| { let mut g = run.rng_i("pointing", k); pointing(&run, &mut g) });
    run.par("obstruction", n, |k| { let mut g = run.rng_i("obstruction", k); obstruction(&run, &mut g) });
    run.par("shadows", n, |k| { let mut g = run.rng_i("shadows", k); shadows(&run, &mut g) });
    run.par("mask", n, |k| { let mut g = run.rng_i("mask", k); mask(&run, &mut g) });
    run.par("solar", n, |k| { let mut g = run.rng_i("solar", k); solar(&run, &mut g) });
    run.par("registry", n / 10, |k| { let mut g = run.rng_i("registry", k); registry(&run, &mut g) });
    // one fixed configuration: a target straight overhead
    let r = azimuth_elevation_range(&p([6.4e6, 0.0, 0.0]), &v([0.0; 3]), &p([7.4e6, 0.0, 0.0]), &v([0.0; 3]), LocalFrame::new(rad(0.0), rad(0.0)));
    run.eval("pointing/unit", 1);
    run.check((r.pointing.alt().value() - 90.0).abs() < 1e-6, "pointing/unit", || format!("target at the zenith: altitude {:?} in a type that holds degrees", r.pointing.alt()));
    for k in ["pointing", "obstruction", "shadow", "mask", "solar-time", "beta", "registry"] { run.require(k, 1000); }
    run.finish();
}
