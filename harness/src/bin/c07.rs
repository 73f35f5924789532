//! C07: altitude crossings, threshold periods and culminations vs. dense observation of the altitude itself.
use siderust::bodies::solar_system::*;
use siderust::bodies::Star;
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::coordinates::spherical::direction;
use siderust::event::altitude::*;
use siderust::qtty::{Days, Degrees, Meters, Radians};
use siderust::time::{Interval, ModifiedJulianDate};
use std::f64::consts::TAU;
use vh::{Rng, Run};

type Mjd = ModifiedJulianDate;
fn mjd(t: f64) -> Mjd {
    Mjd::new(t)
}
fn tv(t: Mjd) -> f64 {
    t.raw().value()
}

/// A user-implemented target: sin(altitude) = a + sum of harmonics (closed form).
struct Synth {
    a: f64,
    c: Vec<(f64, f64, f64)>,
    t0: f64,
}
impl AltitudeProvider for Synth {
    fn altitude_at(&self, _o: &Geodetic<ECEF>, t: Mjd) -> Radians {
        let x = tv(t) - self.t0;
        let mut s = self.a;
        for &(amp, period, ph) in &self.c {
            s += amp * (TAU * (x / period + ph)).sin();
        }
        Radians::new(s.clamp(-1.0, 1.0).asin())
    }
}
fn synth(g: &mut Rng, t0: f64) -> Synth {
    let n = 1 + g.n(4);
    let mut c: Vec<_> = (0..n).map(|_| (g.range(0.05, 0.6), g.log(0.45, 3.0), g.f())).collect();
    let sum: f64 = c.iter().map(|x| x.0).sum();
    if sum > 0.9 {
        c.iter_mut().for_each(|x| x.0 *= 0.9 / sum);
    }
    let room: f64 = 0.99 - c.iter().map(|x| x.0).sum::<f64>();
    Synth { a: g.range(-room, room), c, t0 }
}
fn site(g: &mut Rng) -> Geodetic<ECEF> {
    let lat = match g.n(9) {
        0 => *g.pick(&[89.999, 90.0]),
        1 => *g.pick(&[-89.9, -90.0]),
        2 => 0.0,
        3 => 66.56 + g.range(-1.5, 1.5),
        4 => -66.56 + g.range(-1.5, 1.5),
        _ => g.range(-89.0, 89.0),
    };
    Geodetic::<ECEF>::new(Degrees::new(g.range(-180.0, 180.0)), Degrees::new(lat), Meters::new(g.range(0.0, 4000.0)))
}

/// tolerances of one target class
struct Tol {
    /// |sin h(t*) - sin h0| at a reported crossing
    root: f64,
    /// samples closer than this to the threshold are not judged
    margin: f64,
}

struct Obs<'a> {
    f: Box<dyn Fn(f64) -> f64 + 'a>,
    ts: Vec<f64>,
    ys: Vec<f64>,
    /// refined local extrema (t, sin h, is_max) in the interior
    ext: Vec<(f64, f64, bool)>,
    step: f64,
}
fn golden(f: &dyn Fn(f64) -> f64, mut a: f64, mut b: f64, s: f64) -> f64 {
    let r = 0.618_033_988_749_894_9;
    let (mut x, mut y) = (b - r * (b - a), a + r * (b - a));
    let (mut fx, mut fy) = (s * f(x), s * f(y));
    for _ in 0..26 {
        if fx > fy { b = y; y = x; fy = fx; x = b - r * (b - a); fx = s * f(x); } else { a = x; x = y; fx = fy; y = a + r * (b - a); fy = s * f(y); }
    }
    0.5 * (a + b)
}
fn observe<'a>(f: impl Fn(f64) -> f64 + 'a, a: f64, b: f64, step: f64) -> Obs<'a> {
    let n = (((b - a) / step).ceil() as usize).max(2);
    let ts: Vec<f64> = (0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }).collect();
    let ys: Vec<f64> = ts.iter().map(|&t| f(t)).collect();
    let mut ext = Vec::new();
    for i in 1..n {
        let (l, m, r) = (ys[i - 1], ys[i], ys[i + 1]);
        let s = if m >= l && m > r { 1.0 } else if m <= l && m < r { -1.0 } else { continue };
        let t = golden(&f, ts[i - 1], ts[i + 1], s);
        ext.push((t, f(t), s > 0.0));
    }
    let st = ts[1] - ts[0];
    Obs { f: Box::new(f), ts, ys, ext, step: st }
}

#[allow(clippy::too_many_arguments)]
fn judge(run: &Run, tag: &str, p: &dyn AltProv, s: &Geodetic<ECEF>, a: f64, b: f64, g: &mut Rng, tol: &Tol, step: f64) {
    let sig = |x: &str| format!("{tag}/{x}");
    let win = Interval::new(mjd(a), mjd(b));
    let o = observe(|t| p.alt(s, mjd(t)).value().sin(), a, b, step);
    if !run.check(o.ys.iter().all(|y| y.is_finite() && y.abs() <= 1.0), &sig("altitude/finite"), || format!("lat {} lon {} [{a},{b}]", s.lat.value(), s.lon.value())) {
        return;
    }
    let opts = if g.p(0.7) { SearchOpts::default() } else { SearchOpts { time_tolerance: Days::new(g.log(1e-10, 1e-8)) } };
    let (lo, hi) = o.ys.iter().fold((1.0f64, -1.0f64), |(l, h), &y| (l.min(y), h.max(y)));
    // thresholds: named twilights, generic, close to an extremum of this very window (grazing)
    let pick = |g: &mut Rng| -> f64 {
        match g.n(7) {
            0 => *g.pick(&[-0.833, -6.0, -12.0, -18.0, 0.0]),
            1 => g.range(-89.0, 89.0),
            2 if !o.ext.is_empty() => { let e = o.ext[g.n(o.ext.len())]; (e.1 + g.gauss().signum() * g.log(1e-5, 0.02)).clamp(-1.0, 1.0).asin().to_degrees() }
            _ => g.range(lo, hi).asin().to_degrees(),
        }
    };
    let h0 = pick(g);
    let th = Degrees::new(h0);
    let s0 = h0.to_radians().sin();
    let w = || format!("lat={} lon={} window=[{a},{b}] h0={h0} tol={}", s.lat.value(), s.lon.value(), opts.time_tolerance.value());
    run.eval(tag, (a.to_bits(), h0.to_bits(), s.lat.value().to_bits()));

    // --- crossings -------------------------------------------------------
    let cr = p.crossings(s, win, th, opts);
    let mut last = f64::NEG_INFINITY;
    for (i, c) in cr.iter().enumerate() {
        let t = tv(c.mjd);
        run.check(t >= a && t <= b && t > last, &sig("crossing/order"), || format!("{} t={t} after {last}", w()));
        last = t;
        run.within(&sig("crossing/root"), ((o.f)(t) - s0).abs(), tol.root, || format!("{} t={t}", w()));
        // direction from the altitude itself, when it is decided on the scale of a few seconds to minutes
        let up = c.direction == CrossingDirection::Rising;
        let mut d = 2e-4;
        while d < 3e-3 {
            if t - d >= a && t + d <= b {
                let (l, r) = ((o.f)(t - d) - s0, (o.f)(t + d) - s0);
                if l.abs() > tol.margin && r.abs() > tol.margin && l * r < 0.0 {
                    run.check((r > l) == up, &sig("crossing/direction"), || format!("{} t={t} {:?}", w(), c.direction));
                    break;
                }
            }
            d *= 1.7;
        }
        if i > 0 {
            run.check(cr[i - 1].direction != c.direction, &sig("crossing/alternate"), || format!("{} t={t}", w()));
        }
    }
    // every decided sign change of the observed altitude has a crossing between
    let mut prev: Option<(f64, f64)> = None;
    let mut changes = 0;
    let mut marks: Vec<(f64, f64)> = o.ts.iter().copied().zip(o.ys.iter().copied()).chain(o.ext.iter().map(|e| (e.0, e.1))).collect();
    marks.sort_by(|x, y| x.0.total_cmp(&y.0));
    for &(t, y) in &marks {
        let d = y - s0;
        if d.abs() <= tol.margin { continue; }
        if let Some((pt, pd)) = prev {
            if pd * d < 0.0 {
                changes += 1;
                let inside: Vec<_> = cr.iter().filter(|c| tv(c.mjd) > pt && tv(c.mjd) < t).collect();
                if run.check(inside.len() % 2 == 1, &sig("crossing/missed"), || format!("{} between {pt} ({pd:e}) and {t} ({d:e}): {inside:?}", w())) {
                    run.check((inside[0].direction == CrossingDirection::Rising) == (d > 0.0), &sig("crossing/direction"), || format!("{} near {t}", w()));
                }
            }
        }
        prev = Some((t, d));
    }
    run.count("observed sign changes", changes);
    run.count("reported crossings", cr.len() as u64);

    // --- periods ---------------------------------------------------------
    let h1 = pick(g);
    let (hm, hx) = if h0 < h1 { (h0, h1) } else { (h1, h0) };
    let (sm, sx) = (hm.to_radians().sin(), hx.to_radians().sin());
    let above = p.above(s, win, th, opts);
    let below = p.below(s, win, th, opts);
    let range = p.ranges(s, win, Degrees::new(hm), Degrees::new(hx), opts);
    for (n, v) in [("above", &above), ("below", &below), ("range", &range)] {
        let mut last = f64::NEG_INFINITY;
        for iv in v.iter() {
            let (x, y) = (tv(iv.start), tv(iv.end));
            run.check(x >= a && y <= b && x <= y && x >= last, &sig("period/structure"), || format!("{} {n}: [{x},{y}] after {last} range {hm}..{hx}", w()));
            last = y;
        }
    }
    let inside = |v: &Vec<Interval<Mjd>>, t: f64| v.iter().any(|iv| tv(iv.start) <= t && t <= tv(iv.end));
    for &(t, y) in &marks {
        if (y - s0).abs() > tol.margin {
            run.check(inside(&above, t) == (y > s0), &sig("above/membership"), || format!("{} t={t} sin h - sin h0 = {:e} above={above:?}", w(), y - s0));
            run.check(inside(&below, t) == (y < s0), &sig("below/membership"), || format!("{} t={t} sin h - sin h0 = {:e} below={below:?}", w(), y - s0));
        }
        if (y - sm).abs() > tol.margin && (y - sx).abs() > tol.margin {
            run.check(inside(&range, t) == (y > sm && y < sx), &sig("range/membership"), || format!("{} range {hm}..{hx} t={t} h={} ranges={range:?}", w(), y.asin().to_degrees()));
        }
    }
    // above and below tile the window
    let len = |v: &Vec<Interval<Mjd>>| v.iter().map(|iv| tv(iv.end) - tv(iv.start)).sum::<f64>();
    run.within(&sig("tiling"), (len(&above) + len(&below) - (b - a)).abs(), 1e-9, w);
    // interior ends of the above periods are the reported crossings
    for iv in &above {
        for t in [tv(iv.start), tv(iv.end)] {
            if t > a && t < b {
                run.check(cr.iter().any(|c| (tv(c.mjd) - t).abs() < 1e-8), &sig("period/edge"), || format!("{} edge {t} not a crossing", w()));
            }
        }
    }

    // --- culminations ----------------------------------------------------
    let cu = p.culm(s, win, opts);
    let (scan, tt) = (if tag == "moon" || tag == "planet" { 2.0 / 24.0 } else { 20.0 / 1440.0 }, 2e-4);
    for c in &cu {
        let t = tv(c.mjd);
        let y = (o.f)(t);
        run.check(t >= a && t <= b, &sig("culmination/window"), w);
        run.within(&sig("culmination/altitude"), (c.altitude.value() - p.alt(s, c.mjd).value().to_degrees()).abs(), 1e-9, || format!("{} t={t}", w()));
        let m = c.kind == CulminationKind::Max;
        let sg = if m { 1.0 } else { -1.0 };
        for d in [2e-3, 5e-3] {
            for q in [t - d, t + d] {
                if q >= a && q <= b {
                    run.check(sg * (y - (o.f)(q)) >= -1e-9, &sig("culmination/extremum"), || format!("{} {:?} t={t} vs {q}: {:e}", w(), c.kind, y - (o.f)(q)));
                }
            }
        }
    }
    // every observed extremum that is isolated on the scan scale and away from the ends is reported
    for (i, e) in o.ext.iter().enumerate() {
        let gap = |j: usize| (o.ext[j].0 - e.0).abs();
        let iso = (i == 0 || gap(i - 1) > 2.2 * scan) && (i + 1 == o.ext.len() || gap(i + 1) > 2.2 * scan);
        if !iso || e.0 - a < 2e-3 || b - e.0 < 2e-3 { continue; }
        if e.0 - a < scan || b - e.0 < scan { run.count("observed culminations within a scan step of the window's ends", 1); }
        // sharp enough to be located at the time resolution we ask for
        let curv = (e.1 - (o.f)(e.0 - 0.01)).abs().min((e.1 - (o.f)(e.0 + 0.01)).abs());
        if curv < 1e-8 { continue; }
        let near: Vec<_> = cu.iter().filter(|c| (tv(c.mjd) - e.0).abs() < tt + 0.01 * (1e-9 / curv).sqrt()).collect();
        run.check(near.len() == 1 && (near[0].kind == CulminationKind::Max) == e.2, &sig("culmination/missed"), || format!("{} extremum at {} max={} reported near {near:?}", w(), e.0, e.2));
        run.count("observed culminations", 1);
    }
    run.count("altitude samples", o.ts.len() as u64);
    let _ = o.step;
}

/// object-safe view: alternately the free functions and the extension-trait methods
trait AltProv {
    fn alt(&self, s: &Geodetic<ECEF>, t: Mjd) -> Radians;
    fn crossings(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<CrossingEvent>;
    fn culm(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, o: SearchOpts) -> Vec<CulminationEvent>;
    fn above(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>>;
    fn below(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>>;
    fn ranges(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, a: Degrees, b: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>>;
}
struct V<'a, T>(&'a T, bool);
impl<T: AltitudeProvider> AltProv for V<'_, T> {
    fn alt(&self, s: &Geodetic<ECEF>, t: Mjd) -> Radians { self.0.altitude_at(s, t) }
    fn crossings(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<CrossingEvent> { if self.1 { crossings(self.0, s, w, h, o) } else { AltitudeEventsExt::crossings(self.0, s, w, h, o) } }
    fn culm(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, o: SearchOpts) -> Vec<CulminationEvent> { if self.1 { culminations(self.0, s, w, o) } else { AltitudeEventsExt::culminations(self.0, s, w, o) } }
    fn above(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>> { if self.1 { above_threshold(self.0, s, w, h, o) } else { AltitudeEventsExt::above_threshold(self.0, s, w, h, o) } }
    fn below(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, h: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>> { if self.1 { below_threshold(self.0, s, w, h, o) } else { AltitudeEventsExt::below_threshold(self.0, s, w, h, o) } }
    fn ranges(&self, s: &Geodetic<ECEF>, w: Interval<Mjd>, a: Degrees, b: Degrees, o: SearchOpts) -> Vec<Interval<Mjd>> { if self.1 { altitude_ranges(self.0, s, w, a, b, o) } else { AltitudeEventsExt::altitude_ranges(self.0, s, w, a, b, o) } }
}

/// Two ordered, disjoint lists of periods: their intersection holds an instant exactly when both do.
fn lists(run: &Run, g: &mut Rng) {
    let list = |g: &mut Rng| {
        let mut t = 50_000.0 + g.n(3) as f64;
        (0..g.n(8)).map(|_| { let a = t + g.log(0.01, 2.0); let b = a + g.log(0.01, 3.0); t = b; Interval::new(mjd(a), mjd(b)) }).collect::<Vec<_>>()
    };
    let (a, b) = (list(g), list(g));
    let c = siderust::time::intersect_periods(&a, &b);
    run.eval("lists", (a.len(), b.len(), c.len()));
    run.check(c.windows(2).all(|w| w[0].end <= w[1].start) && c.iter().all(|p| p.start <= p.end), "lists/order", || format!("{c:?}"));
    let inside = |l: &[Interval<Mjd>], t: f64| l.iter().any(|p| tv(p.start) < t && t < tv(p.end));
    for _ in 0..40 {
        let t = g.range(49_999.0, 50_020.0);
        run.check(inside(&c, t) == (inside(&a, t) && inside(&b, t)), "lists/members", || format!("{t} in {c:?}: {a:?} and {b:?}"));
    }
}

fn main() {
    let mut run = Run::new("C07", "seeded targets x sites x windows x thresholds; the altitude itself is sampled densely and every local extremum refined");
    run.assume("the altitude function of each target is the library's own (decided by C04)");
    let n = run.size(800, 30_000);
    let stars: [Star; 4] = [siderust::bodies::catalog::SIRIUS, siderust::bodies::catalog::POLARIS, siderust::bodies::catalog::VEGA, siderust::bodies::catalog::CANOPUS];
    let (smooth, moon) = (Tol { root: 1e-7, margin: 4e-6 }, Tol { root: 1e-6, margin: 1e-5 });
    run.par("c07", n, |i| {
        let mut g = run.rng_i("c07", i);
        let g = &mut g;
        let a = g.range(41_000.0, 63_000.0);
        let a = if g.p(0.2) { a.floor() } else { a };
        let s = site(g);
        let e = g.p(0.5);
        // 1-in-8 windows are long (coarser observation), some very short
        let (len, step) = match if g.p(0.012) { 10 } else { g.n(10) } { 10 => (g.range(40.0, 420.0), 12.0 / 1440.0), 0 => (g.range(8.0, 40.0), 12.0 / 1440.0), 1 => (g.log(1e-3, 0.2), 2.0 / 1440.0), _ => (g.range(0.3, 3.0), 4.0 / 1440.0) };
        let b = a + len;
        if i % 4 == 0 { lists(&run, g) }
        match i % 8 {
            0..=2 => { let t = synth(g, a.floor()); judge(&run, "synthetic", &V(&t, e), &s, a, b, g, &smooth, step / 2.0) }
            3 => { let u = g.unit(); let d = direction::ICRS::new(Degrees::new(u[1].atan2(u[0]).to_degrees().rem_euclid(360.0)), Degrees::new(u[2].asin().to_degrees())); judge(&run, "direction", &V(&d, e), &s, a, b, g, &smooth, step) }
            4 => { let st = g.pick(&stars); judge(&run, "star", &V(st, e), &s, a, b, g, &smooth, step) }
            5 => judge(&run, "sun", &V(&Sun, e), &s, a, b, g, &smooth, step),
            6 => judge(&run, "moon", &V(&Moon, e), &s, a, b.min(a + if len > 40.0 { 75.0 } else { 12.0 }), g, &moon, step),
            _ => match g.n(7) {
                0 => judge(&run, "planet", &V(&Mercury, e), &s, a, b, g, &smooth, step),
                1 => judge(&run, "planet", &V(&Venus, e), &s, a, b, g, &smooth, step),
                2 => judge(&run, "planet", &V(&Mars, e), &s, a, b, g, &smooth, step),
                3 => judge(&run, "planet", &V(&Jupiter, e), &s, a, b, g, &smooth, step),
                4 => judge(&run, "planet", &V(&Saturn, e), &s, a, b, g, &smooth, step),
                5 => judge(&run, "planet", &V(&Uranus, e), &s, a, b, g, &smooth, step),
                _ => judge(&run, "planet", &V(&Neptune, e), &s, a, b, g, &smooth, step),
            },
        }
        // empty and reversed windows never report anything
        if g.n(10) == 0 {
            let z = Interval::new(mjd(a), mjd(a));
            let th = Degrees::new(g.range(-80.0, 80.0));
            let o = SearchOpts::default();
            let tot = crossings(&Sun, &s, z, th, o).len() + culminations(&Sun, &s, z, o).len() + crossings(&Moon, &s, z, th, o).len() + crossings(&stars[0], &s, z, th, o).len();
            run.check(tot == 0, "empty-window", || format!("{a}"));
        }
    });
    for k in ["synthetic", "direction", "star", "sun", "moon", "planet"] {
        run.require(k, (n / 12) as u64);
    }
    run.finish();
}
