//! C08: azimuth crossings, extrema and range periods vs. dense observation of the azimuth itself.
use siderust::astro::apparent::CorrectionPolicy;
use siderust::bodies::solar_system::*;
use siderust::bodies::Star;
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::coordinates::spherical::direction;
use siderust::event::altitude::CrossingDirection;
use siderust::event::azimuth::*;
use siderust::qtty::{Days, Degrees, Meters, Radians};
use siderust::time::{Interval, ModifiedJulianDate};
use std::f64::consts::{PI, TAU};
use vh::la::wrap_pi;
use vh::{Rng, Run};

type Mjd = ModifiedJulianDate;
fn mjd(t: f64) -> Mjd {
    Mjd::new(t)
}
fn tv(t: Mjd) -> f64 {
    t.raw().value()
}

/// A user-implemented target with a closed-form azimuth (drift plus harmonics).
struct Synth {
    a: f64,
    rate: f64,
    c: Vec<(f64, f64, f64)>,
    t0: f64,
}
impl AzimuthProvider for Synth {
    fn azimuth_at(&self, _o: &Geodetic<ECEF>, t: Mjd) -> Radians {
        let x = tv(t) - self.t0;
        let mut s = self.a + self.rate * x;
        for &(amp, period, ph) in &self.c {
            s += amp * (TAU * (x / period + ph)).sin();
        }
        Radians::new(s.rem_euclid(TAU))
    }
    fn azimuth_periods(&self, _q: &AzimuthQuery) -> Vec<Interval<Mjd>> {
        Vec::new()
    }
}

fn site(g: &mut Rng) -> Geodetic<ECEF> {
    let lat = match g.n(8) {
        0 => 0.0,
        1 => g.range(-24.0, 24.0),
        2 => g.gauss().signum() * g.range(85.0, 89.9),
        _ => g.range(-85.0, 85.0),
    };
    Geodetic::<ECEF>::new(Degrees::new(g.range(-180.0, 180.0)), Degrees::new(lat), Meters::new(g.range(0.0, 4000.0)))
}

/// Unwrapped dense track: bisects until each step moves less than 4°.
fn track(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64) -> Option<Vec<(f64, f64)>> {
    let n = (((b - a) / step).ceil() as usize).max(2);
    let mut out = vec![(a, f(a))];
    for i in 1..=n {
        let t = if i == n { b } else { a + (b - a) * i as f64 / n as f64 };
        let mut st = vec![(t, f(t))];
        while let Some(&(t, r)) = st.last() {
            let (tl, ul) = *out.last().unwrap();
            let d = wrap_pi(r - ul);
            if !d.is_finite() {
                return None;
            }
            if d.abs() > 0.07 && t - tl > 2e-7 {
                let m = 0.5 * (t + tl);
                st.push((m, f(m)));
            } else {
                // sweeps faster than we (or anyone) can follow: not judged
                if d.abs() > 0.6 {
                    return None;
                }
                out.push((t, ul + d));
                st.pop();
            }
        }
    }
    Some(out)
}
fn golden(f: &dyn Fn(f64) -> f64, mut a: f64, mut b: f64) -> f64 {
    let r = 0.618_033_988_749_894_9;
    let (mut x, mut y) = (b - r * (b - a), a + r * (b - a));
    let (mut fx, mut fy) = (f(x), f(y));
    for _ in 0..30 {
        if fx > fy { b = y; y = x; fy = fx; x = b - r * (b - a); fx = f(x); } else { a = x; x = y; fx = fy; y = a + r * (b - a); fy = f(y); }
    }
    0.5 * (a + b)
}

type Ranges<'a> = dyn Fn(Interval<Mjd>, f64, f64, u8) -> (Vec<Interval<Mjd>>, Vec<Interval<Mjd>>) + 'a;

#[allow(clippy::too_many_arguments)]
fn judge<T: AzimuthProvider>(run: &Run, tag: &str, p: &T, ranges: Option<&Ranges>, s: &Geodetic<ECEF>, a: f64, b: f64, g: &mut Rng, step: f64, hint: f64) {
    let sig = |x: &str| format!("{tag}/{x}");
    let win = Interval::new(mjd(a), mjd(b));
    let f = |t: f64| p.azimuth_at(s, mjd(t)).value();
    let Some(tr) = track(&f, a, b, step) else {
        run.count("windows not judged (azimuth sweep too fast)", 1);
        return;
    };
    // turning points of the unwrapped azimuth
    let mut ext = Vec::new();
    for w in tr.windows(3) {
        let sg = if w[1].1 > w[0].1 && w[1].1 >= w[2].1 { 1.0 } else if w[1].1 < w[0].1 && w[1].1 <= w[2].1 { -1.0 } else { continue };
        let near = |t: f64| w[1].1 + wrap_pi(f(t) - w[1].1);
        let t = golden(&|t| sg * near(t), w[0].0, w[2].0);
        ext.push((t, near(t), sg > 0.0));
    }
    let mut marks: Vec<(f64, f64)> = tr.iter().copied().chain(ext.iter().map(|e| (e.0, e.1))).collect();
    marks.sort_by(|x, y| x.0.total_cmp(&y.0));
    let opts = if g.p(0.7) { SearchOpts::default() } else { SearchOpts { time_tolerance: Days::new(g.log(1e-10, 1e-8)) } };
    let m = 1e-5; // rad: samples this close to a bearing are not judged
    let pick = |g: &mut Rng| -> f64 {
        match g.n(7) {
            0 => *g.pick(&[0.0, 90.0, 180.0, 270.0]),
            1 => g.range(0.0, 360.0),
            2 if !ext.is_empty() => (ext[g.n(ext.len())].1 + g.gauss().signum() * g.log(1e-4, 0.05)).to_degrees().rem_euclid(360.0),
            _ => marks[g.n(marks.len())].1.to_degrees().rem_euclid(360.0),
        }
    };
    let b0 = pick(g);
    let br = b0.to_radians();
    let w = || format!("lat={} lon={} window=[{a},{b}] bearing={b0}", s.lat.value(), s.lon.value());
    run.eval(tag, (a.to_bits(), b0.to_bits(), s.lat.value().to_bits()));

    // --- crossings ---
    let cr = azimuth_crossings(p, s, win, Degrees::new(b0), opts);
    let mut last = f64::NEG_INFINITY;
    for c in &cr {
        let t = tv(c.mjd);
        run.check(t >= a && t <= b && t >= last, &sig("crossing/order"), || format!("{} {t} after {last}", w()));
        last = t;
        // slope-aware: the root is located to the time tolerance
        let sl = (wrap_pi(f((t + 1e-6).min(b)) - f((t - 1e-6).max(a)))).abs() / 2e-6;
        run.within(&sig("crossing/bearing"), wrap_pi(f(t) - br).abs(), 1e-6 + 3e-8 * sl, || format!("{} t={t} az={}", w(), f(t).to_degrees()));
    }
    let mut changes = 0;
    let mut prev: Option<(f64, f64)> = None;
    for &(t, u) in &marks {
        let k = ((u - br) / TAU).floor();
        let d = u - br - k * TAU; // in [0, 2π): which turn
        if d < m || d > TAU - m { continue; }
        if let Some((pt, pk)) = prev {
            let inside: Vec<_> = cr.iter().filter(|c| tv(c.mjd) > pt && tv(c.mjd) < t).collect();
            if pk != k {
                changes += 1;
                if run.check(inside.len() % 2 == 1, &sig("crossing/missed"), || format!("{} between {pt} and {t}: {inside:?}", w())) {
                    run.check((inside[0].direction == CrossingDirection::Rising) == (k > pk), &sig("crossing/direction"), || format!("{} near {t}: {inside:?}", w()));
                }
            } else {
                run.check(inside.len() % 2 == 0, &sig("crossing/spurious"), || format!("{} between {pt} and {t} (az {} ): {inside:?}", w(), u.to_degrees()));
            }
        }
        prev = Some((t, k));
    }
    run.count("observed bearing passages", changes);
    run.count("reported crossings", cr.len() as u64);

    // --- extrema ---
    let ex = azimuth_extrema(p, s, win, opts);
    for e in &ex {
        let t = tv(e.mjd);
        run.check(t >= a && t <= b, &sig("extremum/window"), w);
        run.within(&sig("extremum/azimuth"), wrap_pi(e.azimuth.value().to_radians() - f(t)).abs(), 1e-7, || format!("{} t={t}", w()));
        run.check(e.azimuth.value() >= 0.0 && e.azimuth.value() < 360.0 + 1e-9, &sig("extremum/range"), w);
        let sg = if e.kind == AzimuthExtremumKind::Max { 1.0 } else { -1.0 };
        for d in [1e-3, 3e-3] {
            for q in [t - d, t + d] {
                if q >= a && q <= b {
                    run.check(sg * wrap_pi(f(t) - f(q)) >= -1e-8, &sig("extremum/extremum"), || format!("{} {:?} t={t} vs {q}", w(), e.kind));
                }
            }
        }
    }
    for (i, e) in ext.iter().enumerate() {
        let gap = |j: usize| (ext[j].0 - e.0).abs();
        let iso = (i == 0 || gap(i - 1) > 2.2 * hint) && (i + 1 == ext.len() || gap(i + 1) > 2.2 * hint);
        if !iso || e.0 - a < 2e-3 || b - e.0 < 2e-3 { continue; }
        if e.0 - a < hint || b - e.0 < hint { run.count("observed extrema within a scan step of the window's ends", 1); }
        let near = |t: f64| e.1 + wrap_pi(f(t) - e.1);
        let curv = (e.1 - near(e.0 - 0.005)).abs().min((e.1 - near(e.0 + 0.005)).abs());
        if curv < 1e-7 { continue; }
        let n: Vec<_> = ex.iter().filter(|c| (tv(c.mjd) - e.0).abs() < 2e-4 + 0.005 * (1e-9 / curv).sqrt()).collect();
        run.check(n.len() == 1 && (n[0].kind == AzimuthExtremumKind::Max) == e.2, &sig("extremum/missed"), || format!("{} at {} max={}: {n:?}", w(), e.0, e.2));
        run.count("observed extrema", 1);
    }

    // --- ranges ---
    if let Some(rg) = ranges {
        let (lo, hi) = match g.n(6) {
            0 => { let c = b0; let h = g.log(0.05, 5.0); ((c - h).rem_euclid(360.0), (c + h).rem_euclid(360.0)) }
            1 => (g.range(-60.0, 0.0), g.range(0.0, 90.0)),
            2 => (0.0, 360.0),
            _ => (pick(g), pick(g)),
        };
        let width = if lo <= hi { hi - lo } else { 360.0 - (lo - hi) }.to_radians();
        let mode = g.n(4) as u8;
        let (ins, out) = rg(win, lo, hi, mode);
        let w = || format!("lat={} lon={} window=[{a},{b}] range={lo}..{hi} mode={mode}", s.lat.value(), s.lon.value());
        for (n, v) in [("inside", &ins), ("outside", &out)] {
            let mut last = f64::NEG_INFINITY;
            for iv in v.iter() {
                let (x, y) = (tv(iv.start), tv(iv.end));
                run.check(x >= a && y <= b && x <= y && x >= last, &sig("range/structure"), || format!("{} {n} [{x},{y}] after {last}", w()));
                last = y;
            }
        }
        let has = |v: &Vec<Interval<Mjd>>, t: f64| v.iter().any(|iv| tv(iv.start) <= t && t <= tv(iv.end));
        for &(t, u) in &marks {
            let x = (u - lo.to_radians()).rem_euclid(TAU);
            if x < m || TAU - x < m || (x - width).abs() < m { continue; }
            let e = x < width;
            run.check(has(&ins, t) == e, &sig("range/membership"), || format!("{} t={t} az={} inside={ins:?}", w(), u.to_degrees()));
            run.check(has(&out, t) == !e, &sig("range/outside"), || format!("{} t={t} az={} outside={out:?}", w(), u.to_degrees()));
            if e { run.count("samples in range", 1) }
        }
        let len = |v: &Vec<Interval<Mjd>>| v.iter().map(|iv| tv(iv.end) - tv(iv.start)).sum::<f64>();
        run.within(&sig("range/tiling"), (len(&ins) + len(&out) - (b - a)).abs(), 1e-9, w);
    }
    run.count("azimuth samples", tr.len() as u64);
    let _ = PI;
}

/// the four public ways to ask for ranges
fn ranges_of<'a, T: AzimuthProvider>(p: &'a T, s: &'a Geodetic<ECEF>) -> Box<Ranges<'a>> {
    Box::new(move |w, lo, hi, mode| {
        let o = SearchOpts::default();
        let (l, h) = (Degrees::new(lo), Degrees::new(hi));
        let ins = match mode {
            0 => azimuth_ranges(p, s, w, l, h, o),
            1 => in_azimuth_range(p, s, w, l, h, o),
            2 => p.in_azimuth_range(*s, w, l, h, o),
            _ => azimuth_periods(p, &AzimuthQuery { observer: *s, window: w, min_azimuth: l, max_azimuth: h, opts: o, correction_policy: CorrectionPolicy::APPARENT }),
        };
        let out = if mode % 2 == 0 { outside_azimuth_range(p, s, w, l, h, o) } else { p.outside_azimuth_range(*s, w, l, h, o) };
        (ins, out)
    })
}

fn body<T: AzimuthProvider>(run: &Run, tag: &str, p: &T, s: &Geodetic<ECEF>, a: f64, b: f64, g: &mut Rng, step: f64, hint: f64) {
    let r = ranges_of(p, s);
    judge(run, tag, p, Some(&*r), s, a, b, g, step, hint)
}

fn main() {
    let mut run = Run::new("C08", "seeded targets x sites x windows x bearings/ranges; the azimuth itself is sampled densely (at most 4 degrees per sample) and unwrapped");
    run.assume("the azimuth function of each target is the library's own (decided by C09)");
    let n = run.size(1600, 60_000);
    let stars: [Star; 4] = [siderust::bodies::catalog::SIRIUS, siderust::bodies::catalog::POLARIS, siderust::bodies::catalog::VEGA, siderust::bodies::catalog::CANOPUS];
    run.par("c08", n, |i| {
        let mut g = run.rng_i("c08", i);
        let g = &mut g;
        let a = g.range(41_000.0, 63_000.0);
        let a = if g.p(0.2) { a.floor() } else { a };
        let s = site(g);
        let (len, step) = match if g.p(0.01) { 10 } else { g.n(10) } { 10 => (g.range(8.0, 60.0), 10.0 / 1440.0), 0 => (g.range(3.0, 8.0), 10.0 / 1440.0), 1 => (g.log(1e-3, 0.2), 2.0 / 1440.0), _ => (g.range(0.3, 2.0), 4.0 / 1440.0) };
        let b = a + len;
        let (h2, hs) = (2.0 / 24.0, 20.0 / 1440.0);
        match i % 8 {
            0 | 1 => {
                let k = g.n(3);
                let t = Synth { a: g.range(0.0, TAU), rate: if g.p(0.3) { 0.0 } else { g.gauss().signum() * g.log(0.5, 9.0) }, c: (0..k).map(|_| (g.range(0.05, 1.5), g.log(0.5, 3.0), g.f())).collect(), t0: a.floor() };
                judge(&run, "synthetic", &t, None, &s, a, b, g, step / 2.0, hs)
            }
            2 | 3 => {
                let u = g.unit();
                // 1 in 3 directions pass close to the observer's zenith
                let dec = if g.p(0.33) { (s.lat.value() + g.gauss().signum() * g.log(0.03, 3.0)).clamp(-89.9, 89.9) } else { u[2].asin().to_degrees() };
                let d = direction::ICRS::new(Degrees::new(u[1].atan2(u[0]).to_degrees().rem_euclid(360.0)), Degrees::new(dec));
                body(&run, "direction", &d, &s, a, b, g, step, hs)
            }
            4 => body(&run, "star", g.pick(&stars), &s, a, b, g, step, hs),
            5 => body(&run, "sun", &Sun, &s, a, b, g, step, h2),
            6 => body(&run, "moon", &Moon, &s, a, b.min(a + 3.0), g, step, h2),
            _ => match g.n(7) {
                0 => body(&run, "planet", &Mercury, &s, a, b, g, step, h2),
                1 => body(&run, "planet", &Venus, &s, a, b, g, step, h2),
                2 => body(&run, "planet", &Mars, &s, a, b, g, step, h2),
                3 => body(&run, "planet", &Jupiter, &s, a, b, g, step, h2),
                4 => body(&run, "planet", &Saturn, &s, a, b, g, step, h2),
                5 => body(&run, "planet", &Uranus, &s, a, b, g, step, h2),
                _ => body(&run, "planet", &Neptune, &s, a, b, g, step, h2),
            },
        }
        if g.n(8) == 0 {
            let z = Interval::new(mjd(a), mjd(a));
            let (th, o) = (Degrees::new(g.range(0.0, 360.0)), SearchOpts::default());
            let tot = azimuth_crossings(&Sun, &s, z, th, o).len() + azimuth_extrema(&Sun, &s, z, o).len() + azimuth_ranges(&Moon, &s, z, th, Degrees::new(359.0), o).len();
            run.check(tot == 0, "empty-window", || format!("{a}"));
            // a policy given in the query is the policy the periods are computed with
            let st = g.pick(&stars);
            let w = Interval::new(mjd(a), mjd(a + 0.6));
            let q = AzimuthQuery { observer: s, window: w, min_azimuth: Degrees::new(th.value() * 0.5), max_azimuth: Degrees::new(th.value() * 0.5 + 120.0), opts: o, correction_policy: CorrectionPolicy::GEOMETRIC };
            for iv in azimuth_periods(st, &q) {
                for t in [iv.start, iv.end] {
                    if tv(t) > a && tv(t) < a + 0.6 {
                        let z = st.azimuth_at_with_policy(&s, t, CorrectionPolicy::GEOMETRIC).value();
                        let e = wrap_pi(z - q.min_azimuth.value().to_radians()).abs().min(wrap_pi(z - q.max_azimuth.value().to_radians()).abs());
                        let (z0, z1) = (st.azimuth_at_with_policy(&s, mjd(tv(t) - 1e-6), CorrectionPolicy::GEOMETRIC).value(), st.azimuth_at_with_policy(&s, mjd(tv(t) + 1e-6), CorrectionPolicy::GEOMETRIC).value());
                        run.within("policy/edge", e, 1e-6 + 3e-8 * wrap_pi(z1 - z0).abs() / 2e-6, || format!("{} {a} {}", st.name, tv(t)));
                        run.count("policy edges", 1);
                    }
                }
            }
            let d = direction::ICRS::from(st);
            for pol in [CorrectionPolicy::GEOMETRIC, CorrectionPolicy::APPARENT] {
                run.within("policy/star-vs-direction", wrap_pi(st.azimuth_at_with_policy(&s, mjd(a), pol).value() - d.azimuth_at_with_policy(&s, mjd(a), pol).value()).abs(), 1e-12, || format!("{} {a}", st.name));
            }
        }
    });
    for k in ["synthetic", "direction", "star", "sun", "moon", "planet"] {
        run.require(k, (n / 12) as u64);
    }
    run.finish();
}
