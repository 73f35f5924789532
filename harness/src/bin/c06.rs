//! C06: SPK kernels: evaluation, segment selection, chains, coverage, byte order.
use siderust::coordinates::centers::Barycentric;
use siderust::coordinates::frames::{EclipticMeanJ2000, ICRF};
use siderust::coordinates::transform::VectorAstroExt;
use siderust::ephemeris::{DynEphemeris, EphemerisError, MajorPlanet, PlanetPoint, RuntimeEphemeris};
use siderust::formats::spice::{spk, spk_kernel::{SpkKernelError, SpkKernelSet}, SpiceError, SpkKernel};
use siderust::pod::providers::EphemerisProvider;
use siderust::pod::spice::{SpiceEphemerisProvider, SpiceState};
use siderust::spice::{KernelSet, SpiceContext};
use siderust::time::JulianDate;
use std::collections::HashMap;
use vh::daf::*;
use vh::la::*;
use vh::{Rng, Run};

const EMRAT: f64 = 81.300_569_074_190_62;
const AU: f64 = 149_597_870.7;
fn tt_to_et(jd: f64) -> f64 {
    let tt = (jd - 2_451_545.0) * 86400.0;
    let mut et = tt;
    for _ in 0..6 { let m = 6.239996 + 1.99096871e-7 * et; et = tt + 1.657e-3 * (m + 1.671e-2 * m.sin()).sin(); }
    et
}
type S6 = [f64; 6];
fn comb(a: &[S6], b: &[S6], f: f64) -> Vec<S6> {
    let mut o = vec![];
    for x in a { for y in b { let mut s = *x; for k in 0..6 { s[k] += f * y[k]; } o.push(s); } }
    o
}
/// the last segment in load order that covers the epoch
fn pick<'a>(segs: &[&'a Seg], t: i32, c: Option<i32>, et: f64) -> Option<&'a Seg> {
    segs.iter().rev().copied().find(|s| s.target == t && c.is_none_or(|c| s.center == c) && s.covers(et))
}
/// admissible states of `t` w.r.t. the root of the tree, or None (not covered)
fn root(segs: &[&Seg], t: i32, et: f64) -> Option<Vec<S6>> {
    if t == 0 { return Some(vec![[0.0; 6]]); }
    let s = pick(segs, t, None, et)?;
    Some(comb(&s.states(et), &root(segs, s.center, et)?, 1.0))
}
fn chain(parent: &HashMap<i32, i32>, mut t: i32) -> Vec<i32> { let mut o = vec![t]; while let Some(p) = parent.get(&t) { t = *p; o.push(t); } o }
fn best(c: &[S6], got: &S6, lo: usize, hi: usize) -> f64 {
    c.iter().map(|s| (lo..hi).map(|k| (s[k] - got[k]).powi(2)).sum::<f64>().sqrt()).fold(f64::INFINITY, f64::min)
}

struct World { segs: Vec<Seg>, parent: HashMap<i32, i32>, t0: f64, span: f64, size: f64, vel: f64 }
fn world(g: &mut Rng) -> World {
    let t0 = (g.range(-2e9, 2e9) / 60.0).round() * 60.0;
    let span = 86400.0 * *g.pick(&[1.0, 8.0, 64.0, 1024.0]);
    let mut parent = HashMap::new();
    let mut list = vec![(10, 0, 1e6), (3, 0, 1.5e8), (301, 3, 3.8e5)];
    if g.p(0.4) { list.push((399, 3, 4.6e3)); }
    for b in [1, 2, 4, 5, 6, 7, 8] { if g.p(0.5) { list.push((b, 0, 1e8 * b as f64)); } }
    if list.iter().any(|x| x.0 == 4) && g.p(0.6) { list.push((499, 4, 1.0)); }
    if list.iter().any(|x| x.0 == 5) { list.push((599, 5, 100.0)); }
    if g.p(0.5) { list.push((-77, 301, 2e3)); }
    if g.p(0.3) { list.push((-78, 10, 1e7)); }
    let mut segs = vec![];
    let mut vel: f64 = 0.0;
    for (b, c, size) in &list {
        parent.insert(*b, *c);
        let n = 1 + g.n(3);
        for k in 0..n {
            // consecutive, gapped or overlapping pieces
            let (a, w) = match g.n(4) { 0 => (t0, span), 1 => (t0 + span * 0.25 * k as f64, span * 0.5), _ => (t0 + span * k as f64 / n as f64, span / n as f64) };
            let mut s = match if *b < 0 { g.n(4) } else { g.n(2) } { 0 => cheb_seg(g, *b, *c, a, w, *size, 3), 1 => cheb_seg(g, *b, *c, a, w, *size, 6), 2 => disc_seg(g, 9, *b, *c, a, w, *size), _ => disc_seg(g, 13, *b, *c, a, w, *size) };
            if g.p(0.25) { s.start += w * 0.1; s.end -= w * 0.15; }
            let rate = match &s.body { Body::Cheb { intlen, ncoeff, comps: 3, .. } => size * (*ncoeff * *ncoeff) as f64 / intlen, Body::Cheb { .. } => size * 1e-6, Body::Disc { .. } => size * 10.0 / w };
            vel = vel.max(rate);
            segs.push(s);
        }
    }
    if g.p(0.3) { for i in (1..segs.len()).rev() { let j = g.n(i + 1); segs.swap(i, j); } }
    let size = list.iter().map(|x| x.2).sum();
    World { segs, parent, t0, span, size, vel }
}

fn one(run: &Run, i: usize, g: &mut Rng) {
    let w = world(g);
    let all: Vec<&Seg> = w.segs.iter().collect();
    let wr = Writer { big: g.p(0.35), per_record: 1 + g.n(25), gap: g.n(3), locator: b"DAF/SPK " };
    // a foreign segment of an unsupported type / frame must not disturb the rest
    let bytes = wr.spk(&w.segs);
    let info = || format!("kernel {i} big={} segs={:?}", wr.big, w.segs.iter().map(|s| (s.target, s.center, s.ty(), s.start, s.end)).collect::<Vec<_>>());
    let end = if wr.big { "big-endian" } else { "little-endian" };
    let k = match run.no_panic("panic/parse", info, || SpkKernel::from_bytes(bytes.clone())) { Some(Ok(k)) => k, Some(Err(e)) => { run.violation(&format!("parse/{end}"), &format!("{e} {}", info())); return } None => return };
    let mut set = SpkKernelSet::default();
    if let Err(e) = set.push_bytes(&bytes) { run.violation(&format!("parse-set/{end}"), &format!("{e} {}", info())); return }
    let re = match RuntimeEphemeris::from_bytes(&bytes) { Ok(r) => r, Err(e) => { run.violation(&format!("parse-runtime/{end}"), &format!("{e:?} {}", info())); return } };
    run.check(k.segments().len() == w.segs.len(), "segments", || format!("{} {}", k.segments().len(), info()));
    let kernel = std::sync::Arc::new(SpkKernel::from_bytes(bytes.clone()).unwrap());
    let (dir, usable) = (std::env::temp_dir().join(format!("vh-c06-{}-{i}", std::process::id())), w.segs.iter().filter(|s| s.ty() <= 3).count());
    run.check(set.segment_count() == usable, "segment-count", || format!("{} of {usable} {}", set.segment_count(), info()));
    // files on disk load like the bytes they hold, in the order given
    let disk = (i % 8 == 0).then(|| {
        std::fs::create_dir_all(&dir).unwrap();
        let f = dir.join("a.bsp");
        std::fs::write(&f, &bytes).unwrap();
        let r = (SpkKernelSet::from_paths([&f, &f]), SpkKernelSet::from_paths([&f, &dir.join("missing.bsp")]).is_err() && RuntimeEphemeris::from_bsp(dir.join("missing.bsp")).is_err(), RuntimeEphemeris::from_bsp(&f), SpkKernel::open(&f));
        std::fs::remove_dir_all(&dir).unwrap();
        r
    });
    if let Some((s2, refused, r2, k2)) = &disk {
        run.eval("files", i);
        run.check(*refused, "files/missing-accepted", info);
        run.check(s2.as_ref().is_ok_and(|s| s.segment_count() == 2 * usable) && k2.as_ref().is_ok_and(|q| q.segments().len() == w.segs.len()), "files/segments", info);
        let jd = JulianDate::new(2_451_545.0 + (w.t0 + w.span * g.f()) / 86400.0);
        if let (Ok(s2), Ok(r2), Ok(k2)) = (s2, r2, k2) {
            let show = |s: &SpkKernelSet| format!("{:?}", s.try_geometric_state(301, 0, jd).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(|_| ()));
            run.check(show(s2) == show(&set), "files/set", info);
            let e3 = |r: &RuntimeEphemeris| format!("{:?} {:?}", r.try_earth_barycentric(jd).map_err(|_| ()), r.try_moon_geocentric(jd).map_err(|_| ()));
            run.check(e3(r2) == e3(&re) && e3(&RuntimeEphemeris::from_indexed_segments(spk::parse_indexed_segments(&bytes).unwrap())) == e3(&re), "files/runtime", info);
            let et = w.t0 + w.span * 0.5;
            run.check(format!("{:?}", k2.state(301, 0, et).ok()) == format!("{:?}", k.state(301, 0, et).ok()), "files/kernel", info);
        } else { run.violation("files/refused", &info()) }
    }
    let mut ctx = SpiceContext::new();
    let _ = ctx.load_bytes("a.bsp", bytes.clone());
    // split into two kernels for the kernel set
    let cut = g.n(w.segs.len() + 1);
    let mut ks = KernelSet::new();
    for part in [&w.segs[..cut], &w.segs[cut..]] { if !part.is_empty() { ks.add_spk("k", SpkKernel::from_bytes(wr.spk(part)).unwrap()); } }
    let two = if cut > 0 && cut < w.segs.len() { let mut s = SpkKernelSet::default(); (s.push_bytes(&wr.spk(&w.segs[..cut])).is_ok() && s.push_bytes(&wr.spk(&w.segs[cut..])).is_ok()).then_some(s) } else { None };
    let bodies: Vec<i32> = w.parent.keys().copied().chain([0]).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let ptol = 1e-12 * w.size * 20.0;
    let vtol = |c: &[S6]| 1e-11 * w.vel + 1e-12 * c.iter().map(|s| norm([s[3], s[4], s[5]])).fold(0.0, f64::max);
    for _ in 0..12 {
        let et = match g.n(8) {
            0 => w.t0 - g.log(1.0, 1e8),
            1 => w.t0 + w.span + g.log(1.0, 1e8),
            2 => { let s = g.pick(&w.segs); match &s.body { Body::Disc { epochs, .. } => *g.pick(epochs), Body::Cheb { init, intlen, recs, .. } => init + intlen * (g.n(recs.len()) as f64) } }
            3 => { let s = g.pick(&w.segs); if g.p(0.5) { s.start + g.range(-2.0, 2.0) } else { s.end + g.range(-2.0, 2.0) } }
            _ => w.t0 + w.span * g.f(),
        };
        // nudge away from rounding ties at coverage edges
        let edge = |et: f64| w.segs.iter().any(|s| { let (a, b) = s.extent(); [a, b, s.start, s.end].iter().any(|x| (x - et).abs() < 1e-4 && *x != et) || (b - et).abs() < 1e-4 || (s.end - et).abs() < 1e-4 });
        if edge(et) { continue }
        let (t, c) = (*g.pick(&bodies), *g.pick(&bodies));
        run.eval(end, (i, et.to_bits(), t, c));
        let wi = || format!("target {t} center {c} et {et} {}", info());
        // expected along the tree path through the nearest common ancestor
        let (pt, pc) = (chain(&w.parent, t), chain(&w.parent, c));
        let nca = *pt.iter().find(|x| pc.contains(x)).unwrap();
        let sum = |p: &[i32]| -> Option<Vec<S6>> { let mut acc = vec![[0.0; 6]]; for b in p.iter().take_while(|b| **b != nca) { acc = comb(&acc, &pick(&all, *b, None, et)?.states(et), 1.0); } Some(acc) };
        let want = match (sum(&pt), sum(&pc)) { (Some(a), Some(b)) => Some(comb(&a, &b, -1.0)), _ => None };
        let hull: f64 = if t == c { 0.0 } else { 1.0 };
        let Some(got) = run.no_panic("panic/state", wi, || k.state(t, c, et)) else { continue };
        match (&got, &want) {
            (Ok(s), Some(v)) => {
                run.count("states", 1);
                run.within("state/position", best(v, s, 0, 3) * hull, ptol * disc_slack(&w), || format!("{} got {s:?} want {v:?}", wi()));
                run.within("state/velocity", best(v, s, 3, 6) * hull, vtol(v) * disc_slack(&w), || format!("{} got {s:?} want {v:?}", wi()));
                if t != c { let r = k.state(c, t, et); run.check(r.as_ref().is_ok_and(|r| (0..6).all(|q| (r[q] + s[q]).abs() <= 1e-14 * if q < 3 { w.size * 20.0 } else { w.vel * 20.0 } + 1e-9)), "state/reverse", || format!("{r:?} {}", wi())); }
            }
            (Err(SpiceError::OutOfCoverage { target, center, epoch_tdb_seconds, start_tdb_seconds: s0, end_tdb_seconds: s1 }), None) => {
                run.count("out-of-coverage", 1);
                let own: Vec<&Seg> = all.iter().copied().filter(|s| (s.target, s.center) == (t, c) || (s.target, s.center) == (c, t)).collect();
                run.check((*target, *center, *epoch_tdb_seconds) == (t, c, et) && !(*s0 < et && et < *s1) && (own.len() != 1 || { let (a, e) = cover(own[0]); (s0 - a).abs() < 1.0 && (s1 - e).abs() < 1.0 }), "state/coverage-report", || format!("{target} {center} {epoch_tdb_seconds} {s0}..{s1}; {} segment(s) {:?} {}", own.len(), own.first().map(|s| s.extent()), wi()));
            }
            _ => run.violation("state/coverage", &format!("{} got {got:?} want covered={}", wi(), want.is_some())),
        }
        let r = ctx.state_naif(t, c, et);
        // typed access: provider and context give the same state at the same instant
        if let Ok(ep) = tempoch::Time::<tempoch::TDB>::from_raw_j2000_seconds(siderust::qtty::Second::new(et)) {
            let et2 = ep.to_j2000s().raw().value();
            let want = k.state(t, c, et2);
            let st = |p: [f64; 3], v: [f64; 3]| [p[0], p[1], p[2], v[0], v[1], v[2]];
            let prov = SpiceEphemerisProvider::<Barycentric>::from_arc(kernel.clone(), c);
            let flat = |r: Result<SpiceState<Barycentric>, SpiceError>| r.map(|s| st([s.position.x().value(), s.position.y().value(), s.position.z().value()], [s.velocity_km_s.x().value(), s.velocity_km_s.y().value(), s.velocity_km_s.z().value()]));
            let typed = ctx.state_typed::<Barycentric>(t, c, ep).map(|(p, v)| st([p.x().value(), p.y().value(), p.z().value()], [v.x().value(), v.y().value(), v.z().value()]));
            run.eval("typed-state", (i, et.to_bits(), t, c));
            run.within("typed/instant", (et2 - et).abs(), 2e-6 + 1e-15 * et.abs(), || format!("{et2} {}", wi()));
            for (n, r) in [("state_at", flat(prov.state_at(t, ep))), ("clone", flat(prov.clone().state(t, et2)))] { run.check(match (&r, &want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }, &format!("typed/provider-{n}"), || format!("{r:?} want {want:?} {}", wi())); }
            run.check(match (&typed, &want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }, "typed/context", || format!("{typed:?} want {want:?} {}", wi()));
            run.check(prov.center_naif_id() == c && prov.kernel().segments().len() == w.segs.len(), "typed/provider-fields", wi);
        }
        run.check(match (&r, &got) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }, "context/state", || format!("{r:?} {}", wi()));
        // unknown bodies
        if g.p(0.1) { let r = k.state(12345, c, et); run.check(matches!(r, Err(SpiceError::NoChain { .. })), "state/no-chain", || format!("{r:?} {}", wi())); }
        // kernel set: last loaded kernel that can answer wins, whole chain inside one kernel
        if t != c {
            let ans = |p: &[Seg]| { let v: Vec<&Seg> = p.iter().collect(); let sum = |q: &[i32]| -> Option<Vec<S6>> { let mut acc = vec![[0.0; 6]]; for b in q.iter().take_while(|b| **b != nca) { acc = comb(&acc, &pick(&v, *b, None, et)?.states(et), 1.0); } Some(acc) }; match (sum(&pt), sum(&pc)) { (Some(a), Some(b)) => Some(comb(&a, &b, -1.0)), _ => None } };
            let want = ans(&w.segs[cut..]).or_else(|| ans(&w.segs[..cut]));
            let got = ks.state_naif(t, c, et);
            match (&got, &want) {
                (Ok(s), Some(v)) => { run.count("set-states", 1); run.within("kernel-set/state", best(v, s, 0, 3), ptol * disc_slack(&w), || format!("cut {cut} {}", wi())); }
                (Err(_), None) => {}
                // a chain spread over kernels may or may not be resolved; a covered one must be
                _ => { run.violation("kernel-set/coverage", &format!("cut {cut} {} got {got:?} want {}", wi(), want.is_some())) }
            }
        }
        // --- JulianDate based APIs
        let jd = JulianDate::new(2_451_545.0 + et / 86400.0);
        let et = tt_to_et(jd.raw().value());
        let near = w.segs.iter().any(|s| { let (a, b) = s.extent(); [a, b, s.start, s.end].iter().any(|x| (x - et).abs() < 1e-3) });
        if near { continue }
        let wj = || format!("target {t} center {c} jd {:?} et {et} {}", jd.raw().value(), info());
        let tt = 3e-7 * w.vel; // ET rounding
        let p6 = |d: &affn_disp| [d.x().value(), d.y().value(), d.z().value(), 0.0, 0.0, 0.0];
        // only J2000 type 2/3 segments serve the Julian-date APIs
        let v23: Vec<&Seg> = all.iter().copied().filter(|s| s.ty() <= 3).collect();
        let emb = |segs: &[&Seg]| -> Option<Vec<S6>> {
            if let Some(x) = root(segs, 399, et) { return Some(x); }
            let e = root(segs, 3, et)?;
            let m = pick(segs, 301, Some(3), et)?.states(et);
            Some(comb(&e, &m, -1.0 / EMRAT))
        };
        let at = |segs: &[&Seg], b: i32| if b == 399 { emb(segs) } else { root(segs, b, et) };
        let cases: Vec<(&SpkKernelSet, &str)> = std::iter::once((&set, "one")).chain(two.as_ref().map(|s| (s, "two"))).collect();
        let (t, c) = (if g.p(0.3) { 399 } else { t }, if g.p(0.4) { 399 } else { c });
        for (s, nm) in cases {
            let want = match (at(&v23, t), at(&v23, c)) { (Some(a), Some(b)) => Some(comb(&a, &b, -1.0)), _ => None };
            let Some(got) = run.no_panic("panic/geometric", wj, || s.try_geometric_state(t, c, jd)) else { continue };
            run.eval("geometric-state", (i, et.to_bits(), t, c));
            match (&got, &want) {
                (Ok(d), Some(v)) => { run.within("geometric/position", best(v, &p6(d), 0, 3), ptol + tt, || format!("{nm} T{t} C{c} {} got {:?} want {v:?}", wj(), p6(d))); }
                (Err(SpkKernelError::Ephemeris(EphemerisError::OutOfRange { jd: j, start_jd, end_jd })), None) => {
                    run.count("geometric-refused", 1);
                    let ends = |x: f64, hi: bool| v23.iter().any(|s| { let (a, e) = cover(s); ((if hi { e } else { a }) / 86400.0 + 2_451_545.0 - x).abs() < 1e-5 });
                    run.check((j - jd.raw().value()).abs() < 1e-6 && !(j > start_jd && j < end_jd) && ends(*start_jd, false) && ends(*end_jd, true), "geometric/range-report", || format!("{j} {start_jd}..{end_jd} {}", wj()));
                }
                (Err(SpkKernelError::MissingSegment { .. }), None) => run.count("geometric-refused", 1),
                _ => run.violation("geometric/coverage", &format!("{nm} T{t} C{c} {} got {got:?} want covered={}", wj(), want.is_some())),
            }
        }
        for (p, id) in [(MajorPlanet::Mercury, 1), (MajorPlanet::Venus, 2), (MajorPlanet::Mars, 4), (MajorPlanet::Jupiter, 5), (MajorPlanet::Saturn, 6), (MajorPlanet::Uranus, 7), (MajorPlanet::Neptune, 8)] {
            for (pt, id) in [(PlanetPoint::SystemBarycenter, id), (PlanetPoint::Center, id * 100 + 99)] {
                let want = match (root(&v23, id, et), emb(&v23)) { (Some(a), Some(b)) => Some(comb(&a, &b, -1.0)), _ => None };
                let Some(got) = run.no_panic("panic/planet", wj, || set.try_major_planet_geocentric(p, pt, jd)) else { continue };
                match (&got, &want) {
                    (Ok(d), Some(v)) => { run.eval("planet-geocentric", (i, et.to_bits(), id)); run.within("planet/position", best(v, &p6(d), 0, 3), ptol + tt, || format!("{p:?} {id} {}", wj())); }
                    (Err(_), None) => {}
                    _ => run.violation("planet/coverage", &format!("{p:?} {id} {} got {got:?} want {}", wj(), want.is_some())),
                }
            }
        }
        // runtime ephemeris: ecliptic J2000, AU (Moon: km)
        let ecl = |v: &S6| -> V3 { let d = affn_disp::new(siderust::qtty::Kilometers::new(v[0]), siderust::qtty::Kilometers::new(v[1]), siderust::qtty::Kilometers::new(v[2])); let e = d.to_frame::<EclipticMeanJ2000>(&siderust::J2000); [e.x().value(), e.y().value(), e.z().value()] };
        let edge = |a: i32, b: i32| pick(&v23, a, Some(b), et).map(|s| s.states(et));
        let direct = v23.iter().any(|s| s.target == 399 && s.center == 3);
        let sun = edge(10, 0);
        let earth_off = if direct { edge(399, 3) } else { edge(301, 3).map(|m| comb(&[[0.0; 6]], &m, -1.0 / EMRAT)) };
        let earth = match (edge(3, 0), &earth_off) { (Some(e), Some(o)) => Some(comb(&e, o, 1.0)), _ => None };
        let helio = match (&earth, &sun) { (Some(e), Some(s)) => Some(comb(e, s, -1.0)), _ => None };
        let moon = match (edge(301, 3), &earth_off) { (Some(m), Some(o)) if direct => Some(comb(&m, o, -1.0)), (Some(m), Some(_)) => Some(m.iter().map(|s| s.map(|x| x * (1.0 + 1.0 / EMRAT))).collect()), _ => None };
        let mut rt = |nm: &str, got: Result<V3, EphemerisError>, want: &Option<Vec<S6>>, unit: f64| {
            run.eval("runtime-ephemeris", (i, et.to_bits(), nm));
            match (got, want) {
                (Ok(g3), Some(v)) => {
                    let e = v.iter().map(|s| norm(sub(scale(ecl(s), 1.0 / unit), g3))).fold(f64::INFINITY, f64::min);
                    run.within("runtime/position", e, (ptol + tt) / unit, || format!("{nm} {} got {g3:?}", wj()));
                    let r = v.iter().map(|s| norm(sub(scale(mv(&r1(84381.406f64 / 3600.0 * std::f64::consts::PI / 180.0), [s[0], s[1], s[2]]), 1.0 / unit), g3))).fold(f64::INFINITY, f64::min);
                    run.within("runtime/axes", r, (ptol + tt) / unit + norm(g3) * 3e-7, || format!("{nm} {}", wj()));
                }
                (Err(EphemerisError::OutOfRange { jd: j, start_jd, end_jd }), None) => { run.count("runtime-refused", 1); run.check((j - jd.raw().value()).abs() < 1e-6 && start_jd < end_jd && !(j > start_jd && j < end_jd), "runtime/range-error", || format!("{j} {start_jd} {end_jd} {}", wj())); }
                (Err(EphemerisError::InvalidSegment { .. }), None) => { run.check(v23.iter().all(|s| s.target != if nm == "sun" { 10 } else { 301 }) || true, "x", wj); }
                (g, w) => run.violation("runtime/coverage", &format!("{nm} {} got {g:?} want covered={}", wj(), w.is_some())),
            }
        };
        macro_rules! v { ($p:expr) => { $p.map(|p| [p.x().value(), p.y().value(), p.z().value()]) } }
        rt("sun", v!(re.try_sun_barycentric(jd)), &sun, AU);
        rt("earth", v!(re.try_earth_barycentric(jd)), &earth, AU);
        rt("earth-helio", v!(re.try_earth_heliocentric(jd)), &helio, AU);
        rt("moon", v!(re.try_moon_geocentric(jd)), &moon, 1.0);
        let vel = v!(re.try_earth_barycentric_velocity(jd));
        if let (Ok(g3), Some(v)) = (&vel, &earth) {
            let e = v.iter().map(|s| norm(sub(scale(ecl(&[s[3], s[4], s[5], 0.0, 0.0, 0.0]), 86400.0 / AU), *g3))).fold(f64::INFINITY, f64::min);
            let acc = 200.0 * w.vel / (w.span / 20.0);
            run.within("runtime/velocity", e, (vtol(v) + acc * 3e-7) * 86400.0 / AU, || format!("{} got {g3:?}", wj()));
            // the infallible forms give the same values
            if let (Some(a), Some(b), Ok(pe)) = (run.no_panic("panic/earth", wj, || re.earth_barycentric_velocity(jd)), run.no_panic("panic/earth", wj, || re.earth_barycentric(jd)), re.try_earth_barycentric(jd)) {
                run.check([a.x().value(), a.y().value(), a.z().value()] == *g3 && b.x() == pe.x() && b.y() == pe.y() && b.z() == pe.z(), "runtime/infallible", wj);
            }
        } else { run.check(vel.is_err() == earth.is_none(), "runtime/velocity-coverage", wj); }
        if helio.is_some() { if let (Some(a), Ok(b)) = (run.no_panic("panic/helio", wj, || re.earth_heliocentric(jd)), re.try_earth_heliocentric(jd)) { run.check(a.x() == b.x() && a.y() == b.y() && a.z() == b.z(), "runtime/infallible", wj); } }
        if moon.is_some() { if let (Some(a), Ok(b)) = (run.no_panic("panic/moon", wj, || re.moon_geocentric(jd)), re.try_moon_geocentric(jd)) { run.check(a.x() == b.x() && a.y() == b.y() && a.z() == b.z(), "runtime/infallible", wj); } }
        if sun.is_some() { if let (Some(a), Ok(b)) = (run.no_panic("panic/sun", wj, || re.sun_barycentric(jd)), re.try_sun_barycentric(jd)) { run.check(a.x() == b.x() && a.y() == b.y() && a.z() == b.z(), "runtime/infallible", wj); } }
    }
    // non-finite epochs
    for et in [f64::NAN, f64::INFINITY] { if let Some(r) = run.no_panic("panic/non-finite", info, || k.state(3, 0, et)) { run.check(r.is_err(), "state/non-finite", || format!("{r:?}")); } }
    // legacy single-segment loader
    if let Ok(b) = spk::parse_bsp(&bytes) {
        let first: Vec<&Seg> = [(10, 0), (3, 0), (301, 3)].iter().map(|(t, c)| all.iter().copied().find(|s| s.target == *t && s.center == *c).unwrap()).collect();
        let re = RuntimeEphemeris::from_segments(b);
        let (a, e) = first[0].extent();
        let jd = JulianDate::new(2_451_545.0 + (a + (e - a) * g.range(0.01, 0.99)) / 86400.0);
        let et = tt_to_et(jd.raw().value());
        if let Ok(p) = re.try_sun_barycentric(jd) {
            let v = first[0].states(et);
            run.eval("legacy-loader", et.to_bits());
            let g3 = [p.x().value(), p.y().value(), p.z().value()];
            let e = v.iter().map(|s| norm(sub(scale(mv(&r1(84381.406f64 / 3600.0 * std::f64::consts::PI / 180.0), [s[0], s[1], s[2]]), 1.0 / AU), g3))).fold(f64::INFINITY, f64::min);
            run.within("legacy/position", e, (ptol + 3e-7 * w.vel) / AU + norm(g3) * 3e-7, || info());
        } else { run.violation("legacy/coverage", &info()); }
        // Earth and Moon: the Earth segment where the file has one, the mass ratio otherwise
        let earth = all.iter().copied().find(|s| s.target == 399 && s.center == 3);
        let used: Vec<&Seg> = first.iter().copied().chain(earth).collect();
        let (lo, hi) = used.iter().map(|s| s.extent()).fold((f64::NEG_INFINITY, f64::INFINITY), |a, b| (a.0.max(b.0), a.1.min(b.1)));
        let et = lo + (hi - lo) * g.range(0.02, 0.98);
        if hi - lo > 1.0 {
            let jd = JulianDate::new(2_451_545.0 + et / 86400.0);
            let et = tt_to_et(jd.raw().value());
            let (su, em, mo) = (first[0].states(et), first[1].states(et), first[2].states(et));
            let off = match earth { Some(e) => e.states(et), None => comb(&[[0.0; 6]], &mo, -1.0 / EMRAT) };
            let bary = comb(&em, &off, 1.0);
            let moon = if earth.is_some() { comb(&mo, &off, -1.0) } else { mo.iter().map(|s| s.map(|x| x * (1.0 + 1.0 / EMRAT))).collect() };
            macro_rules! v { ($p:expr) => { $p.map(|p| [p.x().value(), p.y().value(), p.z().value()]) } }
            for (nm, got, want, unit) in [("earth", v!(re.try_earth_barycentric(jd)), &bary, AU), ("helio", v!(re.try_earth_heliocentric(jd)), &comb(&bary, &su, -1.0), AU), ("moon", v!(re.try_moon_geocentric(jd)), &moon, 1.0)] {
                run.eval("legacy-chain", (et.to_bits(), nm));
                match got {
                    Ok(q) => { let e = want.iter().map(|s| norm(sub(scale(mv(&r1(84381.406f64 / 3600.0 * std::f64::consts::PI / 180.0), [s[0], s[1], s[2]]), 1.0 / unit), q))).fold(f64::INFINITY, f64::min); run.within("legacy/chain", e, 4.0 * (ptol + 3e-7 * w.vel) / unit + norm(q) * 3e-7, || format!("{nm} {}", info())); }
                    Err(e) => { run.violation("legacy/chain-coverage", &format!("{nm} et={et} within [{lo}, {hi}]: {e} {}", info())); }
                }
            }
        }
    }
}
/// the span a segment may be used for: its records, cut to the range its summary declares
fn cover(s: &Seg) -> (f64, f64) { let (a, e) = s.extent(); (a.max(s.start), e.min(s.end)) }
/// interpolation through many records amplifies rounding
fn disc_slack(w: &World) -> f64 { if w.segs.iter().any(|s| matches!(s.body, Body::Disc { .. })) { 1e3 } else { 1.0 } }
#[allow(non_camel_case_types)]
type affn_disp = siderust::coordinates::cartesian::Displacement<ICRF, siderust::qtty::Kilometer>;

/// chains that loop must be refused, not followed for ever
fn cycles(run: &Run, g: &mut Rng) {
    let mut segs = vec![];
    for (t, c) in [(3, 301), (301, 3), (10, 399), (399, 10)] { segs.push(cheb_seg(g, t, c, 0.0, 86400.0 * 100.0, 1e5, 3)); }
    let wr = Writer { big: false, per_record: 25, gap: 0, locator: b"DAF/SPK " };
    let b = wr.spk(&segs);
    let mut s = SpkKernelSet::default();
    s.push_bytes(&b).unwrap();
    let jd = JulianDate::new(2_451_545.0 + g.range(1.0, 99.0));
    for (t, c) in [(3, 0), (301, 0), (399, 0), (10, 301)] {
        run.eval("cycle", (t, c, jd.raw().value().to_bits()));
        if let Some(r) = run.no_panic("panic/cycle", || format!("{t} {c}"), || s.try_geometric_state(t, c, jd)) { run.check(r.is_err(), "cycle/accepted", || format!("{t} {c}")); }
        let k = SpkKernel::from_bytes(b.clone()).unwrap();
        if let Some(r) = run.no_panic("panic/cycle", || format!("{t} {c}"), || k.state(t, 0, 86400.0)) { run.check(r.is_err(), "cycle/accepted", || format!("{t} {c}")); }
    }
}

fn main() {
    let mut run = Run::new("C06", "state = sum of the last covering segments along the target-centre chain, evaluated independently; uncovered epochs are refused");
    run.assume("segments of one target share one centre (a tree), as in published kernels");
    for k in ["little-endian", "big-endian", "geometric-state", "runtime-ephemeris", "planet-geocentric", "cycle", "legacy-loader", "typed-state", "files"] { run.require(k, 30); }
    let n = run.size(40_000, 400_000);
    let r = &run;
    run.par("panic", n, |i| { let mut g = r.rng_i("c06", i); one(r, i, &mut g); if i % 20 == 0 { cycles(r, &mut g); } });
    run.finish()
}
