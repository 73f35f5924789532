//! C23: star catalog ingestion, propagation and cone searches.
use siderust::catalogs::*;
use siderust::qtty::{KmPerSeconds, MilliArcseconds, Radians};
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use vh::{Rng, Run};

fn vec3(ra: f64, dec: f64) -> [f64; 3] { let (s, c) = dec.sin_cos(); [c * ra.cos(), c * ra.sin(), s] }
fn angle(a: [f64; 3], b: [f64; 3]) -> f64 {
    let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    x.iter().map(|v| v * v).sum::<f64>().sqrt().atan2((0..3).map(|i| a[i] * b[i]).sum())
}
fn case(g: &mut Rng, s: &str) -> String { s.chars().map(|c| if g.p(0.3) { c.to_ascii_uppercase() } else { c }).collect() }
fn ws(g: &mut Rng) -> String { " ".repeat(if g.p(0.7) { 0 } else { g.n(4) }) }
const MAS: f64 = PI / 648_000_000.0;

fn star(g: &mut Rng, near: [f64; 2], spread: f64) -> CatalogRecord {
    let opt = |g: &mut Rng, a: f64, b: f64| g.p(0.8).then(|| g.range(a, b));
    let (ra, dec) = match g.n(8) {
        0 => (g.range(0.0, TAU), (FRAC_PI_2 - g.log(1e-9, 0.1)) * if g.p(0.5) { 1.0 } else { -1.0 }),
        1 => (g.log(1e-9, 0.01) * if g.p(0.5) { 1.0 } else { -1.0 }, g.range(-1.5, 1.5)),
        2 | 3 => (g.range(0.0, TAU), g.range(-1.0, 1.0).asin()),
        4 => (near[0] + PI, -near[1]),
        _ => { let (t, r) = (g.range(0.0, TAU), spread * g.range(0.0, 1.5)); let d = (near[1] + r * t.sin()).clamp(-FRAC_PI_2, FRAC_PI_2); (near[0] + r * t.cos() / d.cos().max(0.05), d) }
    };
    let big = if g.p(0.1) { 1e6 } else if g.p(0.3) { 1e4 } else { 300.0 };
    CatalogRecord {
        source_id: g.u64(), ra: Radians::new(ra), dec: Radians::new(dec), epoch_jyr: *g.pick(&[1991.25, 2000.0, 2015.5, 2016.0]),
        pm_ra_cosdec: opt(g, -big, big), pm_dec: opt(g, -big, big), parallax: opt(g, 0.0, 800.0).map(MilliArcseconds::new), radial_velocity: opt(g, -400.0, 400.0).map(KmPerSeconds::new),
        g_mag: opt(g, -1.5, 21.0), bp_mag: opt(g, 0.0, 21.0), rp_mag: opt(g, 0.0, 21.0), quality_ok: g.p(0.7),
    }
}
/// Where the star is at an epoch under linear motion in both angles, as a direction.
fn moved(r: &CatalogRecord, t: f64) -> [f64; 3] {
    match (r.pm_ra_cosdec, r.pm_dec) {
        (Some(a), Some(d)) => { let dt = t - r.epoch_jyr; vec3(r.ra.value() + a * MAS * dt / r.dec.value().cos(), r.dec.value() + d * MAS * dt) }
        _ => vec3(r.ra.value(), r.dec.value()),
    }
}

fn search(run: &Run, g: &mut Rng) {
    let c = match g.n(5) { 0 => [g.range(0.0, TAU), if g.p(0.5) { FRAC_PI_2 } else { -FRAC_PI_2 }], 1 => [g.log(1e-9, 0.01) * if g.p(0.5) { 1.0 } else { -1.0 }, g.range(-1.5, 1.5)], _ => [g.range(-PI, TAU), g.range(-1.0, 1.0).asin()] };
    let radius = match g.n(6) { 0 => PI, 1 => g.range(1.0, PI), 2 => 0.0, _ => g.log(1e-6, 1.5) };
    let n = g.len(40, 1500);
    let stars: Vec<CatalogRecord> = (0..n).map(|_| star(g, c, radius.max(1e-6))).collect();
    let mut cat = LargeStarCatalog::new();
    run.check(cat.is_empty() && cat.len() == 0, "catalog/empty", String::new);
    let k = g.n(n + 1);
    for s in &stars[..k] { cat.push(s.clone()) }
    cat.extend(stars[k..].iter().cloned());
    run.check(cat.len() == n && cat.is_empty() == (n == 0) && cat.records() == &stars[..], "catalog/records", || format!("{} of {n}", cat.len()));
    let f = CatalogFilter { max_g_mag: g.p(0.4).then(|| if n > 0 && g.p(0.3) { stars[g.n(n)].g_mag.unwrap_or(9.0) } else { g.range(0.0, 21.0) }), require_quality: g.p(0.4).then(|| g.p(0.5)) };
    let cv = vec3(c[0], c[1]);
    let want = |v: &dyn Fn(&CatalogRecord) -> [f64; 3]| -> Vec<Option<bool>> {
        stars.iter().map(|s| {
            if f.max_g_mag.is_some_and(|m| !s.g_mag.is_some_and(|x| x <= m)) || f.require_quality.is_some_and(|q| q != s.quality_ok) { return Some(false) }
            let d = angle(v(s), cv);
            // too close to the rim (square-root loss near the antipode) to call
            let slack = if d > 3.13 { 1e-6 } else if d > 3.0 { 1e-10 } else { 1e-11 };
            if radius < PI && (d - radius).abs() < slack { None } else { Some(d <= radius) }
        }).collect()
    };
    let verify = |sig: &str, got: Vec<&CatalogRecord>, want: Vec<Option<bool>>, note: String| {
        let mut at = got.iter().peekable();
        let mut hits = 0;
        for (s, w) in cat.records().iter().zip(&want) {
            let found = at.peek().is_some_and(|x| std::ptr::eq(**x, s));
            if found { at.next(); hits += 1 }
            if w.is_some_and(|w| w != found) {
                run.violation(sig, &format!("{} star at {:?} {:?} from centre {c:?}, radius {radius}, filter {f:?} {note}", if found { "returned" } else { "lost" }, s.ra, s.dec));
                return;
            }
        }
        run.count("stars returned", hits);
        run.count("stars kept out", n as u64 - hits);
        run.check(at.next().is_none(), sig, || format!("records repeated or out of catalog order {note}"));
    };
    run.eval("search", (c[0].to_bits(), radius.to_bits(), n));
    let (ra, dec, rad) = (Radians::new(c[0]), Radians::new(c[1]), Radians::new(radius));
    let all = cat.cone_search(ra, dec, rad, f);
    verify("search/cone", all.clone(), want(&|s| vec3(s.ra.value(), s.dec.value())), String::new());
    let size = g.n(n + 3);
    let parts: Vec<Vec<&CatalogRecord>> = cat.cone_search_chunked(ra, dec, rad, f, size).collect();
    let joined: Vec<&CatalogRecord> = parts.iter().flatten().copied().collect();
    run.check(joined.len() == all.len() && joined.iter().zip(&all).all(|(a, b)| std::ptr::eq(*a, *b)), "search/chunked", || format!("chunks of {size}: {} vs {}", joined.len(), all.len()));
    run.check(parts.iter().all(|p| p.len() <= size.max(1)) && parts.len() == n.div_ceil(size.max(1)), "search/chunks", || format!("{} chunks of {size} from {n}", parts.len()));
    let t = 2000.0 + g.range(-200.0, 200.0);
    let ok = stars.iter().all(|s| (s.dec.value().abs() - FRAC_PI_2).abs() > 1e-6);
    if ok { verify("search/epoch", cat.cone_search_at_epoch(ra, dec, rad, t, f), want(&|s| moved(s, t)), format!("at {t}")); }
    for s in &stars {
        let (a, d) = s.propagate_to(t);
        run.eval("motion", (s.source_id, t.to_bits()));
        if (s.dec.value().abs() - FRAC_PI_2).abs() < 1e-6 || s.pm_dec.is_some_and(|m| (m * MAS * (t - s.epoch_jyr)).abs() > 1.5) { continue }
        run.within("motion/direction", angle(vec3(a.value(), d.value()), moved(s, t)), 1e-11 / s.dec.value().cos().max(1e-3), || format!("{s:?} to {t}: {a:?} {d:?}"));
        let still = s.pm_dec.is_none() || s.pm_ra_cosdec.is_none();
        run.check(if still { a == s.ra && d == s.dec } else { (0.0..=TAU).contains(&a.value()) && d.value().abs() <= FRAC_PI_2 }, "motion/range", || format!("{s:?} to {t}: {a:?} {d:?}"));
        let (a0, d0) = s.propagate_to(s.epoch_jyr);
        run.within("motion/start", angle(vec3(a0.value(), d0.value()), vec3(s.ra.value(), s.dec.value())), 1e-15 * 20.0, || format!("{s:?}"));
        // a slow star away from the poles moves by the stated rate along the stated directions
        if let (Some(ma), Some(md)) = (s.pm_ra_cosdec, s.pm_dec) {
            if s.dec.value().abs() < 1.2 && ma.hypot(md) < 500.0 {
                let want = ma.hypot(md) * MAS * (t - s.epoch_jyr).abs();
                run.within("motion/size", (angle(vec3(a.value(), d.value()), vec3(s.ra.value(), s.dec.value())) - want).abs(), 3.0 * want * want + 1e-13, || format!("{s:?} to {t}, moved {want}"));
            }
        }
    }
}

// ── Reading ──────────────────────────────────────────────────────────────
const COLS: [&str; 12] = ["source_id", "ra", "dec", "epoch", "pmra", "pmdec", "parallax", "radial_velocity", "g_mag", "bp_mag", "rp_mag", "quality"];
fn ingest(run: &Run, g: &mut Rng) {
    let mut cols: Vec<&str> = COLS.iter().enumerate().filter(|(i, _)| *i < 4 || g.p(0.8)).map(|(_, c)| *c).collect();
    for _ in 0..g.n(3) { cols.push(*g.pick(&["name", "hip", "ra_error", "dec_error", "bp_rp", "epoch_ref"])) }
    for i in (1..cols.len()).rev() { let j = g.n(i + 1); cols.swap(i, j) }
    let nl = if g.p(0.3) { "\r\n" } else { "\n" };
    let pad = |g: &mut Rng, s: &str| format!("{}{s}{}", ws(g), ws(g));
    let (mut doc, mut line) = (String::new(), 0usize);
    let junk = |g: &mut Rng, doc: &mut String, line: &mut usize| while g.p(0.2) { *doc += &format!("{}{nl}", *g.pick(&["# source_id,ra", "", "   ", "  # note", "#"])); *line += 1; };
    junk(g, &mut doc, &mut line);
    let head: Vec<String> = cols.iter().map(|c| { let c = case(g, c); pad(g, &c) }).collect();
    doc += &head.join(","); doc += nl; line += 1;
    let mut want: Vec<CatalogRecord> = vec![];
    let rows = g.len(8, 300);
    let fault = g.p(0.4).then(|| g.n(rows.max(1))).filter(|_| rows > 0);
    let mut broken: Option<(usize, &str, bool)> = None;
    for r in 0..rows {
        junk(g, &mut doc, &mut line);
        line += 1;
        let mut s = star(g, [1.0, 0.3], 0.5);
        let deg = [g.range(-1.0, 361.0), g.range(-90.0, 90.0)];
        s.ra = Radians::new(deg[0].to_radians()); s.dec = Radians::new(deg[1].to_radians());
        let q = g.p(0.8).then(|| *g.pick(&["1", "true", "OK", "ok", "True", "0", "false", "bad"]));
        s.quality_ok = q.is_none_or(|q| ["1", "true", "ok"].contains(&q.to_lowercase().as_str()));
        let has = |c: &str| cols.contains(&c);
        if !has("pmra") { s.pm_ra_cosdec = None } if !has("pmdec") { s.pm_dec = None } if !has("parallax") { s.parallax = None } if !has("radial_velocity") { s.radial_velocity = None }
        if !has("g_mag") { s.g_mag = None } if !has("bp_mag") { s.bp_mag = None } if !has("rp_mag") { s.rp_mag = None } if !has("quality") { s.quality_ok = true }
        let o = |v: Option<f64>| v.map(|x| format!("{x:e}")).unwrap_or_default();
        let mut cells: Vec<String> = cols.iter().map(|c| match *c {
            "source_id" => s.source_id.to_string(), "ra" => deg[0].to_string(), "dec" => deg[1].to_string(), "epoch" => s.epoch_jyr.to_string(), "pmra" => o(s.pm_ra_cosdec), "pmdec" => o(s.pm_dec),
            "parallax" => o(s.parallax.map(|x| x.value())), "radial_velocity" => o(s.radial_velocity.map(|x| x.value())), "g_mag" => o(s.g_mag), "bp_mag" => o(s.bp_mag), "rp_mag" => o(s.rp_mag), "quality" => q.unwrap_or("").to_string(), _ => "foreign".into(),
        }).collect();
        if fault == Some(r) {
            let i = loop { let i = g.n(cols.len()); if COLS[..11].contains(&cols[i]) { break i } };
            let must = COLS[..4].contains(&cols[i]);
            if must && g.p(0.5) { cells[i].clear(); broken = Some((line, cols[i], true)) } else {
                cells[i] = if cols[i] == "source_id" { (*g.pick(&["-5", "1.5", "18446744073709551616", "x", "1e5"])).into() } else { (*g.pick(&["1.2.3", "x", "1,5x", "--1", "12:30", "1d3"])).replace(',', ";") };
                broken = Some((line, cols[i], false));
            }
        }
        // trailing empty cells may be left out
        if g.p(0.3) { while cells.len() > 1 && cells.last().is_some_and(|c| c.is_empty()) { cells.pop(); } }
        let cells: Vec<String> = cells.iter().map(|c| pad(g, c)).collect();
        let text = cells.join(",");
        doc += &text; doc += nl;
        want.push(s);
    }
    run.eval(if broken.is_some() { "csv/fault" } else { "csv/read" }, &doc);
    match (parse_csv_chunk(&doc), broken) {
        (Ok(v), None) => { run.check(v == want, "csv/read", || format!("{v:?}\nwant {want:?}\n{doc}")); }
        (Err(CatalogIngestError::MissingColumn { column, line }), Some((l, c, true))) => { run.check(column == c && line == l, "csv/where", || format!("{column} line {line}, broken {c} line {l}\n{doc}")); }
        (Err(CatalogIngestError::InvalidNumber { column, line, .. }), Some((l, c, false))) => { run.check(column == c && line == l, "csv/where", || format!("{column} line {line}, broken {c} line {l}\n{doc}")); }
        (r, b) => run.violation("csv/fault-accepted", &format!("{:?} for fault {b:?}\n{doc}", r.map(|v| v.len()))),
    }
}

fn main() {
    let mut run = Run::new("C23", "an independent vector-algebra scan of the same records decides which stars a search has to return");
    run.assume("stars closer than 1e-11 rad to the rim of a cone (1e-6 near the antipode) may fall on either side; motions below 85 degrees; numbers in the table are finite");
    let n = run.size(60_000, 3_000_000);
    run.par("search", n, |k| { let mut g = run.rng_i("search", k); search(&run, &mut g) });
    run.par("ingest", n, |k| { let mut g = run.rng_i("ingest", k); ingest(&run, &mut g) });
    for k in ["search", "motion", "csv/read", "csv/fault"] { run.require(k, 1000); }
    run.finish();
}
