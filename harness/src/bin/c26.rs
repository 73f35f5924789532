//! C26: products of an orbit determination run - orbit files, residual tables, reports, manifests, names, digests.
use parquet::file::reader::{FileReader, SerializedFileReader};
use parquet::record::RowAccessor;
use siderust::astro::dynamics::state::{SpacecraftProperties, SpacecraftState};
use siderust::astro::dynamics::{OrbitState, Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::formats::ccsds::oem::read_oem;
use siderust::formats::igs::sp3::{read_sp3, Sp3Stream};
use siderust::pod::observation::batch::ObservationBatch;
use siderust::pod::observation::error::PodObservationsError;
use siderust::pod::observation::obs_trait::{AnyObservation, CartesianState, ObsResidual, ObsType};
use siderust::pod::observation::provider_bundle::{NullProviderBundle, ProviderBundle};
use siderust::pod::problem::arc::{ArcDefinition, ArcId};
use siderust::pod::product::manifest::ManifestWriter;
use siderust::pod::product::naming::*;
use siderust::pod::product::orbit::*;
use siderust::pod::product::qc_json::{write_qc_json, QcDocument};
use siderust::pod::product::residuals_csv::{ResidualCsvWriter, ResidualRecord};
use siderust::pod::product::residuals_parquet::ResidualParquetWriter;
use siderust::pod::run::dataset::DatasetRef;
use siderust::pod::run::manifest::RunManifest;
use siderust::qtty::{Meter, Quantity, Second};
use siderust::time::JulianDate;
use std::cell::RefCell;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use vh::docs::*;
use vh::{earthref, Rng, Run};

// ── SHA-256 from its definition: constants are fractional parts of roots of primes ──
fn root_frac(p: u64, k: u32) -> u32 {
    // floor(p^(1/k) * 2^32) mod 2^32 by integer bisection
    let (mut lo, mut hi) = (0u128, 1u128 << 36);
    let le = |x: u128| -> bool {
        // x^k <= p * 2^(32k), x < 2^36, k <= 3 so x^k < 2^108
        x.pow(k) <= (p as u128) << (32 * k)
    };
    while hi - lo > 1 { let m = (lo + hi) / 2; if le(m) { lo = m } else { hi = m } }
    lo as u32
}
fn sha256(data: &[u8]) -> String {
    let primes: Vec<u64> = (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|&p| root_frac(p, 2)).collect();
    let k: Vec<u32> = primes.iter().map(|&p| root_frac(p, 3)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0) }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let (x, y) = (w[i - 15], w[i - 2]);
            let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
            let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let e = v[4];
            let t1 = v[7].wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & v[5]) ^ (!e & v[6])).wrapping_add(k[i]).wrapping_add(w[i]);
            let a = v[0];
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}

/// Sink that records every write and flush and fails once `limit` bytes have been taken.
#[derive(Clone, Default)]
struct Sink { buf: Rc<RefCell<Vec<u8>>>, flushed: Rc<RefCell<usize>>, limit: Option<usize>, chunk: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut v = self.buf.borrow_mut();
        let mut n = b.len();
        if self.chunk > 0 { n = n.min(self.chunk) }
        if let Some(l) = self.limit { if v.len() >= l && !b.is_empty() { return Err(std::io::Error::other("device full")) } n = n.min(l - v.len()); }
        v.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { *self.flushed.borrow_mut() = self.buf.borrow().len(); Ok(()) }
}

struct Arc { states: Vec<OrbitState>, tt: Vec<f64>, step: f64 }
const J2000_UNIX_DAYS: f64 = 10_957.5;
fn arc(g: &mut Rng, big: bool) -> Arc {
    loop {
        // whole seconds of UTC or of TT, or anything
        let base = g.range(-7.5e8, 1.8e9);
        let t0 = match g.n(3) { 0 => base.round(), 1 => base.round() + 0.184, _ => base };
        let step = *g.pick(&[1.0, 10.0, 30.0, 60.0, 300.0, 900.0, 86_400.0, 0.5, 1e-1]);
        let n = 1 + g.len(20, 400);
        let tt: Vec<f64> = (0..n).map(|i| t0 + step * i as f64).collect();
        let jd = |t: f64| 2_451_545.0 + t / 86_400.0;
        let (a, b) = (jd(tt[0]), jd(tt[n - 1]));
        // keep clear of inserted seconds and of dates whose offset nobody knows yet
        if b > 2_461_000.0 + 20_000.0 || earthref::leap(a - 0.01) != earthref::leap(b + 0.01) { continue }
        let hi = if big { *g.pick(&[8_000.0, 45_000.0, 450_000.0, 999_999.0]) } else { 45_000.0 };
        let states = tt.iter().map(|&t| {
            let mut c = || mag(g, 1e-6, hi) ;
            let (x, y, z) = (c(), c(), c());
            let mut v = || mag(g, 1e-9, 12.0);
            let (u, w, q) = (v(), v(), v());
            OrbitState::new(siderust::time::Time::<siderust::time::TT>::from_raw_j2000_seconds(Second::new(t)).unwrap(), Position::<GCRS>::new(x, y, z), Velocity::<GCRS>::new(u, w, q))
        }).collect();
        return Arc { states, tt, step };
    }
}
fn pv(s: &OrbitState) -> ([f64; 3], [f64; 3]) { ([s.position.x().value(), s.position.y().value(), s.position.z().value()], [s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()]) }
/// civil fields read as seconds since J2000 of their own scale
fn civ_s(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: f64) -> f64 { ((days(y, mo, d) as f64 - J2000_UNIX_DAYS) * 86_400.0) + (h * 3600 + mi * 60) as f64 + s }
/// TT seconds since J2000 of a time tag in the declared system
fn to_tt(sys: &str, t: f64) -> Option<f64> {
    Some(match sys {
        "TT" => t, "TAI" => t + 32.184, "GPS" | "GAL" | "QZS" | "IRN" => t + 51.184, "BDT" => t + 65.184,
        "UTC" | "GLO" => t + 32.184 + earthref::leap(2_451_545.0 + t / 86_400.0),
        _ => return None,
    })
}
fn f(l: &str, a: usize, b: usize) -> Result<f64, String> { let s = l.get(a - 1..b.min(l.len())).unwrap_or(""); s.trim().parse::<f64>().map_err(|e| format!("columns {a}-{b} {s:?} of {l:?}: {e}")) }
fn sid(g: &mut Rng) -> String { format!("{}{:02}", g.pick(&['L', 'G', 'E', 'R', 'C']), g.n(100)) }

/// Read an SP3 document by the published columns alone.
fn sp3_columns(doc: &str, id: &str, a: &Arc) -> Result<(), (&'static str, String)> {
    let ls: Vec<&str> = doc.lines().collect();
    let e = |s: &'static str| move |m: String| (s, m);
    let h = ls.first().copied().unwrap_or("");
    if !h.starts_with('#') || h.as_bytes().get(2) != Some(&b'P') { return Err(("header", format!("first line {h:?}"))) }
    let g = |x, y| f(h, x, y).map_err(e("header"));
    let start = civ_s(g(4, 7)? as i64, g(9, 10)? as i64, g(12, 13)? as i64, g(15, 16)? as i64, g(18, 19)? as i64, g(21, 31)?);
    if g(33, 39)? != a.tt.len() as f64 { return Err(("header", format!("{} epochs announced, {} written: {h:?}", g(33, 39)?, a.tt.len()))) }
    let frame = h.get(46..51).unwrap_or("").trim();
    if frame.starts_with("IGS") || frame.starts_with("ITR") || frame.starts_with("WGS") { return Err(("header-frame", format!("inertial positions announced as {frame:?}"))) }
    let l2 = ls.get(1).copied().unwrap_or("");
    let g = |x, y| f(l2, x, y).map_err(e("header"));
    if !l2.starts_with("##") { return Err(("header", format!("second line {l2:?}"))) }
    let week = (g(4, 7)? * 7.0 + 44_244.0 - 51_544.5) * 86_400.0 + g(9, 23)?;
    let mjd = (g(40, 44)? - 51_544.5 + g(46, 60)?) * 86_400.0;
    if (week - start).abs() > 1e-4 || (mjd - start).abs() > 1e-4 { return Err(("header", format!("start {start}, week and second {week}, day and fraction {mjd} (s from J2000)\n{h}\n{l2}"))) }
    if a.tt.len() > 1 && (g(25, 38)? - a.step).abs() > 1e-4 { return Err(("header", format!("interval {} of states every {} s", g(25, 38)?, a.step))) }
    let sys = ls.iter().find(|l| l.starts_with("%c")).and_then(|l| l.get(9..12)).unwrap_or("");
    let tt = |t: f64| to_tt(sys, t).ok_or(("header", format!("time system {sys:?}")));
    if (tt(start)? - a.tt[0]).abs() > 1.5e-4 { return Err(("header-start", format!("header starts at {start} {sys} = TT {}, first state {}", tt(start)?, a.tt[0]))) }
    let sats = ls.iter().find(|l| l.starts_with("+ ")).copied().unwrap_or("");
    if f(sats, 4, 6).ok() != Some(1.0) || sats.get(9..12) != Some(id) { return Err(("header", format!("satellite list {sats:?}"))) }
    let body: Vec<&str> = ls.iter().copied().skip_while(|l| !l.starts_with("* ")).collect();
    if body.len() != 2 * a.tt.len() + 1 || body.last() != Some(&"EOF") { return Err(("body", format!("{} lines for {} states, last {:?}", body.len(), a.tt.len(), body.last()))) }
    for (i, s) in a.states.iter().enumerate() {
        let (l, p) = (body[2 * i], body[2 * i + 1]);
        let g = |x, y| f(l, x, y).map_err(e("body"));
        let t = civ_s(g(4, 7)? as i64, g(9, 10)? as i64, g(12, 13)? as i64, g(15, 16)? as i64, g(18, 19)? as i64, g(21, 31)?);
        if (tt(t)? - a.tt[i]).abs() > 1.5e-4 { return Err(("epochs", format!("{l:?} ({sys}) is TT {} s, state {i} is at {}", tt(t)?, a.tt[i]))) }
        if p.get(..4) != Some(&format!("P{id}")) { return Err(("body", format!("record {p:?}"))) }
        for (k, w) in pv(s).0.iter().enumerate() {
            let v = f(p, 5 + 14 * k, 18 + 14 * k).map_err(e("position-columns"))?;
            if (v - w).abs() > 5.1e-7 { return Err(("position-columns", format!("axis {k} reads {v}, state has {w}: {p:?}"))) }
        }
        if f(p, 47, 60).map_err(e("position-columns"))? < 999_999.0 { return Err(("clock", format!("a clock offset nobody estimated: {p:?}"))) }
    }
    Ok(())
}
fn craft(a: &Arc) -> Vec<SpacecraftState> { a.states.iter().map(|s| SpacecraftState { orbit: *s, properties: SpacecraftProperties::demo_leo() }).collect() }

fn orbit_products(run: &Run, g: &mut Rng, dir: &Path, k: usize) {
    let a = arc(g, true);
    let id = sid(g);
    run.eval("sp3", (&id, a.tt.len(), a.tt[0].to_bits()));
    // a value too wide for its columns may only be refused
    let wide = a.states.iter().any(|s| pv(s).0.iter().any(|x| format!("{x:.6}").len() > 14));
    let mut b = vec![];
    match write_sp3_from_states(&mut b, &id, &a.states) {
        Err(e) => { run.check(wide, "sp3/refused", || format!("{e}")); }
        Ok(()) => {
            let doc = String::from_utf8(b.clone()).unwrap();
            if let Err((w, m)) = sp3_columns(&doc, &id, &a) { run.violation(&format!("sp3/{w}"), &format!("{m}\n{}", doc.chars().take(1500).collect::<String>())); }
            let stream = || -> Option<Vec<_>> { let mut s = Sp3Stream::new(&b[..]).ok()?; let mut v = vec![]; while let Some(e) = s.next_epoch().ok()? { v.push(e) } Some(v) };
            match (read_sp3(&b[..]), stream()) {
                (Ok(r), Some(st)) => {
                    run.check(r.epochs == st, "sp3/stream-differs", || doc.clone());
                    run.check(r.epochs.len() == a.states.len() && r.epochs.iter().zip(&a.states).all(|(e, s)| e.positions.len() == 1 && e.positions[0].sat_id == id && [e.positions[0].position.x(), e.positions[0].position.y(), e.positions[0].position.z()].iter().zip(pv(s).0).all(|(v, w)| (v.value() - w).abs() < 5.1e-7)), "sp3/read-back", || doc.clone());
                }
                (r, s) => { run.violation("sp3/read-back", &format!("{:?} stream {}\n{doc}", r.err(), s.is_some())); }
            }
            let path = dir.join(format!("p{k}.sp3"));
            run.eval("sp3/file", k as u64);
            let r = Sp3ProductWriter::new(id.clone()).write_from_states(&path, &craft(&a));
            run.check(r.is_ok() && std::fs::read(&path).is_ok_and(|f| f == b), "sp3/file", || format!("{:?}", r.as_ref().err()));
        }
    }
    // OEM
    let (oid, name) = (format!("{}-{:03}A", g.int(1960, 2040), g.n(1000)), word(g, 12));
    let mut b = vec![];
    run.eval("oem", (&oid, a.tt.len(), a.tt[0].to_bits()));
    if let Err(e) = write_oem_from_states(&mut b, &oid, &name, &a.states) { run.violation("oem/refused", &format!("{e}")); return }
    match read_oem(&b[..]) {
        Ok(o) => {
            let doc = String::from_utf8_lossy(&b).to_string();
            let s = &o.segments[0];
            run.check(o.segments.len() == 1 && s.states.len() == a.states.len(), "oem/structure", || doc.clone());
            run.check(s.metadata.object_id == oid && s.metadata.object_name == name && s.metadata.center_name == "EARTH" && ["EME2000", "GCRF", "GCRS"].contains(&s.metadata.ref_frame.as_str()), "oem/metadata", || doc.clone());
            for (i, (r, w)) in s.states.iter().zip(&a.states).enumerate() {
                let t = to_tt(&s.metadata.time_system, (r.epoch_jd - 2_451_545.0) * 86_400.0).unwrap_or(f64::NAN);
                run.within("oem/epochs", (t - a.tt[i]).abs(), 1.5e-4, || doc.clone());
                let (p, v) = pv(w);
                run.check((0..3).all(|k| (r.position_km[k] - p[k]).abs() < 5.1e-7 && (r.velocity_km_s[k] - v[k]).abs() < 5.1e-10), "oem/states", || format!("{w:?}\n{doc}"));
            }
            // span announced in the metadata
            let tag = |k: &str| doc.lines().find(|l| l.starts_with(k)).and_then(|l| l.split('=').nth(1)).map(|v| v.trim().to_string()).unwrap_or_default();
            let data: Vec<&str> = doc.lines().skip_while(|l| *l != "META_STOP").skip(1).filter(|l| !l.trim().is_empty()).collect();
            run.check(data.first().is_some_and(|l| l.split(' ').next() == Some(&tag("START_TIME"))) && data.last().is_some_and(|l| l.split(' ').next() == Some(&tag("STOP_TIME"))), "oem/span", || doc.clone());
        }
        Err(e) => { run.violation("oem/read-back", &format!("{e}")); }
    }
    let mut c = vec![];
    write_oem_from_spacecraft_states(&mut c, &oid, &name, &craft(&a)).ok();
    run.check(c == b, "oem/spacecraft-states", || String::from_utf8_lossy(&c).to_string());
    let path = dir.join(format!("p{k}.oem"));
    let r = OemProductWriter::new(oid.clone(), name.clone()).write_from_states(&path, &craft(&a));
    run.check(r.is_ok() && std::fs::read(&path).is_ok_and(|f| f == b), "oem/file", || format!("{:?}", r.as_ref().err()));
    let gone = dir.join("no-such-dir").join("x");
    run.eval("file/unwritable", k as u64);
    run.check(Sp3ProductWriter::new(id.clone()).write_from_states(&gone, &craft(&a)).is_err() && OemProductWriter::new(oid.clone(), name.clone()).write_from_states(&gone, &craft(&a)).is_err(), "file/unwritable-accepted", String::new);
    if !wide {
        // a device that fills up is reported, whatever the writer
        let full = |w: &mut dyn FnMut(&mut Sink) -> bool, what: &str, g: &mut Rng| {
            let mut s = Sink { chunk: g.n(40), ..Sink::default() };
            if !w(&mut s) { run.violation(&format!("sink/{what}-failed"), "an unlimited sink was refused"); return }
            let whole = s.buf.borrow().clone();
            let limit = g.n(whole.len());
            let mut s = Sink { limit: Some(limit), chunk: g.n(40), ..Sink::default() };
            run.eval("sink/full", (what, limit));
            let ok = w(&mut s);
            run.check(!ok, &format!("sink/{what}-truncated"), || format!("success reported although only {} of {} bytes were taken", s.buf.borrow().len(), whole.len()));
            run.check(whole.starts_with(&s.buf.borrow()), &format!("sink/{what}-prefix"), String::new);
        };
        full(&mut |s| write_sp3_from_states(s, &id, &a.states).is_ok(), "sp3", g);
        full(&mut |s| write_oem_from_states(s, &oid, &name, &a.states).is_ok(), "oem", g);
        let recs: Vec<ResidualRecord> = (0..3).map(|_| rec(g)).collect();
        full(&mut |s| ResidualCsvWriter::new(s).is_ok_and(|mut w| recs.iter().all(|r| w.write_record(r).is_ok())), "csv", g);
        let m = manifest(g);
        full(&mut |s| ManifestWriter::write(s, &m).is_ok(), "manifest", g);
        let d = qc(g);
        full(&mut |s| write_qc_json(s, &d).is_ok(), "qc", g);
    }
}

fn rec(g: &mut Rng) -> ResidualRecord {
    ResidualRecord { epoch_jd_tt: 2_440_000.5 + g.range(0.0, 40_000.0), obs_type: format!("{}{}", g.pick(&["code", "phase", "range", "doppler", "L1C", "DORIS"]), if g.p(0.3) { word(g, 4) } else { String::new() }), satellite: sid(g), residual_m: mag(g, 1e-9, 1e5), sigma_m: g.log(1e-4, 1e3), rejected: g.p(0.3) }
}
/// RFC 4180 rows.
fn csv_rows(t: &str) -> Vec<Vec<String>> {
    let (mut rows, mut row, mut f, mut quoted) = (vec![], vec![], String::new(), false);
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' if quoted && it.peek() == Some(&'"') => { it.next(); f.push('"') }
            '"' if quoted || f.is_empty() => quoted = !quoted,
            ',' if !quoted => row.push(std::mem::take(&mut f)),
            '\n' if !quoted => { if f.ends_with('\r') { f.pop(); } row.push(std::mem::take(&mut f)); rows.push(std::mem::take(&mut row)) }
            c => f.push(c),
        }
    }
    rows
}
fn tables(run: &Run, g: &mut Rng, dir: &Path, k: usize) {
    let mut recs: Vec<ResidualRecord> = (0..g.len(30, 3000)).map(|_| rec(g)).collect();
    for r in recs.iter_mut() {
        if g.p(0.1) {
            let t = *g.pick(&["A,B", "say \"L1\"", "\"", ",", "two\nlines", "a, \"b\",c", "\r\n"]);
            if g.p(0.5) { r.satellite = t.into() } else { r.obs_type = t.into() }
            run.eval("csv/awkward", (t, r.residual_m.to_bits()));
        }
    }
    run.eval("csv", (recs.len(), k as u64));
    let s = Sink { chunk: g.n(9), ..Sink::default() };
    let Ok(mut w) = ResidualCsvWriter::new(s.clone()) else { run.violation("csv/header", "refused"); return };
    for (i, r) in recs.iter().enumerate() {
        run.check(w.write_record(r).is_ok(), "csv/refused", || format!("{r:?}"));
        // a run that dies now leaves every record written so far behind
        let out = s.buf.borrow()[..*s.flushed.borrow()].to_vec();
        run.check(out.ends_with(b"\n") && csv_rows(&String::from_utf8_lossy(&out)).len() == i + 2, "csv/not-durable", || format!("after record {i}: {:?}", String::from_utf8_lossy(&out)));
    }
    let text = String::from_utf8(s.buf.borrow().clone()).unwrap();
    let mut rows = csv_rows(&text).into_iter();
    let head: Vec<String> = rows.next().unwrap_or_default();
    let rows: Vec<Vec<String>> = rows.collect();
    let col = |r: &Vec<String>, name: &str| head.iter().position(|h| *h == name).and_then(|i| r.get(i)).map(|s| s.to_string()).unwrap_or_default();
    run.check(rows.len() == recs.len() && rows.iter().zip(&recs).all(|(r, w)| {
        r.len() == head.len() && (col(r, "epoch_jd_tt").parse::<f64>().unwrap_or(f64::NAN) - w.epoch_jd_tt).abs() < 6e-10 + 5e-10 && col(r, "obs_type") == w.obs_type && col(r, "satellite") == w.satellite
            && (col(r, "residual_m").parse::<f64>().unwrap_or(f64::NAN) - w.residual_m).abs() < 5.1e-7 && (col(r, "sigma_m").parse::<f64>().unwrap_or(f64::NAN) - w.sigma_m).abs() < 5.1e-7 && col(r, "rejected") == w.rejected.to_string()
    }), "csv/rows", || format!("{recs:?}\n{text}"));
    // Parquet, read back with the parquet library
    run.eval("parquet", (recs.len(), k as u64));
    let path = dir.join(format!("r{k}.parquet"));
    let mut w = ResidualParquetWriter::new(std::fs::File::create(&path).unwrap());
    for r in &recs { w.push(r.clone()) }
    if let Err(e) = w.finish() { run.violation("parquet/refused", &format!("{e}")); return }
    let read = || -> Result<Vec<(f64, String, String, f64, f64, bool)>, String> {
        let rd = SerializedFileReader::new(std::fs::File::open(&path).unwrap()).map_err(|e| e.to_string())?;
        let names: Vec<String> = rd.metadata().file_metadata().schema_descr().columns().iter().map(|c| c.name().to_string()).collect();
        let ix = |n: &str| names.iter().position(|c| c == n).ok_or(format!("no column {n} in {names:?}"));
        let (a, b, c, d, e, f) = (ix("epoch_jd_tt")?, ix("obs_type")?, ix("satellite")?, ix("residual_m")?, ix("sigma_m")?, ix("rejected")?);
        rd.get_row_iter(None).map_err(|e| e.to_string())?.map(|r| { let r = r.map_err(|e| e.to_string())?; let m = |e: parquet::errors::ParquetError| e.to_string(); Ok((r.get_double(a).map_err(m)?, r.get_string(b).map_err(m)?.clone(), r.get_string(c).map_err(m)?.clone(), r.get_double(d).map_err(m)?, r.get_double(e).map_err(m)?, r.get_bool(f).map_err(m)?)) }).collect()
    };
    let got = read();
    run.check(got.as_ref().is_ok_and(|v| v.len() == recs.len() && v.iter().zip(&recs).all(|(r, w)| r.0.to_bits() == w.epoch_jd_tt.to_bits() && r.1 == w.obs_type && r.2 == w.satellite && r.3.to_bits() == w.residual_m.to_bits() && r.4.to_bits() == w.sigma_m.to_bits() && r.5 == w.rejected)), "parquet/rows", || format!("{got:?}\n{recs:?}"));
}

fn hexs(g: &mut Rng) -> String { (0..64).map(|_| *g.pick(&['0', '1', '7', '9', 'a', 'c', 'f'])).collect() }
fn manifest(g: &mut Rng) -> RunManifest {
    let ds = |g: &mut Rng| -> Vec<DatasetRef> {
        (0..g.n(7)).map(|_| DatasetRef { path: PathBuf::from(format!("/{}/{}", g.pick(&["in", "out", "a b", "é"]), word(g, 2))), kind: (*g.pick(&["sp3", "oem", "rinex", "csv"])).into(), bytes: if g.p(0.2) { u64::MAX - g.n(3) as u64 } else { g.n(1 << 30) as u64 }, sha256: hexs(g) }).collect()
    };
    let (inputs, outputs) = (ds(g), ds(g));
    RunManifest { run_id: text(g), tool_version: format!("siderust {}\"\\{}", g.n(9), g.pick(&["\n", "\t", "é", ""])), config_sha256: hexs(g), inputs, outputs, started_at: "2026-05-11T22:00:00Z".into(), finished_at: "2026-05-11T23:00:00Z".into() }
}
#[derive(serde::Serialize, Debug)]
struct Rs { n: usize, rms: f64, name: String }
fn qc(g: &mut Rng) -> QcDocument<Rs> {
    QcDocument { schema_version: "qc.v1".into(), run_id: text(g), software_version: word(g, 8), n_obs: g.n(100_000), n_params: g.n(300), reduced_chi2: g.log(1e-6, 1e6), iterations: g.n(50), residuals: Rs { n: g.n(999), rms: g.log(1e-9, 1e9), name: text(g) } }
}
fn key_order(d: &[DatasetRef]) -> bool { d.windows(2).all(|w| (&w[0].kind, &w[0].path) <= (&w[1].kind, &w[1].path)) }
fn shuffle<T>(g: &mut Rng, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, g.n(i + 1)) } }
fn reports(run: &Run, g: &mut Rng) {
    let mut m = manifest(g);
    // equal keys would leave the order of the input visible
    for v in [&mut m.inputs, &mut m.outputs] { let mut seen = std::collections::BTreeSet::new(); v.retain(|d| seen.insert((d.kind.clone(), d.path.clone()))) }
    run.eval("manifest", format!("{m:?}"));
    let mut b = vec![];
    if let Err(e) = ManifestWriter::write(&mut b, &m) { run.violation("manifest/refused", &format!("{e}")); return }
    let mut p = m.clone();
    shuffle(g, &mut p.inputs);
    shuffle(g, &mut p.outputs);
    let mut b2 = vec![];
    ManifestWriter::write(&mut b2, &p).ok();
    run.check(b == b2, "manifest/order-dependent", || format!("{}\n{}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&b2)));
    run.check(b.ends_with(b"}\n"), "manifest/final-newline", || String::from_utf8_lossy(&b).to_string());
    match serde_json::from_slice::<RunManifest>(&b) {
        Ok(r) => {
            run.check(key_order(&r.inputs) && key_order(&r.outputs), "manifest/not-sorted", || format!("{r:?}"));
            let set = |v: &[DatasetRef]| v.iter().map(|d| (d.kind.clone(), d.path.clone(), d.bytes, d.sha256.clone())).collect::<std::collections::BTreeSet<_>>();
            run.check(set(&r.inputs) == set(&m.inputs) && set(&r.outputs) == set(&m.outputs) && (&r.run_id, &r.tool_version, &r.config_sha256, &r.started_at, &r.finished_at) == (&m.run_id, &m.tool_version, &m.config_sha256, &m.started_at, &m.finished_at), "manifest/round-trip", || format!("{m:?}\n{r:?}"));
        }
        Err(e) => { run.violation("manifest/read-back", &format!("{e}")); }
    }
    // conforms to the schema the library publishes: required keys, no others
    let schema: serde_json::Value = serde_json::from_str(siderust::pod::run::manifest::RUN_MANIFEST_SCHEMA_V1).unwrap();
    let v: serde_json::Value = serde_json::from_slice(&b).unwrap_or_default();
    let keys = |s: &serde_json::Value| s["required"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<std::collections::BTreeSet<_>>()).unwrap_or_default();
    let has = |v: &serde_json::Value| v.as_object().map(|o| o.keys().cloned().collect::<std::collections::BTreeSet<_>>()).unwrap_or_default();
    run.check(has(&v) == keys(&schema) && v["inputs"].as_array().is_some_and(|a| a.iter().all(|d| has(d) == keys(&schema["definitions"]["DatasetRef"]))), "manifest/schema", || v.to_string());
    m.canonicalize();
    run.check(key_order(&m.inputs) && key_order(&m.outputs), "manifest/canonical", || format!("{m:?}"));
    // quality report
    let d = qc(g);
    run.eval("qc", format!("{d:?}"));
    let mut b = vec![];
    write_qc_json(&mut b, &d).ok();
    let v: serde_json::Value = serde_json::from_slice(&b).unwrap_or_default();
    let near = |a: &serde_json::Value, b: f64| a.as_f64().is_some_and(|a| (a - b).abs() <= 1e-15 * b.abs());
    run.check(b.ends_with(b"}\n") && v["schema_version"] == d.schema_version && v["run_id"] == d.run_id && v["software_version"] == d.software_version && v["n_obs"] == d.n_obs && v["n_params"] == d.n_params && near(&v["reduced_chi2"], d.reduced_chi2) && v["iterations"] == d.iterations && v["residuals"]["n"] == d.residuals.n && near(&v["residuals"]["rms"], d.residuals.rms) && v["residuals"]["name"] == d.residuals.name, "qc/round-trip", || format!("{d:?}\n{v}"));
}

fn digests(run: &Run, g: &mut Rng, dir: &Path, k: usize) {
    let n = match g.n(4) { 0 => g.n(130), 1 => 64 * g.n(5) + *g.pick(&[0usize, 1, 54, 55, 56, 57, 62, 63]), 2 => g.n(5000), _ => g.n(3) };
    let data: Vec<u8> = (0..n).map(|_| g.u64() as u8).collect();
    let want = sha256(&data);
    run.eval("digest", (n, &want));
    let path = dir.join(format!("d{k}"));
    std::fs::write(&path, &data).unwrap();
    let kind = word(g, 5);
    let a = DatasetRef::from_bytes(path.clone(), kind.clone(), &data);
    let b = DatasetRef::from_file(&path, kind.clone());
    run.check(a.sha256 == want && a.bytes == n as u64 && a.kind == kind && a.path == path, "dataset/bytes", || format!("{a:?}, SHA-256 {want}, {n} bytes"));
    run.check(b.as_ref().is_ok_and(|b| *b == a), "dataset/file", || format!("{b:?} vs {a:?}"));
    run.check(DatasetRef::from_file(dir.join("absent"), "x").is_err(), "dataset/absent", String::new);
    let h = siderust::checksum::sha256(&data);
    run.check(siderust::checksum::to_hex(&h) == want && siderust::checksum::hex32(&want) == h && siderust::checksum::hex32(&want.to_uppercase()) == h, "checksum/sha256", || format!("{n} bytes: {} vs {want}", siderust::checksum::to_hex(&h)));
    siderust::checksum::assert_sha256_eq("t", &data, &want);
    if n > 0 {
        let mut bad = data.clone();
        bad[g.n(n)] ^= 1 << g.n(8);
        run.eval("digest/altered", (n, &want));
        run.check(vh::guard(|| siderust::checksum::assert_sha256_eq("t", &bad, &want)).is_err(), "checksum/altered-accepted", || format!("{n} bytes"));
    }
}

fn names(run: &Run, g: &mut Rng) {
    let (y, mo) = (g.int(1980, 2099), g.int(1, 12));
    let d = if g.p(0.3) { *g.pick(&[1, mlen(y, mo)]) } else { g.int(1, mlen(y, mo)) };
    if (y, mo) == (1980, 1) && d < 6 { return }
    let date = chrono::NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32).unwrap();
    let doy = days(y, mo, d) - days(y, 1, 1) + 1;
    let ac = format!("{:.3}", word(g, 6).to_uppercase() + "XYZ");
    let (ft, tag) = *g.pick(&[(Sp3FileType::PositionOnly, "ORB"), (Sp3FileType::PositionVelocity, "OBV")]);
    let (ver, vc) = *g.pick(&[(Sp3Version::A, 'a'), (Sp3Version::C, 'c'), (Sp3Version::D, 'd')]);
    let (sec, smp) = match g.n(3) { 0 => { let n = g.int(1, 59); (n, format!("{n:02}S")) } 1 => { let n = g.int(1, 59); (n * 60, format!("{n:02}M")) } _ => { let n = g.int(1, 24); (n * 3600, format!("{n:02}H")) } };
    run.eval("names", (y, mo, d, sec));
    run.check(sample_rate_to_lfn(sec as u32) == smp, "names/sample-rate", || format!("{sec} s: {}", sample_rate_to_lfn(sec as u32)));
    let want = format!("{ac}{vc}OPSFIN_{y:04}{doy:03}0000_01D_{smp}_{tag}.SP3");
    let got = sp3_filename(&ac, date, ft, sec as u32, ver);
    run.check(got == PathBuf::from(&want), "names/sp3", || format!("{got:?} vs {want}"));
    let n = days(y, mo, d) - days(1980, 1, 6);
    let want = format!("{}{:04}{}.sp3", ac.to_lowercase(), n / 7, n % 7);
    let got = sp3_short_filename(&ac.to_lowercase(), date, ver);
    run.check(got == PathBuf::from(&want), "names/sp3-short", || format!("{got:?} vs {want} on {date}"));
    let (v, camp, h, mi, span) = (*g.pick(&['0', '9', 'a', 'z']), *g.pick(&["OPSFIN", "OPSRAP", "MGXULT"]), g.int(0, 23), g.int(0, 59), *g.pick(&["01D", "24H", "15M"]));
    let head = format!("{ac}{v}{camp}_{y:04}{doy:03}{h:02}{mi:02}_{span}_{smp}_");
    let (y, doy, h, mi) = (y as i32, doy as u32, h as u32, mi as u32);
    for (got, tail) in [(igs_lfn(&ac, v, camp, y, doy, h, mi, span, &smp, "ATT", "OBX"), "ATT.OBX"), (sp3_lfn(&ac, v, camp, y, doy, h, mi, span, &smp), "ORB.SP3"), (clk_filename(&ac, v, camp, y, doy, h, mi, span, &smp), "CLK.CLK"), (rnx_obs_filename(&ac, v, camp, y, doy, h, mi, span, &smp), "MO.rnx")] {
        run.check(got == PathBuf::from(format!("{head}{tail}")), "names/long", || format!("{got:?} vs {head}{tail}"));
    }
}

struct Tagged(f64, f64);
impl AnyObservation for Tagged {
    fn epoch(&self) -> JulianDate { JulianDate::new(self.0) }
    fn obs_type(&self) -> ObsType { ObsType::SlrNormalPoint }
    fn sigma(&self) -> Quantity<Meter> { Quantity::new(1.0) }
    fn any_residual(&self, _: &CartesianState, _: &dyn ProviderBundle) -> Result<ObsResidual, PodObservationsError> {
        if self.1 < 0.0 { return Err(PodObservationsError::LightTimeNotConverged) }
        RESIDUAL.with(|r| r.borrow_mut().push(self.1));
        Err(PodObservationsError::LightTimeNotConverged)
    }
}
thread_local! { static RESIDUAL: RefCell<Vec<f64>> = const { RefCell::new(vec![]) }; }
fn arcs_batches(run: &Run, g: &mut Rng) {
    let at = |s: f64| siderust::time::Time::<siderust::time::TT>::from_raw_j2000_seconds(Second::new(s)).unwrap();
    let (a, d) = (g.range(-1e9, 1e9).round(), if g.p(0.2) { 0.0 } else { mag(g, 1.0, 1e8).round() });
    run.eval("arc", (a.to_bits(), d.to_bits()));
    let arc = ArcDefinition { id: ArcId::new("x"), start: at(a), stop: at(a + d), step_hint: None };
    run.within("arc/duration", (arc.duration().value() - d).abs(), 1e-6, || format!("{a} + {d}: {}", arc.duration().value()));
    run.check(arc.is_valid() == (d >= 0.0), "arc/valid", || format!("{d}"));
    // the observations of an epoch, in order, each once
    let jds: Vec<f64> = (0..4).map(|i| 2_451_545.0 + i as f64 * *g.pick(&[1.0 / 86_400.0, 0.5, 1e-8])).collect();
    let tags: Vec<(f64, f64)> = (0..g.n(25)).map(|i| (*g.pick(&jds), i as f64)).collect();
    let mut b = ObservationBatch::new();
    for t in &tags { b.push(Box::new(Tagged(t.0, t.1))) }
    run.eval("batch", format!("{tags:?}"));
    run.check(b.len() == tags.len() && b.is_empty() == tags.is_empty() && b.epochs().iter().zip(&tags).all(|(e, t)| e.value() == t.0), "batch/epochs", || format!("{tags:?}"));
    let e = *g.pick(&jds);
    let st = OrbitState::new(JulianDate::new(e).to_j2000s(), Position::<GCRS>::new(7000.0, 0.0, 0.0), Velocity::<GCRS>::new(0.0, 7.5, 0.0));
    RESIDUAL.with(|r| r.borrow_mut().clear());
    let n = b.residuals_at_epoch_with(JulianDate::new(e), &st, &NullProviderBundle).len();
    let want: Vec<f64> = tags.iter().filter(|t| t.0 == e).map(|t| t.1).collect();
    RESIDUAL.with(|r| run.check(*r.borrow() == want && n == want.len(), "batch/selection", || format!("at {e}: {:?} of {tags:?}", r.borrow())));
    run.check(b.residuals_at_epoch(JulianDate::new(e)).iter().all(|r| r.is_err()), "batch/without-providers", String::new);
    let nul = NullProviderBundle;
    run.check(nul.gnss_satellite_state_gcrs("G01", JulianDate::new(e)).is_none() && nul.station_gcrs_km("s", JulianDate::new(e)).is_none(), "batch/null-providers", String::new);
}

fn main() {
    let mut run = Run::new("C26", "files are read back by column, by the library's readers, by the parquet library and by JSON, and compared with the values handed in; digests by SHA-256 written from its definition; sinks record and fail");
    run.assume("states clear of inserted UTC seconds; text fields of the residual tables without commas and line breaks; dates from GPS week 0; sample intervals that are whole seconds, minutes or hours");
    let dir = std::env::temp_dir().join(format!("vh-c26-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n = run.size(20_000, 300_000);
    run.par("orbit", n, |k| orbit_products(&run, &mut run.rng_i("orbit", k), &dir, k));
    run.par("tables", n / 2, |k| tables(&run, &mut run.rng_i("tables", k), &dir, k));
    run.par("reports", n * 3, |k| reports(&run, &mut run.rng_i("reports", k)));
    run.par("digests", n, |k| digests(&run, &mut run.rng_i("digests", k), &dir, k));
    run.par("names", n * 3, |k| names(&run, &mut run.rng_i("names", k)));
    run.par("batch", n * 3, |k| arcs_batches(&run, &mut run.rng_i("batch", k)));
    std::fs::remove_dir_all(&dir).ok();
    for (k, m) in [("sp3", 0.95), ("sp3/file", 0.5), ("oem", 0.95), ("sink/full", 2.0), ("csv", 0.4), ("csv/awkward", 0.2), ("parquet", 0.4), ("manifest", 2.0), ("qc", 2.0), ("digest", 0.9), ("digest/altered", 0.7), ("names", 2.0), ("arc", 2.0), ("batch", 1.0)] { run.require(k, (n as f64 * m) as u64) }
    run.finish()
}
