//! C20: tabular and message text formats (CCSDS, IGS, ILRS, RINEX, IERS, VLBI, SCK) vs independently generated documents.
use siderust::formats::ccsds::{oem::*, opm, tdm};
use siderust::formats::iers::eop::{interpolate, read_eop_c04};
use siderust::formats::igs::{antex::*, orbex::read_orbex, sinex::read_sinex, sp3::*};
use siderust::formats::ilrs::{cpf, crd};
use siderust::formats::rinex::{doris::read_rinex_doris, nav, obs};
use siderust::formats::sck::parse_sck;
use siderust::formats::vlbi::vgosdb::read_vgosdb_sidecar;
use siderust::formats::ParseMode;
use siderust::time::{Time, UTC};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use vh::docs::*;
use vh::{Rng, Run};

const C: f64 = 299_792_458.0;
fn utc(c: &Civ) -> Time<UTC> {
    let ns = c.unix_ns();
    Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp((ns.div_euclid(1_000_000_000)) as i64, ns.rem_euclid(1_000_000_000) as u32).unwrap()).unwrap()
}
fn utc_ns(ns: i128) -> Time<UTC> { Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp((ns.div_euclid(1_000_000_000)) as i64, ns.rem_euclid(1_000_000_000) as u32).unwrap()).unwrap() }
/// An instant is stored as f64 seconds (half a microsecond in 2050); converting one back to civil
/// time before printing it costs up to 80 microseconds more in the time-scale library.
fn time_eq(run: &Run, sig: &str, t: &Time<UTC>, ns: i128, ctx: &str) {
    let (w, g) = (utc_ns(ns).raw_seconds_pair(), t.raw_seconds_pair());
    let d = (g.0 - w.0).value() + (g.1 - w.1).value();
    let tol = if sig.contains("round-trip") { 1e-4 } else { 1.2e-6 };
    run.check(d.abs() <= tol, sig, || format!("read epoch is {d} s off the document's {ns} ns (tolerance {tol} s) {ctx}"));
}
fn jd(c: &Civ) -> f64 { (c.mjd_day() as f64 + 2_400_000.5) + c.sod_ns() as f64 / 86_400e9 }
fn near(a: f64, b: f64, abs: f64) -> bool { (a - b).abs() <= abs + 4e-16 * b.abs().max(a.abs()) }

// ── CCSDS ────────────────────────────────────────────────────────────────
fn oem_meta(g: &mut Rng) -> OemMetadata { OemMetadata { object_id: text(g), object_name: text(g), ref_frame: word(g, 8), time_system: word(g, 4), center_name: text(g) } }
fn oem_same(a: &OemMetadata, b: &OemMetadata) -> bool { a.object_id == b.object_id && a.object_name == b.object_name && a.ref_frame == b.ref_frame && a.time_system == b.time_system && a.center_name == b.center_name }
fn oem(run: &Run, g: &mut Rng) {
    // writers
    let meta = oem_meta(g);
    let states: Vec<OemState> = (0..1 + g.n(6)).map(|_| {
        let c = Civ::random(g, 1900, 2200, 1000);
        let e = if g.p(0.3) { jd(&c) } else { g.range(2_415_020.5, 2_524_593.5) };
        OemState::new(e, [mag(g, 1e-7, 1e6), mag(g, 1e-3, 1e6), mag(g, 1e-3, 1e6)], [mag(g, 1e-10, 20.0), mag(g, 1e-3, 20.0), mag(g, 1e-3, 20.0)])
    }).collect();
    for xml in [false, true] {
        run.eval(if xml { "oem/xml-write" } else { "oem/kvn-write" }, meta.object_name.len() as u64 * 7 + states.len() as u64);
        let mut b = Vec::new();
        let w = if xml { write_oem_xml(&mut b, &meta, &states) } else { write_oem(&mut b, &meta, &states) };
        let r = if xml { read_oem_xml(&b[..]) } else { read_oem(&b[..]) };
        let doc = || String::from_utf8_lossy(&b).chars().take(900).collect::<String>();
        let (Ok(()), Ok(f)) = (&w, &r) else { run.violation("oem/round-trip", &format!("xml={xml}: write {w:?} read {:?}\n{}", r.as_ref().err(), doc())); continue };
        if !run.check(f.segments.len() == 1 && oem_same(&f.segments[0].metadata, &meta) && f.segments[0].states.len() == states.len() && f.version == "3.0", "oem/round-trip-structure", || format!("xml={xml} wrote {meta:?} ({} states), read {:?}\n{}", states.len(), f.segments.iter().map(|s| (&s.metadata, s.states.len())).collect::<Vec<_>>(), doc())) { continue }
        for (a, b) in states.iter().zip(&f.segments[0].states) {
            run.within("oem/epoch", (a.epoch_jd - b.epoch_jd).abs(), 9.5e-10, || format!("xml={xml} wrote JD {} read {}", a.epoch_jd, b.epoch_jd));
            for k in 0..3 {
                run.check(near(a.position_km[k], b.position_km[k], 5.01e-7) && near(a.velocity_km_s[k], b.velocity_km_s[k], 5.01e-10), "oem/components", || format!("xml={xml} wrote {a:?} read {b:?}"));
            }
        }
    }
    // reader on independent documents
    let nseg = 1 + g.n(3);
    let segs: Vec<(OemMetadata, Vec<(Civ, [f64; 6])>)> = (0..nseg).map(|_| (oem_meta(g), (0..g.len(5, 400)).map(|_| (Civ::random(g, 1960, 2100, 1000), [0.0; 6].map(|_| mag(g, 1e-6, 1e8)))).collect())).collect();
    let (org, crea) = (text(g), Civ::random(g, 2000, 2030, 1_000_000_000).iso(0));
    let n = eol(g);
    let mut k = format!("CCSDS_OEM_VERS = 2.0{n}COMMENT free text = 1{n}CREATION_DATE = {crea}{n}ORIGINATOR={org}{n}{n}");
    let mut x = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>{n}<oem id=\"CCSDS_OEM_VERS\" version=\"2.0\"><header><CREATION_DATE>{crea}</CREATION_DATE><ORIGINATOR>{}</ORIGINATOR></header><body>{n}", esc(&org, g));
    let mut bad = None;
    let total: usize = segs.iter().map(|s| s.1.len()).sum();
    if g.p(0.3) && total > 0 { bad = Some((g.n(total), g.n(7))) }
    let mut i = 0;
    for (m, st) in &segs {
        let _ = write!(k, "META_START{n}OBJECT_NAME{}={}{}{n}OBJECT_ID = {}{n}CENTER_NAME = {}{n}REF_FRAME = {}{n}TIME_SYSTEM = {}{n}START_TIME = 2000-01-01T00:00:00{n}INTERPOLATION = LAGRANGE{n}META_STOP{n}{n}", blank(g), blank(g), m.object_name, m.object_id, m.center_name, m.ref_frame, m.time_system);
        let _ = write!(x, "<segment><metadata><COMMENT>c</COMMENT><OBJECT_NAME>{}</OBJECT_NAME><OBJECT_ID>{}</OBJECT_ID><CENTER_NAME>{}</CENTER_NAME><REF_FRAME>{}</REF_FRAME><TIME_SYSTEM>{}</TIME_SYSTEM></metadata><data>{n}", esc(&m.object_name, g), esc(&m.object_id, g), esc(&m.center_name, g), esc(&m.ref_frame, g), esc(&m.time_system, g));
        let cov_at = if g.p(0.3) { Some(g.n(st.len() + 1)) } else { None };
        for (j, (c, v)) in st.iter().enumerate() {
            if cov_at == Some(j) { let _ = write!(k, "COVARIANCE_START{n}EPOCH = 2000-01-01T00:00:00{n}COV_REF_FRAME = RTN{n}3.3e-04{n}4.6e-04 6.7e-04{n}COVARIANCE_STOP{n}"); }
            let mut t: Vec<String> = std::iter::once(c.iso(6)).chain(v.iter().map(|q| num(*q, g))).collect();
            if let Some((bi, bf)) = bad { if bi == i { t[bf] = if bf == 0 { (*g.pick(&["2024-13-01T00:00:00", "2023-02-29T00:00:00", "2024-01-01T24:00:00", "2024-01-01T00:60:00", "2024-01-01T00:00:61.5", "yesterday", "2024-01-01T00:00:-1"])).to_string() } else { (*g.pick(&["nan", "inf", "-inf", "12,5", "x", "1e999"])).to_string() } } }
            let _ = write!(k, "{}{n}", t.join(&blank(g)));
            let _ = write!(x, "<stateVector><EPOCH>{}</EPOCH><X units=\"km\">{}</X><Y units=\"km\">{}</Y><Z>{}</Z><X_DOT> {}</X_DOT><Y_DOT>{}</Y_DOT><Z_DOT>{} </Z_DOT></stateVector>{n}", t[0], t[1], t[2], t[3], t[4], t[5], t[6]);
            if g.p(0.1) { let _ = write!(x, "<!-- remark -->"); }
            i += 1;
        }
        if cov_at == Some(st.len()) { let _ = write!(k, "COVARIANCE_START{n}1 2 3{n}COVARIANCE_STOP{n}"); }
        let _ = write!(x, "</data></segment>{n}");
    }
    x.push_str("</body></oem>");
    for (xml, doc) in [(false, &k), (true, &x)] {
        run.eval(if bad.is_some() { "oem/fault" } else { "oem/read" }, doc.len() as u64);
        let r = if xml { read_oem_xml(doc.as_bytes()) } else { read_oem(doc.as_bytes()) };
        if bad.is_some() {
            run.check(r.is_err(), "oem/fault-accepted", || format!("xml={xml}, faulty field {bad:?} accepted:\n{}", doc.chars().take(1500).collect::<String>()));
            continue;
        }
        let Ok(f) = r else { run.violation("oem/read", &format!("xml={xml}: {:?}\n{}", r.err(), doc.chars().take(1500).collect::<String>())); continue };
        if !run.check(f.version == "2.0" && f.originator == org && f.creation_date == crea && f.segments.len() == segs.len(), "oem/header", || format!("xml={xml} read {} {} {} segments {}; wrote {org:?}\n{}", f.version, f.originator, f.creation_date, f.segments.len(), doc.chars().take(600).collect::<String>())) { continue }
        for (s, (m, st)) in f.segments.iter().zip(&segs) {
            if !run.check(oem_same(&s.metadata, m) && s.states.len() == st.len(), "oem/segment", || format!("xml={xml} read {:?} ({} states), document {m:?} ({})", s.metadata, s.states.len(), st.len())) { continue }
            for (a, (c, v)) in s.states.iter().zip(st) {
                run.within("oem/read-epoch", (a.epoch_jd - jd(c)).abs(), 9.5e-10, || format!("{c:?} read as JD {}", a.epoch_jd));
                run.check((0..3).all(|q| near(a.position_km[q], v[q], 0.0) && near(a.velocity_km_s[q], v[q + 3], 0.0)), "oem/read-values", || format!("read {a:?}, document {v:?}"));
            }
        }
    }
    // missing required metadata
    let key = *g.pick(&["OBJECT_NAME", "OBJECT_ID", "CENTER_NAME", "REF_FRAME", "TIME_SYSTEM"]);
    run.eval("oem/missing", &key);
    let kk: String = k.lines().filter(|l| !l.starts_with(key)).map(|l| format!("{l}\n")).collect();
    run.check(read_oem(kk.as_bytes()).is_err(), "oem/missing-accepted", || format!("KVN without {key} accepted"));
    let xx = x.replace(&format!("<{key}>"), "<OTHER>").replace(&format!("</{key}>"), "</OTHER>");
    run.check(read_oem_xml(xx.as_bytes()).is_err(), "oem/missing-accepted", || format!("XML without {key} accepted"));
}
fn esc(s: &str, g: &mut Rng) -> String {
    if g.p(0.15) && !s.contains("]]>") { return format!("<![CDATA[{s}]]>") }
    let numeric = g.p(0.3);
    s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&apos;".into(), c if numeric && !c.is_ascii() => format!("&#x{:X};", c as u32), c => c.to_string() }).collect()
}
/// some decimal text of v that parses back to v.
fn num(v: f64, g: &mut Rng) -> String { match g.n(3) { 0 => format!("{v}"), 1 => format!("{v:e}"), _ => format!("{v:E}") } }

fn opm_tdm(run: &Run, g: &mut Rng) {
    let kep = g.p(0.6);
    let m = opm::OpmMessage {
        metadata: opm::OpmMetadata { object_name: text(g), object_id: text(g), center_name: text(g), ref_frame: word(g, 8), time_system: word(g, 4) },
        state: opm::CartesianState { epoch: Civ::random(g, 1960, 2100, 1000).iso(6), position_km: [0.0; 3].map(|_| mag(g, 1e-3, 1e8)), velocity_km_s: [0.0; 3].map(|_| mag(g, 1e-5, 1e2)) },
        keplerian: kep.then(|| opm::KeplerianElements { semi_major_axis_km: g.log(1.0, 1e8), eccentricity: g.range(0.0, 2.0), inclination_deg: g.range(0.0, 180.0), ra_of_asc_node_deg: g.range(0.0, 360.0), arg_of_pericenter_deg: g.range(0.0, 360.0), true_anomaly_deg: g.range(-180.0, 360.0) }),
    };
    let n = eol(g);
    let fields: Vec<(&str, String)> = {
        let mut f = vec![("OBJECT_NAME", m.metadata.object_name.clone()), ("OBJECT_ID", m.metadata.object_id.clone()), ("CENTER_NAME", m.metadata.center_name.clone()), ("REF_FRAME", m.metadata.ref_frame.clone()), ("TIME_SYSTEM", m.metadata.time_system.clone()), ("EPOCH", m.state.epoch.clone())];
        for (i, k) in ["X", "Y", "Z"].iter().enumerate() { f.push((k, num(m.state.position_km[i], g))) }
        for (i, k) in ["X_DOT", "Y_DOT", "Z_DOT"].iter().enumerate() { f.push((k, num(m.state.velocity_km_s[i], g))) }
        if let Some(q) = &m.keplerian { for (k, v) in [("SEMI_MAJOR_AXIS", q.semi_major_axis_km), ("ECCENTRICITY", q.eccentricity), ("INCLINATION", q.inclination_deg), ("RA_OF_ASC_NODE", q.ra_of_asc_node_deg), ("ARG_OF_PERICENTER", q.arg_of_pericenter_deg), ("TRUE_ANOMALY", q.true_anomaly_deg)] { f.push((k, num(v, g))) } }
        f
    };
    let write = |f: &[(&str, String)], g: &mut Rng| { let mut s = format!("CCSDS_OPM_VERS = 2.0{n}CREATION_DATE = 2024-01-01T00:00:00{n}ORIGINATOR = X{n}"); for (k, v) in f { if *k == "OBJECT_NAME" { let _ = write!(s, "META_START{n}"); } let _ = write!(s, "{k}{}={}{v}{n}", blank(g), blank(g)); if g.p(0.1) { let _ = write!(s, "COMMENT = {k}{n}{n}"); } } s };
    let same = |r: &opm::OpmMessage, tol: bool| {
        let e = |a: f64, b: f64, q: f64| near(a, b, if tol { q } else { 0.0 });
        let a = &r.metadata; let b = &m.metadata;
        a.object_name == b.object_name && a.object_id == b.object_id && a.center_name == b.center_name && a.ref_frame == b.ref_frame && a.time_system == b.time_system && r.state.epoch == m.state.epoch
            && (0..3).all(|i| e(r.state.position_km[i], m.state.position_km[i], 5.01e-7) && e(r.state.velocity_km_s[i], m.state.velocity_km_s[i], 5.01e-7))
            && match (&r.keplerian, &m.keplerian) { (None, None) => true, (Some(a), Some(b)) => e(a.semi_major_axis_km, b.semi_major_axis_km, 5.01e-7) && e(a.eccentricity, b.eccentricity, 5.01e-8) && e(a.inclination_deg, b.inclination_deg, 5.01e-5) && e(a.ra_of_asc_node_deg, b.ra_of_asc_node_deg, 5.01e-5) && e(a.arg_of_pericenter_deg, b.arg_of_pericenter_deg, 5.01e-5) && e(a.true_anomaly_deg, b.true_anomaly_deg, 5.01e-5), _ => false }
    };
    run.eval("opm/read", fields.len() as u64 + m.metadata.object_name.len() as u64);
    // numbers may be followed by the unit the standard prescribes
    let unit = |k: &str| match k { "X" | "Y" | "Z" | "SEMI_MAJOR_AXIS" => "km", "X_DOT" | "Y_DOT" | "Z_DOT" => "km/s", "ECCENTRICITY" => "", _ => "deg" };
    let units = g.p(0.4);
    let printed: Vec<(&str, String)> = fields.iter().enumerate().map(|(i, (k, v))| (*k, if units && i >= 6 && !unit(k).is_empty() && g.p(0.8) { format!("{v}{}[{}]", ["", " ", "  "][g.n(3)], unit(k)) } else { v.clone() })).collect();
    let doc = write(&printed, g);
    let r = opm::read_opm(doc.as_bytes());
    run.check(r.as_ref().is_ok_and(|r| same(r, false)), "opm/read", || format!("read {r:?}\nfrom\n{doc}"));
    let mut b = Vec::new();
    run.eval("opm/write", &fields);
    let r = opm::write_opm(&mut b, &m).and_then(|()| opm::read_opm(&b[..]));
    run.check(r.as_ref().is_ok_and(|r| same(r, true)), "opm/round-trip", || format!("wrote {m:?}\nread {r:?}\n{}", String::from_utf8_lossy(&b)));
    // faults: a required field missing or a number malformed
    let (mut f, i) = (fields.clone(), g.n(fields.len()));
    run.eval("opm/fault", i as u64);
    let k = f[i].0;
    let numeric = i >= 6;
    if numeric && g.p(0.5) { f[i].1 = (*g.pick(&["abc", "1,0", "", "--1", "1.0 [m]", "1.0 [rad]", "1.0 [km/h]", "1.0 [km", "[km]", "1.0 km]"])).to_string(); } else { f.remove(i); }
    let r = opm::read_opm(write(&f, g).as_bytes());
    let optional = ["OBJECT_ID", "CENTER_NAME", "REF_FRAME", "TIME_SYSTEM"].contains(&k);
    if optional { run.check(r.is_ok(), "opm/optional-refused", || format!("without {k}: {:?}", r.as_ref().err())); }
    else if k == "SEMI_MAJOR_AXIS" && f.len() < fields.len() { run.check(r.as_ref().is_ok_and(|r| r.keplerian.is_none()), "opm/no-semi-major-axis", || format!("{r:?}")); }
    else { run.check(r.is_err(), "opm/fault-accepted", || format!("field {k} missing or malformed accepted: {r:?}")); }

    // TDM
    let kinds = |g: &mut Rng| match g.n(5) { 0 => tdm::ObservationType::Range, 1 => tdm::ObservationType::Doppler, 2 => tdm::ObservationType::Angle1, 3 => tdm::ObservationType::Angle2, _ => tdm::ObservationType::Other((*g.pick(&["RECEIVE_FREQ", "TRANSMIT_FREQ_1", "PRESSURE", "CLOCK_BIAS"])).to_string()) };
    let t = tdm::TdmMessage {
        metadata: (0..1 + g.n(3)).map(|_| tdm::TdmMetadata { participants: (0..g.n(5)).map(|_| text(g)).collect(), mode: if g.p(0.8) { word(g, 8) } else { String::new() }, path: if g.p(0.7) { "1,2,1".into() } else { String::new() }, time_system: if g.p(0.9) { word(g, 4) } else { String::new() } }).collect(),
        observations: (0..g.len(12, 500)).map(|_| tdm::ObservationData { obs_type: kinds(g), epoch: if g.p(0.5) { Civ::random(g, 1960, 2100, 1000).iso(6) } else { format!("{:04}-{:03}T{:02}:00:00", g.int(1960, 2100), g.int(1, 366), g.int(0, 23)) }, value: mag(g, 1e-12, 1e12) }).collect(),
    };
    let kw = |o: &tdm::ObservationType, alt: bool| match o { tdm::ObservationType::Range => "RANGE".to_string(), tdm::ObservationType::Doppler => if alt { "DOPPLER_INTEGRATED".into() } else { "DOPPLER_INSTANTANEOUS".into() }, tdm::ObservationType::Angle1 => "ANGLE_1".into(), tdm::ObservationType::Angle2 => "ANGLE_2".into(), tdm::ObservationType::Other(s) => s.clone() };
    let mut doc = format!("CCSDS_TDM_VERS = 1.0{n}COMMENT a = b{n}");
    let split = g.n(t.observations.len() + 1);
    for (si, m) in t.metadata.iter().enumerate() {
        let _ = write!(doc, "META_START{n}");
        if !m.time_system.is_empty() { let _ = write!(doc, "TIME_SYSTEM = {}{n}", m.time_system); }
        for (j, p) in m.participants.iter().enumerate() { let _ = write!(doc, "PARTICIPANT_{} = {p}{n}", j + 1); }
        if !m.mode.is_empty() { let _ = write!(doc, "MODE={}{n}", m.mode); }
        if !m.path.is_empty() { let _ = write!(doc, "PATH = {}{n}", m.path); }
        let _ = write!(doc, "RANGE_UNITS = km{n}META_STOP{n}DATA_START{n}");
        let (a, b) = match (si, t.metadata.len()) { (0, 1) => (0, t.observations.len()), (0, _) => (0, split), (1, _) => (split, t.observations.len()), _ => (0, 0) };
        for o in &t.observations[a..b] { let alt = g.p(0.5); let v = num(o.value, g); let sep = *g.pick(&[" ", " ", "   ", " : "]); let _ = write!(doc, "{} = {}{sep}{v}{n}", kw(&o.obs_type, alt), o.epoch); }
        let _ = write!(doc, "DATA_STOP{n}");
    }
    let same = |r: &tdm::TdmMessage| r.metadata.len() == t.metadata.len() && r.metadata.iter().zip(&t.metadata).all(|(a, b)| a.participants == b.participants && a.mode == b.mode && a.path == b.path && a.time_system == b.time_system) && r.observations.len() == t.observations.len() && r.observations.iter().zip(&t.observations).all(|(a, b)| kw(&a.obs_type, false) == kw(&b.obs_type, false) && a.epoch == b.epoch && a.value == b.value);
    run.eval("tdm/read", &doc);
    let r = tdm::read_tdm(doc.as_bytes());
    run.check(r.as_ref().is_ok_and(|r| same(r)), "tdm/read", || format!("read {r:?}\nfrom\n{doc}"));
    let mut b = Vec::new();
    let r = tdm::write_tdm(&mut b, &t).and_then(|()| tdm::read_tdm(&b[..]));
    run.eval("tdm/write", &b);
    run.check(r.as_ref().is_ok_and(|r| same(r)), "tdm/round-trip", || format!("wrote {t:?}\nread {r:?}"));
    // what was written, by the standard: 'keyword = timetag measurement'
    let out = String::from_utf8_lossy(&b);
    let data: Vec<&str> = out.lines().map(str::trim).skip_while(|l| *l != "DATA_START").skip(1).take_while(|l| *l != "DATA_STOP").collect();
    run.check(out.lines().next().is_some_and(|l| l.starts_with("CCSDS_TDM_VERS")) && data.len() == t.observations.len() && data.iter().zip(&t.observations).all(|(l, o)| {
        let Some((k, rest)) = l.split_once('=') else { return false };
        let w: Vec<&str> = rest.split_whitespace().collect();
        k.trim() == kw(&o.obs_type, false) && w.len() == 2 && w[0] == o.epoch && w[1].parse() == Ok(o.value)
    }), "tdm/written-line", || format!("wrote {t:?}\nas {out}"));
    let bad = *g.pick(&["RANGE = 2024-01-01T00:00:00 : abc", "RANGE = 2024-01-01T00:00:00", "RANGE = 2024-01-01T00:00:00 :5", "ANGLE_1 = 2024-01-01T00:00:00 : "]);
    run.eval("tdm/fault", &bad);
    let d = doc.replacen("DATA_START", &format!("DATA_START\n{bad}"), 1);
    run.check(tdm::read_tdm(d.as_bytes()).is_err(), "tdm/fault-accepted", || format!("{bad:?} accepted"));
}

/// An epoch printed in `sys` time, `ahead` seconds before UTC, against the instant read from it.
fn time_system(run: &Run, what: &str, sys: &str, ahead: i128, read: &siderust::time::Time<tempoch::UTC>, c: &Civ) {
    run.count("time-systems", 1);
    let off = read.try_to_chrono().unwrap().timestamp_nanos_opt().unwrap() as i128 - c.unix_ns() as i128;
    if (off + ahead * 1_000_000_000).abs() > 100_000 { run.violation(&format!("{what}/time-system{}", if off.abs() < 100_000 { "-taken-as-UTC" } else { "" }), &format!("an epoch in {sys} time is read {} s off, taken as UTC", off as f64 * 1e-9 + ahead as f64)); }
}

// ── IGS ──────────────────────────────────────────────────────────────────
fn sp3(run: &Run, g: &mut Rng) {
    let nl = eol(g);
    let header: Vec<String> = (0..g.n(6)).map(|i| if i == 0 { format!("#dP{}", text(g)) } else { format!("{}{}", g.pick(&["##", "+ ", "++", "%c ", "%f", "/* "]), text(g)) }).collect();
    let eps: Vec<(Civ, Vec<(String, [f64; 4])>)> = (0..g.len(5, 200)).map(|_| (Civ::random(g, 1973, 2090, 10), (0..g.n(5)).map(|i| (format!("{}{:02}", g.pick(&['G', 'R', 'E', 'C', 'J', 'L']), i + 1), { let mut v = [0.0; 4].map(|_| dec(mag(g, 1e-6, 99_999.0), 6)); if g.p(0.2) { v[3] = 999_999.999999 } v })).collect())).collect();
    let mut doc = String::new();
    for h in &header { let _ = write!(doc, "{h}{nl}"); }
    for (c, ps) in &eps {
        let _ = write!(doc, "*  {:4} {:2} {:2} {:2} {:2} {:>11}{nl}", c.y, c.mo, c.d, c.h, c.mi, c.sec(8));
        for (id, v) in ps {
            let _ = write!(doc, "P{id}{:14.6}{:14.6}{:14.6}{:14.6}{}{nl}", v[0], v[1], v[2], v[3], if g.p(0.2) { " 12 11 10 123" } else { "" });
            if g.p(0.2) { let _ = write!(doc, "V{id}{:14.6}{:14.6}{:14.6}{:14.6}{nl}EP  55  55  55     222 1234567 -1234567 5999999      -30       21 -1230000{nl}", 1.0, 2.0, 3.0, 4.0); }
        }
    }
    if g.p(0.9) { let _ = write!(doc, "EOF{nl}"); if g.p(0.3) { doc.push_str("trailing junk\n"); } }
    let cmp = |rec: &Sp3Record, sig: &str, d: &str| {
        if !run.check(rec.header == header && rec.epochs.len() == eps.len(), &format!("{sig}-structure"), || format!("header {:?} vs {header:?}, epochs {} vs {}\n{}", rec.header, rec.epochs.len(), eps.len(), d.chars().take(900).collect::<String>())) { return }
        for (e, (c, ps)) in rec.epochs.iter().zip(&eps) {
            time_eq(run, &format!("{sig}-epoch"), &e.time, c.unix_ns(), &format!("{c:?}"));
            run.check(e.positions.len() == ps.len() && e.positions.iter().zip(ps).all(|(a, (id, v))| a.sat_id == *id && near(a.position.x().value(), v[0], 1e-12) && near(a.position.y().value(), v[1], 1e-12) && near(a.position.z().value(), v[2], 1e-12) && near(a.clock.value(), v[3], 1e-12)), &format!("{sig}-records"), || format!("read {:?}, document {ps:?}", e.positions));
        }
    };
    run.eval("sp3/read", &doc);
    let rec = match read_sp3(doc.as_bytes()) { Ok(r) => r, Err(e) => { run.violation("sp3/read", &format!("{e}\n{}", doc.chars().take(1200).collect::<String>())); return } };
    cmp(&rec, "sp3/read", &doc);
    let stream = |d: &str| -> Result<Sp3Record, Sp3Error> { let mut s = Sp3Stream::new(d.as_bytes())?; let header = s.header().to_vec(); let mut epochs = vec![]; while let Some(e) = s.next_epoch()? { epochs.push(e) } Ok(Sp3Record { header, epochs }) };
    run.eval("sp3/stream", &doc);
    let st = stream(&doc);
    run.check(st.as_ref().is_ok_and(|s| *s == rec), "sp3/stream-differs", || format!("stream {st:?}\nbatch {rec:?}"));
    let mut b = Vec::new();
    run.eval("sp3/write", format!("{eps:?}"));
    // epochs off the printed grid are rounded to it
    let mut rec2 = rec.clone();
    let off = g.int(-4, 4);
    for (e, (c, _)) in rec2.epochs.iter_mut().zip(&eps) { e.time = utc(&Civ { ns: (c.ns + off).max(0), ..*c }); }
    match write_sp3(&mut b, &rec2).and_then(|()| read_sp3(&b[..])) { Ok(r) => cmp(&r, "sp3/round-trip", &String::from_utf8_lossy(&b)), Err(e) => { run.violation("sp3/round-trip", &format!("{e}\n{}", String::from_utf8_lossy(&b))); } }
    // an identifier wider than its column would shift the columns behind it
    if let Some(p) = rec2.epochs.iter_mut().flat_map(|e| e.positions.iter_mut()).next() {
        p.sat_id = format!("{}{}", p.sat_id, g.n(100));
        run.check(write_sp3(&mut vec![], &rec2).is_err(), "sp3/wide-identifier-written", || format!("{rec2:?}").chars().take(300).collect());
    }
    // the header names the time system the epochs count in
    if g.p(0.05) {
        let (sys, ahead) = *g.pick(&[("UTC", 0), ("GLO", 0), ("GPS", 18), ("GAL", 18), ("QZS", 18), ("BDT", 4), ("TAI", 37)]);
        let c = Civ::random(g, 2018, 2024, 10);
        let d = format!("#dP{} {:2} {:2} {:2} {:2} {:>11}       1 ORBIT IGS20 HLM  IGS\n%c L  cc {sys} ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n*  {} {:2} {:2} {:2} {:2} {:>11}\nPG01  15000.000000  20000.000000  -5000.000000      0.000123\nEOF\n", c.y, c.mo, c.d, c.h, c.mi, c.sec(8), c.y, c.mo, c.d, c.h, c.mi, c.sec(8));
        run.eval("sp3/time-system", &d);
        if let Ok(r) = read_sp3(d.as_bytes()) { time_system(run, "sp3", sys, ahead, &r.epochs[0].time, &c) }
    }
    // faults
    let lines: Vec<&str> = doc.lines().collect();
    let cand: Vec<usize> = (0..lines.len()).filter(|&i| i >= header.len() && (lines[i].starts_with('*') || lines[i].starts_with('P'))).collect();
    let eof = lines.iter().position(|l| *l == "EOF").unwrap_or(lines.len());
    let cand: Vec<usize> = cand.into_iter().filter(|&i| i < eof).collect();
    if !cand.is_empty() {
        let i = *g.pick(&cand);
        let new = if lines[i].starts_with('*') { (*g.pick(&["*  2023  2 29  0  0  0.00000000", "*  2023 13  1  0  0  0.00000000", "*  2023  1  1 24  0  0.00000000", "*  2023  1  1  0 60  0.00000000", "*  2023  1  1  0  0 61.00000000", "*  2023  1  1  0  0 xx", "*  2023  1  1  0", "*  2023  1  1  0  0 -1.0"])).to_string() } else { (*g.pick(&["PG01  1.0 2.0 3.0", "PG01  1.0 2.0 x 4.0", "PG", "PG01  1.0 2.0 3.0 4,0"])).to_string() };
        run.eval("sp3/fault", i as u64 * 31 + new.len() as u64);
        let mut l2: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        l2[i] = new.clone();
        let d = l2.join("\n");
        run.check(read_sp3(d.as_bytes()).is_err() && stream(&d).is_err(), "sp3/fault-accepted", || format!("line {new:?} accepted (batch err {}, stream err {})", read_sp3(d.as_bytes()).is_err(), stream(&d).is_err()));
    }
}
fn antex(run: &Run, g: &mut Rng) {
    let mut want: BTreeMap<String, BTreeMap<String, [f64; 3]>> = BTreeMap::new();
    for _ in 0..g.n(5) {
        let name = format!("{:<20}{}", word(g, 15), if g.p(0.6) { word(g, 12) } else { String::new() }).trim().to_string();
        want.insert(name, (0..g.n(5)).map(|i| (format!("{}{:02}", g.pick(&['G', 'R', 'E', 'C']), i + 1), [0.0; 3].map(|_| dec(mag(g, 1e-2, 9_999.0), 2)))).collect());
    }
    let mut doc = label("     1.4            M", "ANTEX VERSION / SYST") + &label("A", "PCV TYPE / REFANT") + &label("free comment", "COMMENT") + &label("", "END OF HEADER");
    for (name, fr) in &want {
        doc += &label("", "START OF ANTENNA"); doc += &label(name, "TYPE / SERIAL NO"); doc += &label("CHAMBER", "METH / BY / # / DATE"); doc += &label(&format!("{:6}", fr.len()), "# OF FREQUENCIES");
        for (f, v) in fr {
            doc += &label(&format!("   {f}"), "START OF FREQUENCY");
            doc += &label(&format!("{:10.2}{:10.2}{:10.2}", v[0], v[1], v[2]), "NORTH / EAST / UP");
            doc += &format!("   NOAZI{:8.2}{:8.2}{:8.2}\n", 0.0, -1.5, 2.25);
            doc += &label(&format!("   {f}"), "END OF FREQUENCY");
        }
        if let (true, Some(f)) = (g.p(0.3), fr.keys().next()) { doc += &label(&format!("   {f}"), "START OF FREQ RMS"); doc += &label(&format!("{:10.2}{:10.2}{:10.2}", 0.1, 0.2, 0.3), "NORTH / EAST / UP"); doc += &label(&format!("   {f}"), "END OF FREQ RMS"); }
        doc += &label("", "END OF ANTENNA");
        if g.p(0.2) { doc += &label("between", "COMMENT"); }
    }
    if g.p(0.2) { doc = doc.replace('\n', "\r\n"); }
    let same = |c: &AntexCatalog, tol: f64| c.len() == want.len() && want.iter().all(|(n, fr)| c.get(n).is_some_and(|m| m.len() == fr.len() && fr.iter().all(|(f, v)| m.get(f).is_some_and(|p| near(p.x().value(), v[0], tol) && near(p.y().value(), v[1], tol) && near(p.z().value(), v[2], tol)))));
    run.eval("antex/read", &doc);
    let r = read_antex(doc.as_bytes());
    if !run.check(r.as_ref().is_ok_and(|c| same(c, 0.0)), "antex/read", || format!("document {want:?}\nread {:?}", r.as_ref().map(|c| c.keys().cloned().collect::<Vec<_>>()))) { return }
    if let Some(fault) = g.p(0.3).then(|| *g.pick(&["      1.00      2.00", "      1.00     x2.00      3.00", "      1.00      2.00     3,00", "", "      1.00      2.00      3.00      4.00"])) {
        let rows: Vec<&str> = doc.lines().collect();
        let at: Vec<usize> = (1..rows.len()).filter(|&i| rows[i].ends_with("NORTH / EAST / UP") && rows[i - 1].contains("START OF FREQUENCY")).collect();
        if !at.is_empty() {
            let i = *g.pick(&at);
            run.eval("antex/fault", &doc);
            let d: String = rows.iter().enumerate().map(|(k, r)| if k == i { label(fault, "NORTH / EAST / UP") } else { format!("{r}\n") }).collect();
            run.check(read_antex(d.as_bytes()).is_err(), "antex/fault-accepted", || format!("offset {fault:?} accepted"));
        }
    }
    // write with extra digits: rounded to the printed 0.01 mm
    let off = g.range(-0.0049, 0.0049);
    let mut cat = AntexCatalog::new();
    for (n, fr) in &want { cat.insert(n.clone(), fr.iter().map(|(f, v)| (f.clone(), Pco::new(v[0] + off, v[1] + off, v[2] + off))).collect()); }
    let mut b = Vec::new();
    run.eval("antex/write", want.len() as u64 * 7 + doc.len() as u64);
    let r = write_antex(&mut b, &cat).and_then(|()| read_antex(&b[..]));
    run.check(r.as_ref().is_ok_and(|c| same(c, 1e-9)), "antex/round-trip", || format!("wrote {want:?}, read {:?}\n{}", r.as_ref().map(|c| c.keys().cloned().collect::<Vec<_>>()), String::from_utf8_lossy(&b).chars().take(800).collect::<String>()));
}
fn orbex_sinex(run: &Run, g: &mut Rng) {
    // ORBEX
    let mode = if g.p(0.5) { ParseMode::Strict } else { ParseMode::Permissive };
    let fault = g.p(0.3);
    let ver = format!("0.{:02}", g.n(100));
    let mut doc = format!("%=ORBEX  {ver}\n%%\n* comment\n+FILE/DESCRIPTION\n DESCRIPTION text here\n-FILE/DESCRIPTION\n+EPHEMERIS/DATA\n");
    let (mut orb, mut clk, mut att) = (vec![], vec![], vec![]);
    let mut lines: Vec<(usize, String)> = vec![];
    for _ in 0..1 + g.n(4) {
        let s = g.n(4);
        lines.push((9, ["#ORB", "#CLK", "#ATT", "#XYZ"][s].to_string() + if g.p(0.3) { " " } else { "" }));
        for _ in 0..1 + g.n(3) {
            let c = Civ::random(g, 1990, 2040, 1000);
            lines.push((9, format!("## {} {:3} {}.{:09}", c.y, c.doy(), c.sod_ns() / 1_000_000_000, c.sod_ns() % 1_000_000_000)));
            let mjd = c.mjd_day() as f64 + c.sod_ns() as f64 / 86_400e9;
            for _ in 0..g.n(4) {
                let sat = format!("{}{:02}", g.pick(&['G', 'R', 'E']), g.n(99) + 1);
                match s {
                    0 => { let v: Vec<f64> = (0..if g.p(0.5) { 6 } else { 3 }).map(|_| mag(g, 1.0, 3e7)).collect(); lines.push((0, format!(" {sat} {}", v.iter().map(|x| num(*x, g)).collect::<Vec<_>>().join(" ")))); orb.push((sat, mjd, v, lines.len() - 1)); }
                    1 => { let v = mag(g, 1e-12, 1e-2); lines.push((1, format!(" {sat} {}", num(v, g)))); clk.push((sat, mjd, v, lines.len() - 1)); }
                    2 => { let v = [0.0; 4].map(|_| g.range(-1.0, 1.0)); lines.push((2, format!(" {sat} {}", v.iter().map(|x| num(*x, g)).collect::<Vec<_>>().join(" ")))); att.push((sat, mjd, v, lines.len() - 1)); }
                    _ => lines.push((9, format!(" {sat} unknown record"))),
                }
            }
        }
    }
    let data: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].0 < 9).collect();
    let mut hit = None;
    if fault && !data.is_empty() {
        let i = *g.pick(&data);
        let need = [3, 1, 4][lines[i].0];
        let mut t: Vec<String> = lines[i].1.split_whitespace().map(String::from).collect();
        if g.p(0.5) { t[1 + g.n(need)] = (*g.pick(&["abc", "1,5", "--2"])).into(); } else { t.truncate(1 + g.n(need)); }
        lines[i].1 = format!(" {}", t.join(" "));
        hit = Some(i);
    }
    // or a damaged epoch line (every record up to the next one loses its epoch), or a record ahead of the first epoch line
    let mut lost = 0..0;
    if !fault && g.p(0.3) {
        let eps: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].1.starts_with("##")).collect();
        let k = g.n(eps.len());
        let i = eps[k];
        if g.p(0.3) && k == 0 && lines[0].1.trim() != "#XYZ" {
            let l = match &lines[0].1[..4] { "#ORB" => " G01 1.0 2.0 3.0", "#CLK" => " G01 1e-6", _ => " G01 1.0 0.0 0.0 0.0" };
            lines[0].1 = format!("{}\n{l}", lines[0].1);
            lost = usize::MAX - 1..usize::MAX;
        } else {
            let t: Vec<String> = lines[i].1.split_whitespace().skip(1).map(String::from).collect();
            lines[i].1 = match g.n(6) { 0 => format!("## {} {}", t[0], t[1]), 1 => format!("## {} 0 {}", t[0], t[2]), 2 => format!("## {} 367 {}", t[0], t[2]), 3 => format!("## {} x {}", t[0], t[2]), 4 => format!("## {} {} nan", t[0], t[1]), _ => format!("## {} {} 1:0", t[0], t[1]) };
            lost = i..eps.get(k + 1).copied().unwrap_or(usize::MAX);
        }
        run.eval("orbex/epoch-fault", (doc.len() as u64, lost.start));
    }
    for (_, l) in &lines { let _ = write!(doc, "{l}{}", if g.p(0.1) { "\r\n" } else { "\n" }); }
    doc += "-EPHEMERIS/DATA\n%ENDORBEX\n";
    run.eval(if hit.is_some() { "orbex/fault" } else { "orbex/read" }, doc.len() as u64);
    let r = read_orbex(doc.as_bytes(), mode);
    if hit.is_some() && mode == ParseMode::Strict { run.check(r.is_err(), "orbex/fault-accepted", || format!("faulty record {:?} accepted", lines[hit.unwrap()])); }
    else if !lost.is_empty() && mode == ParseMode::Strict { run.check(r.is_err(), "orbex/epoch-accepted", || doc.clone()); }
    else if let Ok(p) = &r {
        let keep = |i: usize| Some(i) != hit && !lost.contains(&i);
        let o: Vec<_> = orb.iter().filter(|x| keep(x.3)).collect(); let k: Vec<_> = clk.iter().filter(|x| keep(x.3)).collect(); let a: Vec<_> = att.iter().filter(|x| keep(x.3)).collect();
        run.check(p.version == ver && p.orbits.len() == o.len() && p.orbits.iter().zip(&o).all(|(q, w)| q.sat == w.0 && near(q.epoch_mjd, w.1, 1e-10) && q.pos_m[..] == w.2[..3] && match &q.vel_m_s { Some(v) => w.2.len() == 6 && v[..] == w.2[3..], None => w.2.len() == 3 }), "orbex/orbits", || format!("read {:?}\ndocument {o:?}\n{doc}", p.orbits));
        run.check(p.clocks.len() == k.len() && p.clocks.iter().zip(&k).all(|(q, w)| q.sat == w.0 && near(q.epoch_mjd, w.1, 1e-10) && q.bias_s == w.2), "orbex/clocks", || format!("read {:?}\ndocument {k:?}\n{doc}", p.clocks));
        run.check(p.attitudes.len() == a.len() && p.attitudes.iter().zip(&a).all(|(q, w)| q.sat == w.0 && near(q.epoch_mjd, w.1, 1e-10) && q.quaternion == w.2), "orbex/attitudes", || format!("read {:?}\ndocument {a:?}\n{doc}", p.attitudes));
    } else { run.violation("orbex/read", &format!("{mode:?} {:?}\n{doc}", r.err())); }
    // SINEX
    let agency = word(g, 3);
    type St = (String, String, String, Civ, [f64; 3], Option<[f64; 3]>, u8);
    let mut st: Vec<St> = vec![];
    for i in 0..g.n(6) {
        let c = Civ::random(g, 1980, 2079, 1_000_000_000);
        let full = if g.p(0.15) { 0b011 } else { 0b111 };
        st.push((if i > 0 && g.p(0.2) { st[0].0.clone() } else { format!("S{i:03}") }, (*g.pick(&["A", "B"])).into(), format!("{}", i + 1), c, [0.0; 3].map(|_| mag(g, 1.0, 7e6)), g.p(0.5).then(|| [0.0; 3].map(|_| mag(g, 1e-5, 1.0))), full));
    }
    let mut d = format!("%=SNX 2.10 {agency} 24:001:00000 {agency} 00:000:00000 23:365:86370 P 00010 0 S\n*---\n+SITE/ID\n*CODE PT\n");
    for s in &st { let _ = writeln!(d, " {}  {} 10101M001 P Somewhere -12.3", s.0, s.1); }
    d += "-SITE/ID\n+SOLUTION/ESTIMATE\n*INDEX TYPE\n";
    let mut rows = vec![];
    for s in &st {
        let ep = format!("{:02}:{:03}:{:05}", s.3.y % 100, s.3.doy(), s.3.sod_ns() / 1_000_000_000);
        for (j, k) in ["STAX", "STAY", "STAZ"].iter().enumerate() { if s.6 >> j & 1 == 1 { rows.push(format!("{k}   {}  {}    {} {ep} m    2 {} 1.0e-4", s.0, s.1, s.2, num(s.4[j], g))); } }
        if let Some(v) = s.5 { for (j, k) in ["VELX", "VELY", "VELZ"].iter().enumerate() { rows.push(format!("{k}   {}  {}    {} {ep} m/y  2 {} 1.0e-4", s.0, s.1, s.2, num(v[j], g))); } }
        rows.push(format!("XPO    ----  -    1 {ep} mas  2 1.25 1.0e-4"));
    }
    if g.p(0.4) { for i in (1..rows.len()).rev() { let j = g.n(i + 1); rows.swap(i, j); } }
    for (i, r) in rows.iter().enumerate() { let _ = writeln!(d, "{:6} {r}", i + 1); }
    d += "-SOLUTION/ESTIMATE\n+SOLUTION/MATRIX_ESTIMATE L COVA\n 1 1 1.0\n-SOLUTION/MATRIX_ESTIMATE L COVA\n%ENDSNX\n";
    run.eval("sinex/read", &d);
    let r = read_sinex(d.as_bytes(), mode);
    let Ok(s) = &r else { run.violation("sinex/read", &format!("{:?}\n{d}", r.err())); return };
    let mut want: Vec<&St> = st.iter().filter(|s| s.6 == 0b111).collect();
    want.sort_by(|a, b| (&a.0, &a.1, &a.2).cmp(&(&b.0, &b.1, &b.2)));
    let mut got: Vec<_> = s.stations.iter().collect();
    got.sort_by(|a, b| (&a.code, &a.point_code, &a.solution_id).cmp(&(&b.code, &b.point_code, &b.solution_id)));
    run.check(s.agency == agency && got.len() == want.len() && got.iter().zip(&want).all(|(a, w)| a.code == w.0 && a.point_code == w.1 && a.solution_id == w.2 && near(a.ref_epoch_mjd, w.3.mjd_day() as f64 + (w.3.sod_ns() / 1_000_000_000) as f64 / 86_400.0, 1e-10) && a.position.x().value() == w.4[0] && a.position.y().value() == w.4[1] && a.position.z().value() == w.4[2] && a.velocity_m_yr == w.5), "sinex/stations", || format!("read {:?}\ndocument {want:?}\n{d}", s.stations));
    if !rows.is_empty() {
        let i = g.n(rows.len());
        let mut t: Vec<String> = rows[i].split_whitespace().map(String::from).collect();
        match g.n(3) { 0 => t[7] = (*g.pick(&["abc", "1,2"])).into(), 1 => t.truncate(6), _ => t[4] = (*g.pick(&["24:001", "24:400:00000", "xx:001:00000", "24:001:abc"])).into() }
        run.eval("sinex/fault", i as u64 * 13 + t.len() as u64);
        let d2 = d.replacen(&rows[i], &t.join(" "), 1);
        run.check(read_sinex(d2.as_bytes(), ParseMode::Strict).is_err(), "sinex/fault-accepted", || format!("row {t:?} accepted"));
        match read_sinex(d2.as_bytes(), ParseMode::Permissive) {
            Ok(p) => for w in want.iter().filter(|w| t[0] == "XPO" || t.get(1..4) != Some(&[w.0.clone(), w.1.clone(), w.2.clone()][..])) {
                let a = p.stations.iter().find(|a| a.code == w.0 && a.point_code == w.1 && a.solution_id == w.2);
                let b = got.iter().find(|a| a.code == w.0 && a.point_code == w.1 && a.solution_id == w.2);
                run.check(match (a, b) { (Some(a), Some(b)) => format!("{a:?}") == format!("{b:?}"), _ => false }, "sinex/permissive-others", || format!("one bad row {t:?} changed station {w:?}: {a:?} vs {b:?}"));
            },
            Err(e) => { run.violation("sinex/permissive-refused", &format!("row {t:?} failed the whole file: {e}")); }
        }
    }
}

// ── ILRS ─────────────────────────────────────────────────────────────────
fn ilrs(run: &Run, g: &mut Rng) {
    // CPF
    let ents: Vec<(Civ, [i64; 3])> = (0..g.len(8, 500)).map(|_| (Civ::random(g, 1975, 2070, 1_000_000), [0; 3].map(|_| g.int(-40_000_000_000, 40_000_000_000)))).collect();
    let (ver, src, cospar, sic, norad, frame, step) = (format!("{}", 1 + g.n(3)), word(g, 4), format!("{}", g.int(1_000_000, 9_999_999)), g.int(0, 9999) as i32, format!("{}", g.int(1, 99_999)), (*g.pick(&["0", "1", "ITRF2014"])).to_string(), g.int(1, 900));
    let n = eol(g);
    let mut doc = format!("H1 CPF {ver} {src} 2024 01 01 00 1 lageos1 NONE{n}H2 {cospar} {sic} {norad} 2024 01 01 00 00 00 2024 01 02 00 00 00 {step} 1 1 {frame}{n}H9{n}");
    for (c, p) in &ents { let _ = write!(doc, "10 0 {} {}.{:06} 0 {} {} {}{n}", c.mjd_day(), c.sod_ns() / 1_000_000_000, c.sod_ns() % 1_000_000_000 / 1000, mm(p[0]), mm(p[1]), mm(p[2])); if g.p(0.2) { let _ = write!(doc, "20 0 1.0 2.0 3.0{n}"); } }
    let _ = write!(doc, "99{n}10 0 junk after end{n}");
    let cmp = |f: &cpf::CpfFile, sig: &str, doc: &str| {
        if !run.check(f.version == ver && f.source == src && f.cospar_id == cospar && f.target_name == cospar && f.sic == sic && f.norad == norad && f.reference_frame == frame && f.time_step_s == step as f64 && f.ephemeris.entries.len() == ents.len(), &format!("{sig}-header"), || format!("read {f:?}\n{doc}")) { return }
        for (e, (c, p)) in f.ephemeris.iter().zip(&ents) {
            time_eq(run, &format!("{sig}-epoch"), &e.epoch, c.unix_ns(), &format!("{c:?}"));
            run.check([e.position.x(), e.position.y(), e.position.z()].iter().zip(p).all(|(a, w)| near(a.value(), *w as f64 * 1e-6, 1e-9)), &format!("{sig}-position"), || format!("read {:?} document {p:?} mm", e.position));
        }
    };
    run.eval("cpf/read", &doc);
    let mode = if g.p(0.5) { ParseMode::Strict } else { ParseMode::Permissive };
    match cpf::parse_cpf_with_mode(&doc, mode) {
        Ok(mut f) => {
            cmp(&f, "cpf/read", &doc);
            run.eval("cpf/write", format!("{ents:?}"));
            // sub-resolution offsets are rounded to the printed millisecond / millimetre
            for (e, (c, _)) in f.ephemeris.entries.iter_mut().zip(&ents) { e.epoch = utc(&Civ { ns: (c.ns + g.int(-400_000, 400_000)).max(0), ..*c }); }
            let mut b = Vec::new();
            match cpf::write_cpf(&f, &mut b).and_then(|()| cpf::parse_cpf(&String::from_utf8_lossy(&b))) { Ok(r) => cmp(&r, "cpf/round-trip", &String::from_utf8_lossy(&b)), Err(e) => { run.violation("cpf/round-trip", &format!("{e}\n{}", String::from_utf8_lossy(&b))); } }
        }
        Err(e) => { run.violation("cpf/read", &format!("{e}\n{doc}")); }
    }
    let bad = *g.pick(&["10 0 58484 0.0 0 1.0 2.0", "10 0 x 0.0 0 1.0 2.0 3.0", "10 0 58484 y 0 1.0 2.0 3.0", "10 0 58484 86400.0 0 1.0 2.0 3.0", "10 0 58484 -1.0 0 1.0 2.0 3.0", "10 0 99999999999 0.0 0 1.0 2.0 3.0", "10 0 58484 nan 0 1.0 2.0 3.0", "10"]);
    run.eval("cpf/fault", &bad);
    let d = doc.replacen(&format!("H9{n}"), &format!("H9{n}{bad}{n}"), 1);
    run.check(cpf::parse_cpf(&d).is_err(), "cpf/fault-accepted", || format!("{bad:?} accepted"));
    let r = cpf::parse_cpf_with_mode(&d, ParseMode::Permissive);
    run.check(r.as_ref().is_ok_and(|f| f.ephemeris.entries.len() == ents.len()), "cpf/permissive", || format!("{bad:?}: {:?}", r.as_ref().map(|f| f.ephemeris.entries.len())));
    // CRD
    let day = Civ::random(g, 1975, 2070, 1_000_000_000);
    let (st, pad, sat, sic, nor) = (word(g, 8), g.int(1000, 9999), word(g, 10), g.int(0, 9999), format!("{}", g.int(1, 9_999_999)));
    let h4 = g.p(0.85);
    let mut doc = format!("h0 ignored\nH1 CRD {ver} 2024 01 01 00\nH2 {st} {pad} 12 34 5\nH3 {sat} {sic} {nor} 1 2\n");
    if h4 { let _ = writeln!(doc, "H4 1 {} {} {} 0 0 0 {} {} {} 23 59 59 0 0 0 0 1 0 2 0", day.y, day.mo, day.d, day.y, day.mo, day.d); }
    let mut want = vec![];
    let mut cfg = "std".to_string();
    let (mut date, mut dates, mut sessions) = (day.clone(), vec![], 1);
    for _ in 0..g.n(6) {
        if g.p(0.4) { cfg = word(g, 4); let _ = writeln!(doc, "C0 0 {cfg} 1 2 3"); }
        if h4 && g.p(0.25) {
            // the next session of the same file
            date = Civ::random(g, 1975, 2070, 1_000_000_000);
            let _ = writeln!(doc, "H8\nH4 1 {} {} {} 0 0 0 {} {} {} 23 59 59 0 0 0 0 1 0 2 0", date.y, date.mo, date.d, date.y, date.mo, date.d);
            sessions += 1;
        }
        dates.push(days(date.y, date.mo, date.d) as i128);
        let (sod, tof) = (g.int(0, 86_399_999_999), g.range(1e-3, 0.3));
        if g.p(0.2) { let _ = writeln!(doc, "10 {}.{:06} {tof} {cfg} 2 2 0 0 0", sod / 1_000_000, sod % 1_000_000); }
        let nf = *g.pick(&[0usize, 1, 3, 6, 7, 11]);
        let sys = word(g, 4);
        let vals: Vec<String> = vec![sys.clone(), format!("{}", g.n(3)), format!("{}", g.n(3)), format!("{}", g.n(3)), format!("{}", g.n(3)), format!("{}", g.n(1000)), format!("{:.1}", g.range(0.0, 500.0)), "0.1".into(), "-0.2".into(), "1.5".into(), format!("{:.1}", g.range(0.0, 100.0))];
        let _ = writeln!(doc, "11 {}.{:06} {tof} {}", sod / 1_000_000, sod % 1_000_000, vals[..nf].join(" "));
        want.push((sod, tof, if nf > 0 { sys } else { cfg.clone() }, vals, nf));
        if g.p(0.2) { doc += "20 33.0 980.0 290.0 40 0\n"; }
    }
    doc += "H8\nH9\n";
    if g.p(0.3) { doc = doc.replace('\n', "\r\n"); }
    run.eval("crd/read", &doc);
    let r = crd::parse_crd_with_mode(&doc, mode);
    if let Ok(f) = &r {
        run.check(f.format_version == ver && f.station_name == st && f.station.name == st && f.station_cdp_pad == pad as i32 && f.station.cdp_pad == pad as i32 && f.station.sys_no == 12 && f.station.occ_no == 34 && f.station.time_zone == 5 && f.target.name == sat && f.satellite_name == sat && f.target.sic == sic as i32 && f.satellite_sic == sic as i32 && f.target.norad == nor && f.satellite_norad == nor && f.target.sc_flag == 1 && f.target.epoch_id == 2, "crd/header", || format!("read {f:?}\n{doc}"));
        match (&f.session_date, h4) { (Some(_), true) if sessions > 1 => {} (Some(t), true) => time_eq(run, "crd/session", t, days(day.y, day.mo, day.d) as i128 * 86_400_000_000_000, &format!("{day:?}")), (None, false) => {} (s, _) => { run.violation("crd/session", &format!("session date {s:?}, H4 present: {h4}")); } }
        if run.check(f.normal_points.len() == want.len(), "crd/count", || format!("read {} normal points, document {}", f.normal_points.len(), want.len())) {
            for ((p, (sod, tof, sys, v, nf)), date) in f.normal_points.iter().zip(&want).zip(&dates) {
                let num = |i: usize| if *nf > i { v[i].parse::<f64>().ok() } else { None };
                let u = |i: usize| num(i).unwrap_or(0.0) as u8;
                match (&p.epoch, h4) { (Some(t), true) => time_eq(run, "crd/epoch", t, date * 86_400_000_000_000 + *sod as i128 * 1000, &format!("{sod} us of day {date}\n{doc}")), (None, false) => {} (e, _) => { run.violation("crd/epoch", &format!("{e:?}, H4 {h4}")); } }
                run.check(near(p.seconds_of_day.value(), *sod as f64 * 1e-6, 1e-9) && p.time_of_flight.value() == *tof && near(p.range_m.value(), tof * C / 2.0, 1e-6) && p.system_config_id == *sys && p.epoch_event == u(1) && p.filter_flag == u(2) && p.data_quality == u(3) && p.format_flag == u(4) && p.num_raws == num(5).map(|x| x as u32) && p.return_rate == num(10) && match (p.bin_rms_m, num(6)) { (Some(a), Some(b)) => near(a.value(), b * 1e-12 * C / 2.0, 1e-12), (None, None) => true, _ => false }, "crd/point", || format!("read {p:?}\ndocument {v:?} (first {nf}) sod {sod} tof {tof} config {sys}"));
            }
        }
    } else { run.violation("crd/read", &format!("{:?}\n{doc}", r.err())); }
    let bad = *g.pick(&["11", "11 100.0", "11 x 0.05", "11 100.0 y"]);
    run.eval("crd/fault", &bad);
    let at = *g.pick(&["\n11 ", "\nH8", "\nH9"]);
    let at = if doc.contains(at) { at } else { "\nH8" };
    let d = doc.replacen(at, &format!("\n{bad}{at}"), 1);
    run.check(crd::parse_crd(&d).is_err(), "crd/fault-accepted", || format!("{bad:?} accepted"));
    let r = crd::parse_crd_with_mode(&d, ParseMode::Permissive);
    run.check(r.as_ref().is_ok_and(|f| f.normal_points.len() == want.len()), "crd/permissive", || format!("{bad:?}"));
}
fn mm(v: i64) -> String { format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000) }

// ── RINEX ────────────────────────────────────────────────────────────────
fn nav_vals(r: &nav::GpsNavRecord) -> [f64; 20] { [r.af0.value(), r.af1, r.af2, r.iode, r.crs.value(), r.delta_n.value(), r.m0.value(), r.cuc.value(), r.e, r.cus.value(), r.sqrt_a, r.toe.value(), r.cic.value(), r.omega0.value(), r.cis.value(), r.i0.value(), r.crc.value(), r.omega.value(), r.omega_dot.value(), r.idot.value()] }
fn rinex_nav(run: &Run, g: &mut Rng) {
    use siderust::qtty::*;
    let recs: Vec<(u8, Civ, [f64; 20])> = (0..g.len(5, 200)).map(|_| (1 + g.n(99) as u8, Civ::random(g, 1980, 2060, 1_000_000_000), [0.0; 20].map(|_| if g.p(0.3) { mag(g, 1e-40, 1e30) } else { mag(g, 1e-12, 1e7) }))).collect();
    let mut doc = label("     3.04           N: GNSS NAV DATA    M (Mixed)", "RINEX VERSION / TYPE") + &label("", "END OF HEADER");
    let foreign = |g: &mut Rng| if g.p(0.3) { let mut s = format!("R{:02} 2024 01 01 00 15 00{}{}{}\n", 1 + g.n(24), d19(1e-5, 'D'), d19(0.0, 'D'), d19(-9e2, 'D')); for _ in 0..3 { let _ = writeln!(s, "    {}{}{}{}", d19(mag(g, 1.0, 1e4), 'D'), d19(1.0, 'D'), d19(-2.0, 'D'), d19(0.0, 'D')); } s } else { String::new() };
    let mut hits = vec![];
    for (prn, c, v) in &recs {
        doc += &foreign(g);
        let ch = *g.pick(&['D', 'E', 'd', 'e']);
        let start = doc.len();
        let _ = writeln!(doc, "G{prn:02} {} {:02} {:02} {:02} {:02} {}{}{}{}", c.y, c.mo, c.d, c.h, c.mi, c.sec(0), d19(v[0], ch), d19(v[1], ch), d19(v[2], ch));
        for r in 0..4 { let _ = writeln!(doc, "    {}{}{}{}", d19(v[3 + 4 * r], ch), d19(v[4 + 4 * r], ch), d19(v[5 + 4 * r], ch), d19(v[6 + 4 * r], ch)); }
        let _ = writeln!(doc, "    {}{}{}{}", d19(v[19], ch), d19(1.0, ch), d19(2290.0, ch), d19(0.0, ch));
        let _ = writeln!(doc, "    {}{}{}{}", d19(2.0, ch), d19(0.0, ch), d19(-1.1e-8, ch), d19(33.0, ch));
        let _ = writeln!(doc, "    {}{}", d19(4.1e5, ch), d19(4.0, ch));
        hits.push((start, doc.len()));
    }
    doc += &foreign(g);
    let cmp = |f: &nav::RinexNavFile, sig: &str, doc: &str| {
        if !run.check(f.gps.len() == recs.len(), &format!("{sig}-count"), || format!("read {} records, document {}\n{doc}", f.gps.len(), recs.len())) { return }
        for (a, (prn, c, v)) in f.gps.iter().zip(&recs) {
            time_eq(run, &format!("{sig}-toc"), &a.toc, c.unix_ns(), &format!("{c:?}"));
            let w = nav_vals(a);
            run.check(a.prn == *prn && (0..20).all(|i| (w[i] - v[i]).abs() <= 5.1e-13 * v[i].abs()), &format!("{sig}-values"), || format!("PRN {} vs {prn}, read {w:?}\nwant {v:?}", a.prn));
        }
    };
    run.eval("rinex-nav/read", &doc);
    let mode = if g.p(0.5) { ParseMode::Strict } else { ParseMode::Permissive };
    match nav::parse_rinex_nav_with_mode(&doc, mode) { Ok(f) => cmp(&f, "rinex-nav/read", &doc), Err(e) => { run.violation("rinex-nav/read", &format!("{e}\n{doc}")); } }
    let f = nav::RinexNavFile { gps: recs.iter().map(|(prn, c, v)| nav::GpsNavRecord { prn: *prn, toc: utc(c), af0: Seconds::new(v[0]), af1: v[1], af2: v[2], iode: v[3], crs: Meters::new(v[4]), delta_n: angular_rate::AngularRate::new(v[5]), m0: Radians::new(v[6]), cuc: Radians::new(v[7]), e: v[8], cus: Radians::new(v[9]), sqrt_a: v[10], toe: Seconds::new(v[11]), cic: Radians::new(v[12]), omega0: Radians::new(v[13]), cis: Radians::new(v[14]), i0: Radians::new(v[15]), crc: Meters::new(v[16]), omega: Radians::new(v[17]), omega_dot: angular_rate::AngularRate::new(v[18]), idot: angular_rate::AngularRate::new(v[19]) }).collect() };
    let mut b = Vec::new();
    run.eval("rinex-nav/write", recs.len() as u64 * 3);
    match nav::write_rinex_nav(&mut b, &f).and_then(|()| nav::parse_rinex_nav(&String::from_utf8_lossy(&b))) { Ok(r) => cmp(&r, "rinex-nav/round-trip", &String::from_utf8_lossy(&b)), Err(e) => { run.violation("rinex-nav/round-trip", &format!("{e}\n{}", String::from_utf8_lossy(&b))); } }
    // a value no field can hold is refused, not replaced
    if let Some(first) = f.gps.first() {
        let mut r = first.clone();
        let bad = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.5e-120, -2.5e205]);
        match g.n(8) { 0 => r.af0 = Seconds::new(bad), 1 => r.af1 = bad, 2 => r.crs = Meters::new(bad), 3 => r.e = bad, 4 => r.sqrt_a = bad, 5 => r.toe = Seconds::new(bad), 6 => r.i0 = Radians::new(bad), _ => r.idot = angular_rate::AngularRate::new(bad) }
        run.eval("rinex-nav/refuse", bad.to_bits());
        run.check(nav::write_rinex_nav(&mut vec![], &nav::RinexNavFile { gps: vec![r] }).is_err(), "rinex-nav/unprintable-written", || format!("a record holding {bad} was written"));
    }
    if g.p(0.05) {
        let c = Civ { ns: 0, ..Civ::random(g, 2018, 2024, 1_000_000_000) };
        let (one, line) = (d19(1.0, 'D'), format!("    {}\n", d19(1.0, 'D').repeat(4)));
        let d = label("     3.04           N: GNSS NAV DATA    G", "RINEX VERSION / TYPE") + &label("", "END OF HEADER") + &format!("G05 {} {:02} {:02} {:02} {:02} {}{one}{one}{one}\n{}", c.y, c.mo, c.d, c.h, c.mi, &c.sec(1)[..2], line.repeat(7));
        match nav::parse_rinex_nav(&d) { Ok(r) => time_system(run, "rinex-nav", "GPS", 18, &r.gps[0].toc, &c), Err(e) => run.violation("rinex-nav/time-system-unreadable", &format!("{e}\n{d}")) }
    }
    // fixed columns of the written text
    for l in String::from_utf8_lossy(&b).lines().skip(2).filter(|l| !l.starts_with('G')) { run.check((23..=82).contains(&l.len()) || l.contains("D+1") || l.contains("D-1"), "rinex-nav/columns", || format!("line of {} columns: {l:?}", l.len())); }
    if !recs.is_empty() {
        let k = g.n(recs.len());
        let (a, z) = hits[k];
        let rec = &doc[a..z];
        let mut ls: Vec<String> = rec.lines().map(String::from).collect();
        let how = g.n(6);
        let bad: String = match how {
            0 => { let l = g.n(6); let x = if l == 0 { 23 } else { 4 } + 19 * if l == 5 { 0 } else { g.n(3) }; ls[l].replace_range(x..x + 19, &format!("{:>19}", *g.pick(&["abc", "1.0.0D+00", "0x12"]))); ls.join("\n") + "\n" }
            1 => { ls[0].replace_range(1..3, *g.pick(&["00", "xx"])); ls.join("\n") + "\n" }
            2 => { ls[0].replace_range(9..11, *g.pick(&["13", "00"])); ls.join("\n") + "\n" }
            3 => { ls[0].replace_range(15..17, "24"); ls.join("\n") + "\n" }
            4 => { ls[0].replace_range(21..23, "61"); ls.join("\n") + "\n" }
            _ => { let l = 1 + g.n(4); ls[l].truncate(4 + 19 * g.n(4)); ls.join("\n") + "\n" }
        };
        run.eval("rinex-nav/fault", how as u64 * 97 + k as u64);
        let d = format!("{}{bad}{}", &doc[..a], &doc[z..]);
        run.check(nav::parse_rinex_nav(&d).is_err(), "rinex-nav/fault-accepted", || format!("fault kind {how} accepted:\n{bad}"));
        let r = nav::parse_rinex_nav_with_mode(&d, ParseMode::Permissive);
        run.check(r.as_ref().is_ok_and(|f| f.gps.len() == recs.len() - 1 && f.gps.iter().zip(recs.iter().enumerate().filter(|x| x.0 != k)).all(|(a, (_, w))| a.prn == w.0)), "rinex-nav/permissive", || format!("fault kind {how}: {:?} of {} records\n{bad}", r.as_ref().map(|f| f.gps.len()), recs.len()));
    }
}
fn rinex_obs(run: &Run, g: &mut Rng) {
    let marker = { let mut t = text(g); while t.len() > 55 { t.pop(); } t.trim().to_string() };
    let xyz = g.p(0.7).then(|| [0; 3].map(|_| g.int(-63_780_000_000, 63_780_000_000)));
    let interval = g.p(0.7).then(|| g.int(1, 900_000));
    let systems: Vec<char> = ['C', 'E', 'G', 'R'].into_iter().filter(|_| g.p(0.6)).collect();
    let types: BTreeMap<char, Vec<String>> = systems.iter().map(|s| (*s, { let n = if g.p(0.3) { 12 + g.n(18) } else { g.n(8) }; (0..n).map(|i| format!("{}{}{}", ['C', 'L', 'D', 'S'][i % 4], i / 4 % 9 + 1, (b'A' + (i / 36) as u8 + (i % 7) as u8) as char)).collect::<Vec<_>>() })).collect();
    let types: BTreeMap<char, Vec<String>> = types.into_iter().map(|(s, v)| { let mut seen = std::collections::HashSet::new(); (s, v.into_iter().filter(|t| seen.insert(t.clone())).collect()) }).collect();
    type Ep = (Civ, BTreeMap<String, BTreeMap<String, i64>>);
    let eps: Vec<Ep> = (0..g.len(5, 200)).map(|_| (Civ::random(g, 1980, 2060, 100), (0..if systems.is_empty() { 0 } else { g.n(6) }).map(|_| { let s = *g.pick(&systems); (format!("{s}{:02}", 1 + g.n(36)), types[&s].iter().filter(|_| g.p(0.8)).cloned().collect::<Vec<_>>().into_iter().map(|t| (t, if g.p(0.05) { 0 } else { g.int(-99_999_999_999, 999_999_999_999) / 10i64.pow(g.n(9) as u32) })).collect()) }).collect())).collect();
    // independent document
    let mut doc = label("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE") + &label("some remark", "COMMENT") + &format!("{marker}{}MARKER NAME\n", " ".repeat(60 - marker.len()));
    if let Some(p) = xyz { doc += &label(&p.map(|v| format!("{:>14}", format!("{}{}.{:04}", if v < 0 { "-" } else { "" }, v.abs() / 10_000, v.abs() % 10_000))).concat(), "APPROX POSITION XYZ"); }
    for (s, v) in &types {
        for (i, chunk) in v.chunks(13).enumerate() { let head = if i == 0 { format!("{s}  {:3}", v.len()) } else { " ".repeat(6) }; doc += &label(&(head + &chunk.iter().map(|t| format!(" {t}")).collect::<String>()), "SYS / # / OBS TYPES"); }
        if v.is_empty() { doc += &label(&format!("{s}    0"), "SYS / # / OBS TYPES"); }
    }
    if let Some(i) = interval { doc += &label(&format!("{:>10}", format!("{}.{:03}", i / 1000, i % 1000)), "INTERVAL"); }
    doc += &label("", "END OF HEADER");
    for (c, sats) in &eps {
        // event records stand between the epochs, with or without an epoch of their own
        if g.p(0.3) {
            run.count("rinex-obs/events", 1);
            let lines: Vec<String> = (0..g.n(4)).map(|_| match g.n(3) { 0 => label(&text(g).chars().filter(|c| c.is_ascii() && *c != '>').take(50).collect::<String>(), "COMMENT"), 1 => format!("G{:02}  20123456.789\n", 1 + g.n(32)), _ => label("moved", "MARKER NUMBER") }).collect();
            let when = if g.p(0.5) { " ".repeat(27) } else { format!("{} {:02} {:02} {:02} {:02}{:>11}", c.y, c.mo, c.d, c.h, c.mi, c.sec(7)) };
            let _ = write!(doc, "> {when}  {}{:3}\n{}", 2 + g.n(5), lines.len(), lines.concat());
        }
        let _ = writeln!(doc, "> {} {:02} {:02} {:02} {:02}{:>11}  {}{:3}", c.y, c.mo, c.d, c.h, c.mi, c.sec(7), g.pick(&["0", "0", "1"]), sats.len());
        for (sat, v) in sats {
            let mut row = sat.clone();
            for t in &types[&sat.chars().next().unwrap()] { match v.get(t) { Some(x) => { let _ = write!(row, "{:>14}{}{}", mm(*x), g.pick(&[" ", "1", "0"]), g.pick(&[" ", "8", "5"])); } None => row += &" ".repeat(16) } }
            let _ = writeln!(doc, "{}", row.trim_end());
        }
    }
    if g.p(0.2) { doc = doc.replace('\n', "\r\n"); }
    let cmp = |o: &obs::RinexObs, sig: &str, doc: &str| {
        let ok = o.marker == marker && match (&o.approx_xyz_m, &xyz) { (Some(a), Some(b)) => a.iter().zip(b).all(|(a, b)| near(a.value(), *b as f64 * 1e-4, 1e-9)), (None, None) => true, _ => false } && match (o.interval_s, interval) { (Some(a), Some(b)) => near(a.value(), b as f64 * 1e-3, 1e-12), (None, None) => true, _ => false } && o.obs_types.len() == types.len() && types.iter().all(|(s, v)| o.obs_types.get(s) == Some(v));
        run.check(ok, &format!("{sig}-header"), || format!("read {:?} {:?} {:?} {:?}\nwant {marker:?} {xyz:?} {interval:?} {types:?}\n{}", o.marker, o.approx_xyz_m, o.interval_s, o.obs_types, doc.chars().take(1200).collect::<String>()));
        if !run.check(o.epochs.len() == eps.len(), &format!("{sig}-epochs"), || format!("read {} epochs of {}\n{doc}", o.epochs.len(), eps.len())) { return }
        for (e, (c, sats)) in o.epochs.iter().zip(&eps) {
            time_eq(run, &format!("{sig}-epoch"), &e.time, c.unix_ns(), &format!("{c:?}"));
            run.check(e.satellites.len() == sats.len() && sats.iter().all(|(s, v)| e.satellites.get(s).is_some_and(|m| m.len() == v.len() && v.iter().all(|(t, x)| m.get(t).is_some_and(|y| near(*y, *x as f64 * 1e-3, 1e-9 + 1e-15 * (*x as f64).abs()))))), &format!("{sig}-values"), || format!("read {:?}\nwant {sats:?}", e.satellites));
        }
    };
    run.eval("rinex-obs/read", &doc);
    match obs::read_rinex_obs(doc.as_bytes()) { Ok(o) => cmp(&o, "rinex-obs/read", &doc), Err(e) => { run.violation("rinex-obs/read", &format!("{e}\n{doc}")); } }
    let off = g.int(-40, 40);
    let o = obs::RinexObs { marker: marker.clone(), approx_xyz_m: xyz.map(|p| p.map(|v| siderust::qtty::Meters::new(v as f64 * 1e-4))), interval_s: interval.map(|i| siderust::qtty::Seconds::new(i as f64 * 1e-3)), obs_types: types.iter().map(|(k, v)| (*k, v.clone())).collect(), epochs: eps.iter().map(|(c, s)| obs::ObsEpoch { time: utc(&Civ { ns: (c.ns + off).max(0), ..*c }), satellites: s.iter().map(|(k, v)| (k.clone(), v.iter().map(|(t, x)| (t.clone(), *x as f64 * 1e-3)).collect::<HashMap<_, _>>())).collect() }).collect() };
    let mut b = Vec::new();
    run.eval("rinex-obs/write", eps.len() as u64 * 5 + types.len() as u64);
    match obs::write_rinex_obs(&mut b, &o).and_then(|()| obs::read_rinex_obs(&b[..])) { Ok(r) => cmp(&r, "rinex-obs/round-trip", &String::from_utf8_lossy(&b)), Err(e) => { run.violation("rinex-obs/round-trip", &format!("{e}\n{}", String::from_utf8_lossy(&b))); } }
    let bad = *g.pick(&["> 2024 02 30 00 00  0.0000000  0  0", "> 2024 13 01 00 00  0.0000000  0  0", "> 2024 01 01 24 00  0.0000000  0  0", "> 2024 01 01 00 00 60.0000000  0  0", "> 2024 01 01 00 00 -1.0000000  0  0"]);
    run.eval("rinex-obs/fault", &bad);
    let d = format!("{doc}{bad}\n");
    run.check(obs::read_rinex_obs(d.as_bytes()).is_err(), "rinex-obs/fault-accepted", || format!("{bad:?} accepted"));
    if g.p(0.05) {
        let (sys, ahead) = *g.pick(&[("UTC", 0), ("GLO", 0), ("GPS", 18), ("GAL", 18), ("QZS", 18), ("BDT", 4)]);
        let c = Civ::random(g, 2018, 2024, 1000);
        let d = label("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE") + &label(&format!("{:6}{:6}{:6}{:6}{:6}{:>13}     {sys}", c.y, c.mo, c.d, c.h, c.mi, c.sec(7)), "TIME OF FIRST OBS") + &label("", "END OF HEADER") + &format!("> {} {:02} {:02} {:02} {:02}{:>11}  0  0\n", c.y, c.mo, c.d, c.h, c.mi, c.sec(7));
        if let Ok(r) = obs::read_rinex_obs(d.as_bytes()) { time_system(run, "rinex-obs", sys, ahead, &r.epochs[0].time, &c) }
    }
    let bad = *g.pick(&["> 2O24 02 03 00 00  0.0000000  0  0", "> 2024 02 0x 00 00  0.0000000  0  0", "> 2024 02 03 x0 00  0.0000000  0  0", "> 2024 02 03 00 0x  0.0000000  0  0", "> 2024 02 03 00 00  0.0.00000  0  0", "> 2024 02 03 00 00  0.0000000  x  0", "> 2024 02 03 00 00  0.0000000  0  y", "> 2024 02 03 00 00", "> 2024 02 03 00 00  0.0000000  0  2\nG01", "> 2024 02 03 00 00  0.0000000  0  2\nG01\n> 2024 02 03 00 01  0.0000000  0  0"]);
    let d = format!("{doc}{bad}\n");
    run.check(obs::read_rinex_obs(d.as_bytes()).is_err(), "rinex-obs/damage-accepted", || format!("{bad:?} accepted"));
    if g.p(0.1) {
        // a hundred satellites and more: the count touches the flag
        let n = 100 + g.n(120);
        let d = format!("{doc}> 2024 02 03 00 00  0.0000000  0{n:3}\n{}", (0..n).map(|i| format!("{}{:02}\n", ['G', 'R', 'E', 'C', 'J'][i / 60], i % 60)).collect::<String>());
        run.eval("rinex-obs/crowded", n as u64);
        let r = obs::read_rinex_obs(d.as_bytes()).map(|o| (o.epochs.len(), o.epochs.last().map(|e| e.satellites.len())));
        run.check(r.as_ref().is_ok_and(|r| *r == (eps.len() + 1, Some(n))), "rinex-obs/crowded", || format!("{n} satellites: {r:?}"));
        let mut wide = o;
        wide.obs_types = [('G', vec!["C1C".to_string(), "L1C".into()])].into();
        wide.epochs = vec![obs::ObsEpoch { time: utc(&Civ::random(g, 1990, 2050, 1000)), satellites: [("G01".to_string(), [("C1C".to_string(), *g.pick(&[1e10, -1e9, 1.2345e14, f64::INFINITY])), ("L1C".into(), 1.0)].into())].into() }];
        if wide.epochs[0].satellites["G01"]["C1C"].is_finite() { run.check(obs::write_rinex_obs(&mut vec![], &wide).is_err(), "rinex-obs/wide-written", || format!("{:?}", wide.epochs)); }
    }
}

// ── DORIS, EOP, vgosDB, SCK ──────────────────────────────────────────────
fn others(run: &Run, g: &mut Rng) {
    // DORIS
    let (prog, ag, mk, ant, rec) = (word(g, 20), word(g, 20), text(g).chars().filter(|c| c.is_ascii()).collect::<String>().trim().to_string(), word(g, 20), word(g, 20));
    let mk = if mk.len() > 55 { mk[..55].trim().to_string() } else { mk };
    let mut doc = label(&format!("{:9}           OBSERVATION DATA    D", "     3.00"), "RINEX VERSION / TYPE") + &label(&format!("{prog:<20}{ag:<20}20240101 000000 UTC"), "PGM / RUN BY / DATE") + &label(&mk, "MARKER NAME") + &label(&format!("{:<20}{ant:<20}", "1"), "ANT # / TYPE") + &label(&format!("{:<20}{rec:<20}{:<20}", "1", "v2"), "REC # / TYPE / VERS") + &label("x", "COMMENT") + &label("", "END OF HEADER");
    let mut want = vec![];
    for _ in 0..g.n(5) {
        let c = Civ::random(g, 1990, 2050, 1000);
        let _ = writeln!(doc, "> {} {:02} {:02} {:02} {:02} {}  0  2", c.y, c.mo, c.d, c.h, c.mi, c.sec(6));
        for _ in 0..g.n(4) { let (s, p) = (format!("D{:02}", 1 + g.n(60)), format!("{:.3} {:.3}", g.range(-1e6, 1e6), g.range(-1e6, 1e6))); let _ = writeln!(doc, "{s}  {p}"); want.push((c, s, p)); }
    }
    run.eval("doris/read", &doc);
    match read_rinex_doris(doc.as_bytes()) {
        Ok(d) => { run.check(d.header.version == "3.00" && d.header.program == prog && d.header.agency == ag && d.header.marker_name == mk && d.header.antenna_type == ant && d.header.receiver_type == rec, "doris/header", || format!("{:?}\n{doc}", d.header));
            run.check(d.unsupported_obs == 0 && d.observations.len() == want.len() && d.observations.iter().zip(&want).all(|(o, w)| o.satellite_id == w.1 && o.raw_measurements == w.2 && near(o.epoch_mjd, w.0.mjd_day() as f64 + w.0.sod_ns() as f64 / 86_400e9, 3e-11)), "doris/observations", || format!("{:?}\nwant {want:?}", d.observations)); }
        Err(e) => { run.violation("doris/read", &format!("{e}\n{doc}")); }
    }
    let bad = *g.pick(&["> 2024 02 30 00 00 00.000  0  1", "> 2024 01 01 25 00 00.000  0  1", "> 2024 01 01 00 61 00.000  0  1", "> 2024 01 01 00 00 75.000  0  1", "> 2024 01 01 00 00 abc  0  1"]);
    run.check(read_rinex_doris(format!("{doc}{bad}\n").as_bytes()).is_err(), "doris/fault-accepted", || format!("{bad:?} accepted"));
    // EOP C04
    let n0 = g.int(41_000, 62_000);
    let rows: Vec<(i64, [f64; 6])> = { let mut m = n0; let leap_at = g.n(30) as i64; let mut d = g.range(-0.4, 0.4); (0..g.n(20) as i64).map(|i| { m += if g.p(0.8) { 1 } else { g.int(2, 5) }; d -= g.range(0.0, 0.003); if i == leap_at { d += 1.0 } (m, [dec(g.range(-0.5, 0.5), 6), dec(g.range(-0.5, 0.6), 6), dec(d, 7), dec(g.range(-0.004, 0.004), 7), dec(g.range(-0.001, 0.001), 6), dec(g.range(-0.001, 0.001), 6)]) }).collect() };
    let mut doc = String::from("# header\n\n  FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6))\n      Date      MJD      x          y        UT1-UTC       LOD         dX        dY   x Err y Err\n                         \"          \"           s           s          \"         \"  \"  \"\n     (0h UTC)\n");
    for (m, v) in &rows { let _ = writeln!(doc, "{:4}{:4}{:4}{m:7}{:11.6}{:11.6}{:12.7}{:12.7}{:11.6}{:11.6}{:11.6}{:11.6}", 2000, 1, 1, v[0], v[1], v[2], v[3], v[4], v[5], 0.0001, 0.0002); }
    run.eval("eop/read", doc.len() as u64 + n0 as u64);
    let vals = |r: &siderust::formats::iers::eop::EopRecord| [r.eop.xp.value(), r.eop.yp.value(), r.eop.dut1.value(), r.eop.lod.value(), r.eop.dx.value() / 1000.0, r.eop.dy.value() / 1000.0];
    match read_eop_c04(doc.as_bytes()) {
        Ok(t) => {
            run.check(t.len() == rows.len() && t.iter().zip(&rows).all(|(r, w)| r.mjd.raw().value() == w.0 as f64 && vals(r).iter().zip(&w.1).all(|(a, b)| near(*a, *b, 1e-15))), "eop/records", || format!("read {t:?}\nwant {rows:?}"));
            if t.is_empty() { run.check(interpolate(&t, tempoch::ModifiedJulianDate::<tempoch::UTC>::new(5e4)).is_none(), "eop/empty", || "interpolation in an empty table returned a record".into()); }
            else if t.len() == rows.len() {
                for _ in 0..6 {
                    let (a, z) = (rows[0].0 as f64, rows[rows.len() - 1].0 as f64);
                    let m = match g.n(4) { 0 => rows[g.n(rows.len())].0 as f64, 1 => g.range(a - 10.0, a), 2 => g.range(z, z + 10.0), _ => g.range(a, z.max(a + 0.1)) };
                    run.eval("eop/interpolate", (m * 1e6) as u64);
                    let Some(r) = interpolate(&t, tempoch::ModifiedJulianDate::<tempoch::UTC>::new(m)) else { run.violation("eop/interpolate", &format!("no record at MJD {m}")); continue };
                    let want = match rows.iter().rposition(|r| r.0 as f64 <= m) { None => rows[0].1, Some(i) if i + 1 == rows.len() => rows[i].1, Some(i) => { let (p, q) = (&rows[i], &rows[i + 1]); let f = (m - p.0 as f64) / (q.0 - p.0) as f64; let mut o = [0.0; 6]; for k in 0..6 { let mut dd = q.1[k] - p.1[k]; if k == 2 && dd > 0.5 { dd -= 1.0 } o[k] = p.1[k] + f * dd } o } };
                    run.check(vals(&r).iter().zip(&want).all(|(a, b)| near(*a, *b, 1e-13)), "eop/interpolate", || format!("MJD {m}: got {:?} want {want:?} in {rows:?}", vals(&r)));
                }
            }
        }
        Err(e) => { run.violation("eop/read", &format!("{e}\n{doc}")); }
    }
    let d = format!("{doc}2024   1   1  60310   0.1  xyz  0.0  0.0  0.0  0.0\n");
    run.check(read_eop_c04(d.as_bytes()).is_err(), "eop/fault-accepted", || "row with a malformed value accepted".into());
    // vgosDB side-car
    let (code, start, sts): (String, String, Vec<String>) = (text(g), Civ::random(g, 1980, 2040, 1_000_000_000).iso(0), (0..g.n(6)).map(|_| word(g, 8)).collect());
    let mut ls = vec![format!("session_code{}={}{code}", blank(g), blank(g)), format!("start_epoch={start}"), format!("stations = {}", sts.join(if g.p(0.5) { "," } else { " , " })), "# note = 1".into(), String::new()];
    for i in (1..ls.len()).rev() { let j = g.n(i + 1); ls.swap(i, j); }
    run.eval("vgosdb/read", ls[0].len() as u64 * 31 + sts.len() as u64);
    let d = ls.join("\n");
    let r = read_vgosdb_sidecar(d.as_bytes());
    run.check(r.as_ref().is_ok_and(|h| h.session_code == code && h.start_epoch == start && h.stations == sts), "vgosdb/read", || format!("{r:?}\n{d}"));
    let bad = *g.pick(&["no equals sign", "unknown=1"]);
    run.check(read_vgosdb_sidecar(format!("{d}\n{bad}\n").as_bytes()).is_err(), "vgosdb/fault-accepted", || format!("{bad:?} accepted"));
    // SCK
    let (nc, rc) = (g.n(12), g.n(8));
    let ids = [0u32; 4].map(|_| g.u64() as u32);
    let (from, to) = (g.range(2.4e6, 2.5e6), g.range(2.4e6, 2.5e6));
    let body: Vec<f64> = (0..rc * (2 + 3 * nc)).map(|_| f64::from_bits(g.u64())).collect();
    let mut b = b"SCKERN01".to_vec();
    for v in [nc as u32, rc as u32, ids[0], ids[1], ids[2], ids[3]] { b.extend(v.to_le_bytes()) }
    b.extend(from.to_le_bytes()); b.extend(to.to_le_bytes()); b.resize(64, g.n(256) as u8);
    for v in &body { b.extend(v.to_le_bytes()) }
    run.eval("sck/read", b.len() as u64 + ids[0] as u64);
    let r = parse_sck(&b);
    run.check(r.as_ref().is_ok_and(|k| k.header.ncoeff == nc as u32 && k.header.record_count == rc as u32 && k.header.center_id == ids[0] && k.header.target_id == ids[1] && k.header.frame_id == ids[2] && k.header.time_scale_id == ids[3] && k.header.valid_from_jd == from && k.header.valid_to_jd == to && k.record_stride() == 2 + 3 * nc && k.records.len() == body.len() && k.records.iter().zip(&body).all(|(a, b)| a.to_bits() == b.to_bits())), "sck/read", || format!("{nc} coefficients, {rc} records: {:?}", r.as_ref().map(|k| k.header)));
    let mut c = b.clone();
    let how = g.n(4);
    match how { 0 => c.push(0), 1 => { c.pop(); } 2 => c[g.n(8)] ^= 0x20, _ => { let i = 8 + 4 * g.n(2); c[i] = c[i].wrapping_add(1 + g.n(200) as u8) } }
    let still = how == 3 && { let (n2, r2) = (u32::from_le_bytes(c[8..12].try_into().unwrap()) as usize, u32::from_le_bytes(c[12..16].try_into().unwrap()) as usize); r2 * (2 + 3 * n2) == body.len() };
    if !still { run.eval("sck/fault", how as u64 * 1000 + c.len() as u64); run.check(parse_sck(&c).is_err(), "sck/fault-accepted", || format!("damage kind {how} accepted")); }
}

/// The inserted UTC second 23:59:60 exists only on the announced days.
fn leap_second(run: &Run, g: &mut Rng) {
    let real = [(1978, 12), (1990, 12), (1995, 12), (1997, 6), (2005, 12), (2008, 12), (2012, 6), (2015, 6), (2016, 12)];
    let (y, m) = if g.p(0.7) { *g.pick(&real) } else { (g.int(1975, 2016), *g.pick(&[6i64, 12])) };
    let is = y <= 1979 && m == 12 || real.contains(&(y, m)) || [(1981, 6), (1982, 6), (1983, 6), (1985, 6), (1987, 12), (1989, 12), (1992, 6), (1993, 6), (1994, 6), (1998, 12)].contains(&(y, m));
    let us = g.n(990_000) as i64;
    let midnight = Civ { y: y + m / 12, mo: m % 12 + 1, d: 1, h: 0, mi: 0, ns: 0 }.unix_ns();
    let last = mlen(y, m);
    let doc = format!("#dP\n*  {y} {m} {last} 23 59 60.{us:06}\nPG01 1.0 2.0 3.0 4.0\nEOF\n");
    run.eval("leap/read", &doc);
    let r = read_sp3(doc.as_bytes());
    if !is { run.check(r.is_err(), "leap/no-such-second", || format!("{doc:?} accepted")); return }
    let Ok(rec) = r else { run.violation("leap/read", &format!("{doc:?}: {:?}", r.err())); return };
    let off = |t: &Time<UTC>| { let (a, w) = (t.raw_seconds_pair(), utc_ns(midnight).raw_seconds_pair()); (a.0 - w.0).value() + (a.1 - w.1).value() - (us as f64 * 1e-6 - 1.0) };
    run.within("leap/read", off(&rec.epochs[0].time), 1e-4, || doc.clone());
    let mut out = vec![];
    write_sp3(&mut out, &rec).unwrap();
    let out = String::from_utf8(out).unwrap();
    let back = read_sp3(out.as_bytes());
    run.check(back.as_ref().is_ok_and(|b| off(&b.epochs[0].time).abs() < 1e-4), "leap/round-trip", || format!("{out:?}"));
}

fn main() {
    let mut run = Run::new("C20", "documents are compared with the values they were generated from");
    run.assume("names carry no leading or trailing blanks and no line breaks; epochs between 1900 and 2200 (most formats 1975-2070), UTC leap seconds in the SP3 reader and writer only; values fit the printed columns");
    let n = run.size(48000, 400000);
    for (i, f) in [oem as fn(&Run, &mut Rng), opm_tdm, sp3, antex, orbex_sinex, ilrs, rinex_nav, rinex_obs, others, leap_second].iter().enumerate() {
        run.par(["oem", "opm-tdm", "sp3", "antex", "orbex-sinex", "ilrs", "rinex-nav", "rinex-obs", "others", "leap"][i], n, |k| { let mut g = run.rng_i(["a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p"][i], k); f(&run, &mut g) });
    }
    for k in ["oem/kvn-write", "oem/xml-write", "oem/read", "oem/fault", "opm/read", "opm/write", "tdm/read", "tdm/write", "sp3/read", "sp3/stream", "sp3/write", "sp3/fault", "antex/read", "antex/write", "orbex/read", "orbex/fault", "sinex/read", "sinex/fault", "cpf/read", "cpf/write", "crd/read", "rinex-nav/read", "rinex-nav/write", "rinex-nav/fault", "rinex-obs/read", "rinex-obs/write", "doris/read", "eop/read", "eop/interpolate", "vgosdb/read", "sck/read", "sck/fault", "leap/read"] { run.require(k, 100); }
    run.finish();
}
