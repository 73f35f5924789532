//! C19: TLE and OMM text: reading, writing, refusing.
use siderust::formats::tle::omm::{json, kvn, xml, Omm};
use siderust::formats::tle::*;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::Degrees;
use tempoch::{Time, UTC};
use vh::tle::{alpha5, checksum, TleF};
use vh::{Rng, Run};

fn secs(t: &Time<UTC>) -> f64 {
    let c = t.try_to_chrono().unwrap();
    let n = c.timestamp_subsec_nanos();
    (c.timestamp() - 946_728_000) as f64 + n as f64 * 1e-9
}
/// civil seconds from the integer columns, same origin
fn want_secs(f: &TleF) -> f64 { let (d, fr) = f.jd(); (d - 2_451_545.0) * 86400.0 + fr * 86400.0 }
fn rel(a: f64, b: f64) -> f64 { if a == b { 0.0 } else { (a - b).abs() / a.abs().max(b.abs()) } }

fn fields(run: &Run, sig: &str, t: &TLE, f: &TleF, w: &dyn Fn() -> String) {
    let c = |ok: bool, k: &str, got: String| { run.check(ok, &format!("{sig}/{k}"), || format!("got {got} {}", w())); };
    c(t.norad_id.0 == f.norad, "catalogue-number", t.norad_id.0.to_string());
    c(t.classification.as_char() == f.class, "classification", format!("{:?}", t.classification));
    c(t.international_designator.0 == f.desig, "designator", t.international_designator.0.clone());
    // a hair before midnight after a leap second reads as 23:59:60.99..
    let d = secs(&t.epoch) - want_secs(f);
    let leap = t.epoch.try_to_chrono().unwrap().timestamp_subsec_nanos() >= 1_000_000_000;
    c(d.abs() < 6e-5 || (leap && (d - 1.0).abs() < 6e-5), "epoch", format!("{}", secs(&t.epoch) - want_secs(f)));
    c(rel(t.mean_motion_dot, f.ndot()) < 1e-14, "ndot", t.mean_motion_dot.to_string());
    c(rel(t.mean_motion_ddot, f.nddot()) < 1e-14, "nddot", t.mean_motion_ddot.to_string());
    c(rel(t.bstar, f.bstar()) < 1e-14, "bstar", t.bstar.to_string());
    c(t.element_set_number as u32 == f.elset, "element-set", t.element_set_number.to_string());
    c(t.revolution_number_at_epoch == f.rev, "revolution", t.revolution_number_at_epoch.to_string());
    for (k, got, x) in [("inclination", t.inclination, f.i4), ("node", t.raan, f.raan4), ("perigee", t.argument_of_perigee, f.argp4), ("anomaly", t.mean_anomaly, f.m4)] {
        c((got.value() - TleF::deg(x)).abs() < 1e-12, k, got.to_string());
    }
    c((t.eccentricity - f.e()).abs() < 1e-15, "eccentricity", t.eccentricity.to_string());
    c(rel(t.mean_motion.value(), f.n()) < 1e-15, "mean-motion", t.mean_motion.to_string());
}

/// A set put together field by field holds exactly those fields; a missing required one is named.
fn builder(run: &Run, g: &mut Rng, t: &TLE) {
    let names = ["norad_id", "international_designator", "epoch", "inclination", "raan", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion", "name", "classification", "mean_motion_dot", "mean_motion_ddot", "bstar", "element_set_number", "revolution_number_at_epoch"];
    let skip: Vec<bool> = if g.p(0.4) { vec![false; 16] } else { (0..16).map(|_| g.p(0.12)).collect() };
    let mut ix: Vec<usize> = (0..16).collect();
    for i in (1..16).rev() { ix.swap(i, g.n(i + 1)) }
    let mut b = TleBuilder::new();
    for k in ix {
        if skip[k] { continue }
        b = match k {
            0 => b.norad_id(t.norad_id), 1 => b.international_designator(t.international_designator.clone()), 2 => b.epoch(t.epoch), 3 => b.inclination(t.inclination), 4 => b.raan(t.raan), 5 => b.eccentricity(t.eccentricity),
            6 => b.argument_of_perigee(t.argument_of_perigee), 7 => b.mean_anomaly(t.mean_anomaly), 8 => b.mean_motion(t.mean_motion), 9 => match &t.name { Some(n) => b.name(n.clone()), None => b }, 10 => b.classification(t.classification),
            11 => b.mean_motion_dot(t.mean_motion_dot), 12 => b.mean_motion_ddot(t.mean_motion_ddot), 13 => b.bstar(t.bstar), 14 => b.element_set_number(t.element_set_number), _ => b.revolution_number_at_epoch(t.revolution_number_at_epoch),
        };
    }
    let missing: Vec<&str> = (0..9).filter(|k| skip[*k]).map(|k| names[k]).collect();
    run.eval("builder", (t.norad_id.0, &skip));
    match b.build() {
        Ok(u) => {
            run.check(missing.is_empty(), "builder/incomplete", || format!("built without {missing:?}"));
            let mut w = t.clone();
            if skip[9] { w.name = None } if skip[10] { w.classification = Classification::Unclassified } if skip[11] { w.mean_motion_dot = 0.0 } if skip[12] { w.mean_motion_ddot = 0.0 } if skip[13] { w.bstar = 0.0 } if skip[14] { w.element_set_number = 0 } if skip[15] { w.revolution_number_at_epoch = 0 }
            run.check(format!("{u:?}") == format!("{w:?}"), "builder/fields", || format!("{u:?} want {w:?}"));
        }
        Err(TleError::BuilderMissingField(f)) => { run.check(missing.contains(&f), "builder/missing", || format!("{f} named missing, {missing:?} are")); }
        Err(e) => run.violation("builder/refused", &format!("{e} {t:?}")),
    }
    let c = if g.p(0.5) { *g.pick(&['U', 'C', 'S', 'u', 'c', 's', ' ', '0']) } else { char::from_u32(g.n(0x2000) as u32).unwrap_or('U') };
    let want = match c { 'U' => Some(Classification::Unclassified), 'C' => Some(Classification::Classified), 'S' => Some(Classification::Secret), _ => None };
    run.check(Classification::from_char(c).ok() == want && want.is_none_or(|w| w.as_char() == c), "classification/char", || format!("{c:?} {:?}", Classification::from_char(c)));
}
/// A number field that holds anything but the number is refused, checksum and all.
fn bad_field(run: &Run, g: &mut Rng, l1: &str, l2: &str) {
    let (mut a, mut b) = (l1[..68].to_string(), l2[..68].to_string());
    let bad = *g.pick(&["ecc+", "ecc-", "ecc.", "ecc ", "ecc_", "inc", "raan", "argp", "ma", "n"]);
    let put = |s: &mut String, at: usize, t: &str| s.replace_range(at..at + t.len(), t);
    match bad {
        "ecc+" => put(&mut b, 26, "+"), "ecc-" => put(&mut b, 26, "-"), "ecc." => put(&mut b, 26 + g.n(7), "."), "ecc " => put(&mut b, 27 + g.n(5), " "), "ecc_" => put(&mut b, 27 + g.n(5), "_"),
        "inc" => put(&mut b, 10, "x"), "raan" => put(&mut b, 20, ".."), "argp" => put(&mut b, 36, "x+"), "ma" => put(&mut b, 45, "nan"), _ => put(&mut b, 54, "inf"),
    }
    a.push_str(&checksum(&a).to_string()); b.push_str(&checksum(&b).to_string());
    run.eval("bad-field", &b);
    let w = || format!("{bad}\n{a}\n{b}");
    if let Some(r) = run.no_panic("panic/bad-field", w, || parse_tle(&a, &b)) { run.check(r.is_err(), "bad-field/accepted", w); }
}

fn canon(run: &Run, g: &mut Rng) {
    let mut f = TleF::random(g);
    if f.yy < 72 && f.yy >= 57 { f.yy = 72 + f.yy % 28; f.day8 = f.day8.clamp(100_000_000, 36_599_999_999); } // UTC with whole leap seconds
    let (l1, l2) = f.lines();
    let w = || format!("\n{l1}\n{l2}\n");
    run.eval("parse", (f.norad, f.day8, f.n8));
    let Some(r) = run.no_panic("panic/parse", w, || parse_tle(&l1, &l2)) else { return };
    let t = match r { Ok(t) => t, Err(e) => { run.violation("parse/refused", &format!("{e} {}", w())); return } };
    fields(run, "parse", &t, &f, &w);
    run.check(t.name.is_none(), "parse/name", w);
    run.check(validate_tle_checksum(&l1).is_ok() && validate_tle_checksum(&l2).is_ok() && compute_tle_checksum(&l1[..68]) as u32 == checksum(&l1[..68]), "checksum/valid", w);
    // name line
    let name = *g.pick(&["ISS (ZARYA)", "0 VANGUARD 1", "STARLINK-1007", "COSMOS 2251 DEB", "", "0 "]);
    match parse_3le(name, &l1, &l2) { Ok(t3) => { let want = name.strip_prefix("0 ").unwrap_or(name).trim(); run.check(t3.name.as_deref().unwrap_or("") == want, "parse/name-line", || format!("{name:?} {:?}", t3.name)); fields(run, "parse-3le", &t3, &f, &w); } Err(e) => run.violation("parse-3le/refused", &format!("{e} {}", w())) }
    let mut named = t.clone();
    if g.p(0.5) { named.name = Some("X".into()) }
    builder(run, g, &named);
    bad_field(run, g, &l1, &l2);
    // exact text back (exponent zero may carry either sign)
    run.eval("rewrite", (f.norad, f.day8, f.n8));
    let Some(r) = run.no_panic("panic/format", w, || format_tle(&t)) else { return };
    match r {
        Ok((a, b)) => {
            run.check(b == l2, "rewrite/line2", || format!("{b} {}", w()));
            run.check(a.len() == 69 && b.len() == 69 && a.is_ascii(), "rewrite/columns", || format!("{a}\n{b} {}", w()));
            let cols = |s: &str| -> Vec<String> { [0..44, 52..53, 61..68].map(|r| s.get(r).unwrap_or("?").to_string()).to_vec() };
            run.check(cols(&a) == cols(&l1), "rewrite/line1", || format!("{a} {}", w()));
            match parse_tle(&a, &b) { Ok(t2) => fields(run, "rewrite", &t2, &f, &w), Err(e) => run.violation("rewrite/unreadable", &format!("{e} {a}\n{b} {}", w())) }
        }
        Err(e) => run.violation("rewrite/refused", &format!("{e} {}", w())),
    }
    // damage one character: a changed digit is always noticed, any other change is refused or harmless
    for _ in 0..4 {
        let (mut a, mut b) = (l1.clone().into_bytes(), l2.clone().into_bytes());
        let (v, line) = if g.p(0.5) { (&mut a, 1) } else { (&mut b, 2) };
        let k = g.n(69);
        let old = v[k];
        let new = match g.n(4) { 0 => b' ' + g.n(95) as u8, 1 => b'-', _ => b'0' + g.n(10) as u8 };
        if new == old { continue }
        v[k] = new;
        let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
        run.eval("damaged", (f.norad, f.day8, line, k, new));
        let Some(r) = run.no_panic("panic/damaged", || format!("{a}\n{b}"), || parse_tle(&a, &b)) else { continue };
        let weight = |c: u8| match c { b'0'..=b'9' => (c - b'0') as i32, b'-' => 1, _ => 0 };
        let noticed = if k == 68 { true } else { (weight(new) - weight(old)) % 10 != 0 };
        if noticed { run.check(r.is_err(), "damaged/accepted", || format!("line {line} column {} {:?} -> {:?}\n{a}\n{b}", k + 1, old as char, new as char)); }
        // an undetectable change must not turn into another number or a non-number
        if let Ok(t) = r {
            let ok = [t.mean_motion_dot, t.mean_motion_ddot, t.bstar, t.inclination.value(), t.raan.value(), t.eccentricity, t.argument_of_perigee.value(), t.mean_anomaly.value(), t.mean_motion.value()].iter().all(|x| x.is_finite());
            run.check(ok, "damaged/non-finite", || format!("{a}\n{b}"));
        }
    }
    // structural refusals
    let (short, long) = (l1[..68].to_string(), format!("{l1} "));
    for (a, b) in [(&short, &l2), (&long, &l2), (&l2, &l1), (&l1, &l1), (&l2, &l2)] { run.check(parse_tle(a, b).is_err(), "structure/accepted", || format!("{a}\n{b}")); }
    let mut o = f.clone(); o.norad = (f.norad + 1 + g.n(1000) as u32) % 340_000;
    run.check(matches!(parse_tle(&l1, &o.lines().1), Err(TleError::MismatchedSatelliteNumber { .. })), "structure/two-satellites", w);
    // Alpha-5
    let n = g.n(400_000) as u32;
    let r = SatelliteNumber(n).format_alpha5();
    if n < 340_000 {
        run.check(r.as_deref() == Ok(alpha5(n).as_str()), "alpha5/format", || format!("{n} {r:?}"));
        run.check(SatelliteNumber::parse(&alpha5(n)).map(|s| s.0) == Ok(n), "alpha5/parse", || format!("{n}"));
    } else { run.check(r.is_err(), "alpha5/overflow", || format!("{n} {r:?}")); }
    // days that do not exist
    let mut x = f.clone();
    let last = if vh::tle::leap(vh::tle::year(x.yy)) { 366 } else { 365 };
    x.day8 = (if g.p(0.5) { 0 } else { last + 1 + g.n(600) as u64 }) * 100_000_000 + g.n(100_000_000) as u64;
    let (a, b) = x.lines();
    run.check(parse_tle(&a, &b).is_err(), "epoch/impossible-day", || format!("{a}"));
    omm(run, g, &t, &f);
}

/// arbitrary (not column-rounded) elements
fn free(run: &Run, g: &mut Rng) {
    let mut f = TleF::random(g);
    if f.yy < 72 && f.yy >= 57 { f.yy = 72 + f.yy % 28; f.day8 = f.day8.clamp(100_000_000, 36_599_999_999); } // UTC with whole leap seconds
    let (l1, l2) = f.lines();
    let Ok(base) = parse_tle(&l1, &l2) else { return };
    let mut t = base.clone();
    let wild = g.p(0.3);
    let mut weird = |g: &mut Rng, lo: f64, hi: f64, edge: &[f64]| -> f64 { if wild && g.p(0.3) { *g.pick(&[f64::NAN, f64::INFINITY, -1.0, 1e9, -1e-30, hi * 1.0000001, 1e-300]) } else if g.p(0.2) { *g.pick(edge) } else { g.range(lo, hi) } };
    t.inclination = Degrees::new(weird(g, 0.0, 180.0, &[0.0, 180.0, 179.99996, 9.99996]));
    t.raan = Degrees::new(weird(g, 0.0, 359.9999, &[0.0, 99.99996, 359.99994]));
    t.argument_of_perigee = Degrees::new(weird(g, 0.0, 359.9999, &[0.0, 99.99996, 1e-9]));
    t.mean_anomaly = Degrees::new(weird(g, 0.0, 359.9999, &[0.0, 1e-9, 9.99996]));
    t.eccentricity = weird(g, 0.0, 0.999, &[0.0, 0.99999994, 0.9999999999, 1e-9, 0.099999999]);
    t.mean_motion = AngularRate::new(weird(g, 0.01, 17.0, &[9.999999999, 0.00000001, 1.0]));
    t.mean_motion_dot = weird(g, -0.9, 0.9, &[0.0, -1e-9, 0.99999999, -0.99999999, 1e-8]);
    let mut small = |g: &mut Rng| -> f64 { if wild && g.p(0.2) { *g.pick(&[f64::NAN, 1e10, -1e12, 1e-30, f64::NEG_INFINITY]) } else { let s = if g.p(0.5) { 1.0 } else { -1.0 }; s * match g.n(5) { 0 => 0.0, 1 => *g.pick(&[0.999996, 9.99999e-5, 0.0999999, 0.99999999, 1e-9, 1e-3]), 2 => g.log(1e-14, 1e-8), _ => g.log(1e-9, 9e8) } } };
    t.mean_motion_ddot = small(g);
    t.bstar = small(g);
    t.element_set_number = if wild { g.n(65536) as u16 } else { g.n(10_000) as u16 };
    t.revolution_number_at_epoch = if wild { g.n(1 << 31) as u32 } else { g.n(100_000) as u32 };
    if wild && g.p(0.2) { t.international_designator = InternationalDesignator(g.pick(&["1998-067A", "éé", "98067ABCD", "A B"]).to_string()); }
    if wild && g.p(0.2) { t.norad_id = SatelliteNumber(g.n(1_000_000) as u32); }
    // epochs to the microsecond, up to the last one of the day
    let (d, _) = f.jd();
    let mut day = ((d - 2_440_587.5) * 86400.0).round() as i64;
    // a year its two digits cannot name
    if g.p(0.03) { day += 86_400 * 36_525 * g.int(1, 3) }
    if g.p(0.01) { day = vh::docs::days(2056, 12, 31) * 86_400 }
    let us = match g.n(4) { 0 => 86_399_999_999i64 - g.n(6000) as i64, 1 => g.n(6000) as i64, _ => (g.f() * 86.4e9) as i64 };
    t.epoch = Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp(day + us / 1_000_000, (us % 1_000_000 * 1000) as u32).unwrap()).unwrap();
    let w = || format!("{t:?}");
    run.eval("write", (f.norad, t.bstar.to_bits(), us));
    let Some(r) = run.no_panic("panic/write", w, || format_tle(&t)) else { return };
    let end = vh::docs::days(2057, 1, 1) * 86_400;
    let left = (end - day) as f64 * 1e6 - us as f64; // microseconds to the end of 2056
    if left < 86_400e6 && (left - 432.0).abs() < 100.0 { return } // rounds either way
    if left < 432.0 {
        run.eval("write/year", (f.norad, day, us));
        run.check(r.is_err(), "write/year", || format!("{r:?} {}", w()));
        return;
    }
    let (a, b) = match r {
        Ok(x) => x,
        Err(e) => { run.count("write-refused", 1); run.check(wild, "write/refused", || format!("{e} {}", w())); return }
    };
    run.check(a.len() == 69 && b.len() == 69 && a.is_ascii() && b.is_ascii(), "write/columns", || format!("\n{a}\n{b}\n{}", w()));
    let u = match parse_tle(&a, &b) { Ok(u) => u, Err(e) => { run.violation("write/unreadable", &format!("{e}\n{a}\n{b}\n{}", w())); return } };
    let c = |x: f64, y: f64, tol: f64, k: &str| { run.check((x - y).abs() <= tol, &format!("write/{k}"), || format!("{x} {y}\n{a}\n{b}\n{}", w())); };
    c(u.inclination.value(), t.inclination.value(), 0.500001e-4, "inclination");
    c(u.raan.value(), t.raan.value(), 0.500001e-4, "node");
    c(u.argument_of_perigee.value(), t.argument_of_perigee.value(), 0.500001e-4, "perigee");
    c(u.mean_anomaly.value(), t.mean_anomaly.value(), 0.500001e-4, "anomaly");
    c(u.eccentricity, t.eccentricity, 1.00001e-7, "eccentricity");
    c(u.mean_motion.value(), t.mean_motion.value(), 0.500001e-8, "mean-motion");
    c(u.mean_motion_dot, t.mean_motion_dot, 0.500001e-8, "ndot");
    c(u.mean_motion_ddot, t.mean_motion_ddot, 0.500001e-14f64.max(t.mean_motion_ddot.abs() * 0.500001e-4), "nddot");
    c(u.bstar, t.bstar, 0.500001e-14f64.max(t.bstar.abs() * 0.500001e-4), "bstar");
    let leap = u.epoch.try_to_chrono().unwrap().timestamp_subsec_nanos() >= 1_000_000_000;
    let du = secs(&u.epoch) - if leap { 1.0 } else { 0.0 };
    c(if (du - secs(&t.epoch)).abs() < 0.9e-3 { du } else { secs(&u.epoch) }, secs(&t.epoch), 0.9e-3, "epoch");
    run.check(u.norad_id == t.norad_id && u.classification == t.classification && u.element_set_number == t.element_set_number && u.revolution_number_at_epoch == t.revolution_number_at_epoch && u.international_designator.0 == t.international_designator.0.trim(), "write/integers", || format!("\n{a}\n{b}\n{}", w()));
    if !wild { t.name = Some(if g.p(0.5) { "A <B> & \"C\" 'D' = é".into() } else { "SAT 7".into() }); omm_free(run, g, &t); }
}

fn same(run: &Run, sig: &str, o: &Omm, p: &Omm, coarse: bool, w: &dyn Fn() -> String) {
    let c = |ok: bool, k: &str| { run.check(ok, &format!("{sig}/{k}"), || format!("{p:?} from {}", w())); };
    c(o.object_name == p.object_name, "name");
    c(o.object_id == p.object_id, "object-id");
    c(o.norad_id == p.norad_id, "catalogue-number");
    c(o.classification == p.classification, "classification");
    c(o.ephemeris_type == p.ephemeris_type && o.element_set_no == p.element_set_no && o.rev_at_epoch == p.rev_at_epoch, "integers");
    c((secs(&o.epoch) - secs(&p.epoch)).abs() < 6e-5, "epoch");
    let (ta, te, tn, tr) = if coarse { (0.500001e-4, 0.500001e-7, 0.500001e-8, 0.6e-8) } else { (1e-13, 1e-15, 1e-14, 1e-15) };
    for (k, a, b, t) in [("inclination", o.inclination.value(), p.inclination.value(), ta), ("node", o.ra_of_asc_node.value(), p.ra_of_asc_node.value(), ta), ("perigee", o.arg_of_pericenter.value(), p.arg_of_pericenter.value(), ta), ("anomaly", o.mean_anomaly.value(), p.mean_anomaly.value(), ta),
        ("eccentricity", o.eccentricity, p.eccentricity, te), ("mean-motion", o.mean_motion.value(), p.mean_motion.value(), tn)] { c((a - b).abs() <= t, k); }
    for (k, a, b) in [("bstar", o.bstar, p.bstar), ("ndot", o.mean_motion_dot, p.mean_motion_dot), ("nddot", o.mean_motion_ddot, p.mean_motion_ddot)] { c(rel(a, b) <= tr, k); }
}
fn round(run: &Run, o: &Omm, coarse: bool) -> bool {
    let w = || format!("{o:?}");
    let mut ok = true;
    for (n, wr, rd, c) in [("kvn", kvn::write as fn(&Omm) -> Result<String, TleError>, kvn::read as fn(&str) -> Result<Omm, TleError>, coarse), ("xml", xml::write, xml::read, coarse), ("json", json::write, json::read, false)] {
        run.eval(n, (o.norad_id.0, o.bstar.to_bits(), secs(&o.epoch).to_bits()));
        let Some(s) = run.no_panic("panic/omm-write", w, || wr(o)) else { return false };
        let Ok(s) = s else { run.violation(&format!("{n}/refused"), &w()); ok = false; continue };
        match run.no_panic("panic/omm-read", w, || rd(&s)) { Some(Ok(p)) => same(run, n, o, &p, c, &w), Some(Err(e)) => { run.violation(&format!("{n}/unreadable"), &format!("{e} {s}")); ok = false; } None => {} }
    }
    ok
}
fn omm(run: &Run, g: &mut Rng, t: &TLE, f: &TleF) {
    let o = Omm::from_tle(t);
    let w = || format!("{t:?}");
    if f.desig.len() >= 5 { let want = format!("{}-{}", vh::tle::year(f.desig[..2].parse().unwrap()), &f.desig[2..]); run.check(o.object_id == want, "omm/object-id", || format!("{} want {want}", o.object_id)); }
    run.check(o.norad_id == t.norad_id && o.classification == t.classification && o.epoch == t.epoch && o.element_set_no == t.element_set_number && o.rev_at_epoch == t.revolution_number_at_epoch, "omm/from-tle", w);
    round(run, &o, true);
    // through OMM and back the elements stay what the columns said
    let back = o.to_tle();
    fields(run, "omm/to-tle", &back, f, &w);
    // several records in one document
    if g.p(0.2) {
        let mut o2 = o.clone(); o2.object_name = "second".into(); o2.bstar = -o.bstar;
        let all = [o.clone(), o2, o.clone()];
        match json::write_many(&all).and_then(|s| json::read_many(&s)) { Ok(v) => { run.check(v.len() == 3, "json-many/count", w); for (a, b) in all.iter().zip(&v) { same(run, "json-many", a, b, false, &w); } } Err(e) => run.violation("json-many/unreadable", &e.to_string()) }
    }
    // damaged documents: a missing or malformed required field is an error; an optional one is never silently zeroed
    if g.p(0.3) {
        let k = kvn::write(&o).unwrap();
        let x = xml::write(&o).unwrap();
        let req = ["OBJECT_NAME", "OBJECT_ID", "EPOCH", "MEAN_MOTION", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "MEAN_ANOMALY", "NORAD_CAT_ID"];
        let opt = ["BSTAR", "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT", "ELEMENT_SET_NO", "REV_AT_EPOCH", "EPHEMERIS_TYPE"];
        let key = *g.pick(&req);
        let drop: String = k.lines().filter(|l| l.split('=').next().unwrap().trim() != key).map(|l| format!("{l}\n")).collect();
        run.check(kvn::read(&drop).is_err(), "kvn/missing-accepted", || format!("{key}"));
        let drop: String = x.lines().filter(|l| !l.starts_with(&format!("<{key}>"))).map(|l| format!("{l}\n")).collect();
        run.check(xml::read(&drop).is_err(), "xml/missing-accepted", || format!("{key}"));
        let key = if g.p(0.5) { *g.pick(&req[2..]) } else { *g.pick(&opt) };
        let bad: String = k.lines().map(|l| if l.split('=').next().unwrap().trim() == key { format!("{key} = 1.2.x\n") } else { format!("{l}\n") }).collect();
        run.check(kvn::read(&bad).is_err(), "kvn/malformed-accepted", || format!("{key}"));
        let bad: String = x.lines().map(|l| if l.starts_with(&format!("<{key}>")) { format!("<{key}>1.2.x</{key}>\n") } else { format!("{l}\n") }).collect();
        run.check(xml::read(&bad).is_err(), "xml/malformed-accepted", || format!("{key}"));
        let theory: String = k.lines().map(|l| if l.starts_with("MEAN_ELEMENT_THEORY") { "MEAN_ELEMENT_THEORY = DSST\n".to_string() } else { format!("{l}\n") }).collect();
        run.check(matches!(kvn::read(&theory), Err(TleError::OmmUnsupportedTheory(_))), "kvn/theory", || theory.clone());
        run.check(matches!(xml::read(&x.replace("<MEAN_ELEMENT_THEORY>SGP4", "<MEAN_ELEMENT_THEORY>USM")), Err(TleError::OmmUnsupportedTheory(_))), "xml/theory", || x.clone());
        run.check(matches!(json::read(&json::write(&o).unwrap().replace("\"SGP4\"", "\"DSST\"")), Err(TleError::OmmUnsupportedTheory(_))), "json/theory", w);
        // absent optional fields default; field order, blank lines and comments do not matter
        let opt = *g.pick(&opt);
        let mut ls: Vec<String> = k.lines().filter(|l| l.split('=').next().unwrap().trim() != opt).map(|l| l.to_string()).collect();
        ls.push("COMMENT MEAN_MOTION = 1".into()); ls.push(String::new());
        for i in (1..ls.len()).rev() { let j = g.n(i + 1); ls.swap(i, j); }
        let mut o3 = o.clone();
        match opt { "BSTAR" => o3.bstar = 0.0, "MEAN_MOTION_DOT" => o3.mean_motion_dot = 0.0, "MEAN_MOTION_DDOT" => o3.mean_motion_ddot = 0.0, "ELEMENT_SET_NO" => o3.element_set_no = 0, "REV_AT_EPOCH" => o3.rev_at_epoch = 0, _ => {} }
        match kvn::read(&ls.join("\r\n")) { Ok(p) => same(run, "kvn-shuffled", &o3, &p, true, &w), Err(e) => run.violation("kvn-shuffled/unreadable", &format!("{e} {ls:?}")) }
        // values that carry their unit, and epochs of another time system
        let units = [("MEAN_MOTION", "rev/day"), ("INCLINATION", "deg"), ("RA_OF_ASC_NODE", "deg"), ("ARG_OF_PERICENTER", "deg"), ("MEAN_ANOMALY", "deg"), ("BSTAR", "1/ER"), ("MEAN_MOTION_DOT", "rev/day**2"), ("MEAN_MOTION_DDOT", "rev/day**3")];
        let some: Vec<bool> = units.iter().map(|_| g.p(0.6)).collect();
        let wrong = g.n(units.len());
        let printed = |fault: bool| -> (String, String) {
            let unit = |key: &str| units.iter().position(|u| u.0 == key).and_then(|i| if fault && i == wrong { Some(if units[i].1 == "deg" { "rad" } else { "rad/s" }) } else if some[i] { Some(units[i].1) } else { None });
            let kv = k.lines().map(|l| match unit(l.split('=').next().unwrap().trim()) { Some(u) => format!("{l} [{u}]\n"), None => format!("{l}\n") }).collect();
            let xm = x.lines().map(|l| { let key = l.trim().trim_start_matches('<').split('>').next().unwrap(); match unit(key) { Some(u) => format!("{}\n", l.replacen(&format!("<{key}>"), &format!("<{key} units=\"{u}\">"), 1)), None => format!("{l}\n") } }).collect();
            (kv, xm)
        };
        run.eval("units", (o.norad_id.0, wrong));
        let (kv, xm) = printed(false);
        match kvn::read(&kv) { Ok(p) => same(run, "kvn-units", &o, &p, true, &w), Err(e) => run.violation("kvn-units/unreadable", &format!("{e} {kv}")) }
        match xml::read(&xm) { Ok(p) => same(run, "xml-units", &o, &p, true, &w), Err(e) => run.violation("xml-units/unreadable", &format!("{e} {xm}")) }
        let (kv, xm) = printed(true);
        run.check(kvn::read(&kv).is_err(), "kvn-units/wrong-accepted", || kv.clone());
        run.check(xml::read(&xm).is_err(), "xml-units/wrong-accepted", || xm.clone());
        let sys = *g.pick(&["TAI", "TT", "GPS", "UT1", "TDB", "UTC"]);
        let js = json::write(&o).unwrap();
        let mut doc: serde_json::Value = serde_json::from_str(&js).unwrap();
        if let Some(first) = if doc.is_array() { doc.get_mut(0) } else { Some(&mut doc) } { first["TIME_SYSTEM"] = sys.into(); }
        let docs = [("kvn", kvn::read(&k.replace("TIME_SYSTEM = UTC", &format!("TIME_SYSTEM = {sys}"))).is_ok()), ("xml", xml::read(&x.replace("<TIME_SYSTEM>UTC", &format!("<TIME_SYSTEM>{sys}"))).is_ok()), ("json", json::read(&doc.to_string()).is_ok())];
        for (n, ok) in docs { run.check(ok == (sys == "UTC"), &format!("{n}/time-system"), || format!("{sys}: read = {ok}")); }
        // epoch forms
        let base = "2012-02-29T23:59:59";
        for (tail, want) in [("", Some(0.0)), ("Z", Some(0.0)), (".5", Some(0.5)), (".25Z", Some(0.25)), ("+00:00", Some(0.0)), ("+02:00", None), ("-05:00", None), ("x", None)] {
            let e: String = k.lines().map(|l| if l.starts_with("EPOCH ") { format!("EPOCH = {base}{tail}\n") } else { format!("{l}\n") }).collect();
            let r = kvn::read(&e);
            run.check(match (&r, want) { (Ok(p), Some(x)) => (secs(&p.epoch) - (1_330_559_999.0 - 946_728_000.0) - x).abs() < 6e-5, (Err(_), None) => true, _ => false }, "kvn/epoch-form", || format!("{tail} {:?}", r.as_ref().map(|p| secs(&p.epoch))));
        }
    }
}
fn omm_free(run: &Run, g: &mut Rng, t: &TLE) {
    let mut o = Omm::from_tle(t);
    o.norad_id = SatelliteNumber(g.n(1_000_000_000) as u32);
    o.ephemeris_type = g.n(5) as u8;
    // leap seconds too
    if g.p(0.05) { o.epoch = Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp(1_483_228_799, 1_000_000_000 + g.n(1_000_000_000) as u32).unwrap()).unwrap(); run.count("leap-second-epochs", 1); }
    round(run, &o, true);
}

fn main() {
    let mut run = Run::new("C19", "TLE/OMM text against an independent integer-column writer; write-read comparison; damage and refusal checks");
    run.assume("Alpha-5 catalogue numbers below 340000 in TLE; element-set <= 9999, revolution <= 99999, |n'/2| < 1, |exponent| <= 9 are representable");
    for k in ["parse", "builder", "bad-field", "rewrite", "write", "damaged", "kvn", "xml", "json", "units"] { run.require(k, 2000); }
    run.require("write/year", 100);
    let n = run.size(160, 4000);
    let r = &run;
    run.par("panic", n, |i| { let mut g = r.rng_i("c19", i); for _ in 0..400 { canon(r, &mut g); free(r, &mut g); } });
    run.finish()
}
