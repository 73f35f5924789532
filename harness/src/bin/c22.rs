//! C22: Mode S extended squitter frames and compact position reports.
use siderust::formats::adsb::{cpr, decode_airborne_position, decode_airborne_velocity, decode_altitude, decode_identification, parse_frame};
use siderust::qtty::Meters;
use vh::{Rng, Run};

/// Remainder of the first 88 bits times x^24 by schoolbook division of the bit string.
fn parity(b: &[u8; 11]) -> u32 {
    let mut v = b.iter().fold(0u128, |a, x| a << 8 | *x as u128) << 24;
    let g = 0x1FFF409u128;
    for k in (24..112).rev() { if v >> k & 1 == 1 { v ^= g << (k - 24) } }
    v as u32
}
/// Bit field of a 56-bit message, numbered from 1 as the standard does.
fn put(me: &mut u64, first: u32, last: u32, v: u64) { *me |= (v & ((1 << (last - first + 1)) - 1)) << (56 - last) }
fn hexf(df: u8, ca: u8, icao: u32, me: u64, flip: u128) -> String {
    let mut b = [0u8; 11];
    b[0] = df << 3 | ca;
    b[1..4].copy_from_slice(&icao.to_be_bytes()[1..]);
    b[4..].copy_from_slice(&me.to_be_bytes()[1..]);
    let p = parity(&b);
    let v = (b.iter().fold(0u128, |a, x| a << 8 | *x as u128) << 24 | p as u128) ^ flip;
    format!("{v:028X}")
}
fn mix(g: &mut Rng, s: &str) -> String { if g.p(0.5) { s.to_string() } else { s.chars().map(|c| if g.p(0.5) { c.to_ascii_lowercase() } else { c }).collect() } }
const CHARS: &str = "#ABCDEFGHIJKLMNOPQRSTUVWXYZ##### ###############0123456789######";

fn frames(run: &Run, g: &mut Rng) {
    let (df, ca, icao) = (17 + g.n(2) as u8, g.n(8) as u8, (g.u64() & 0xFFFFFF) as u32);
    let tc = g.n(32) as u64;
    let mut me = 0u64;
    put(&mut me, 1, 5, tc);
    let sub = if g.p(0.5) { 1 + g.n(2) as u64 } else { g.n(8) as u64 };
    put(&mut me, 6, 8, sub);
    // text, position and velocity fields overlap: one payload per type code
    let chars: Vec<u64> = (0..8).map(|k| if g.p(0.03) { g.n(64) as u64 } else if k > 4 && g.p(0.5) { 32 } else if g.p(0.7) { 1 + g.n(26) as u64 } else { 48 + g.n(10) as u64 }).collect();
    let (alt, time, odd, la, lo) = (g.n(4096) as u64, g.n(2) as u64, g.n(2) as u64, g.u64() & 0x1FFFF, g.u64() & 0x1FFFF);
    let few = |g: &mut Rng, n: usize| if g.p(0.15) { g.n(3) as u64 } else if g.p(0.05) { n as u64 - 1 } else { g.n(n) as u64 };
    let (dew, vew, dns, vns, src, svr, vr) = (g.n(2) as u64, few(g, 1024), g.n(2) as u64, few(g, 1024), g.n(2) as u64, g.n(2) as u64, few(g, 512));
    let (hi, lo2) = (g.n(32) as u64, g.n(1024) as u64);
    match tc {
        1..=4 => for (k, c) in chars.iter().enumerate() { put(&mut me, 9 + 6 * k as u32, 14 + 6 * k as u32, *c) },
        19 => { put(&mut me, 9, 13, hi); put(&mut me, 14, 14, dew); put(&mut me, 15, 24, vew); put(&mut me, 25, 25, dns); put(&mut me, 26, 35, vns); put(&mut me, 36, 36, src); put(&mut me, 37, 37, svr); put(&mut me, 38, 46, vr); put(&mut me, 47, 56, lo2) }
        _ => { put(&mut me, 9, 20, alt); put(&mut me, 21, 21, time); put(&mut me, 22, 22, odd); put(&mut me, 23, 39, la); put(&mut me, 40, 56, lo) }
    }
    let text = mix(g, &hexf(df, ca, icao, me, 0));
    run.eval("frame", &text);
    let f = match parse_frame(&text) { Ok(f) => f, Err(e) => { run.violation("frame/read", &format!("{e} {text}")); return } };
    run.check(f.downlink_format() == df && f.icao24() == icao && f.type_code() as u64 == tc && f.me()[..] == me.to_be_bytes()[1..], "frame/fields", || format!("{f:?} {text}"));
    // identification
    let bad = chars.iter().any(|c| CHARS.as_bytes()[*c as usize] == b'#');
    match decode_identification(&f) {
        Ok(m) => {
            let s: String = chars.iter().map(|c| CHARS.as_bytes()[*c as usize] as char).collect();
            run.check((1..=4).contains(&tc) && !bad && m.callsign == s.trim_end_matches(' ') && m.category as u64 == sub, "frame/callsign", || format!("{m:?} want {s:?} {text}"));
            run.count("callsigns", 1);
        }
        Err(_) => { run.check(!(1..=4).contains(&tc) || bad, "frame/callsign", || format!("refused {text}")); }
    }
    match decode_airborne_position(&f) {
        Ok(m) => {
            run.check((9..=18).contains(&tc) && m.surveillance_status as u64 == sub >> 1 && m.single_antenna == (sub & 1 == 1) && m.encoded_altitude as u64 == alt && m.cpr_odd == (odd == 1) && m.cpr_lat as u64 == la && m.cpr_lon as u64 == lo, "frame/position", || format!("{m:?} {text}"));
            run.count("positions", 1);
        }
        Err(_) => { run.check(!(9..=18).contains(&tc), "frame/position", || format!("refused {text}")); }
    }
    match decode_airborne_velocity(&f) {
        Ok(m) => {
            run.count("velocities", 1);
            let k = if sub == 2 { 4.0 } else { 1.0 } * 1852.0 / 3600.0;
            let (e, n) = ((vew as f64 - 1.0) * k * (1.0 - 2.0 * dew as f64), (vns as f64 - 1.0) * k * (1.0 - 2.0 * dns as f64));
            let known = vew > 0 && vns > 0;
            let sp = e.hypot(n);
            run.check(tc == 19 && (sub == 1 || sub == 2), "frame/velocity-kind", || text.clone());
            run.check(match m.ground_speed_mps { Some(v) => known && (v.value() - sp).abs() <= 2e-6 * sp, None => !known }, "frame/speed", || format!("{m:?} want {sp} {text}"));
            run.check(match m.heading { Some(h) => known && { let (s, c) = h.value().to_radians().sin_cos(); (s * n - c * e).abs() <= 1e-9 * sp && s * e + c * n > 0.0 && (0.0..360.0).contains(&h.value()) }, None => !known || (vew == 1 && vns == 1) }, "frame/track", || format!("{m:?} east {e} north {n} {text}"));
            let w = (vr as f64 - 1.0) * 64.0 * 0.3048 / 60.0 * (1.0 - 2.0 * svr as f64);
            run.check(match m.vertical_rate_mps { Some(v) => vr > 0 && (v.value() - w).abs() < 1e-9, None => vr == 0 }, "frame/climb", || format!("{m:?} want {w} {text}"));
        }
        Err(_) => { run.check(tc != 19 || !(sub == 1 || sub == 2), "frame/velocity-kind", || format!("refused {text}")); }
    }
    // altitude: 25 ft steps when the Q bit is set
    let a = decode_altitude(alt as u16);
    let q = alt >> 4 & 1 == 1;
    let steps = (0..12).filter(|b| *b != 4).enumerate().map(|(k, b)| (alt >> b & 1) << k).sum::<u64>();
    run.check(match a { Some(m) => q && (m.value() - (25.0 * steps as f64 - 1000.0) * 0.3048).abs() < 1e-9, None => !q }, "frame/altitude", || format!("{a:?} for {alt:#x}"));
    // damage
    let damaged = match g.n(6) {
        0 => { let mut x = 0; for _ in 0..1 + g.n(3) { x |= 1u128 << g.n(112) } hexf(df, ca, icao, me, x) } // up to three wrong bits
        1 => { let (p, l) = (g.n(112), 1 + g.n(24)); let x = ((g.u64() as u128 & ((1 << l) - 1)) | 1) << p; let x = x & ((1u128 << 112) - 1); hexf(df, ca, icao, me, x) } // a burst of up to 24 bits
        2 => { let d = loop { let d = g.n(32) as u8; if d != 17 && d != 18 { break d } }; hexf(d, ca, icao, me, 0) }
        3 => { let k = g.n(28); let mut t: Vec<char> = text.chars().collect(); t[k] = *g.pick(&['g', 'G', ' ', '-', '+', '/', ':', '@', '`', 'x', 'é', '\u{0}']); t.into_iter().collect() }
        4 => { let k = 1 + g.n(27); text[..k].to_string() }
        _ => { let more = g.n(4); format!("{}{text}{}", if more & 1 == 1 { " " } else { "" }, if more & 1 == 0 { "0\n*;".get(more..more + 1).unwrap_or("0") } else { "" }) }
    };
    run.eval("frame/damaged", &damaged);
    run.check(parse_frame(&damaged).is_err(), "frame/damage-accepted", || format!("{damaged:?} from {text}"));
}

// ── Compact position reports ─────────────────────────────────────────────
/// Latitudes where the number of longitude zones changes: element k is the northern limit of 59 - k zones.
fn limits() -> Vec<f64> {
    (2..=59).rev().map(|n| { let n = n as f64; let t = ((1.0 - (std::f64::consts::PI / 30.0).cos()) / (1.0 - (2.0 * std::f64::consts::PI / n).cos())).sqrt().min(1.0); if n == 2.0 { 87.0 } else { t.acos().to_degrees() } }).collect()
}
fn zones(l: &[f64], lat: f64) -> i64 { 59 - l.iter().filter(|x| lat.abs() >= **x).count() as i64 }
/// Whether `lat` is too close to a zone limit to say which side rounding falls.
fn edge(l: &[f64], lat: f64) -> bool { l.iter().any(|x| (x - lat.abs()).abs() < 1e-9) }
const B: f64 = 131072.0;
fn rem(a: f64, b: f64) -> f64 { a - b * (a / b).floor() }
/// Encodes a position; also returns the latitude as a receiver will reconstruct it.
fn encode(l: &[f64], lat: f64, lon: f64, odd: bool) -> (u32, u32, f64) {
    let i = odd as i64;
    let dlat = 360.0 / (60 - i) as f64;
    let y = (B * rem(lat, dlat) / dlat + 0.5).floor();
    let rlat = dlat * (y / B + (lat / dlat).floor());
    let dlon = 360.0 / (zones(l, rlat) - i).max(1) as f64;
    let x = (B * rem(lon, dlon) / dlon + 0.5).floor();
    (y as u32 & 0x1FFFF, x as u32 & 0x1FFFF, rlat)
}
fn lon_diff(a: f64, b: f64) -> f64 { (rem(a - b + 180.0, 360.0) - 180.0).abs() }

fn positions(run: &Run, g: &mut Rng, l: &[f64]) {
    let lat = match g.n(8) { 0 => g.range(86.0, 90.0) * if g.p(0.5) { 1.0 } else { -1.0 }, 1 => { let x = *g.pick(l); (x + g.gauss() * 0.003) * if g.p(0.5) { 1.0 } else { -1.0 } } 2 => g.gauss() * 1e-3, 3 => 6.0 * g.int(-14, 14) as f64 + g.gauss() * 1e-3, _ => g.f().mul_add(2.0, -1.0).asin().to_degrees() }.clamp(-90.0, 90.0);
    let lon = match g.n(5) { 0 => 180.0 - g.gauss().abs() * 1e-3, 1 => -180.0 + g.gauss().abs() * 1e-3, 2 => g.gauss() * 1e-3, _ => g.range(-180.0, 180.0) };
    // the aircraft moves up to three nautical miles between the two frames
    let (d, az) = (g.range(0.0, 3.0) / 60.0 * g.n(2) as f64, g.range(0.0, 6.3));
    let lat2 = (lat + d * az.cos()).clamp(-90.0, 90.0);
    let lon2 = rem(lon + if lat.abs() < 89.0 { d * az.sin() / lat.to_radians().cos() } else { 0.0 } + 180.0, 360.0) - 180.0;
    let (a, b) = (encode(l, lat, lon, false), encode(l, lat2, lon2, true));
    let odd_last = g.p(0.5);
    if edge(l, a.2) || edge(l, b.2) { return }
    let polar = a.2.abs() > 90.0 || b.2.abs() > 90.0;
    let got = cpr::decode_globally(a.0, a.1, b.0, b.1, odd_last);
    let (wl, wo, nl) = if odd_last { (lat2, lon2, (zones(l, b.2) - 1).max(1)) } else { (lat, lon, zones(l, a.2)) };
    let tol_lat = 360.0 / if odd_last { 59.0 } else { 60.0 } / B / 2.0 * 1.000001 + 1e-12;
    let tol_lon = 360.0 / nl as f64 / B / 2.0 * 1.000001 + 1e-12;
    run.eval("cpr/global", (lat.to_bits(), lon.to_bits(), odd_last));
    if zones(l, a.2) != zones(l, b.2) {
        run.check(got.is_err(), "cpr/straddle", || format!("frames in different zones accepted: {lat} {lon} / {lat2} {lon2}: {got:?}"));
        run.count("straddling pairs", 1);
    } else if !polar {
        match &got {
            Ok((x, y)) => {
                run.within("cpr/latitude", (x.value() - wl).abs(), tol_lat, || format!("{x:?} want {wl} (lon {wo}, odd last {odd_last})"));
                run.within("cpr/longitude", lon_diff(y.value(), wo), tol_lon, || format!("{y:?} want {wo} at latitude {wl}, odd last {odd_last}, {nl} zones"));
                run.check((-180.0..180.0).contains(&y.value()) && (-90.0..=90.0).contains(&x.value()), "cpr/range", || format!("{x:?} {y:?}"));
            }
            Err(e) => run.violation("cpr/refused", &format!("{e}: {lat} {lon} / {lat2} {lon2}")),
        }
    }
    // against a reference within half a zone
    let (odd, f) = if g.p(0.5) { (true, b) } else { (false, a) };
    let (pl, po) = if odd { (lat2, lon2) } else { (lat, lon) };
    let (zl, zo) = (360.0 / (60 - odd as i64) as f64, 360.0 / (zones(l, f.2) - odd as i64).max(1) as f64);
    let (rl, ro) = (pl + zl * g.range(-0.499, 0.499), rem(po + zo * g.range(-0.499, 0.499) + 180.0, 360.0) - 180.0);
    if f.2.abs() <= 90.0 && rl.abs() <= 90.0 {
        run.eval("cpr/local", (pl.to_bits(), po.to_bits(), rl.to_bits()));
        match cpr::decode_locally(f.0, f.1, odd, rl, ro) {
            Ok((x, y)) => {
                run.within("cpr/local-latitude", (x.value() - pl).abs(), zl / B / 2.0 * 1.000001 + 1e-12, || format!("{x:?} want {pl} from {rl}"));
                run.within("cpr/local-longitude", lon_diff(y.value(), po), zo / B / 2.0 * 1.000001 + 1e-12, || format!("{y:?} want {po} at {pl} from {ro}"));
                run.check((-180.0..180.0).contains(&y.value()), "cpr/range", || format!("{y:?}"));
            }
            Err(e) => run.violation("cpr/local-refused", &format!("{e}: {pl} {po} from {rl} {ro}")),
        }
    }
}
/// Unrelated fields: the answer is what integer arithmetic gives, or an error.
fn arbitrary(run: &Run, g: &mut Rng, l: &[f64]) {
    let f = |g: &mut Rng| (match g.n(4) { 0 => g.n(4) as u64, 1 => 0x1FFFF - g.n(4) as u64, _ => g.u64() & 0x1FFFF }) as i64;
    let (y0, x0, y1, x1, odd) = (f(g), f(g), f(g), f(g), g.p(0.5));
    run.eval("cpr/arbitrary", (y0, x0, y1, x1, odd));
    let got = cpr::decode_globally(y0 as u32, x0 as u32, y1 as u32, x1 as u32, odd);
    let j = (59 * y0 - 60 * y1 + 65536).div_euclid(131072);
    let fold = |v: f64| if v >= 270.0 { v - 360.0 } else { v };
    let (r0, r1) = (fold(6.0 * (j.rem_euclid(60) as f64 + y0 as f64 / B)), fold(360.0 / 59.0 * (j.rem_euclid(59) as f64 + y1 as f64 / B)));
    if !(edge(l, r0) || edge(l, r1)) {
        // only the reported latitude has to lie on the globe
        let valid = (if odd { r1 } else { r0 }).abs() <= 90.0 && zones(l, r0) == zones(l, r1);
        match got {
            Ok((x, y)) => {
                let n = zones(l, r0);
                let m = (x0 * (n - 1) - x1 * n + 65536).div_euclid(131072);
                let (ni, w, lx) = if odd { ((n - 1).max(1), r1, x1) } else { (n.max(1), r0, x0) };
                let wl = 360.0 / ni as f64 * (m.rem_euclid(ni) as f64 + lx as f64 / B);
                run.check(valid && (x.value() - w).abs() < 1e-9 && lon_diff(y.value(), wl) < 1e-9 && (-180.0..180.0).contains(&y.value()), "cpr/arbitrary", || format!("{x:?} {y:?} want {w} {wl} valid {valid} for {y0} {x0} {y1} {x1} {odd}"));
                run.count("unrelated pairs decoded", 1);
            }
            Err(_) => { run.check(!valid, "cpr/arbitrary", || format!("refused {y0} {x0} {y1} {x1} {odd}: latitudes {r0} {r1}")); }
        }
    }
    let wide = 0x20000u32 << g.n(15) | (g.u64() & 0x1FFFF) as u32;
    let k = g.n(4);
    let v = [0, 1, 2, 3].map(|i| if i == k { wide } else { y0 as u32 });
    run.check(cpr::decode_globally(v[0], v[1], v[2], v[3], odd).is_err() && (k > 1 || cpr::decode_locally(v[0], v[1], odd, 1.0, 1.0).is_err()), "cpr/wide", || format!("{v:?} accepted"));
    let bad = *g.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY]);
    run.check(cpr::decode_locally(y0 as u32, x0 as u32, odd, bad, 1.0).is_err() && cpr::decode_locally(y0 as u32, x0 as u32, odd, 1.0, bad).is_err(), "cpr/reference", || format!("reference {bad} accepted"));
    // any reference gives a position on the globe that re-encodes to the same fields, or an error
    let (rl, ro) = (g.range(-90.0, 90.0), g.range(-180.0, 180.0));
    if let Ok((x, y)) = cpr::decode_locally(y0 as u32, x0 as u32, odd, rl, ro) {
        if edge(l, x.value()) { return }
        let e = encode(l, x.value(), y.value(), odd);
        run.eval("cpr/local-arbitrary", (y0, x0, rl.to_bits()));
        let near = (x.value() - rl).abs() <= 180.0 / (60 - odd as i64) as f64 + 1e-9 && lon_diff(y.value(), ro) <= 180.0 / (zones(l, x.value()) - odd as i64).max(1) as f64 + 1e-9;
        run.check(x.value().abs() <= 90.0 && (-180.0..180.0).contains(&y.value()) && near && e.0 as i64 == y0 && e.1 as i64 == x0, "cpr/local-arbitrary", || format!("{x:?} {y:?} encodes to {e:?}, sent {y0} {x0} odd {odd} ref {rl} {ro}"));
    }
}

fn main() {
    let mut run = Run::new("C22", "frames and position reports are encoded by an independent implementation of the standard and compared with what the library decodes");
    run.assume("altitude codes without the Q bit carry no altitude; airspeed subtypes, GNSS-height and surface messages are refused; a knot is 1852/3600 m/s to 2e-6");
    let l = limits();
    let n = run.size(800_000, 20_000_000);
    run.par("frames", n, |k| { let mut g = run.rng_i("frames", k); frames(&run, &mut g) });
    run.par("positions", n, |k| { let mut g = run.rng_i("positions", k); positions(&run, &mut g, &l) });
    run.par("arbitrary", n, |k| { let mut g = run.rng_i("arbitrary", k); arbitrary(&run, &mut g, &l) });
    let m: Option<Meters> = decode_altitude(0);
    run.check(m.is_none(), "frame/altitude", || "code 0".into());
    for k in ["frame", "frame/damaged", "cpr/global", "cpr/local", "cpr/arbitrary", "cpr/local-arbitrary"] { run.require(k, 1000); }
    run.finish();
}
