//! C21: SPICE text kernels, attitude kernels and the kernel context.
use siderust::formats::spice::{ck::CkKernel, fk::FrameKernel, ik::{FovShape, IkKernel}, lsk::LeapSecondKernel, pck::PckKernel, sclk::SclkKernel, text::{TextKernel, TextValue}};
use siderust::formats::spice::{naif_id_for_name, SpkKernel};
use siderust::spice::{KernelSet, SpiceContext, SpiceContextError};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use vh::daf::Writer;
use vh::docs::*;
use vh::{Rng, Run};

type M3 = [[f64; 3]; 3];
fn mul(a: &M3, b: &M3) -> M3 { let mut o = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { o[i][j] += a[i][k] * b[k][j] } } } o }
fn tr(a: &M3) -> M3 { let mut o = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { o[i][j] = a[j][i] } } o }
fn dist(a: &M3, b: &M3) -> f64 { (0..9).map(|k| (a[k / 3][k % 3] - b[k / 3][k % 3]).abs()).fold(0.0, f64::max) }
fn quat_m(q: [f64; 4]) -> M3 {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    let [w, x, y, z] = q.map(|v| v / n);
    [[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)], [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)], [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]]
}
fn rquat(g: &mut Rng) -> [f64; 4] { let q = [0; 4].map(|_| g.gauss()); let n = q.iter().map(|x| x * x).sum::<f64>().sqrt(); q.map(|x| x / n) }
/// Two random cases of the same letters.
fn case(g: &mut Rng, s: &str) -> String { s.chars().map(|c| if g.p(0.3) { c.to_ascii_lowercase() } else { c }).collect() }
fn fnum(g: &mut Rng, v: f64) -> String {
    let s = match g.n(3) { 0 => format!("{v:.17e}"), 1 => format!("{v:e}").replace('e', "E"), _ => format!("{v:.17e}").replace('e', if g.p(0.5) { "D" } else { "d" }) };
    if s.contains(['.', 'e', 'E', 'd', 'D']) { s } else { s + ".0" }
}
fn list(g: &mut Rng, v: &[String]) -> String {
    let mut s = "(".to_string();
    for x in v { let sep = match g.n(5) { 0 => ", ".to_string(), 1 => "\n   ".into(), 2 => " /* note */ ".into(), 3 => "\n /* whole line */\n".into(), _ => " ".into() }; s += &sep; s += x; }
    s + if g.p(0.3) { "\n)" } else { " )" }
}
fn junk(g: &mut Rng) -> String { let mut s = String::new(); for _ in 0..g.n(3) { let w = word(g, 8); let _ = writeln!(s, "{} = ( {w} 'open \\begindata in the middle", word(g, 6)); } s }

// ── Text kernels ─────────────────────────────────────────────────────────
fn value(g: &mut Rng, depth: usize) -> (TextValue, String) {
    match g.n(if depth < 3 { 5 } else { 3 }) {
        0 => { let v = if g.p(0.5) { g.int(-1000, 1000) } else { g.u64() as i64 }; (TextValue::Integer(v), if v >= 0 && g.p(0.2) { format!("+{v}") } else { v.to_string() }) }
        1 => { let v = mag(g, 1e-12, 1e15); (TextValue::Float(v), fnum(g, v)) }
        2 => {
            let s: String = (0..g.n(9)).map(|_| *g.pick(&['a', 'Z', '7', ' ', '=', '(', ')', ',', '+', '"', '\'', '-', '@', '卫'])).collect();
            let q = *g.pick(&['\'', '"']);
            let body: String = s.chars().flat_map(|c| if c == q { vec![c, c] } else { vec![c] }).collect();
            (TextValue::Text(s), format!("{q}{body}{q}"))
        }
        _ => { let v: Vec<_> = (0..g.n(6)).map(|_| value(g, depth + 1)).collect(); let s: Vec<String> = v.iter().map(|x| x.1.clone()).collect(); let l = list(g, &s); (TextValue::Array(v.into_iter().map(|x| x.0).collect()), l) }
    }
}
fn same(a: &TextValue, b: &TextValue) -> bool {
    match (a, b) {
        (TextValue::Integer(x), TextValue::Integer(y)) => x == y,
        (TextValue::Float(x), TextValue::Float(y)) => x.to_bits() == y.to_bits(),
        (TextValue::Text(x), TextValue::Text(y)) => x == y,
        (TextValue::Array(x), TextValue::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        _ => false,
    }
}
fn flat(v: &TextValue, d: usize) -> Option<Vec<f64>> {
    match v { TextValue::Integer(i) => Some(vec![*i as f64]), TextValue::Float(f) => Some(vec![*f]), TextValue::Array(a) if d < 2 => { let mut o = vec![]; for x in a { o.extend(flat(x, d + 1)?) } Some(o) } _ => None }
}
fn flati(v: &TextValue, d: usize) -> Option<Vec<i64>> {
    match v { TextValue::Integer(i) => Some(vec![*i]), TextValue::Array(a) if d < 2 => { let mut o = vec![]; for x in a { o.extend(flati(x, d + 1)?) } Some(o) } _ => None }
}
fn text_kernel(run: &Run, g: &mut Rng) {
    let mut doc = String::new();
    let mut want: BTreeMap<String, TextValue> = BTreeMap::new();
    if g.p(0.5) { doc += "KPL/XX\n"; }
    doc += &junk(g);
    for _ in 0..1 + g.n(3) {
        doc += if g.p(0.3) { "  \\BEGINDATA \n" } else { "\\begindata\n" };
        for _ in 0..g.n(6) {
            let key = format!("{}{}", g.pick(&["BODY", "A/B", "X_", "INS-"]), g.n(6));
            let (v, s) = value(g, 0);
            let append = g.p(0.3);
            let (l, r) = (*g.pick(&["", " ", "   "]), *g.pick(&["", " ", " /* c = ( */ ", "\n"]));
            // a value on the next line needs an open parenthesis or quote; the assignment itself is one line
            let r = if r == "\n" { " " } else { r };
            let _ = writeln!(doc, "{}{}{l}{}{r}{s}{}", g.pick(&["", "  ", "\t"]), case(g, &key), if append { "+=" } else { "=" }, g.pick(&["", " ", " /* end */"]));
            if append {
                let old = want.remove(&key);
                let extra = match v { TextValue::Array(a) => a, o => vec![o] };
                let mut base = match old { Some(TextValue::Array(a)) => a, Some(o) => vec![o], None => vec![] };
                base.extend(extra);
                want.insert(key, TextValue::Array(base));
            } else { want.insert(key, v); }
            if g.p(0.2) { doc += *g.pick(&["\n", "/* a comment line = ' ( */\n", "   \n"]); }
        }
        if g.p(0.7) { doc += "\\begintext\n"; doc += &junk(g); }
        else if g.p(0.5) { doc += "\\begindata\n" }
    }
    let fault = g.p(0.25);
    let doc = if g.p(0.2) { doc.replace('\n', "\r\n") } else { doc };
    run.eval(if fault { "text/fault" } else { "text/read" }, &doc);
    if fault {
        let bad = *g.pick(&["NOEQUALS 5", "= 5", "+= 5", "K = ( 1 2", "K = 'abc", "K = 1 junk", "K = ( 1 ) 2", "K =", "K = ( 'a' 1", "K = \"a"]);
        let d = format!("{doc}\n\\begindata\n{bad}\n{}", *g.pick(&["", "\\begintext\n", "\\begindata\nZ = 1\n"]));
        run.check(TextKernel::parse(&d).is_err(), "text/fault-accepted", || format!("{bad:?} accepted"));
        return;
    }
    match TextKernel::parse(&doc) {
        Err(e) => run.violation("text/read", &format!("{e}\n{doc}")),
        Ok(k) => {
            run.check(k.data.len() == want.len() && want.iter().all(|(key, v)| k.data.get(key).is_some_and(|x| same(x, v))), "text/read", || format!("read {:?}\nwant {want:?}\n{doc}", k.data));
            for (key, v) in &want {
                let c = case(g, key);
                run.check(k.get(&c).is_some_and(|x| same(x, v)), "text/lookup", || format!("{c}"));
                run.check(k.get_f64_array(&c) == flat(v, 0), "text/f64-array", || format!("{v:?} -> {:?}", k.get_f64_array(&c)));
                run.check(k.get_i64_array(&c) == flati(v, 0), "text/i64-array", || format!("{v:?} -> {:?}", k.get_i64_array(&c)));
            }
            run.check(k.get("ABSENT").is_none() && k.get_f64_array("ABSENT").is_none(), "text/absent", || "value for an absent key".into());
        }
    }
}

// ── Leap seconds ─────────────────────────────────────────────────────────
const MON: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
fn lsk(run: &Run, g: &mut Rng) {
    let dta = if g.p(0.5) { 32.184 } else { g.range(0.0, 60.0) };
    let mut rows: Vec<(i64, i64, i64, i64)> = vec![];
    let (mut y, mut d) = (1972, g.int(5, 12));
    for _ in 0..1 + g.n(20) { rows.push((y, if g.p(0.6) { *g.pick(&[1i64, 7]) } else { g.int(1, 12) }, if g.p(0.8) { 1 } else { g.int(1, 28) }, d)); y += 1 + g.int(0, 2); d += if g.p(0.9) { 1 } else { -1 }; }
    let mut printed = rows.clone();
    if g.p(0.3) { for i in (1..printed.len()).rev() { let j = g.n(i + 1); printed.swap(i, j) } }
    let vals: Vec<String> = printed.iter().flat_map(|(y, m, dd, d)| { let mon = case(g, MON[*m as usize - 1]); vec![format!("{d}{}", if g.p(0.5) { "," } else { "" }), format!("@{y}-{mon}-{dd}")] }).collect();
    let doc = format!("\\begindata\nDELTET/DELTA_T_A = {dta:e}\nDELTET/DELTA_AT = {}\n", list(g, &vals));
    run.eval("lsk", &doc);
    let k = match LeapSecondKernel::from_text(&doc) { Ok(k) => k, Err(e) => { run.violation("lsk/read", &format!("{e}\n{doc}")); return } };
    run.check(k.delta_t_a == dta, "lsk/delta", || format!("{} {dta}", k.delta_t_a));
    let mut c = SpiceContext::new();
    run.check(matches!(c.tai_minus_utc(0.0), Err(SpiceContextError::KernelNotLoaded { .. })), "lsk/not-loaded", || "answered without a leap-second kernel".into());
    c.load_bytes("a", doc.clone().into_bytes()).unwrap();
    for (i, (y, m, dd, d)) in rows.iter().enumerate() {
        // UTC midnight of the entry, as TDB seconds past J2000 under the new offset
        let et = (days(*y, *m, *dd) - days(2000, 1, 1)) as f64 * 86400.0 - 43200.0 + dta + *d as f64;
        let next = rows.get(i + 1).map_or(et + 86400.0 * 3000.0, |r| (days(r.0, r.1, r.2) - days(2000, 1, 1)) as f64 * 86400.0 - 43200.0 + dta + d.min(&r.3).clone() as f64);
        let before = if i == 0 { None } else { Some(rows[i - 1].3 as f64) };
        for (e, w) in [(et + 1e-3, Some(*d as f64)), (et - 1e-3, before), (et + 1.0 + g.f() * (next - et - 3.0), Some(*d as f64))] {
            let Some(w) = w else { continue };
            run.check(k.tai_minus_utc_at(e) == w && c.tai_minus_utc(e).ok() == Some(w), "lsk/offset", || format!("TAI-UTC {} at {} s from the entry {y}-{m}-{dd} ({d} s); want {w}", k.tai_minus_utc_at(e), e - et));
            run.check((k.tdb_minus_utc_at(e) - (w + dta)).abs() < 1e-12 && c.tdb_minus_utc(e).is_ok_and(|x| (x - (w + dta)).abs() < 1e-12), "lsk/tdb", || format!("{} want {}", k.tdb_minus_utc_at(e), w + dta));
        }
    }
    let bad = *g.pick(&["( 10 @1972-JAN-1 11 )", "( 10 @1972-XXX-1 )", "( 10 @1972-FEB-30 )", "( 10 1972-JAN-1x )", "( 'a' @1972-JAN-1 )", "( 10 @x-JAN-1 )", "( 10 @1972-JAN )", "'text'"]);
    run.eval("lsk/fault", bad);
    run.check(LeapSecondKernel::from_text(&format!("\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/DELTA_AT = {bad}\n")).is_err(), "lsk/fault-accepted", || bad.into());
}

// ── Body orientation and frames ──────────────────────────────────────────
#[derive(Clone, Debug)]
struct Body { id: i32, ra: Vec<f64>, dec: Vec<f64>, pm: Vec<f64>, radii: Option<[f64; 3]> }
impl Body {
    fn random(g: &mut Rng, id: i32) -> Body {
        let v = |g: &mut Rng, a: f64, b: f64| { let n = 1 + g.n(3); let mut v = vec![g.range(-a, a)]; for _ in 1..n { v.push(g.range(-b, b)) } v };
        Body { id, ra: v(g, 360.0, 1.0), dec: v(g, 90.0, 1.0), pm: v(g, 360.0, 900.0), radii: g.p(0.5).then(|| [0; 3].map(|_| g.range(1.0, 1e5))) }
    }
    fn text(&self, g: &mut Rng) -> String {
        let mut s = String::new();
        for (k, v) in [("POLE_RA", &self.ra), ("POLE_DEC", &self.dec), ("PM", &self.pm)] {
            if v.is_empty() { continue }
            let t: Vec<String> = v.iter().map(|x| fnum(g, *x)).collect();
            let _ = writeln!(s, "BODY{}_{k} = {}", self.id, if t.len() == 1 && g.p(0.5) { t[0].clone() } else { list(g, &t) });
        }
        if let Some(r) = self.radii { let t: Vec<String> = r.iter().map(|x| fnum(g, *x)).collect(); let _ = writeln!(s, "BODY{}_RADII = {}", self.id, list(g, &t)); }
        s
    }
    /// Columns are the body axes in J2000: the pole, and the prime meridian W degrees east along
    /// the body equator from its ascending node on the J2000 equator.
    fn to_j2000(&self, et: f64) -> (M3, f64) {
        let lin = |v: &[f64], t: f64| v.first().unwrap_or(&0.0) + v.get(1).unwrap_or(&0.0) * t;
        let (c, d) = (et / 3_155_760_000.0, et / 86400.0);
        let (a, de, w) = (lin(&self.ra, c).to_radians(), lin(&self.dec, c).to_radians(), lin(&self.pm, d).to_radians());
        let z = [de.cos() * a.cos(), de.cos() * a.sin(), de.sin()];
        let n = [-a.sin(), a.cos(), 0.0];
        let m = [z[1] * n[2] - z[2] * n[1], z[2] * n[0] - z[0] * n[2], z[0] * n[1] - z[1] * n[0]];
        let x: Vec<f64> = (0..3).map(|i| n[i] * w.cos() + m[i] * w.sin()).collect();
        let y: Vec<f64> = (0..3).map(|i| -n[i] * w.sin() + m[i] * w.cos()).collect();
        let mut o = [[0.0; 3]; 3];
        for i in 0..3 { o[i] = [x[i], y[i], z[i]] }
        (o, 1e-13 + 4e-16 * (w.abs() + a.abs()))
    }
}
fn pck(run: &Run, g: &mut Rng) {
    let bodies: Vec<Body> = (0..1 + g.n(4)).map(|k| Body::random(g, [399, 301, 499, 2000001, -31][k])).collect();
    let mut doc = "\\begindata\n".to_string();
    for b in &bodies { doc += &b.text(g) }
    doc += "BODY399_NUT_PREC_ANGLES = ( 1 2 3 )\nBODYNAME_X = 'y'\n";
    run.eval("pck", &doc);
    let k = match PckKernel::from_text(&doc) { Ok(k) => k, Err(e) => { run.violation("pck/read", &format!("{e}\n{doc}")); return } };
    for b in &bodies {
        let Some(o) = k.body(b.id) else { run.violation("pck/read", &format!("body {} missing", b.id)); continue };
        run.check(o.pole_ra == b.ra && o.pole_dec == b.dec && o.pm == b.pm && o.radii == b.radii && o.has_orientation(), "pck/values", || format!("{o:?} {b:?}"));
        for _ in 0..3 {
            let et = g.range(-3e9, 3e9);
            let (w, tol) = b.to_j2000(et);
            run.within("pck/rotation", dist(&o.rotation_to_j2000(et), &w), tol * 4.0, || format!("{b:?} at {et}"));
        }
    }
    let bad = *g.pick(&["BODY5_RADII = ( 1 )", "BODY5_POLE_RA = 'x'", "BODY5_PM = ( 1 'a' )", "BODY5_RADII = 'x'"]);
    run.eval("pck/fault", bad);
    run.check(PckKernel::from_text(&format!("\\begindata\n{bad}\n")).is_err(), "pck/fault-accepted", || bad.into());
}
#[derive(Clone, Debug)]
enum Def { Tk(M3, i32), Pck(i32), Other(i32) }
fn frame_text(g: &mut Rng, id: i32, d: &Def) -> String {
    let (class, cid) = match d { Def::Tk(..) => (4, id), Def::Pck(b) => (2, *b), Def::Other(c) => (*c, id) };
    let mut s = String::new();
    let name = case(g, &format!("FR{id}"));
    if g.p(0.5) { let _ = writeln!(s, "FRAME_FR{id} = {id}"); }
    let _ = writeln!(s, "FRAME_{id}_NAME = '{name}'\nFRAME_{id}_CLASS = {class}\nFRAME_{id}_CLASS_ID = {cid}\nFRAME_{id}_CENTER = 399");
    if let Def::Tk(m, base) = d {
        let t: Vec<String> = (0..9).map(|k| fnum(g, m[k % 3][k / 3])).collect(); // column by column
        let rel = if *base == 1 { case(g, "J2000") } else { case(g, &format!("FR{base}")) };
        let _ = writeln!(s, "TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = '{rel}'\nTKFRAME_{id}_MATRIX = {}", list(g, &t));
    }
    s
}
fn frames(run: &Run, g: &mut Rng) {
    let mut ctx = SpiceContext::new();
    let (mut defs, mut bodies): (BTreeMap<i32, Def>, BTreeMap<i32, Body>) = Default::default();
    let mut hist = String::new();
    for kernel in 0..1 + g.n(3) {
        let mut doc = "\\begindata\n".to_string();
        for _ in 0..g.n(4) {
            let mut b = { let id = *g.pick(&[399, 301, 499]); Body::random(g, id) };
            if doc.contains(&format!("BODY{}_", b.id)) { continue }
            // an incomplete definition does not hide an earlier complete one
            let complete = g.p(0.8);
            if !complete { if g.p(0.5) { b.pm.clear() } else { b.dec.clear() } }
            doc += &b.text(g);
            if complete { bodies.insert(b.id, b); }
        }
        for _ in 0..g.n(6) {
            let id = 1000 + g.n(9) as i32;
            if doc.contains(&format!("FRAME_{id}_NAME")) { continue }
            let d = match g.n(8) { 0 | 1 => Def::Pck(*g.pick(&[399, 301, 499])), 2 => Def::Other(*g.pick(&[1, 3, 5])), _ => { let base = if g.p(0.25) { 1 } else { 1000 + g.n(9) as i32 }; Def::Tk(quat_m(rquat(g)), base) } };
            doc += &frame_text(g, id, &d);
            if let Ok(f) = FrameKernel::from_text(&doc) {
                let lower = format!("fr{id}");
                run.check(f.frame_by_id(id).is_some_and(|x| x.id == id && x.name == format!("FR{id}") && x.center_id == 399) && f.frame_by_name(&lower).is_some_and(|x| x.id == id), "fk/lookup", || doc.clone());
            } else { run.violation("fk/read", &doc) }
            defs.insert(id, d);
        }
        if let Err(e) = ctx.load_bytes(format!("k{kernel}"), doc.clone().into_bytes()) { run.violation("context/load", &format!("{e}\n{doc}")); return }
        hist += &doc;
    }
    // resolve with the model
    let resolve = |id: i32, et: f64| -> Option<(M3, f64)> {
        let (mut m, mut cur, mut tol) = ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], id, 1e-14);
        for _ in 0..40 {
            if cur == 1 { return Some((m, tol)) }
            match defs.get(&cur)? {
                Def::Tk(r, base) => { m = mul(r, &m); cur = *base; tol += 2e-15 }
                Def::Pck(b) => { let (r, t) = bodies.get(b)?.to_j2000(et); return Some((mul(&r, &m), tol + 4.0 * t)) }
                Def::Other(_) => return None,
            }
        }
        None
    };
    let ids: Vec<i32> = (1000..1009).chain([1, 77]).collect();
    for _ in 0..12 {
        let (a, b, et) = (*g.pick(&ids), *g.pick(&ids), g.range(-2e9, 2e9));
        let got = ctx.rotation_naif(a, b, et);
        if a == b { run.check(got.as_ref().is_ok_and(|m| dist(m, &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]) == 0.0), "frames/identity", || format!("{got:?}")); continue }
        match (resolve(a, et), resolve(b, et)) {
            (Some((ma, ta)), Some((mb, tb))) => {
                run.eval("frames/rotation", (a, b, et.to_bits()));
                let w = mul(&tr(&mb), &ma);
                match got { Ok(m) => { run.within("frames/rotation", dist(&m, &w), ta + tb, || format!("{a} -> {b} at {et}\ngot {m:?}\nwant {w:?}\n{defs:?}\n{hist}")); } Err(e) => run.violation("frames/rotation", &format!("{a} -> {b}: {e}\n{hist}")) }
            }
            _ => { run.eval("frames/refused", (a, b, et.to_bits())); run.check(got.is_err(), "frames/refused", || format!("{a} -> {b} answered {got:?}\n{hist}")); }
        }
    }
}

// ── Clocks, instruments, attitude ────────────────────────────────────────
fn sclk_ik(run: &Run, g: &mut Rng) {
    let sc = g.int(1, 300);
    let mut co: Vec<[f64; 3]> = vec![];
    let (mut s, mut e) = (g.range(0.0, 1e9), g.range(-1e8, 1e8));
    for _ in 0..1 + g.n(6) { let rate = g.range(0.5, 1e5); co.push([s, e, rate]); let d = g.range(10.0, 1e7); e += d; s += d * rate; }
    let t: Vec<String> = co.iter().flatten().map(|x| fnum(g, *x)).collect();
    let doc = format!("\\begindata\nSCLK01_COEFFICIENTS_{sc} = {}\nSCLK01_COEFFICIENTS_999 = ( 0 0 1 )\n", list(g, &t));
    run.eval("sclk", &doc);
    match SclkKernel::from_text(&doc) {
        Err(x) => run.violation("sclk/read", &format!("{x}\n{doc}")),
        Ok(v) => {
            let Some(k) = v.iter().find(|k| k.sc_id as i64 == sc) else { run.violation("sclk/read", "clock missing"); return };
            run.check(v.len() == 2, "sclk/read", || format!("{} clocks", v.len()));
            let (s0, e0) = (co[0][0], co[0][1]);
            run.check(k.et_to_sclkdp(e0 - 1.0).is_err() && k.sclkdp_to_et(s0 - 1.0).is_err(), "sclk/before", || "answered before coverage".into());
            for _ in 0..6 {
                let i = g.n(co.len());
                let end = co.get(i + 1).map_or(co[i][1] + 1e6, |n| n[1]);
                let et = co[i][1] + (end - co[i][1]) * g.range(0.0, 0.999);
                let want = co[i][0] + (et - co[i][1]) * co[i][2];
                let got = k.et_to_sclkdp(et);
                run.check(got.as_ref().is_ok_and(|x| (x - want).abs() <= 1e-15 * want.abs().max(1e9) * 4.0), "sclk/ticks", || format!("{got:?} want {want}\n{doc}"));
                let back = k.sclkdp_to_et(want);
                run.check(back.as_ref().is_ok_and(|x| (x - et).abs() <= 1e-6 + 1e-15 * want.abs() * 4.0 / co[i][2]), "sclk/back", || format!("{back:?} want {et}\n{doc}"));
            }
        }
    }
    run.check(SclkKernel::from_text("\\begindata\nSCLK01_COEFFICIENTS_5 = ( 1 2 3 4 )\n").is_err(), "sclk/fault-accepted", || "incomplete triple accepted".into());
    // instruments
    let id = -g.int(1, 99999);
    let (shape, fr, b, ra, ca) = (*g.pick(&["CIRCLE", "RECTANGLE", "ELLIPSE", "POLYGON", "HEXAGON"]), word(g, 8), [0; 3].map(|_| g.range(-1.0, 1.0)), g.p(0.7).then(|| g.range(0.1, 80.0)), g.p(0.5).then(|| g.range(0.1, 80.0)));
    let t: Vec<String> = b.iter().map(|x| fnum(g, *x)).collect();
    let mut doc = format!("\\begindata\nINS{id}_FOV_SHAPE = '{}'\nINS{id}_FOV_FRAME = '{fr}'\nINS{id}_BORESIGHT = {}\n", case(g, shape), list(g, &t));
    if let Some(r) = ra { let _ = writeln!(doc, "INS{id}_FOV_REF_ANGLE = {}", fnum(g, r)); }
    if let Some(r) = ca { let _ = writeln!(doc, "INS{id}_FOV_CROSS_ANGLE = {}", fnum(g, r)); }
    run.eval("ik", &doc);
    match IkKernel::from_text(&doc) {
        Err(e) => run.violation("ik/read", &format!("{e}\n{doc}")),
        Ok(k) => {
            let ok = k.instrument(id as i32).is_some_and(|x| {
                let s = match &x.fov_shape { Some(FovShape::Circle) => "CIRCLE", Some(FovShape::Rectangle) => "RECTANGLE", Some(FovShape::Ellipse) => "ELLIPSE", Some(FovShape::Polygon) => "POLYGON", Some(FovShape::Other(o)) => o.as_str(), None => "" };
                s == shape && x.fov_frame.as_deref() == Some(&fr.to_ascii_uppercase()) && x.boresight == Some(b) && x.fov_ref_angle == ra && x.fov_cross_angle == ca && x.inst_id as i64 == id
            });
            run.check(ok && k.instruments.len() == 1 && k.instrument(5).is_none(), "ik/read", || format!("{k:?}\n{doc}"));
        }
    }
}
fn ck(run: &Run, g: &mut Rng) {
    let top = if g.p(0.1) { 230 } else { 8 };
    let n = 1 + g.n(top);
    let scale = if g.p(0.5) { 1.0 } else { g.log(1e-3, 1e3) };
    let mut t = vec![g.range(0.0, 1e9)];
    for _ in 1..n { let x = t[t.len() - 1] + g.range(1.0, 1e6); t.push(x) }
    let q: Vec<[f64; 4]> = (0..n).map(|_| { let s = if g.p(0.5) { 1.0 } else { -1.0 }; rquat(g).map(|x| x * s) }).collect();
    // records as the library documents them: clock value, then the quaternion (see ck_naif for the layout NAIF files use)
    let mut w: Vec<f64> = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    if g.p(0.2) { for i in (1..n).rev() { let j = g.n(i + 1); order.swap(i, j) } }
    for i in order { w.push(t[i]); w.extend(q[i].map(|x| x * scale)) }
    w.push(n as f64);
    let id = -(g.int(1, 99999) as i32);
    let d = Writer { big: g.p(0.5), per_record: 1 + g.n(20), gap: g.n(4), locator: b"DAF/CK  " };
    let other = (vec![0.0, 2e12], vec![id, 1, 3, 0], vec![1.0; 9]);
    let mut segs = vec![(vec![t[0], t[n - 1]], vec![id, 1, 1, 0], w)];
    if g.p(0.3) { segs.insert(0, other) }
    let k = match CkKernel::from_bytes(d.build(2, 6, &segs)) { Ok(k) => k, Err(e) => { run.violation("ck/read", &format!("{e}, {n} records")); return } };
    for _ in 0..6 {
        let i = g.n(n);
        let (at, want, tol) = if n == 1 || g.p(0.3) { (t[i], quat_m(q[i]), 1e-12) } else {
            let i = g.n(n - 1);
            let f = g.f();
            let at = t[i] + (t[i + 1] - t[i]) * f;
            let f = (at - t[i]) / (t[i + 1] - t[i]);
            // constant-rate rotation about the single axis of the relative attitude, the short way
            let (a, b) = (q[i], q[i + 1]);
            let r = [a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3], a[0] * b[1] - a[1] * b[0] - a[2] * b[3] + a[3] * b[2], a[0] * b[2] - a[2] * b[0] - a[3] * b[1] + a[1] * b[3], a[0] * b[3] - a[3] * b[0] - a[1] * b[2] + a[2] * b[1]];
            let s = if r[0] < 0.0 { -1.0 } else { 1.0 };
            let v = [r[1] * s, r[2] * s, r[3] * s];
            let vn = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if r[0].abs() < 1e-3 || vn < 1e-6 { continue }
            let h = vn.atan2(r[0] * s) * f;
            let p = [h.cos(), v[0] / vn * h.sin(), v[1] / vn * h.sin(), v[2] / vn * h.sin()];
            // below 3.6 degrees between records a normalised straight line replaces the arc (1e-6 rad)
            (at, mul(&quat_m(a), &quat_m(p)), if r[0].abs() > 0.9994 { 1e-6 } else { 1e-9 })
        };
        run.eval("ck/rotation", at.to_bits());
        match k.rotation(id, at) {
            Ok(x) => {
                run.within("ck/unit", (x.iter().map(|v| v * v).sum::<f64>() - 1.0).abs(), 1e-12, String::new);
                run.within("ck/rotation", dist(&quat_m(x), &want), tol, || format!("record {i} of {n} at {at}: {x:?}"));
            }
            Err(e) => run.violation("ck/rotation", &format!("{e} at {at} of {:?}", (t[0], t[n - 1]))),
        }
    }
    run.check(k.rotation(id, t[0] - 1.0).is_err() && k.rotation(id, t[n - 1] + 1.0).is_err() && k.rotation(id + 1, t[0]).is_err(), "ck/coverage", || "answered outside coverage".into());
}
/// A type 1 segment as NAIF's reading notes lay it out: all quaternions, then all clock values.
fn ck_naif(run: &Run) {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let w = vec![h, h, 0.0, 0.0, h, 0.0, h, 0.0, 100.0, 200.0, 2.0];
    let b = Writer { big: false, per_record: 5, gap: 0, locator: b"DAF/CK  " }.build(2, 6, &[(vec![100.0, 200.0], vec![-5, 1, 1, 0], w)]);
    run.eval("ck/naif-layout", 1);
    let r = CkKernel::from_bytes(b).and_then(|k| k.rotation(-5, 100.0));
    run.check(r.as_ref().is_ok_and(|x| dist(&quat_m(*x), &quat_m([h, h, 0.0, 0.0])) < 1e-9), "ck/naif-layout", || format!("two-record type 1 segment in NAIF's layout: attitude at its first record {r:?}, want [{h}, {h}, 0, 0]"));
}
/// The latest loaded ephemeris kernel that can answer wins; the latest leap-second kernel wins.
fn priority(run: &Run, g: &mut Rng) {
    let mut c = SpiceContext::new();
    let mut loaded: Vec<Vec<vh::daf::Seg>> = vec![];
    let et = g.range(-5e8, 5e8);
    run.check(c.state_naif(399, 10, et).is_err(), "priority/empty", || "state without kernels".into());
    for i in 0..1 + g.n(4) {
        let t0 = if g.p(0.7) { et - 1.37e6 } else { et + 1e6 };
        let (t, z) = *g.pick(&[(399, 10), (301, 10), (399, 301)]);
        let s = vec![vh::daf::cheb_seg(g, t, z, t0, 2e6, 1e6, 3)];
        let b = Writer { big: g.p(0.5), per_record: 5, gap: 0, locator: b"DAF/SPK " }.spk(&s);
        if let Err(e) = c.load_bytes(format!("k{i}"), b) { run.violation("priority/load", &format!("{e}")); return }
        loaded.push(s);
    }
    let ks = c.kernel_set();
    run.check(ks.spk_count() == loaded.len() && ks.ck_count() == 0 && !ks.has_lsk() && ks.lsk().is_none() && ks.ck_kernels().count() + ks.fk_kernels().count() + ks.pck_text_kernels().count() + ks.sclk_kernels().count() == 0, "priority/count", || format!("{}", c.kernel_set().spk_count()));
    hand_built(run, g);
    for (t, z) in [(399, 10), (301, 10), (399, 301), (10, 399)] {
        let want = loaded.iter().rev().find_map(|s| { let s = &s[0]; if !s.covers(et) { return None } let x = s.states(et)[0]; if (s.target, s.center) == (t, z) { Some(x) } else if (s.center, s.target) == (t, z) { Some(x.map(|v| -v)) } else { None } });
        run.eval("priority/state", (t, z, et.to_bits(), loaded.len()));
        match (c.state_naif(t, z, et), want) {
            (Ok(a), Some(w)) => { run.within("priority/state", (0..3).map(|i| (a[i] - w[i]).abs()).fold(0.0, f64::max), 1e-5, || format!("{t} from {z}: {a:?} want {w:?}")); }
            (Err(_), None) => {}
            (a, w) => run.violation("priority/state", &format!("{t} from {z} at {et}: {a:?} want {w:?}")),
        }
    }
    let l = |v: i64| format!("\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/DELTA_AT = ( {v} @1972-JAN-1 )\n").into_bytes();
    let (a, b) = (g.int(1, 20), g.int(21, 40));
    c.load_bytes("l1", l(a)).unwrap(); c.load_bytes("l2", l(b)).unwrap();
    run.check(c.tai_minus_utc(0.0).ok() == Some(b as f64), "priority/lsk", || format!("{:?}", c.tai_minus_utc(0.0)));
    for bad in ["DAF/PCK 1234", "DAF/DSK 1234", "DAF/EK  1234"] { run.check(c.load_bytes("x", bad.as_bytes().to_vec()).is_err(), "priority/unsupported", || bad.into()); }
}

/// A kernel set filled through its own methods holds what was put in, in the order it was put in.
fn hand_built(run: &Run, g: &mut Rng) {
    let mut k = KernelSet::new();
    let (mut n, mut pck, mut fks, mut lsks, mut clocks) = (0usize, vec![], vec![], None, vec![]);
    let et = g.range(-5e8, 5e8);
    let mut last: Option<vh::daf::Seg> = None;
    for _ in 0..g.n(6) {
        match g.n(5) {
            0 => { let s = vh::daf::cheb_seg(g, 399, 10, et - 1.37e6, 2e6, 1e6, 3); let b = Writer { big: g.p(0.5), per_record: 5, gap: 0, locator: b"DAF/SPK " }.spk(&[s.clone()]); k.add_spk("s", SpkKernel::from_bytes(b).unwrap()); n += 1; last = Some(s) }
            1 => { let r = g.int(1, 9_999); k.add_pck_text("p", siderust::formats::spice::PckKernel::from_text(&format!("\\begindata\nBODY499_RADII = ( {r} {r} {r} )\nBODY499_POLE_RA = ( {r} 0 0 )\nBODY499_POLE_DEC = ( 1 0 0 )\nBODY499_PM = ( 1 0 0 )\n")).unwrap()); pck.push(r as f64) }
            2 => { let id = g.int(-99_999, -1); let nm = format!("FR{}", g.n(999)); k.add_fk("f", FrameKernel::from_text(&format!("\\begindata\nFRAME_{nm} = {id}\nFRAME_{id}_NAME = '{nm}'\nFRAME_{id}_CLASS = 3\nFRAME_{id}_CLASS_ID = {id}\nFRAME_{id}_CENTER = 399\n")).unwrap()); fks.push((nm, id as i32)) }
            3 => { let v = g.int(1, 40); k.set_lsk("l", LeapSecondKernel::from_text(&format!("\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/DELTA_AT = ( {v} @1972-JAN-1 )\n")).unwrap()); lsks = Some(v as f64) }
            _ => { let mut ids = vec![]; for s in siderust::formats::spice::SclkKernel::from_text("\\begindata\nSCLK_DATA_TYPE_77 = ( 1 )\nSCLK01_N_FIELDS_77 = ( 2 )\nSCLK01_MODULI_77 = ( 4294967296 256 )\nSCLK01_OFFSETS_77 = ( 0 0 )\nSCLK01_COEFFICIENTS_77 = ( 0 0 1 )\nSCLK_PARTITION_START_77 = ( 0 )\nSCLK_PARTITION_END_77 = ( 1e12 )\n").unwrap_or_default() { ids.push(1); k.add_sclk("c", s) } clocks.extend(ids) }
        }
    }
    run.eval("priority/hand-built", (n, &fks, lsks.map(|x: f64| x.to_bits()), pck.len(), clocks.len()));
    let w = || format!("spk {n} pck {pck:?} fk {fks:?} lsk {lsks:?} sclk {}", clocks.len());
    run.check(k.spk_count() == n && k.ck_count() == 0 && k.ck_kernels().count() == 0 && k.sclk_kernels().count() == clocks.len(), "kernel-set/count", w);
    run.check(k.has_lsk() == lsks.is_some() && k.lsk().map(|l| l.tai_minus_utc_at(0.0)) == lsks, "kernel-set/lsk", w);
    run.check(k.fk_kernels().map(|f| (f.frames[0].name.clone(), f.frames[0].id)).eq(fks.iter().cloned()), "kernel-set/frames", w);
    run.check(k.pck_text_kernels().count() == pck.len() && k.pck_text_kernels().zip(&pck).all(|(a, b)| a.body(499).is_some_and(|o| o.radii == Some([*b; 3]))), "kernel-set/pck", w);
    match (k.state_naif(399, 10, et), &last) {
        (Ok(a), Some(s)) => { let w2 = s.states(et)[0]; run.within("kernel-set/state", (0..3).map(|i| (a[i] - w2[i]).abs()).fold(0.0, f64::max), 1e-5, w); }
        (Err(_), None) => {}
        (a, _) => run.violation("kernel-set/state", &format!("{a:?} {}", w())),
    }
}
/// The names of the bodies of the planetary kernels (NAIF integer id codes; the library documents PLUTO as the barycentre).
fn names(run: &Run, g: &mut Rng) {
    let mut t: Vec<(String, i32)> = vec![("SSB".into(), 0), ("SOLAR SYSTEM BARYCENTER".into(), 0), ("EMB".into(), 3), ("EARTH BARYCENTER".into(), 3), ("EARTH MOON BARYCENTER".into(), 3), ("SUN".into(), 10), ("MOON".into(), 301), ("PLUTO".into(), 9), ("PLUTO BARYCENTER".into(), 9)];
    for (i, n) in ["MERCURY", "VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE"].iter().enumerate() {
        t.push((n.to_string(), i as i32 * 100 + 199));
        t.push((format!("{n} BARYCENTER"), i as i32 + 1));
    }
    let known = |s: &str| t.iter().find(|(n, _)| *n == s.trim().to_ascii_uppercase()).map(|x| x.1);
    for (n, id) in &t {
        let s = format!("{}{}{}", " ".repeat(g.n(2)), case(g, n), " ".repeat(g.n(2)));
        run.eval("naif-name", &s);
        run.check(naif_id_for_name(&s) == Some(*id), "naif-name", || format!("{s:?} gave {:?}, id {id}", naif_id_for_name(&s)));
        let odd = match g.n(3) { 0 => format!("{n}X"), 1 => n[1..].to_string(), _ => n.replacen(' ', "  ", 1) + "." };
        run.check(naif_id_for_name(&odd) == known(&odd), "naif-name/unknown", || format!("{odd:?} gave {:?}", naif_id_for_name(&odd)));
    }
    use siderust::formats::spice::well_known as wk;
    run.check([wk::SSB, wk::EARTH_MOON_BARYCENTER, wk::MARS_BARYCENTER, wk::JUPITER_BARYCENTER, wk::SUN, wk::EARTH, wk::MOON] == [0, 3, 4, 5, 10, 399, 301], "naif-name/constants", || "constants".into());
}
fn main() {
    let mut run = Run::new("C21", "generated kernels are compared with the values and rotations they were generated from");
    run.assume("spacecraft clock rates are ticks per second as the library documents them; text-kernel values without '/*' inside strings; frame chains of up to 9 links");
    let n = run.size(60_000, 2_000_000);
    for (name, f) in [("text", text_kernel as fn(&Run, &mut Rng)), ("lsk", lsk), ("pck", pck), ("frames", frames), ("sclk-ik", sclk_ik), ("ck", ck), ("priority", priority), ("names", names)] {
        run.par(name, n, |k| { let mut g = run.rng_i(name, k); f(&run, &mut g) });
    }
    ck_naif(&run);
    for k in ["text/read", "text/fault", "lsk", "pck", "frames/rotation", "frames/refused", "sclk", "ik", "ck/rotation", "priority/state", "priority/hand-built", "naif-name"] { run.require(k, 100); }
    run.finish();
}
