//! Generated documents of the text formats together with the values they were generated from.
//! Layouts are written here from the format descriptions, independently of siderust's writers.
use crate::Rng;

/// Days from 1970-01-01 of a proleptic Gregorian date (era arithmetic, no chrono).
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}
pub fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn mlen(y: i64, m: i64) -> i64 { [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1] }

/// Civil epoch with an integer count of `10^-9 s` inside the minute.
#[derive(Clone, Copy, Debug)]
pub struct Civ { pub y: i64, pub mo: i64, pub d: i64, pub h: i64, pub mi: i64, pub ns: i64 }
impl Civ {
    /// random epoch between years a and b with seconds a multiple of `q` ns; boundary instants are frequent.
    pub fn random(g: &mut Rng, a: i64, b: i64, q: i64) -> Civ {
        let y = a + g.int(0, b - a);
        let mo = if g.p(0.2) { *g.pick(&[1, 2, 12]) } else { g.int(1, 12) };
        let l = mlen(y, mo);
        let d = if g.p(0.2) { *g.pick(&[1, l]) } else { g.int(1, l) };
        let (h, mi) = if g.p(0.15) { *g.pick(&[(0, 0), (23, 59), (12, 0)]) } else { (g.int(0, 23), g.int(0, 59)) };
        let n = 60_000_000_000 / q;
        let ns = q * match g.n(5) { 0 => 0, 1 => n - 1, 2 => (n / 60).max(1) * g.int(0, 59) % n, _ => g.int(0, n - 1) };
        Civ { y, mo, d, h, mi, ns }
    }
    pub fn unix_ns(&self) -> i128 { ((days(self.y, self.mo, self.d) * 1440 + self.h * 60 + self.mi) as i128) * 60_000_000_000 + self.ns as i128 }
    pub fn mjd_day(&self) -> i64 { days(self.y, self.mo, self.d) + 40_587 }
    pub fn sod_ns(&self) -> i64 { (self.h * 60 + self.mi) * 60_000_000_000 + self.ns }
    /// seconds with `k` decimals (truncated; exact when ns is a multiple of 10^(9-k)).
    pub fn sec(&self, k: usize) -> String {
        let f = format!("{:09}", self.ns % 1_000_000_000);
        if k == 0 { format!("{:02}", self.ns / 1_000_000_000) } else { format!("{:02}.{}", self.ns / 1_000_000_000, &f[..k]) }
    }
    pub fn doy(&self) -> i64 { days(self.y, self.mo, self.d) - days(self.y, 1, 1) + 1 }
    pub fn iso(&self, k: usize) -> String { format!("{:04}-{:02}-{:02}T{:02}:{:02}:{}", self.y, self.mo, self.d, self.h, self.mi, self.sec(k)) }
}

pub fn word(g: &mut Rng, max: usize) -> String {
    let n = 1 + g.n(max);
    (0..n).map(|_| *g.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_") as char).collect()
}
/// free text without leading/trailing blanks.
pub fn text(g: &mut Rng) -> String {
    let n = 1 + g.n(4);
    let hard = ["A&B", "<X>", "\"q\"", "it's", "a=b", "é", "卫星", "R/B", "(x)", "&amp;", "1:2", "#1"];
    (0..n).map(|_| if g.p(0.25) { (*g.pick(&hard)).to_string() } else { word(g, 8) }).collect::<Vec<_>>().join(" ")
}
/// value as it reads from a decimal with `k` places.
pub fn dec(v: f64, k: usize) -> f64 { format!("{v:.k$}").parse().unwrap() }
pub fn blank(g: &mut Rng) -> String { " ".repeat(1 + g.n(4)) }
pub fn eol(g: &mut Rng) -> &'static str { if g.p(0.2) { "\r\n" } else { "\n" } }
pub fn label(body: &str, l: &str) -> String { format!("{body:<60}{l:<20}\n") }
/// D19.12-like text of v, 13 significant digits.
pub fn d19(v: f64, ch: char) -> String {
    let s = format!("{v:.12e}");
    let (m, x) = s.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    format!("{:>19}", format!("{m}{ch}{}{:02}", if x < 0 { '-' } else { '+' }, x.abs()))
}
pub fn mag(g: &mut Rng, lo: f64, hi: f64) -> f64 {
    if g.p(0.05) { return 0.0 }
    let v = g.log(lo, hi);
    if g.p(0.5) { v } else { -v }
}
