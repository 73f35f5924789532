//! Independent TLE text writer with integer fields (what the columns hold).
use crate::Rng;

#[derive(Clone, Debug)]
pub struct TleF {
    pub norad: u32,
    pub class: char,
    pub desig: String,
    pub yy: u32,
    /// day of year in 1e-8 days
    pub day8: u64,
    /// printed half rate, 1e-8 rev/day²
    pub ndot8: i64,
    /// mantissa (5 digits) and exponent of the assumed-decimal fields
    pub nddot: (i64, i32),
    pub bstar: (i64, i32),
    pub elset: u32,
    pub i4: u64,
    pub raan4: u64,
    pub e7: u64,
    pub argp4: u64,
    pub m4: u64,
    pub n8: u64,
    pub rev: u32,
}
pub fn checksum(l: &str) -> u32 { l.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10 }
fn ade((m, x): (i64, i32)) -> String { format!("{}{:05}{}{}", if m < 0 { '-' } else { ' ' }, m.abs(), if x > 0 { '+' } else { '-' }, x.abs()) }
pub fn alpha5(n: u32) -> String {
    if n < 100_000 { return format!("{n:05}"); }
    let l = "ABCDEFGHJKLMNPQRSTUVWXYZ".as_bytes()[(n / 10_000 - 10) as usize] as char;
    format!("{l}{:04}", n % 10_000)
}
pub fn year(yy: u32) -> i32 { if yy < 57 { 2000 + yy as i32 } else { 1900 + yy as i32 } }
pub fn leap(y: i32) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
/// Julian date (day number at 0h) of January 0.0 of a year
pub fn jd_jan0(y: i32) -> f64 {
    let y1 = (y - 1) as i64;
    (y1 * 365 + y1 / 4 - y1 / 100 + y1 / 400) as f64 + 1_721_424.5
}
impl TleF {
    pub fn random(g: &mut Rng) -> TleF {
        let yy = g.n(100) as u32;
        let days = if leap(year(yy)) { 366 } else { 365 };
        let day8 = match g.n(6) { 0 => 100_000_000 * (1 + g.n(days) as u64), 1 => 100_000_000 * (1 + g.n(days) as u64) + 99_999_999, _ => (1e8 * g.range(1.0, days as f64 + 1.0)) as u64 };
        let small = |g: &mut Rng| -> (i64, i32) { if g.p(0.2) { (0, 0) } else { ((if g.p(0.5) { 1 } else { -1 }) * (10_000 + g.n(90_000) as i64), -(g.n(9) as i32)) } };
        TleF {
            norad: match g.n(3) { 0 => g.n(100_000) as u32, 1 => g.n(340_000) as u32, _ => 1 + g.n(60_000) as u32 },
            class: *g.pick(&['U', 'C', 'S']),
            desig: if g.p(0.1) { String::new() } else { format!("{:02}{:03}{}", g.n(100), 1 + g.n(999), g.pick(&["A", "B", "AB", "ZZZ", ""])) },
            yy, day8,
            ndot8: match g.n(4) { 0 => 0, 1 => g.n(199_999_999) as i64 - 99_999_999, _ => g.n(200_001) as i64 - 100_000 },
            nddot: small(g), bstar: small(g),
            elset: g.n(10_000) as u32,
            i4: match g.n(6) { 0 => 0, 1 => 1_800_000, 2 => 634_349, _ => g.n(1_800_001) as u64 },
            raan4: g.n(3_600_000) as u64,
            e7: match g.n(6) { 0 => 0, 1 => g.n(10_000_000) as u64, 2 => 9_000_000 + g.n(990_000) as u64, _ => g.log(1.0, 9_000_000.0) as u64 },
            argp4: g.n(3_600_000) as u64,
            m4: match g.n(6) { 0 => 0, 1 => 1_800_000, _ => g.n(3_600_000) as u64 },
            n8: (1e8 * g.log(0.05, 17.0)) as u64,
            rev: g.n(100_000) as u32,
        }
    }
    pub fn lines(&self) -> (String, String) {
        let mut a = format!("1 {}{} {:<8} {:02}{:03}.{:08} {}.{:08} {} {} 0 {:>4}", alpha5(self.norad), self.class, self.desig, self.yy, self.day8 / 100_000_000, self.day8 % 100_000_000,
            if self.ndot8 < 0 { '-' } else { ' ' }, self.ndot8.abs(), ade(self.nddot), ade(self.bstar), self.elset);
        let d4 = |x: u64| format!("{:>3}.{:04}", x / 10_000, x % 10_000);
        let mut b = format!("2 {} {} {} {:07} {} {} {:>2}.{:08}{:>5}", alpha5(self.norad), d4(self.i4), d4(self.raan4), self.e7, d4(self.argp4), d4(self.m4), self.n8 / 100_000_000, self.n8 % 100_000_000, self.rev);
        a.push_str(&checksum(&a).to_string());
        b.push_str(&checksum(&b).to_string());
        (a, b)
    }
    pub fn ade_value((m, x): (i64, i32)) -> f64 { m as f64 * 1e-5 * 10f64.powi(x) }
    /// printed half rate, rev/day²
    pub fn ndot(&self) -> f64 { self.ndot8 as f64 * 1e-8 }
    pub fn nddot(&self) -> f64 { Self::ade_value(self.nddot) }
    pub fn bstar(&self) -> f64 { Self::ade_value(self.bstar) }
    pub fn e(&self) -> f64 { self.e7 as f64 * 1e-7 }
    pub fn n(&self) -> f64 { self.n8 as f64 * 1e-8 }
    pub fn deg(x: u64) -> f64 { x as f64 * 1e-4 }
    /// UTC Julian date of the epoch, split into (day start, fraction of day)
    pub fn jd(&self) -> (f64, f64) { (jd_jan0(year(self.yy)) + (self.day8 / 100_000_000) as f64, (self.day8 % 100_000_000) as f64 * 1e-8) }
}
