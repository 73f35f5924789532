//! C18: every reader survives arbitrary bytes. Worker processes execute the readers on mutated documents;
//! the parent watches for panics, crashes, hangs and runaway memory.
use siderust::catalogs::ingest::parse_csv_chunk;
use siderust::formats::ccsds::{oem, opm, tdm};
use siderust::formats::iers::eop;
use siderust::formats::igs::{antex, orbex, sinex, sp3};
use siderust::formats::ilrs::{cpf, crd};
use siderust::formats::rinex::{doris, nav, obs};
use siderust::formats::spice::{ck::CkKernel, daf, fk::FrameKernel, ik::IkKernel, kernel::SpkKernel, lsk::LeapSecondKernel, pck::PckKernel, sclk::SclkKernel, spk, text::TextKernel};
use siderust::formats::tle::{self, omm};
use siderust::formats::vlbi::vgosdb;
use siderust::formats::{adsb, sck, ParseMode};
use siderust::spice::SpiceContext;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use vh::seeds::*;
use vh::{Rng, Run};

/// Counts live bytes and refuses unreasonable requests (inputs stay below 1 MB).
struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
fn grow(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > CAP.load(Relaxed) { LIVE.fetch_sub(n, Relaxed); return false }
    PEAK.fetch_max(l, Relaxed);
    true
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if grow(l.size()) { System.alloc(l) } else { std::ptr::null_mut() } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if grow(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() { if !grow(n - l.size()) { return std::ptr::null_mut() } } else { LIVE.fetch_sub(l.size() - n, Relaxed); }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Meter = Meter;
const MEM: usize = 1 << 30;
const CPU_LIMIT: f64 = 20.0;

type Exec = fn(&[u8]) -> bool;
type Seeds = fn() -> Vec<Vec<u8>>;
struct Fmt { name: &'static str, seeds: Seeds, exec: Exec, binary: bool, cost: usize }

fn t(s: &[&str]) -> Vec<Vec<u8>> { s.iter().map(|s| s.as_bytes().to_vec()).collect() }
fn st(b: &[u8]) -> std::borrow::Cow<'_, str> { String::from_utf8_lossy(b) }
fn both<T, E>(f: impl Fn(ParseMode) -> Result<T, E>, then: impl Fn(T)) -> bool {
    let a = f(ParseMode::Strict).map(&then).is_ok();
    let _ = f(ParseMode::Permissive).map(&then);
    a
}

fn omm_of() -> omm::Omm { omm::Omm::from_tle(&tle::parse_tle(L1, L2).unwrap()) }
const ETS: [f64; 7] = [0.0, -1e6, 1e6, 12345.678, f64::NAN, f64::INFINITY, -1e300];

fn formats() -> Vec<Fmt> {
    let f = |name, seeds: Seeds, exec: Exec| Fmt { name, seeds, exec, binary: false, cost: 1 };
    vec![
        f("oem-kvn", || t(&[OEM]), |b| oem::read_oem(b).map(|r| { for x in &r.segments { let _ = oem::write_oem(&mut vec![], &x.metadata, &x.states); let _ = oem::write_oem_xml(&mut vec![], &x.metadata, &x.states); } }).is_ok()),
        f("oem-xml", || { let r = oem::read_oem(OEM.as_bytes()).unwrap(); let mut o = vec![]; oem::write_oem_xml(&mut o, &r.segments[0].metadata, &r.segments[0].states).unwrap(); vec![o] }, |b| oem::read_oem_xml(b).is_ok()),
        f("opm", || t(&[OPM]), |b| opm::read_opm(b).map(|m| { let _ = opm::write_opm(&mut vec![], &m); }).is_ok()),
        f("tdm", || t(&[TDM]), |b| tdm::read_tdm(b).map(|m| { let _ = tdm::write_tdm(&mut vec![], &m); }).is_ok()),
        f("sp3", || t(&[SP3]), |b| {
            if let Ok(mut s) = sp3::Sp3Stream::new(b) { while let Ok(Some(_)) = s.next_epoch() {} }
            sp3::read_sp3(b).map(|r| { let _ = sp3::write_sp3(&mut vec![], &r); }).is_ok()
        }),
        f("antex", antex_seed, |b| antex::read_antex(b).map(|c| { let _ = antex::write_antex(&mut vec![], &c); }).is_ok()),
        f("orbex", || t(&[ORBEX]), |b| both(|m| orbex::read_orbex(b, m), |_| ())),
        f("sinex", || t(&[SINEX]), |b| both(|m| sinex::read_sinex(b, m), |_| ())),
        f("cpf", || t(&[CPF]), |b| { let s = st(b); both(|m| cpf::parse_cpf_with_mode(&s, m), |f| { let _ = cpf::write_cpf(&f, &mut vec![]); }) }),
        f("crd", || t(&[CRD]), |b| { let s = st(b); both(|m| crd::parse_crd_with_mode(&s, m), |_| ()) }),
        f("rinex-nav", nav_seed, |b| { let s = st(b); both(|m| nav::parse_rinex_nav_with_mode(&s, m), |f| { let _ = nav::write_rinex_nav(&mut vec![], &f); }) }),
        f("rinex-obs", obs_seed, |b| obs::read_rinex_obs(b).map(|f| { let _ = obs::write_rinex_obs(&mut vec![], &f); }).is_ok()),
        f("rinex-doris", doris_seed, |b| doris::read_rinex_doris(b).is_ok()),
        f("eop-c04", || t(&[EOP]), |b| eop::read_eop_c04(b).map(|r| { for m in [58849.5, 58850.5, 0.0, 1e9] { let _ = eop::interpolate(&r, tempoch::ModifiedJulianDate::<tempoch::UTC>::new(m)); } }).is_ok()),
        f("vgosdb", || t(&[VGOS]), |b| vgosdb::read_vgosdb_sidecar(b).is_ok()),
        Fmt { binary: true, ..f("sck", sck_seed, |b| sck::parse_sck(b).is_ok()) },
        f("adsb", || t(&["8D4840D6202CC371C32CE0576098", "8D40621D58C382D690C8AC2863A7", "8D485020994409940838175B284F", "8DA05F219B06B6AF189400CBC33F", "8D40621D58C386435CC412692AD6"]), |b| {
            let s = st(b);
            let w = |i: usize| b.get(i..i + 4).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap()));
            let q = |i: usize| f64::from_bits((w(i) as u64) << 32 | w(i + 4) as u64);
            for m in [u32::MAX, 0x1ffff] {
                let _ = adsb::cpr::decode_globally(w(0) & m, w(4) & m, w(8) & m, w(12) & m, w(16) & 1 == 1);
                let _ = adsb::cpr::decode_locally(w(0) & m, w(4) & m, w(8) & 1 == 1, q(12), q(20));
                let _ = adsb::cpr::decode_locally(w(0) & m, w(4) & m, w(8) & 1 == 1, (w(12) % 200) as f64 - 100.0, (w(16) % 800) as f64 - 400.0);
            }
            let _ = adsb::decode_altitude(w(0) as u16);
            // arbitrary message bits behind a valid parity
            let sealed = b.get(..11).map(|m| { let mut m = m.to_vec(); m[0] = if m[1] & 7 == 0 { 0x90 } else { 0x88 } | m[0] & 7; let mut r = 0u32; for i in 0..88 { let bit = m[i / 8] >> (7 - i % 8) & 1; let top = (r >> 23 & 1) as u8 ^ bit; r = r << 1 & 0xff_ffff; if top == 1 { r ^= 0xff_f409 } } let mut h = String::new(); for x in &m { h += &format!("{x:02X}") } h + &format!("{r:06X}") }).unwrap_or_default();
            let _ = adsb::parse_frame(&sealed).map(|f| { let _ = adsb::decode_identification(&f); let _ = adsb::decode_airborne_position(&f); let _ = adsb::decode_airborne_velocity(&f); });
            adsb::parse_frame(&s).map(|f| { let _ = (f.downlink_format(), f.icao24(), f.me(), f.type_code()); let _ = adsb::decode_identification(&f); let _ = adsb::decode_airborne_position(&f); let _ = adsb::decode_airborne_velocity(&f); }).is_ok()
        }),
        f("tle", || t(&[&format!("{L1}\n{L2}"), &format!("ISS\n{L1}\n{L2}")]), |b| {
            let s = st(b);
            let mut l = s.split('\n');
            let (a, c, d) = (l.next().unwrap_or(""), l.next().unwrap_or(""), l.next());
            for x in [a, c] { let _ = tle::validate_tle_checksum(x); let _ = tle::compute_tle_checksum(x); }
            // give the field readers a consistent checksum to look past
            let fix = |x: &str| -> String { let y: String = x.chars().take(68).collect(); let c = vh::tle::checksum(&y); format!("{y}{c}") };
            let ok = [(a.to_string(), c.to_string()), (fix(a), fix(c))].iter().any(|(a, c)| match tle::parse_tle(a, c) {
                Ok(t) => { if let Ok(p) = siderust::astro::sgp4::TlePropagator::from_tle(&t) { for m in [0.0, 1e3, -1e5, 1e9] { let _ = p.propagate_minutes(siderust::qtty::Minutes::new(m)); } } let o = omm::Omm::from_tle(&t); let _ = (omm::kvn::write(&o), omm::xml::write(&o), omm::json::write(&o)); true }
                Err(_) => false });
            if let Some(d) = d { let _ = tle::parse_3le(a, c, d); }
            ok
        }),
        f("omm-kvn", || vec![omm::kvn::write(&omm_of()).unwrap().into_bytes()], |b| omm::kvn::read(&st(b)).map(|o| { let _ = o.to_tle(); let _ = omm::kvn::write(&o); }).is_ok()),
        f("omm-xml", || vec![omm::xml::write(&omm_of()).unwrap().into_bytes()], |b| omm::xml::read(&st(b)).map(|o| { let _ = o.to_tle(); let _ = omm::xml::write(&o); }).is_ok()),
        f("omm-json", || vec![omm::json::write(&omm_of()).unwrap().into_bytes(), omm::json::write_many(&[omm_of(), omm_of()]).unwrap().into_bytes()], |b| { let s = st(b); omm::json::read(&s).map(|o| { let _ = o.to_tle(); let _ = omm::json::write(&o); }).is_ok() | omm::json::read_many(&s).is_ok() }),
        f("spice-text", || t(&[KERNEL, KERNEL2]), |b| {
            let s = st(b);
            let ok = TextKernel::parse(&s).map(|k| { for key in k.data.keys() { let _ = (k.get_f64_array(key), k.get_i64_array(key)); } }).is_ok();
            if let Ok(l) = LeapSecondKernel::from_text(&s) { for e in ETS { let _ = (l.tai_minus_utc_at(e), l.tdb_minus_utc_at(e)); } }
            if let Ok(p) = PckKernel::from_text(&s) { for e in ETS { let _ = p.body(399).map(|b| b.rotation_to_j2000(e)); } }
            let _ = FrameKernel::from_text(&s).map(|k| { let _ = (k.frame_by_id(1400001).is_some(), k.frame_by_name("TEST").is_some()); });
            let _ = IkKernel::from_text(&s).map(|k| k.instrument(-82001).is_some());
            if let Ok(v) = SclkKernel::from_text(&s) { for k in v { for e in ETS { let _ = (k.et_to_sclkdp(e), k.sclkdp_to_et(e)); } } }
            ok
        }),
        Fmt { binary: true, cost: 4, ..f("spice-context", || { let mut v = t(&[KERNEL, KERNEL2]); v.extend(spk_seed()); v.extend(ck_seed()); v }, |b| {
            let mut c = SpiceContext::new();
            let ok = c.load_bytes("fuzz", b.to_vec()).is_ok();
            let _ = c.load_bytes("base", KERNEL.as_bytes().to_vec());
            for e in ETS {
                for (a, z) in [(399, 3), (301, 399), (10, 301), (399, 399), (-5, 77)] { let _ = c.state_naif(a, z, e); }
                for (a, z) in [(1, 1400001), (1400002, 13000), (13000, 1), (17, 1), (-82000, 1), (5, 6)] { let _ = c.rotation_naif(a, z, e); }
                let _ = (c.tai_minus_utc(e), c.tdb_minus_utc(e));
            }
            ok
        }) },
        Fmt { binary: true, cost: 4, ..f("spk", spk_seed, |b| {
            let _ = daf::Daf::parse(b);
            let _ = spk::parse_bsp(b);
            let _ = spk::parse_indexed_segments(b);
            SpkKernel::from_bytes(b.to_vec()).map(|k| for e in ETS { for (a, z) in [(399, 3), (301, 399), (10, 301), (3, 0), (7, 8)] { let _ = k.state(a, z, e); } }).is_ok()
        }) },
        Fmt { binary: true, cost: 2, ..f("ck", ck_seed, |b| CkKernel::from_bytes(b.to_vec()).map(|k| for e in ETS { let _ = k.rotation(-82000, e); }).is_ok()) },
        f("catalog-csv", || t(&["id,name,ra,dec,pmra,pmdec,parallax,rv,mag,epoch\n1,Vega,279.23,38.78,200.9,286.2,130.2,-20.6,0.03,2000.0\n# c\n2,Sirius,101.28,-16.71,,,,,-1.46,\n"]), |b| parse_csv_chunk(&st(b)).is_ok()),
    ]
}

// ── Mutation ─────────────────────────────────────────────────────────────
const TOKENS: [&str; 44] = ["", "NaN", "inf", "-inf", "1e400", "-1e400", "1e308", "1e-400", "0", "-0", "-1", "1", "59", "60", "61", "99", "100", "365", "366", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999999", "0.000000000000000000001", "1D5", "1.0D+400", "é", "卫星", "🛰", "\u{0}", "\u{feff}", "(", "'", "&", "<", "=", "\\begindata", "----------------------------------------"];
fn tokens(s: &[u8]) -> Vec<(usize, usize)> {
    let sep = |c: u8| b" \t\r\n,=()<>\"':;".contains(&c);
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() { if sep(s[i]) { i += 1; continue } let j = i; while i < s.len() && !sep(s[i]) { i += 1 } v.push((j, i)); }
    v
}
fn splice(b: &mut Vec<u8>, a: usize, z: usize, with: &[u8]) { b.splice(a..z, with.iter().copied()); }
fn lines(b: &[u8]) -> Vec<(usize, usize)> { let mut v = vec![]; let mut s = 0; for (i, c) in b.iter().enumerate() { if *c == b'\n' { v.push((s, i + 1)); s = i + 1 } } if s < b.len() { v.push((s, b.len())) } v }
fn mutate(g: &mut Rng, seeds: &[Vec<u8>], binary: bool) -> Vec<u8> {
    if g.p(0.01) { return (0..g.n(600)).map(|_| g.u64() as u8).collect() }
    let mut b = g.pick(seeds).clone();
    for _ in 0..1 + if g.p(0.4) { g.n(6) } else { 0 } {
        if b.is_empty() { b.push(g.u64() as u8) }
        let n = b.len();
        if binary && g.p(0.75) && n > 16 {
            // most structure lies at the ends and on 4- or 8-byte boundaries
            let at = |g: &mut Rng, w: usize| { let m = n / w; w * if g.p(0.3) { g.n(m.min(140)) } else if g.p(0.5) { m - 1 - g.n(m.min(40)) } else { g.n(m) } };
            match g.n(8) {
                0 => { let i = g.n(n); b[i] = g.u64() as u8 }
                1 => { let i = at(g, 4); if i + 4 <= n { let v = *g.pick(&[0u32, 1, 2, 3, 128, 256, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x00010000, 0xfffffffe]); let v = if g.p(0.5) { v.to_le_bytes() } else { v.to_be_bytes() }; b[i..i + 4].copy_from_slice(&v) } }
                2 => { let i = at(g, 4); if i + 4 <= n { let d = g.int(-3, 3) as i32; let v = i32::from_le_bytes(b[i..i + 4].try_into().unwrap()).wrapping_add(d); b[i..i + 4].copy_from_slice(&v.to_le_bytes()) } }
                3 | 4 => { let i = at(g, 8); if i + 8 <= n { let v = *g.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 1e300, -1e300, 1e19, 1e-300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 4294967296.0, 9e15, 0.5, 128.0, 1e5]); let v = if g.p(0.7) { v.to_le_bytes() } else { v.to_be_bytes() }; b[i..i + 8].copy_from_slice(&v) } }
                5 => { let i = at(g, 8); if i + 8 <= n { let v = f64::from_le_bytes(b[i..i + 8].try_into().unwrap()); let v = match g.n(4) { 0 => v + 1.0, 1 => v - 1.0, 2 => -v, _ => v * 1e6 }; b[i..i + 8].copy_from_slice(&v.to_le_bytes()) } }
                6 => { let k = if g.p(0.5) { g.n(n) } else { n - 1 - g.n(n.min(64)) }; b.truncate(k) }
                _ => { let i = at(g, 8); let j = at(g, 8); if i + 8 <= n && j + 8 <= n { let v: [u8; 8] = b[i..i + 8].try_into().unwrap(); b[j..j + 8].copy_from_slice(&v) } }
            }
            continue;
        }
        let ls = lines(&b);
        let tk = tokens(&b);
        match g.n(16) {
            0 => { let i = g.n(n); b[i] = if g.p(0.5) { *g.pick(b" 0129.-+eEdD\n\r\t()'\"<>&=,:#*%/\\@") } else { g.u64() as u8 } }
            1 => { let i = g.n(n); b.remove(i); }
            2 => { let i = g.n(n + 1); splice(&mut b, i, i, g.pick(&TOKENS).as_bytes()) }
            3 | 4 | 5 if !tk.is_empty() => { let (a, z) = *g.pick(&tk); splice(&mut b, a, z, g.pick(&TOKENS).as_bytes()) }
            6 if !tk.is_empty() => { let (a, z) = *g.pick(&tk); let v = format!("{}", match g.n(3) { 0 => g.int(-1000, 1000), 1 => g.u64() as i64, _ => g.int(-5, 70) }); splice(&mut b, a, z, v.as_bytes()) }
            7 if tk.len() > 1 => { let (a, z) = *g.pick(&tk); let (c, d) = *g.pick(&tk); let v = b[c..d].to_vec(); splice(&mut b, a, z, &v) }
            8 => { let k = g.n(n); b.truncate(k) }
            9 if !ls.is_empty() => { let (a, z) = *g.pick(&ls); splice(&mut b, a, z, b"") }
            10 if !ls.is_empty() => { let (a, z) = *g.pick(&ls); let v = b[a..z].repeat(1 + g.n(3)); let (c, _) = *g.pick(&ls); splice(&mut b, c, c, &v) }
            11 if ls.len() > 1 => { let (a, z) = *g.pick(&ls); let v = b[a..z].to_vec(); splice(&mut b, a, z, b""); let m = lines(&b); if !m.is_empty() { let (c, _) = *g.pick(&m); splice(&mut b, c, c, &v) } }
            12 if !ls.is_empty() => { let (a, z) = *g.pick(&ls); let k = a + g.n(z - a); splice(&mut b, k, z, b"\n") }
            13 if g.p(0.05) => { let i = g.n(n + 1); let k = 1 << g.n(17); let v = match g.n(5) { 0 => "(".repeat(k), 1 => "9".repeat(k), 2 => "<a>".repeat(k), 3 => "[".repeat(k), _ => " ".repeat(k) }; splice(&mut b, i, i, v.as_bytes()) }
            14 if g.p(0.1) => { let i = g.n(n); let k = (n - i).min(1 + g.n(200)); let v = b[i..i + k].repeat(1 + g.n(60)); splice(&mut b, i, i, &v) }
            15 if !ls.is_empty() => { // shift one column
                let (a, z) = *g.pick(&ls); let k = a + g.n(z - a); if g.p(0.5) { b.insert(k, b' ') } else { b.remove(k); } }
            _ => { let i = g.n(n); let j = i + g.n((n - i).min(40)); splice(&mut b, i, j, b"") }
        }
        if b.len() > 400_000 { b.truncate(400_000) }
    }
    b
}

// ── Worker ───────────────────────────────────────────────────────────────
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let f = |i: usize| r.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (f(11) + f(12)) / 100.0
}
fn input(f: &Fmt, seeds: &[Vec<u8>], seed: u64, i: usize) -> Vec<u8> {
    let h = f.name.bytes().fold(seed ^ 0x9e37_79b9_7f4a_7c15, |a, c| a.wrapping_mul(0x100_0000_01b3) ^ c as u64);
    let mut g = Rng::new(h.wrapping_add((i as u64).wrapping_mul(0x2545_f491_4f6c_dd1d)));
    if i < seeds.len() { seeds[i].clone() } else { mutate(&mut g, seeds, f.binary) }
}
static TICK: AtomicU64 = AtomicU64::new(0);
fn worker(a: &[String]) -> ! {
    let f = formats().into_iter().find(|f| f.name == a[0]).unwrap();
    let (seed, from, to): (u64, usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let cur = PathBuf::from(&a[4]);
    let seeds = (f.seeds)();
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::spawn(|| {
        let (mut tick, mut at) = (0, cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let n = TICK.load(SeqCst);
            if n != tick { (tick, at) = (n, cpu()) } else if cpu() - at > CPU_LIMIT { std::process::exit(77) }
        }
    });
    CAP.store(LIVE.load(SeqCst) + MEM, SeqCst);
    let (mut acc, mut hashes) = (0u64, std::collections::HashSet::new());
    let (mut panics, mut slow, mut peak) = (0, 0.0f64, 0usize);
    let out = std::io::stdout();
    for i in from..to {
        let b = input(&f, &seeds, seed, i);
        hashes.insert({ use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); b.hash(&mut h); h.finish() });
        std::fs::write(&cur, i.to_string()).unwrap();
        TICK.fetch_add(1, SeqCst);
        PEAK.store(LIVE.load(Relaxed), Relaxed);
        let live = LIVE.load(Relaxed);
        let t0 = std::time::Instant::now();
        let r = std::panic::catch_unwind(|| (f.exec)(&b));
        slow = slow.max(t0.elapsed().as_secs_f64());
        peak = peak.max(PEAK.load(Relaxed) - live);
        match r {
            Ok(true) => acc += 1,
            Ok(false) => {}
            Err(e) => {
                panics += 1;
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if panics <= 20 { let _ = writeln!(out.lock(), "PANIC {i} {}", m.replace('\n', " ")); }
            }
        }
    }
    std::fs::write(cur.with_extension("seen"), hashes.iter().flat_map(|h: &u64| h.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
    let _ = writeln!(out.lock(), "DONE {acc} {panics} {slow} {peak}");
    std::process::exit(0)
}

fn show(b: &[u8]) -> String { let s: String = b.iter().take(3000).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect(); format!("{} bytes: {s}", b.len()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--worker") { worker(&args[2..]) }
    let mut run = Run::new("C18", "the reader processes are watched from outside: panic, abnormal exit, 20 s of CPU on one input, or 1 GB of memory");
    run.assume("inputs up to 400 kB, mutated from valid documents; builds with overflow checks");
    let per = run.size(24_000, 500_000);
    let shards = 4;
    let fs = formats();
    let dir = std::env::temp_dir().join(format!("vh-c18-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let seed: u64 = run.rng("seed").u64() >> 1;
    let job = |k: usize| {
        let (f, sh) = (&fs[k / shards], k % shards);
        let n = per / f.cost / shards;
        let (mut from, to) = (sh * n, (sh + 1) * n);
        let seeds = (f.seeds)();
        let cur: &Path = &dir.join(format!("{}-{sh}", f.name));
        let mut restarts = 0;
        while from < to && restarts < 6 {
            let o = Command::new(&exe).args(["--worker", f.name, &seed.to_string(), &from.to_string(), &to.to_string(), cur.to_str().unwrap()]).stdin(Stdio::null()).output().unwrap();
            let so = String::from_utf8_lossy(&o.stdout).to_string();
            for l in so.lines().filter(|l| l.starts_with("PANIC ")) {
                let mut w = l.splitn(3, ' ').skip(1);
                let i: usize = w.next().unwrap().parse().unwrap();
                run.violation(&format!("panic/{}", f.name), &format!("{} on input {i}: {}", w.next().unwrap_or(""), show(&input(f, &seeds, seed, i))));
            }
            if let Some(d) = so.lines().find(|l| l.starts_with("DONE ")) {
                let v: Vec<f64> = d.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                run.count(&format!("{}/accepted", f.name), v[0] as u64);
                run.count(&format!("{}/inputs", f.name), (to - from) as u64);
                let seen = std::fs::read(cur.with_extension("seen")).unwrap();
                run.eval_many(f.name, (to - from) as u64, seen.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                let _ = std::fs::remove_file(cur.with_extension("seen"));
                run.within(&format!("seconds/{}", f.name), v[2], CPU_LIMIT * 4.0, String::new);
                run.within(&format!("bytes/{}", f.name), v[3], MEM as f64, String::new);
                break;
            }
            let at: usize = std::fs::read_to_string(cur).ok().and_then(|s| s.parse().ok()).unwrap_or(from);
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let kind = if o.status.code() == Some(77) { "hang" } else if err.contains("memory allocation of") { "memory" } else { "crash" };
            run.violation(&format!("{kind}/{}", f.name), &format!("{:?} {} on input {at}: {}", o.status, err.chars().take(200).collect::<String>(), show(&input(f, &seeds, seed, at))));
            from = at + 1;
            restarts += 1;
        }
    };
    run.par("workers", fs.len() * shards, job);
    for f in &fs {
        let (a, n) = (run.counter(&format!("{}/accepted", f.name)), run.counter(&format!("{}/inputs", f.name)));
        run.check(a > 0 && a < n, &format!("vacuous/{}", f.name), || format!("{a} of {n} inputs accepted"));
    }
    let _ = std::fs::remove_dir_all(&dir);
    run.finish();
}
