//! C31: faults of the medium reach the caller. Every reader and writer runs over streams that fail, stall, cut
//! transfers short or are interrupted at chosen bytes; monitors on the stream record what was delivered.
use siderust::ephemeris::RuntimeEphemeris;
use siderust::formats::ccsds::{oem, opm, tdm};
use siderust::formats::iers::eop;
use siderust::formats::igs::{antex, orbex, sinex, sp3};
use siderust::formats::ilrs::{cpf, crd};
use siderust::formats::rinex::{doris, nav, obs};
use siderust::formats::spice::{ck::CkKernel, kernel::SpkKernel};
use siderust::formats::vlbi::vgosdb;
use siderust::formats::ParseMode;
use siderust::pod::product::orbit as po;
use siderust::pod::run::dataset::DatasetRef;
use siderust::spice::SpiceContext;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Write};
use std::path::Path;
use vh::seeds::*;
use vh::{guard, Rng, Run};

const MARK: &str = "injected fault 5f3a";
const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied];

/// What a stream does besides carrying bytes.
#[derive(Clone, Copy, Debug)]
struct Plan { fail_at: Option<usize>, kind: ErrorKind, chunk: usize, interrupt: u64, zero: bool }
const SOUND: Plan = Plan { fail_at: None, kind: ErrorKind::Other, chunk: 0, interrupt: 0, zero: false };

struct Source<'a> { data: &'a [u8], pos: usize, plan: Plan, g: Rng, interrupted: bool, delivered: &'a mut bool, interrupts: &'a mut usize }
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.plan.interrupt > 0 && !self.interrupted && self.g.u64() % self.plan.interrupt == 0 { self.interrupted = true; *self.interrupts += 1; return Err(ErrorKind::Interrupted.into()) }
        self.interrupted = false;
        let mut n = b.len().min(self.data.len() - self.pos);
        if self.plan.chunk > 0 { n = n.min(1 + self.g.n(self.plan.chunk)) }
        if let Some(k) = self.plan.fail_at { if self.pos >= k { *self.delivered = true; return Err(Error::new(self.plan.kind, MARK)) } n = n.min(k - self.pos) }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Sink { got: Vec<u8>, plan: Plan, g: Rng, interrupted: bool, interrupts: usize, refused: bool }
impl Sink { fn new(plan: Plan, seed: u64) -> Self { Sink { got: vec![], plan, g: Rng::new(seed), interrupted: false, interrupts: 0, refused: false } } }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.plan.interrupt > 0 && !self.interrupted && self.g.u64() % self.plan.interrupt == 0 { self.interrupted = true; self.interrupts += 1; return Err(ErrorKind::Interrupted.into()) }
        self.interrupted = false;
        let mut n = b.len();
        if self.plan.chunk > 0 { n = n.min(1 + self.g.n(self.plan.chunk)) }
        if let Some(k) = self.plan.fail_at { if self.got.len() >= k { self.refused = true; return if self.plan.zero { Ok(0) } else { Err(Error::new(self.plan.kind, MARK)) } } n = n.min(k - self.got.len()) }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { if self.refused { Err(Error::new(self.plan.kind, MARK)) } else { Ok(()) } }
}

type ReadFn = fn(&mut dyn Read) -> Result<String, String>;
struct Reader { name: &'static str, docs: Vec<Vec<u8>>, read: ReadFn }
fn s<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> Result<String, String> { r.map(|x| format!("{x:?}")).map_err(|e| e.to_string()) }
fn show_obs(r: obs::RinexObs) -> String {
    let types: BTreeMap<_, _> = r.obs_types.iter().collect();
    let ep: Vec<String> = r.epochs.iter().map(|e| { let m: BTreeMap<_, BTreeMap<_, _>> = e.satellites.iter().map(|(k, v)| (k, v.iter().collect())).collect(); format!("{:?} {m:?}", e.time) }).collect();
    format!("{types:?} {:?} {:?} {:?} {ep:?}", r.marker, r.interval_s, r.approx_xyz_m)
}
fn grow(doc: &str, at: &str, n: usize, line: impl Fn(usize) -> String) -> Vec<u8> {
    let i = doc.find(at).unwrap_or(doc.len());
    let mut o = doc[..i].to_string();
    for k in 0..n { o += &line(k) }
    o += &doc[i..];
    o.into_bytes()
}
fn readers() -> Vec<Reader> {
    let b = |x: &str| x.as_bytes().to_vec();
    let hms = |k: usize| format!("{:02}:{:02}:{:02}", k / 3600, k / 60 % 60, k % 60);
    let (antex0, obs0, doris0) = (antex_seed().remove(0), obs_seed().remove(0), doris_seed().remove(0));
    let st = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
    let oem_big = grow(OEM, "\u{0}", 400, |k| format!("2020-01-02T{}.000 7000.{k} 0 0 0 7.5 0\n", hms(k)));
    let oem_xml = { let r = oem::read_oem(&oem_big[..]).expect("big oem"); let mut o = vec![]; oem::write_oem_xml(&mut o, &r.segments[0].metadata, &r.segments[0].states).unwrap(); o };
    vec![
        Reader { name: "oem-kvn", docs: vec![b(OEM), oem_big], read: |r| s(oem::read_oem(r)) },
        Reader { name: "oem-xml", docs: vec![oem_xml], read: |r| s(oem::read_oem_xml(r)) },
        Reader { name: "opm", docs: vec![b(OPM), grow(OPM, "X = ", 300, |k| format!("COMMENT line {k} of the preamble to this message\n"))], read: |r| s(opm::read_opm(r)) },
        Reader { name: "tdm", docs: vec![b(TDM), grow(TDM, "DATA_STOP", 400, |k| format!("RANGE = 2020-01-02T{}.000 : {k}.5\n", hms(k)))], read: |r| s(tdm::read_tdm(r)) },
        Reader { name: "sp3", docs: vec![b(SP3), grow(SP3, "EOF", 200, |k| format!("*  2019  1  2  0 {:2} {:11.8}\nPG01  13343.125934  -1432.451212  22345.123456     12.345678\n", k / 60, (k % 60) as f64))], read: |r| s(sp3::read_sp3(r)) },
        Reader { name: "sp3-stream", docs: vec![b(SP3), grow(SP3, "EOF", 200, |k| format!("*  2019  1  2  0 {:2} {:11.8}\nPG01  13343.125934  -1432.451212  22345.123456     12.345678\n", k / 60, (k % 60) as f64))], read: |r| {
            let mut st = sp3::Sp3Stream::new(r).map_err(|e| e.to_string())?;
            let mut o = format!("{:?}", st.header());
            while let Some(e) = st.next_epoch().map_err(|e| e.to_string())? { o += &format!("{e:?}") }
            Ok(o)
        } },
        Reader { name: "antex", docs: vec![antex0.clone(), antex0.repeat(6)], read: |r| antex::read_antex(r).map(|c| format!("{:?}", c.iter().map(|(k, v)| (k, v.iter().collect::<BTreeMap<_, _>>())).collect::<BTreeMap<_, _>>())).map_err(|e| e.to_string()) },
        Reader { name: "orbex", docs: vec![b(ORBEX), grow(ORBEX, "#CLK", 300, |k| format!("## 2020 001 {}.0\n G{:02} 1.0 2.0 {k}.0 0.1 0.2 0.3\n", k + 1, k % 32 + 1))], read: |r| s(orbex::read_orbex(r, ParseMode::Strict)) },
        Reader { name: "sinex", docs: vec![b(SINEX), grow(SINEX, "-SOLUTION/ESTIMATE", 150, |k| format!("{:6} STAZ   ABMF  A    1 20:001:43200 m    2  1.7746048{k:08}e+06 4.7e-04\n", k + 3))], read: |r| s(sinex::read_sinex(r, ParseMode::Strict)) },
        Reader { name: "vgosdb", docs: vec![b(VGOS), grow(VGOS, "stations", 300, |k| format!("# remark {k} about the session and its stations\n"))], read: |r| s(vgosdb::read_vgosdb_sidecar(r)) },
        Reader { name: "rinex-obs", docs: vec![obs0.clone(), grow(&st(&obs0), "\u{0}", 150, |k| format!("> 2020 01 01 00 {:02} {:10.7}  0  1\nG01  22345678.901 7 117345678.90107        45.000\n", 1 + k / 60, (k % 60) as f64))], read: |r| obs::read_rinex_obs(r).map(show_obs).map_err(|e| e.to_string()) },
        Reader { name: "rinex-doris", docs: vec![doris0.clone(), grow(&st(&doris0), "\u{0}", 150, |k| format!("> 2020 01 01 00 {:02} {:012.9}  0  1        0.123456789 0\nD01   1234567.891 1   2345678.912 1   3456789.123 1   4567891.234 1        12.345\n", 1 + k / 60, (k % 60) as f64))], read: |r| s(doris::read_rinex_doris(r)) },
        Reader { name: "eop-c04", docs: vec![b(EOP), grow(EOP, "\u{0}", 100, |k| format!("2020   2   1  {}   0.075609   0.283353  0.8224445   0.0003411   0.000112  -0.000049   0.000029   0.000026  0.0000037 0.0000046   0.000035   0.000039\n", 58880 + k))], read: |r| s(eop::read_eop_c04(r)) },
    ]
}
/// A document parsed from the path readers' text twin.
type Text = fn(&str) -> Result<String, String>;
type FromPath = fn(&Path) -> Result<String, String>;
fn path_readers() -> Vec<(&'static str, Vec<Vec<u8>>, FromPath, Option<Text>)> {
    let crd2 = grow(CRD, "H8", 200, |k| format!("11 {}.123456 0.0456789{k:05} std 2 120.0 50 40.0 0.1 -0.2 1.5 1\n", 43_400 + k)).to_vec();
    vec![
        ("cpf", vec![CPF.into(), grow(CPF, "99\n", 200, |k| format!("10 0 60311 {:13.6}  0  5000123.456 -7000123.456  8000123.456\n", k as f64 * 300.0))], |p| s(cpf::read_cpf(p)), Some(|t| s(cpf::parse_cpf(t)))),
        ("crd", vec![CRD.into(), crd2], |p| s(crd::read_crd(p)), Some(|t| s(crd::parse_crd(t)))),
        ("rinex-nav", nav_seed(), |p| s(nav::read_rinex_nav(p)), Some(|t| s(nav::parse_rinex_nav(t)))),
        ("spk", spk_seed(), |p| SpkKernel::open(p).map(|k| probe(&k)).map_err(|e| e.to_string()), None),
        ("ck", ck_seed(), |p| CkKernel::open(p).map(|k| probe_ck(&k)).map_err(|e| e.to_string()), None),
        ("runtime-ephemeris", spk_seed().into_iter().take(3).collect(), |p| RuntimeEphemeris::from_bsp(p).map(|_| String::new()).map_err(|e| e.to_string()), None),
        ("spice-context", vec![KERNEL2.into()], |p| SpiceContext::new().load(p).map(|_| String::new()).map_err(|e| e.to_string()), None),
        ("dataset-ref", vec![b"some bytes".to_vec()], |p| s(DatasetRef::from_file(p, "x")), None),
    ]
}
const ETS: [f64; 6] = [0.0, -9e5, 9e5, 12345.678, 1.9e6, 5e5];
fn probe(k: &SpkKernel) -> String { let mut o = String::new(); for e in ETS { for (a, c) in [(399, 3), (301, 3), (9, 10), (13, 3), (301, 399)] { o += &format!("{:?};", k.state(a, c, e).ok()) } } o }
fn probe_ck(k: &CkKernel) -> String { ETS.iter().map(|e| format!("{:?};", k.rotation(-82000, e.abs() / 400.0).ok().map(|m| format!("{m:?}")))).collect() }

type WriteFn = Box<dyn Fn(&mut dyn Write) -> Result<(), String> + Sync>;
fn writers(g: &mut Rng) -> Vec<(&'static str, WriteFn)> {
    let mut v: Vec<(&'static str, WriteFn)> = vec![];
    fn w<T: Send + Sync + 'static, E: std::fmt::Display + 'static>(x: T, f: fn(&mut &mut dyn Write, &T) -> Result<(), E>) -> WriteFn { Box::new(move |mut o: &mut dyn Write| f(&mut o, &x).map_err(|e| e.to_string())) }
    let rd = readers();
    // a short document and, now and then, the long one
    let doc = |n: &str, g: &mut Rng| { let d = &rd.iter().find(|r| r.name == n).unwrap().docs; d[if d.len() > 1 && g.p(0.1) { 1 } else { 0 }].clone() };
    v.push(("oem-kvn", w(oem::read_oem(&doc("oem-kvn", g)[..]).unwrap(), |o, r| oem::write_oem(o, &r.segments[0].metadata, &r.segments[0].states))));
    v.push(("oem-xml", w(oem::read_oem(&doc("oem-kvn", g)[..]).unwrap(), |o, r| oem::write_oem_xml(o, &r.segments[0].metadata, &r.segments[0].states))));
    v.push(("opm", w(opm::read_opm(&doc("opm", g)[..]).unwrap(), |o, r| opm::write_opm(o, r))));
    v.push(("tdm", w(tdm::read_tdm(&doc("tdm", g)[..]).unwrap(), |o, r| tdm::write_tdm(o, r))));
    v.push(("sp3", w(sp3::read_sp3(&doc("sp3", g)[..]).unwrap(), |o, r| sp3::write_sp3(o, r))));
    v.push(("antex", w(antex::read_antex(&doc("antex", g)[..]).unwrap(), |o, r| antex::write_antex(o, r))));
    v.push(("rinex-obs", w(obs::read_rinex_obs(&doc("rinex-obs", g)[..]).unwrap(), |o, r| obs::write_rinex_obs(o, r))));
    v.push(("rinex-nav", w(nav::parse_rinex_nav(std::str::from_utf8(&nav_seed()[0]).unwrap()).unwrap(), |o, r| nav::write_rinex_nav(o, r))));
    v.push(("cpf", w(cpf::parse_cpf(CPF).unwrap(), |o, r| cpf::write_cpf(r, o))));
    v.push(("sp3-states", w(states(g), |o, r| po::write_sp3_from_states(o, "L01", &r.iter().map(|s| s.orbit).collect::<Vec<_>>()))));
    v.push(("oem-states", w(states(g), |o, r| po::write_oem_from_spacecraft_states(o, "1998-067A", "ISS", r))));
    v
}
fn states(g: &mut Rng) -> Vec<siderust::astro::dynamics::state::SpacecraftState> {
    use siderust::astro::dynamics::state::{OrbitState, Position, SpacecraftProperties, SpacecraftState, Velocity};
    use siderust::coordinates::frames::GCRS;
    let n = 1 + g.n(5);
    (0..n).map(|i| SpacecraftState { orbit: OrbitState::new(siderust::time::Time::<siderust::time::TT>::from_raw_j2000_seconds(siderust::qtty::Second::new(1e8 + 60.0 * i as f64).into()).unwrap(), Position::<GCRS>::new(g.range(-7e3, 7e3), g.range(-7e3, 7e3), 1.0), Velocity::<GCRS>::new(1.0, 7.0, 0.1)), properties: SpacecraftProperties::demo_leo() }).collect()
}

fn main() {
    let mut run = Run::new("C31", "the source or sink of each reader and writer fails with six kinds of error at chosen bytes, stops taking bytes, delivers in random pieces and interrupts calls; files are missing, directories, cut short, not text, or on a full device");
    run.assume("a sink that fails once keeps failing; nothing is asserted about using a reader again after it reported an error");
    let rds = readers();
    run.par("read", rds.len(), |i| {
        let r = &rds[i];
        for (k, d) in r.docs.iter().enumerate() {
            let mut g = run.rng_i("read", i * 8 + k);
            let full = match guard(|| (r.read)(&mut &d[..])) { Ok(Ok(x)) => x, e => { run.violation(&format!("read/{}", r.name), &format!("document {k} read whole: {e:?}")); continue } };
            run.eval("doc", &(r.name, k));
            let mut go = |plan: Plan, seed: u64| {
                let (mut del, mut int) = (false, 0);
                let res = guard(|| { let mut src = Source { data: d, pos: 0, plan, g: Rng::new(seed), interrupted: false, delivered: &mut del, interrupts: &mut int }; (r.read)(&mut src) });
                if int > 0 { run.count("interrupted calls", int as u64) }
                let w = |what: &str| format!("{} document {k} ({} bytes), {plan:?}: {what}", r.name, d.len());
                match res {
                    Err(p) => { run.violation(&format!("panic/{}", r.name), &w(&p)); }
                    Ok(Ok(x)) if del => { run.violation(&format!("swallowed/{}", r.name), &w(&format!("the failure was delivered to the reader, which returned {} bytes of result{}", x.len(), if x == full { " (the full one)" } else { " (a part)" }))); }
                    Ok(Ok(x)) => { run.check(x == full, &format!("fragmented/{}", r.name), || w(&format!("result differs from the one of the whole document: {} vs {}", &x[..x.len().min(300)], &full[..full.len().min(300)]))); run.eval("fragmented", &(i, k, seed)); }
                    Ok(Err(e)) if del => { run.check(e.contains(MARK), &format!("disguised/{}", r.name), || w(&format!("reported as {e:?}"))); run.eval("fault-read", &(i, k, plan.fail_at)); }
                    Ok(Err(e)) => { run.violation(&format!("fragmented/{}", r.name), &w(&e)); }
                }
            };
            let step = if d.len() < 3000 || run.thorough() { 1 } else { d.len() / 1500 + 1 };
            for at in (0..=d.len()).step_by(step) {
                let chunk = match g.n(3) { 0 => 0, 1 => 1 + g.n(7), _ => 1 + g.n(600) };
                go(Plan { fail_at: Some(at), kind: *g.pick(&KINDS), chunk, interrupt: if g.p(0.3) { 2 + g.n(5) as u64 } else { 0 }, zero: false }, g.u64());
            }
            for _ in 0..run.size(150, 3_000) {
                let chunk = *g.pick(&[1, 2, 3, 16, 79, 80, 81, 500, 8191]);
                go(Plan { chunk, interrupt: if g.p(0.7) { 2 + g.n(6) as u64 } else { 0 }, ..SOUND }, g.u64());
            }
        }
    });
    run.par("write", run.size(64, 800), |i| {
        let mut g = run.rng_i("write", i);
        for (name, wr) in writers(&mut g) {
            let mut whole = Sink::new(SOUND, 0);
            match guard(|| wr(&mut whole)) { Ok(Ok(())) => {} e => { run.violation(&format!("write/{name}"), &format!("{e:?}")); continue } }
            let full = whole.got;
            run.eval("doc", &(name, full.len()));
            let go = |plan: Plan, seed: u64| {
                let mut o = Sink::new(plan, seed);
                let res = guard(|| wr(&mut o));
                if o.interrupts > 0 { run.count("interrupted calls", o.interrupts as u64) }
                let w = |what: &str| format!("{name} ({} bytes), {plan:?}: {what}", full.len());
                run.check(full.starts_with(&o.got), &format!("garbled/{name}"), || w(&format!("the {} bytes taken are no beginning of the document", o.got.len())));
                match res {
                    Err(p) => { run.violation(&format!("panic/{name}"), &w(&p)); }
                    Ok(Ok(())) => { run.check(o.got == full, &format!("lost/{name}"), || w(&format!("reported success with {} bytes written", o.got.len()))); run.eval("fragmented-write", &(name, seed)); }
                    Ok(Err(e)) => {
                        run.check(o.refused, &format!("spurious/{name}"), || w(&e));
                        if !plan.zero { run.check(e.contains(MARK), &format!("disguised/{name}"), || w(&format!("reported as {e:?}"))); }
                        run.eval(if plan.zero { "zero-write" } else { "fault-write" }, &(name, plan.fail_at, seed));
                    }
                }
            };
            let step = full.len() / 150 + 1;
            for at in (g.n(step)..full.len()).step_by(step) {
                let zero = g.p(0.2);
                go(Plan { fail_at: Some(at), kind: *g.pick(&KINDS), chunk: if g.p(0.5) { 1 + g.n(90) } else { 0 }, interrupt: if g.p(0.3) { 3 } else { 0 }, zero }, g.u64());
            }
            // the last byte of all
            go(Plan { fail_at: Some(full.len() - 1), ..SOUND }, g.u64());
            for _ in 0..3 { go(Plan { chunk: 1 + g.n(100), interrupt: 2 + g.n(5) as u64, ..SOUND }, g.u64()) }
        }
    });
    // ── files ──
    let dir = std::env::temp_dir().join(format!("c31-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let prs = path_readers();
    run.par("path", prs.len(), |i| {
        let (name, docs, open, text) = &prs[i];
        let mut g = run.rng_i("path", i);
        let at = |p: &Path| guard(|| open(p));
        for (what, p) in [("missing", dir.join("no-such-file")), ("directory", dir.clone()), ("below a file", dir.join("no-such-file/x"))] {
            let r = at(&p);
            run.check(matches!(r, Ok(Err(_))), &format!("path-{what}/{name}"), || format!("{r:?}"));
            run.eval("bad-path", &(name, what));
        }
        for (k, d) in docs.iter().enumerate() {
            let p = dir.join(format!("{i}-{k}"));
            std::fs::write(&p, d).expect("scratch");
            let full = match at(&p) { Ok(Ok(x)) => x, e => { run.violation(&format!("path/{name}"), &format!("document {k}: {e:?}")); continue } };
            run.eval("path", &(name, k));
            if let Some(t) = text {
                let twin = guard(|| t(std::str::from_utf8(d).unwrap()));
                run.check(matches!(&twin, Ok(Ok(x)) if *x == full), &format!("path-differs/{name}"), || format!("document {k}: from a file {full:.300} from text {twin:?}"));
                // not text at all
                let mut bad = d.clone();
                let n = g.n(bad.len());
                bad[n] = 0xff;
                std::fs::write(&p, &bad).expect("scratch");
                let r = at(&p);
                run.check(matches!(r, Ok(Err(_))), &format!("not-text/{name}"), || format!("byte {n} of document {k} is ff: {r:?}"));
                run.eval("not-text", &(name, k));
            }
            if matches!(*name, "spk" | "ck") {
                // the rest of the file never arrived: an error now or at evaluation, or nothing needed was lost
                let parts = |x: &str| x.split(';').map(str::to_string).collect::<Vec<_>>();
                let want = parts(&full);
                for _ in 0..run.size(60, 1_500) {
                    let n = if g.p(0.3) { d.len() - 1 - g.n(1024.min(d.len() - 1)) } else { g.n(d.len()) };
                    let r = guard(|| if *name == "spk" { SpkKernel::from_bytes(d[..n].to_vec()).map(|k| probe(&k)).map_err(|e| e.to_string()) } else { CkKernel::from_bytes(d[..n].to_vec()).map(|k| probe_ck(&k)).map_err(|e| e.to_string()) });
                    match r {
                        Err(p) => { run.violation(&format!("panic/{name}"), &format!("first {n} of {} bytes: {p}", d.len())); }
                        Ok(Err(_)) => run.count("cut file refused", 1),
                        Ok(Ok(x)) => {
                            run.count("cut file read", 1);
                            for (a, b) in parts(&x).iter().zip(&want) { run.check(a == b || a == "None", &format!("cut/{name}"), || format!("first {n} of {} bytes of document {k}: {a} became {b}", d.len())); }
                        }
                    }
                    run.eval("cut", &(name, k, n));
                }
            }
        }
    });
    // a device with no room left
    let full = Path::new("/dev/full");
    if full.exists() {
        let mut g = run.rng("full");
        let f = nav::parse_rinex_nav(std::str::from_utf8(&nav_seed()[0]).unwrap()).unwrap();
        let st = states(&mut g);
        let one = |n: &str, r: Result<Result<(), String>, String>| { run.check(matches!(r, Ok(Err(_))), &format!("full-device/{n}"), || format!("{r:?}")); run.eval("full-device", &n); };
        one("rinex-nav", guard(|| nav::write_rinex_nav_to_path(full, &f).map_err(|e| e.to_string())));
        one("sp3", guard(|| po::Sp3ProductWriter::new("L01").write_from_states(full, &st).map_err(|e| e.to_string())));
        one("oem", guard(|| po::OemProductWriter::new("1998-067A", "ISS").write_from_states(full, &st).map_err(|e| e.to_string())));
        for p in [dir.join("none/out"), dir.clone()] { one("no-place", guard(|| nav::write_rinex_nav_to_path(&p, &f).map_err(|e| e.to_string()))); }
        // and one with room
        let p = dir.join("nav.rnx");
        let r = guard(|| nav::write_rinex_nav_to_path(&p, &f).map_err(|e| e.to_string()));
        let mut v = vec![];
        nav::write_rinex_nav(&mut v, &f).unwrap();
        run.check(matches!(r, Ok(Ok(()))) && std::fs::read(&p).unwrap_or_default() == v, "to-path", || format!("{r:?}"));
        run.require("full-device", 5);
    }
    let _ = std::fs::remove_dir_all(&dir);
    for (k, n) in [("fragmented", 1_000), ("fault-read", 5_000), ("fault-write", 5_000), ("zero-write", 500), ("fragmented-write", 500), ("bad-path", 20), ("path", 8), ("not-text", 4), ("cut", 300)] { run.require(k, n) }
    run.finish()
}
