//! C28: every answer depends on the arguments only: the same query asked in another order, by racing
//! threads, in fresh threads, through private objects or in a cold process gives the same bits.
use siderust::astro::earth_rotation as rot;
use siderust::astro::eop::{EopProvider, IersEop, NullEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::astro::sgp4::TlePropagator;
use siderust::atmosphere::ozone;
use siderust::bodies::{catalog as cat, solar_system as ss, Star};
use siderust::coordinates::cartesian::{Direction, Position};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::horizontal::ToHorizontal;
use siderust::coordinates::observation::{Astrometric, ObserverState};
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::TransformCenter;
use siderust::ephemeris::lagrange::{solver, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint as LP};
use siderust::ephemeris::{DynEphemeris, Ephemeris, RuntimeEphemeris, Vsop87Ephemeris};
use siderust::event::altitude as alt;
use siderust::event::azimuth as azi;
use siderust::event::horizontal as eh;
use siderust::event::lunar::phase as lph;
use siderust::event::lunar::photometry as lpm;
use siderust::formats::spice::{spk_kernel::SpkKernelSet, SpkKernel};
use siderust::formats::tle::{parse_tle, TLE};
use siderust::photometry::passbands::bessell1990;
use siderust::qtty::{AstronomicalUnit, Degrees, Meters, Minutes, Nanometers, Radians};
use siderust::spice::{KernelSet, SpiceContext};
use siderust::targets::Trackable;
use siderust::time::{Interval, JulianDate, ModifiedJulianDate};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use vh::daf::*;
use vh::tle::TleF;
use vh::{Rng, Run};

/// One query: what to ask, at which instant, for which site, and the seed of its other arguments.
#[derive(Clone, Copy)]
struct Q { kind: usize, jd: f64, lon: f64, lat: f64, seed: u64 }

/// Objects the queries go through: one set shared by every thread, or a private one per answer.
struct Objects { bytes: Vec<u8>, set: SpkKernelSet, kernel: SpkKernel, ks: KernelSet, ctx: SpiceContext, rt: RuntimeEphemeris, tles: Vec<TLE>, props: Vec<TlePropagator>, iers: IersEop, engine: AstroContext<DefaultEphemeris, IersEop> }
impl Objects {
    fn new(seed: u64) -> Objects {
        let mut g = Rng::new(seed ^ 0x0b1ec7);
        let (a, span) = (-9.0e8, 2.0e9);
        let mut segs = vec![];
        for (t, c, size) in [(10, 0, 1e6), (3, 0, 1.5e8), (301, 3, 3.8e5), (399, 3, 4.6e3), (4, 0, 2e8), (499, 4, 1.0), (5, 0, 7e8), (599, 5, 100.0)] { segs.push(cheb_seg(&mut g, t, c, a, span, size, if t % 2 == 0 { 3 } else { 6 })); }
        let bytes = Writer { big: false, per_record: 5, gap: 0, locator: b"DAF/SPK " }.spk(&segs);
        let mut set = SpkKernelSet::default();
        set.push_bytes(&bytes).unwrap();
        let kernel = SpkKernel::from_bytes(bytes.clone()).unwrap();
        let mut ks = KernelSet::new();
        ks.add_spk("k", SpkKernel::from_bytes(bytes.clone()).unwrap());
        let mut ctx = SpiceContext::new();
        ctx.load_bytes("a.bsp", bytes.clone()).unwrap();
        let rt = RuntimeEphemeris::from_bytes(&bytes).unwrap();
        let (mut tles, mut props) = (vec![], vec![]);
        while tles.len() < 12 {
            let mut f = TleF::random(&mut g);
            if f.yy < 72 && f.yy >= 57 { f.yy = 72 + f.yy % 28; }
            let (l1, l2) = f.lines();
            let t = parse_tle(&l1, &l2).unwrap();
            if let Ok(p) = TlePropagator::from_tle(&t) { tles.push(t); props.push(p); }
        }
        Objects { bytes, set, kernel, ks, ctx, rt, tles, props, iers: IersEop::new(), engine: AstroContext::with_types() }
    }
}

fn frame<N: NutationModel, E: EopProvider>(jd: f64, sel: usize, ctx: &AstroContext<DefaultEphemeris, E>) -> String {
    let (j, mut i, mut out) = (JulianDate::new(jd), 0usize, String::new());
    macro_rules! go { ($($a:ident => $b:ident,)*) => { $( if i == sel { out = format!("{}>{} {:?}", stringify!($a), stringify!($b), frame_rotation_as::<$a, $b, N, DefaultEphemeris, E>(j, ctx).as_matrix()); } i += 1; )* } }
    vh::for_all_frame_pairs!(go);
    if out.is_empty() && sel >= i { return frame::<N, E>(jd, sel % i, ctx); }
    out
}
const KINDS: [&str; 40] = ["frame-2000A", "frame-2000B", "frame-2006", "frame-2006A", "frame-no-eop", "nutation", "eop", "gmst", "planets", "earth-moon-sun", "earth-velocity", "lagrange", "lagrange-solver", "star-track", "body-track", "moon-altitude", "sun-altitude", "altitude-crossings", "altitude-periods", "culminations", "azimuth-crossings", "azimuth-extrema", "star-horizontal", "horizontal", "apparent", "center-shift", "topocentric", "moon-phase", "phase-events", "illumination", "moonlight", "spk-state", "spk-geometric", "spk-set", "spice-context", "runtime-ephemeris", "sgp4", "tle-text", "ozone-passbands", "proper-motion"];

fn answer(q: &Q, o: &Objects) -> String {
    let mut g = Rng::new(q.seed);
    let jd = q.jd;
    let j = JulianDate::new(jd);
    let m = ModifiedJulianDate::new(jd - 2_400_000.5);
    let site = Geodetic::<ECEF>::new(Degrees::new(q.lon), Degrees::new(q.lat), Meters::new(g.range(0.0, 3000.0)));
    let win = |d: f64| Interval::new(m, ModifiedJulianDate::new(jd - 2_400_000.5 + d));
    let opts = alt::SearchOpts::default();
    let et = (jd - 2_451_545.0) * 86400.0;
    let star = |g: &mut Rng| -> Star<'static> { [cat::VEGA, cat::SIRIUS, cat::POLARIS, cat::CANOPUS, cat::ARCTURUS][g.n(5)].clone() };
    let d3 = |g: &mut Rng| g.unit();
    match KINDS[q.kind] {
        "frame-2000A" => frame::<Iau2000A, IersEop>(jd, g.n(10_000), &o.engine),
        "frame-2000B" => frame::<Iau2000B, IersEop>(jd, g.n(10_000), &o.engine),
        "frame-2006" => frame::<Iau2006, IersEop>(jd, g.n(10_000), &o.engine),
        "frame-2006A" => frame::<Iau2006A, IersEop>(jd, g.n(10_000), &o.engine),
        "frame-no-eop" => frame::<Iau2006A, NullEop>(jd, g.n(10_000), &AstroContext::with_types()),
        "nutation" => { let n = match g.n(3) { 0 => Iau2000A::nutation(j), 1 => Iau2000B::nutation(j), _ => Iau2006A::nutation(j) }; format!("{:?} {:?} {:?}", n.dpsi, n.deps, n.mean_obliquity) }
        "eop" => { let v = o.iers.try_eop_at(j); v.map(|v| format!("{:?} {:?} {:?} {:?} {:?}", v.dut1, v.xp, v.yp, v.dx, v.dy)).unwrap_or_else(|e| format!("{e:?}")) }
        "gmst" => format!("{:?} {:?}", rot::try_gmst_with_eop(j).map_err(|e| format!("{e:?}")), rot::gmst_from_tt_eop(j, &o.iers.eop_at(j))),
        "planets" => match g.n(7) { 0 => format!("{:?}", ss::Mercury::vsop87a(j)), 1 => format!("{:?}", ss::Venus::vsop87a(j)), 2 => format!("{:?}", ss::Mars::vsop87e(j)), 3 => format!("{:?}", ss::Jupiter::vsop87e(j)), 4 => format!("{:?}", ss::Saturn::vsop87a(j)), 5 => format!("{:?}", ss::Uranus::vsop87e(j)), _ => format!("{:?}", ss::Neptune::vsop87a(j)) },
        "earth-moon-sun" => { type V = Vsop87Ephemeris; match g.n(4) { 0 => format!("{:?}", <V as Ephemeris>::sun_barycentric(j)), 1 => format!("{:?}", <V as Ephemeris>::earth_barycentric(j)), 2 => format!("{:?}", <V as Ephemeris>::earth_heliocentric(j)), _ => format!("{:?}", <V as Ephemeris>::moon_geocentric(j)) } }
        "earth-velocity" => format!("{:?}", <Vsop87Ephemeris as Ephemeris>::earth_barycentric_velocity(j)),
        "lagrange" => format!("{:?}", try_sun_earth_lagrange_barycentric(lp(&mut g), j).map_err(|e| format!("{e:?}"))),
        "lagrange-solver" => format!("{:?}", solver::solve_sun_earth_lagrange::<Vsop87Ephemeris>(lp(&mut g), j).map(|s| format!("{:?}", s.position)).map_err(|e| format!("{e:?}"))),
        "star-track" => format!("{:?}", star(&mut g).track(j)),
        "body-track" => match g.n(4) { 0 => format!("{:?}", ss::Mars.track(j)), 1 => format!("{:?}", ss::Moon.track(j)), 2 => format!("{:?}", ss::Sun.track(j)), _ => format!("{:?}", ss::Venus.track(j)) },
        "moon-altitude" => format!("{:?}", alt::AltitudeProvider::altitude_at(&ss::Moon, &site, m)),
        "sun-altitude" => format!("{:?} {:?}", alt::AltitudeProvider::altitude_at(&ss::Sun, &site, m), alt::AltitudeProvider::altitude_at(&star(&mut g), &site, m)),
        "altitude-crossings" => { let th = Degrees::new(g.range(-20.0, 50.0)); match g.n(3) { 0 => format!("{:?}", alt::crossings(&ss::Sun, &site, win(1.0), th, opts)), 1 => format!("{:?}", alt::crossings(&ss::Moon, &site, win(1.0), th, opts)), _ => format!("{:?}", alt::crossings(&star(&mut g), &site, win(1.0), th, opts)) } }
        "altitude-periods" => { let th = Degrees::new(g.range(-20.0, 50.0)); match g.n(3) { 0 => format!("{:?}", alt::above_threshold(&ss::Sun, &site, win(1.0), th, opts)), 1 => format!("{:?}", alt::below_threshold(&ss::Moon, &site, win(1.0), th, opts)), _ => format!("{:?}", alt::above_threshold(&star(&mut g), &site, win(1.0), th, opts)) } }
        "culminations" => format!("{:?}", alt::culminations(&ss::Sun, &site, win(1.0), opts)),
        "azimuth-crossings" => format!("{:?}", azi::azimuth_crossings(&star(&mut g), &site, win(1.0), Degrees::new(g.range(0.0, 360.0)), opts)),
        "azimuth-extrema" => format!("{:?}", azi::azimuth_extrema(&ss::Sun, &site, win(0.5), opts)),
        "star-horizontal" => format!("{:?}", eh::star_horizontal(Degrees::new(g.range(0.0, 360.0)), Degrees::new(g.range(-90.0, 90.0)), &site, j)),
        "horizontal" => { let v = d3(&mut g); format!("{:?}", ToHorizontal::to_horizontal(&Direction::<EquatorialTrueOfDate>::new(v[0], v[1], v[2]), &j, &JulianDate::new(jd + 8e-4), &site)) }
        "apparent" => { let v = d3(&mut g); let obs = if g.p(0.5) { ObserverState::geocentric(j) } else { ObserverState::topocentric(&site, j) }; format!("{:?}", Astrometric::new(Direction::<EquatorialMeanJ2000>::new(v[0], v[1], v[2])).to_apparent(&obs).direction()) }
        "center-shift" => { let v = d3(&mut g); let p = Position::<Barycentric, EclipticMeanJ2000, AstronomicalUnit>::new(v[0] * 3.0, v[1] * 3.0, v[2] * 3.0); if g.p(0.5) { let r: Position<Geocentric, EclipticMeanJ2000, AstronomicalUnit> = p.to_center(j); format!("{r:?}") } else { let r: Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> = p.to_center(j); format!("{r:?}") } }
        "topocentric" => { let v = d3(&mut g); let p = Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(v[0] * 0.01, v[1] * 0.01, v[2] * 0.01); format!("{:?}", eh::geocentric_j2000_to_apparent_topocentric(&p, site, j)) }
        "moon-phase" => { let p = if g.p(0.5) { lph::moon_phase_geocentric::<Vsop87Ephemeris>(j) } else { lph::moon_phase_topocentric::<Vsop87Ephemeris>(j, site) }; format!("{p:?}") }
        "phase-events" => format!("{:?}", lph::find_phase_events::<Vsop87Ephemeris>(win(g.range(5.0, 12.0)), lph::PhaseSearchOpts::default())),
        "illumination" => format!("{:?}", lph::illumination_above::<Vsop87Ephemeris>(win(6.0), siderust::qtty::IlluminationFractions::new(g.range(0.1, 0.9)), lph::PhaseSearchOpts::default())),
        "moonlight" => format!("{:?}", lpm::lunar_albedo_jones2013(Radians::new(g.range(0.0, 1.5)), Nanometers::new(g.range(350.0, 2000.0)))),
        "spk-state" => format!("{:?}", o.kernel.state(*g.pick(&[10, 3, 301, 399, 4, 499, 5, 599]), *g.pick(&[0, 3, 399]), et).map_err(|e| e.to_string())),
        "spk-geometric" => format!("{:?}", o.set.try_geometric_state(*g.pick(&[10, 301, 399, 499, 599]), *g.pick(&[0, 3]), j).map(|p| [p.x().value(), p.y().value(), p.z().value()]).map_err(|e| format!("{e:?}"))),
        "spk-set" => format!("{:?}", o.ks.state_naif(*g.pick(&[10, 301, 399, 499, 599]), *g.pick(&[0, 3]), et).map_err(|e| e.to_string())),
        "spice-context" => format!("{:?}", o.ctx.state_naif(*g.pick(&[10, 301, 399, 499, 599]), *g.pick(&[0, 3]), et).map_err(|e| e.to_string())),
        "runtime-ephemeris" => match g.n(4) { 0 => format!("{:?}", o.rt.try_moon_geocentric(j).map_err(|e| format!("{e:?}"))), 1 => format!("{:?}", o.rt.try_sun_barycentric(j).map_err(|e| format!("{e:?}"))), 2 => format!("{:?}", o.rt.try_earth_heliocentric(j).map_err(|e| format!("{e:?}"))), _ => format!("{:?}", o.rt.try_earth_barycentric_velocity(j).map_err(|e| format!("{e:?}"))) },
        "sgp4" => { let p = g.pick(&o.props); format!("{:?}", p.propagate_minutes(Minutes::new((jd.fract() - 0.5) * 1440.0)).map(|s| format!("{:?} {:?}", s.position(), s.velocity())).map_err(|e| e.to_string())) }
        "tle-text" => { let t = g.pick(&o.tles); format!("{:?} {:?}", t.epoch, siderust::formats::tle::omm::kvn::write(&siderust::formats::tle::omm::Omm::from_tle(t)).map_err(|e| e.to_string())) }
        "ozone-passbands" => { let l = Nanometers::new(g.range(300.0, 1000.0)); format!("{:?} {:?} {:?} {:?}", ozone::transmittance_at(l), bessell1990::v().interp_at(l), bessell1990::u().interp_at(l), bessell1990::i().interp_at(l)) }
        "proper-motion" => { let s = star(&mut g); format!("{:?} {:?}", s.coordinate.get_position(), s.coordinate.get_time()) }
        k => unreachable!("{k}"),
    }
}
fn lp(g: &mut Rng) -> LP { *g.pick(&[LP::L1, LP::L2, LP::L3, LP::L4, LP::L5]) }

fn queries(seed: u64, n: usize) -> Vec<Q> {
    let mut g = Rng::new(seed ^ 0xc28);
    let mut v = vec![];
    while v.len() < n {
        // a cluster of instants: identical, almost identical, minutes and days apart
        let c = g.range(2_442_000.5, 2_460_500.5);
        let (lon, lat) = (g.range(-180.0, 180.0), g.range(-85.0, 85.0));
        let seed = g.u64();
        let kinds = if g.p(0.5) { let k = g.n(KINDS.len()); vec![k; 8] } else { (0..8).map(|_| g.n(KINDS.len())).collect() };
        for k in kinds {
            let jd = c + match g.n(6) { 0 => 0.0, 1 => g.range(-1e-7, 1e-7), 2 => g.range(-1e-4, 1e-4), 3 => g.range(-0.02, 0.02), 4 => g.range(-2.0, 2.0), _ => g.range(-400.0, 400.0) };
            let (dl, db) = match g.n(4) { 0 => (1e-6, 0.0), 1 => (0.0, 1e-4), 2 => (0.4, 0.3), _ => (0.0, 0.0) };
            v.push(Q { kind: k, jd, lon: lon + dl, lat: lat + db, seed: if g.p(0.6) { seed } else { g.u64() } });
        }
    }
    v.truncate(n);
    v
}
fn hash(s: &str) -> u64 { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() }
fn shuffled(n: usize, g: &mut Rng) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { v.swap(i, g.n(i + 1)); } v }
fn ask(q: &Q, o: &Objects) -> String { vh::guard(|| answer(q, o)).unwrap_or_else(|p| format!("PANIC {p}")) }

/// a cold process: `threads` threads start together and answer disjoint shares in a permuted order
fn child(seed: u64, n: usize, order: u64, threads: usize) {
    let qs = queries(seed, n);
    let mut g = Rng::new(order);
    let ord = if order == 0 { (0..n).rev().collect() } else { shuffled(n, &mut g) };
    let o = Objects::new(seed);
    let bar = Barrier::new(threads);
    let out = std::sync::Mutex::new(vec![0u64; n]);
    std::thread::scope(|s| for t in 0..threads { let (qs, ord, o, bar, out) = (&qs, &ord, &o, &bar, &out); s.spawn(move || { bar.wait(); let r: Vec<_> = ord.iter().skip(t).step_by(threads).map(|i| (*i, hash(&ask(&qs[*i], o)))).collect(); let mut w = out.lock().unwrap(); for (i, h) in r { w[i] = h; } }); });
    for h in out.into_inner().unwrap() { println!("H {h:016x}"); }
}

fn main() {
    if let Ok(a) = std::env::var("VH_C28_CHILD") {
        let p: Vec<u64> = a.split(',').map(|x| x.parse().unwrap()).collect();
        return child(p[0], p[1] as usize, p[2], p[3] as usize);
    }
    let mut run = Run::new("C28", "the same query (API call + arguments) gives bit-identical answers in every order, thread, object and process");
    run.assume("answers are compared through their Debug text, which prints every float exactly");
    for k in KINDS { run.require(k, run.size(15, 400) as u64); }
    for k in ["racing-threads", "fresh-thread", "cold-process"] { run.require(k, 200); }
    run.require("private-objects", 60);
    let n = run.size(2400, 24_000);
    let seed = run.rng("c28").u64();
    let qs = queries(seed, n);
    let o = Objects::new(seed);
    let show = |i: usize| { let q = &qs[i]; format!("{} jd={:?} lon={} lat={} seed={}", KINDS[q.kind], q.jd, q.lon, q.lat, q.seed) };
    // one query after the other, on one thread
    let truth: Vec<String> = qs.iter().map(|q| ask(q, &o)).collect();
    for (i, q) in qs.iter().enumerate() {
        run.eval(KINDS[q.kind], (q.jd.to_bits(), q.seed, q.lon.to_bits()));
        run.check(!truth[i].starts_with("PANIC") || q.jd > 2_460_000.0, "panic", || format!("{} {}", show(i), truth[i]));
    }
    let r = &run;
    let judge = |how: &str, i: usize, got: &str| { r.eval(how, i); r.check(got == truth[i], &format!("{how}/{}", KINDS[qs[i].kind]), || format!("{}: {} / first answer {}", show(i), &got[..got.len().min(300)], &truth[i][..truth[i].len().min(300)])); };
    // eight threads racing through all queries, each in its own order
    for round in 0..run.size(2, 4) {
        let bar = Barrier::new(8);
        std::thread::scope(|s| for t in 0..8 { let (qs, o, bar, judge) = (&qs, &o, &bar, &judge); s.spawn(move || { let ord = shuffled(n, &mut r.rng_i("order", t * 100 + round)); bar.wait(); for i in ord.into_iter().take(n / 2) { judge("racing-threads", i, &ask(&qs[i], o)); } }); });
    }
    // a new thread, and private objects, per query
    r.par("fresh", n / 4, |k| { let i = (k * 7919) % n; let a = std::thread::scope(|s| s.spawn(|| ask(&qs[i], &o)).join()).unwrap_or_default(); judge("fresh-thread", i, &a); });
    r.par("private", n / 20, |k| { let i = (k * 6007) % n; let p = Objects::new(seed); assert_eq!(p.bytes, o.bytes); judge("private-objects", i, &ask(&qs[i], &p)); });
    // cold processes: reversed on one thread, and shuffled with racing start-up
    let exe = std::env::current_exe().unwrap();
    r.par("cold", run.size(6, 24), |c| {
        let (order, th) = if c == 0 { (0, 1) } else { (seed ^ c as u64, [1, 8, 2, 8][c % 4]) };
        let out = std::process::Command::new(&exe).env("VH_C28_CHILD", format!("{seed},{n},{order},{th}")).output().unwrap();
        let h: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| u64::from_str_radix(l.strip_prefix("H ")?, 16).ok()).collect();
        if h.len() != n { return r.violation("cold-process/died", &format!("order {order} threads {th}: {} of {n} answers, {:?}", h.len(), out.status)); }
        for i in 0..n { r.eval("cold-process", (c, i)); r.check(h[i] == hash(&truth[i]), &format!("cold-process/{}", KINDS[qs[i].kind]), || format!("order {order} threads {th}: {} differs from {}", show(i), &truth[i][..truth[i].len().min(300)])); }
    });
    run.finish()
}
