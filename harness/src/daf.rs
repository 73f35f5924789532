//! Writer for SPICE DAF containers (SPK, CK) with either byte order, and an independent evaluator of the segments.
use crate::Rng;

#[derive(Clone, Debug)]
pub enum Body {
    /// type 2/3: (init, intlen, ncoeff, components, records)
    Cheb { init: f64, intlen: f64, ncoeff: usize, comps: usize, recs: Vec<Vec<f64>> },
    /// type 9/13: (degree or window-1, epochs, states)
    Disc { ty: i32, desc: usize, epochs: Vec<f64>, states: Vec<[f64; 6]> },
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub target: i32,
    pub center: i32,
    pub frame: i32,
    pub start: f64,
    pub end: f64,
    pub body: Body,
}
/// Chebyshev sum and derivative by the forward recurrence.
pub fn cheb(c: &[f64], x: f64) -> (f64, f64) {
    let (mut t0, mut t1, mut d0, mut d1) = (1.0, x, 0.0, 1.0);
    let (mut s, mut ds) = (0.0, 0.0);
    for &k in c {
        s += k * t0;
        ds += k * d0;
        let t2 = 2.0 * x * t1 - t0;
        let d2 = 2.0 * t1 + 2.0 * x * d1 - d0;
        (t0, t1, d0, d1) = (t1, t2, d1, d2);
    }
    (s, ds)
}
impl Seg {
    pub fn ty(&self) -> i32 {
        match &self.body { Body::Cheb { comps: 3, .. } => 2, Body::Cheb { .. } => 3, Body::Disc { ty, .. } => *ty }
    }
    pub fn words(&self) -> Vec<f64> {
        match &self.body {
            Body::Cheb { init, intlen, ncoeff, comps, recs } => {
                let mut w: Vec<f64> = recs.concat();
                w.extend([*init, *intlen, (2 + comps * ncoeff) as f64, recs.len() as f64]);
                w
            }
            Body::Disc { desc, epochs, states, .. } => {
                let mut w: Vec<f64> = states.concat();
                w.extend(epochs);
                w.extend(epochs.iter().skip(99).step_by(100).take((epochs.len() - 1) / 100));
                w.extend([*desc as f64, epochs.len() as f64]);
                w
            }
        }
    }
    pub fn extent(&self) -> (f64, f64) {
        match &self.body {
            Body::Cheb { init, intlen, recs, .. } => (*init, init + intlen * recs.len() as f64),
            Body::Disc { epochs, .. } => (epochs[0], *epochs.last().unwrap()),
        }
    }
    pub fn covers(&self, et: f64) -> bool {
        let (a, b) = self.extent();
        et >= self.start && et <= self.end && et >= a && et <= b
    }
    /// Admissible states at `et` (more than one at record boundaries / window choices).
    pub fn states(&self, et: f64) -> Vec<[f64; 6]> {
        match &self.body {
            Body::Cheb { comps, ncoeff, recs, .. } => {
                let mut o = vec![];
                for r in recs {
                    let (mid, rad) = (r[0], r[1]);
                    if (et - mid).abs() > rad + 1e-9 * rad { continue; }
                    let x = (et - mid) / rad;
                    let mut s = [0.0; 6];
                    for k in 0..3 {
                        let (p, d) = cheb(&r[2 + k * ncoeff..2 + (k + 1) * ncoeff], x);
                        s[k] = p;
                        s[k + 3] = if *comps == 3 { d / rad } else { cheb(&r[2 + (k + 3) * ncoeff..2 + (k + 4) * ncoeff], x).0 };
                    }
                    o.push(s);
                }
                o
            }
            Body::Disc { ty, desc, epochs, states } => {
                if let Some(i) = epochs.iter().position(|e| *e == et) { return vec![states[i]]; }
                let n = desc + 1;
                let left = epochs.iter().filter(|e| **e < et).count();
                let mut o = vec![];
                for half in [n / 2, n - n / 2] {
                    let first = left.saturating_sub(half).min(epochs.len() - n);
                    let (xs, ys) = (&epochs[first..first + n], &states[first..first + n]);
                    o.push(if *ty == 9 { lagrange(xs, ys, et) } else { hermite(xs, ys, et) });
                }
                o
            }
        }
    }
}
fn lagrange(xs: &[f64], ys: &[[f64; 6]], x: f64) -> [f64; 6] {
    // Neville
    let mut t: Vec<[f64; 6]> = ys.to_vec();
    let n = xs.len();
    for m in 1..n {
        for i in 0..n - m {
            let (a, b) = (xs[i], xs[i + m]);
            for k in 0..6 { t[i][k] = ((x - b) * t[i][k] + (a - x) * t[i + 1][k]) / (a - b); }
        }
    }
    t[0]
}
/// Hermite interpolation in Lagrange form: h_i = [1 - 2(x-x_i) l_i'(x_i)] l_i^2, k_i = (x-x_i) l_i^2
fn hermite(xs: &[f64], ys: &[[f64; 6]], x: f64) -> [f64; 6] {
    let mut o = [0.0; 6];
    for (i, xi) in xs.iter().enumerate() {
        let (mut l, mut dl, mut li) = (1.0, 0.0, 0.0);
        for (j, xj) in xs.iter().enumerate() {
            if i == j { continue; }
            dl = dl * (x - xj) / (xi - xj) + l / (xi - xj);
            l *= (x - xj) / (xi - xj);
            li += 1.0 / (xi - xj);
        }
        let (u, h) = (x - xi, 1.0 - 2.0 * (x - xi) * li);
        for k in 0..3 {
            let (p, v) = (ys[i][k], ys[i][k + 3]);
            o[k] += p * h * l * l + v * u * l * l;
            o[k + 3] += p * (-2.0 * li * l * l + h * 2.0 * l * dl) + v * (l * l + u * 2.0 * l * dl);
        }
    }
    o
}
pub fn cheb_seg(g: &mut Rng, target: i32, center: i32, t0: f64, span: f64, size: f64, comps: usize) -> Seg {
    let n = 1 + g.n(6);
    let intlen = span / n as f64;
    let ncoeff = 1 + g.n(14);
    let recs = (0..n).map(|i| {
        let mut r = vec![t0 + (i as f64 + 0.5) * intlen, intlen / 2.0];
        for c in 0..comps {
            let s = if c < 3 { size } else { size * 2e-7 };
            for k in 0..ncoeff { r.push(s * g.range(-1.0, 1.0) * 0.5f64.powi(k as i32)); }
        }
        r
    }).collect();
    Seg { target, center, frame: 1, start: t0, end: t0 + span, body: Body::Cheb { init: t0, intlen, ncoeff, comps, recs } }
}
pub fn disc_seg(g: &mut Rng, ty: i32, target: i32, center: i32, t0: f64, span: f64, size: f64) -> Seg {
    let n = match g.n(5) { 0 => 100 + g.n(3), 1 => 2 + g.n(4), _ => 8 + g.n(60) };
    let mut e: Vec<f64> = (0..n).map(|i| t0 + span * (i as f64 + if i == 0 || i == n - 1 { 0.0 } else { g.range(-0.3, 0.3) }) / (n - 1) as f64).collect();
    e[n - 1] = t0 + span;
    let desc = if ty == 9 { 1 + g.n(12.min(n - 1)) } else { 1 + g.n(8.min(n - 1)) };
    let (w, ph) = (3.0 / span, g.range(0.0, 6.0));
    let states = e.iter().map(|t| {
        let a = w * (t - t0) + ph;
        [size * a.cos(), size * a.sin(), size * (2.0 * a).sin(), -size * w * a.sin(), size * w * a.cos(), 2.0 * w * size * (2.0 * a).cos()]
    }).collect();
    Seg { target, center, frame: 1, start: t0, end: t0 + span, body: Body::Disc { ty, desc, epochs: e, states } }
}
/// Assemble a DAF file; `per_record` summaries per summary record, either byte order.
pub struct Writer { pub big: bool, pub per_record: usize, pub gap: usize, pub locator: &'static [u8; 8] }
impl Writer {
    fn f(&self, x: f64) -> [u8; 8] { if self.big { x.to_be_bytes() } else { x.to_le_bytes() } }
    fn i(&self, x: i32) -> [u8; 4] { if self.big { x.to_be_bytes() } else { x.to_le_bytes() } }
    /// summaries: (doubles, leading integers, data words)
    pub fn build(&self, nd: usize, ni: usize, segs: &[(Vec<f64>, Vec<i32>, Vec<f64>)]) -> Vec<u8> {
        let per = self.per_record.clamp(1, 125 / (nd + ni.div_ceil(2)));
        let nrec = segs.len().div_ceil(per).max(1);
        // file record, (summary, name) pairs, then data
        let first_data = (1 + 2 * nrec) * 128 + 1;
        let mut data: Vec<f64> = vec![];
        let mut words = vec![];
        for s in segs {
            for _ in 0..self.gap { data.push(12345.678); }
            words.push((first_data + data.len(), first_data + data.len() + s.2.len() - 1));
            data.extend(&s.2);
        }
        let mut o = vec![0u8; 1024];
        o[..8].copy_from_slice(self.locator);
        o[8..12].copy_from_slice(&self.i(nd as i32));
        o[12..16].copy_from_slice(&self.i(ni as i32));
        o[16..76].fill(b' ');
        o[76..80].copy_from_slice(&self.i(2));
        o[80..84].copy_from_slice(&self.i((2 * nrec) as i32));
        o[84..88].copy_from_slice(&self.i((first_data + data.len()) as i32));
        o[88..96].copy_from_slice(if self.big { b"BIG-IEEE" } else { b"LTL-IEEE" });
        let ss = nd + ni.div_ceil(2);
        for r in 0..nrec {
            let lo = r * per;
            let hi = (lo + per).min(segs.len());
            let mut rec = vec![0u8; 1024];
            rec[0..8].copy_from_slice(&self.f(if r + 1 < nrec { (2 + 2 * (r + 1)) as f64 } else { 0.0 }));
            rec[8..16].copy_from_slice(&self.f(if r > 0 { (2 * r) as f64 } else { 0.0 }));
            rec[16..24].copy_from_slice(&self.f((hi - lo) as f64));
            for (k, s) in segs[lo..hi].iter().enumerate() {
                let mut p = 24 + k * ss * 8;
                for d in &s.0 { rec[p..p + 8].copy_from_slice(&self.f(*d)); p += 8; }
                let (a, b) = words[lo + k];
                for v in s.1.iter().copied().chain([a as i32, b as i32]) { rec[p..p + 4].copy_from_slice(&self.i(v)); p += 4; }
            }
            o.extend(rec);
            o.extend(vec![b' '; 1024]);
        }
        for d in data { o.extend(self.f(d)); }
        while o.len() % 1024 != 0 { o.push(0); }
        o
    }
    pub fn spk(&self, segs: &[Seg]) -> Vec<u8> {
        let v: Vec<_> = segs.iter().map(|s| (vec![s.start, s.end], vec![s.target, s.center, s.frame, s.ty()], s.words())).collect();
        self.build(2, 6, &v)
    }
}
