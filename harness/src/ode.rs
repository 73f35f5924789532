//! Independent reference integrator: Gragg-Bulirsch-Stoer, fixed macro steps, 8-column extrapolation.
pub fn gbs<const N: usize>(f: &dyn Fn(f64, &[f64; N]) -> [f64; N], mut y: [f64; N], t0: f64, dt: f64, macro_steps: usize) -> [f64; N] {
    let h = dt / macro_steps as f64;
    let seq = [2usize, 4, 6, 8, 10, 12, 14, 16];
    for s in 0..macro_steps {
        let t = t0 + h * s as f64;
        let mut tab: Vec<[f64; N]> = vec![];
        for (k, &n) in seq.iter().enumerate() {
            let hh = h / n as f64;
            let mut z0 = y;
            let d = f(t, &y);
            let mut z1 = y;
            for i in 0..N { z1[i] += hh * d[i] }
            for m in 1..n {
                let d = f(t + hh * m as f64, &z1);
                let mut z2 = z0;
                for i in 0..N { z2[i] += 2.0 * hh * d[i] }
                z0 = z1;
                z1 = z2;
            }
            let d = f(t + h, &z1);
            let mut r = [0.0; N];
            for i in 0..N { r[i] = 0.5 * (z0[i] + z1[i] + hh * d[i]) }
            let mut cur = r;
            let mut row = vec![cur];
            for j in 1..=k {
                let q = (n as f64 / seq[k - j] as f64).powi(2) - 1.0;
                let mut nx = cur;
                for i in 0..N { nx[i] = cur[i] + (cur[i] - tab[j - 1][i]) / q }
                row.push(nx);
                cur = nx;
            }
            tab = row;
        }
        y = *tab.last().unwrap();
    }
    y
}
