//! Tiny independent linear algebra used by the oracles.
pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m == 0.0 || !m.is_finite() { return m; }
    let b = [a[0] / m, a[1] / m, a[2] / m];
    m * dot(b, b).sqrt()
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn scale(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn unit(a: V3) -> V3 {
    scale(a, 1.0 / norm(a))
}
/// angle between, robust near 0 and pi
pub fn angle(a: V3, b: V3) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut d = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            let e = (a[i][j] - b[i][j]).abs();
            if e.is_nan() { return f64::INFINITY; }
            d = d.max(e);
        }
    }
    d
}
pub fn det(a: &M3) -> f64 {
    dot(a[0], cross(a[1], a[2]))
}
/// passive (frame) rotations, ERFA/Vallado sense: R1(a)=[[1,0,0],[0,c,s],[0,-s,c]]
pub fn r1(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
pub fn r2(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]]
}
pub fn r3(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
pub fn wrap_pi(x: f64) -> f64 {
    let t = std::f64::consts::TAU;
    x - t * (x / t).round()
}
/// Solve A x = b by Gaussian elimination with partial pivoting (row major n x n).
pub fn solve(a: &[f64], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = (0..n).map(|i| { let mut r = a[i * n..(i + 1) * n].to_vec(); r.push(b[i]); r }).collect();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| m[i][k].abs().partial_cmp(&m[j][k].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if !(m[p][k].abs() > 0.0) { return None; }
        m.swap(k, p);
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..=n { m[i][j] -= f * m[k][j]; }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let mut s = m[i][n];
        for j in i + 1..n { s -= m[i][j] * x[j]; }
        x[i] = s / m[i][i];
    }
    Some(x)
}
