//! Independent geometric oracles (nothing here calls the code under test).
pub type P3 = [f64; 3];
pub fn sub(a: P3, b: P3) -> P3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn add(a: P3, b: P3) -> P3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn mul(a: P3, s: f64) -> P3 { [a[0] * s, a[1] * s, a[2] * s] }
pub fn dot(a: P3, b: P3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: P3, b: P3) -> P3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn norm(a: P3) -> f64 { dot(a, a).sqrt() }
pub fn det3(a: P3, b: P3, c: P3) -> f64 { dot(a, cross(b, c)) }

fn seg_closest(p: P3, a: P3, b: P3) -> P3 {
    let ab = sub(b, a);
    let l = dot(ab, ab);
    if l == 0.0 { return a }
    let t = (dot(sub(p, a), ab) / l).clamp(0.0, 1.0);
    add(a, mul(ab, t))
}
/// Nearest point of a triangle: plane projection when it falls inside, else the nearest edge point.
pub fn tri_closest(p: P3, a: P3, b: P3, c: P3) -> P3 {
    let n = cross(sub(b, a), sub(c, a));
    let nn = dot(n, n);
    if nn > 0.0 {
        let q = sub(p, mul(n, dot(sub(p, a), n) / nn));
        let u = dot(cross(sub(c, b), sub(q, b)), n);
        let v = dot(cross(sub(a, c), sub(q, c)), n);
        let w = dot(cross(sub(b, a), sub(q, a)), n);
        if u >= 0.0 && v >= 0.0 && w >= 0.0 { return q }
    }
    let mut best = a;
    let mut bd = f64::INFINITY;
    for (x, y) in [(a, b), (b, c), (c, a)] {
        let q = seg_closest(p, x, y);
        let d = dot(sub(p, q), sub(p, q));
        if d < bd { bd = d; best = q }
    }
    best
}
pub fn in_tet(p: P3, a: P3, b: P3, c: P3, d: P3, tol: f64) -> bool {
    let v = det3(sub(b, a), sub(c, a), sub(d, a));
    if v.abs() < 1e-14 { return false }
    let wa = det3(sub(b, p), sub(c, p), sub(d, p)) / v;
    let wb = -det3(sub(a, p), sub(c, p), sub(d, p)) / v;
    let wc = det3(sub(a, p), sub(b, p), sub(d, p)) / v;
    let wd = -det3(sub(a, p), sub(b, p), sub(c, p)) / v;
    [wa, wb, wc, wd].iter().all(|w| *w >= -tol)
}
/// Distance from `p` to the convex hull of `pts` (brute force; small `pts` only) and nearest point.
pub fn hull_nearest(p: P3, pts: &[P3]) -> (f64, P3) {
    let n = pts.len();
    for i in 0..n { for j in 0..i { for k in 0..j { for l in 0..k {
        if in_tet(p, pts[i], pts[j], pts[k], pts[l], 0.0) { return (0.0, p) }
    } } } }
    let mut best = (f64::INFINITY, p);
    for i in 0..n { for j in 0..i { for k in 0..j {
        let q = tri_closest(p, pts[i], pts[j], pts[k]);
        let d = norm(sub(p, q));
        if d < best.0 { best = (d, q) }
    } } }
    best
}
/// margin by which `p` is inside (positive) or outside (negative) of the hull of pts: via distances
pub fn depth(p: P3, pts: &[P3]) -> f64 {
    let (d, _) = hull_nearest(p, pts);
    if d > 0.0 { return -d }
    // inside: distance to the nearest supporting plane through three points
    let n = pts.len();
    let mut best = f64::INFINITY;
    for i in 0..n { for j in 0..i { for k in 0..j {
        let nn = cross(sub(pts[j], pts[i]), sub(pts[k], pts[i]));
        let l = norm(nn);
        if l < 1e-12 { continue }
        let nn = mul(nn, 1.0 / l);
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for q in pts { let s = dot(sub(*q, pts[i]), nn); lo = lo.min(s); hi = hi.max(s); }
        if lo < -1e-9 && hi > 1e-9 { continue }
        best = best.min(dot(sub(p, pts[i]), nn).abs());
    } } }
    best
}
/// Solve a small dense linear system with full pivoting; returns (x, smallest pivot / largest pivot).
pub fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<(Vec<f64>, f64)> {
    let n = b.len();
    let mut perm: Vec<usize> = (0..n).collect();
    let (mut pmin, mut pmax) = (f64::INFINITY, 0.0f64);
    for k in 0..n {
        let (mut bi, mut bj, mut bv) = (k, k, -1.0);
        for i in k..n { for j in k..n { if a[i][j].abs() > bv { bv = a[i][j].abs(); bi = i; bj = j } } }
        if bv <= 0.0 { return None }
        pmin = pmin.min(bv); pmax = pmax.max(bv);
        a.swap(k, bi); b.swap(k, bi);
        for r in a.iter_mut() { r.swap(k, bj) }
        perm.swap(k, bj);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n { a[i][j] -= f * a[k][j] }
            b[i] -= f * b[k];
        }
    }
    let mut x = vec![0.0; n];
    for k in (0..n).rev() {
        let mut s = b[k];
        for j in k + 1..n { s -= a[k][j] * x[j] }
        x[k] = s / a[k][k];
    }
    let mut out = vec![0.0; n];
    for (i, &p) in perm.iter().enumerate() { out[p] = x[i] }
    Some((out, pmin / pmax))
}
/// min c.x s.t. n_i.x >= b_i (three variables) by enumerating vertices; None if no vertex is feasible
pub fn lp3(cons: &[(P3, f64)], c: P3) -> Option<(P3, bool)> {
    let m = cons.len();
    let mut best: Option<(f64, P3)> = None;
    let mut all: Vec<(f64, P3)> = vec![];
    for i in 0..m { for j in 0..i { for k in 0..j {
        let (a, b, d) = (cons[i], cons[j], cons[k]);
        let dt = det3(a.0, b.0, d.0);
        if dt.abs() < 1e-9 { continue }
        let x = mul(add(add(mul(cross(b.0, d.0), a.1), mul(cross(d.0, a.0), b.1)), mul(cross(a.0, b.0), d.1)), 1.0 / dt);
        if cons.iter().all(|(n, bb)| dot(*n, x) >= bb - 1e-9 * (1.0 + norm(x))) {
            let v = dot(c, x);
            all.push((v, x));
            if best.map_or(true, |(bv, _)| v < bv) { best = Some((v, x)) }
        }
    } } }
    let (bv, bx) = best?;
    let unique = all.iter().all(|(v, x)| *v > bv + 1e-6 * (1.0 + bv.abs()) || norm(sub(*x, bx)) < 1e-6 * (1.0 + norm(bx)));
    Some((bx, unique))
}
