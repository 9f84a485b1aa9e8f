use crate::ck;
use crate::geo;
use crate::util::*;
use nalgebra::{Const, OVector};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::collections::{HashMap, HashSet};

/// Random point sets in dimension N; `deg` allows grids and cospherical sets.
pub fn points<const N: usize>(r: &mut Rng, deg: bool, maxn: usize) -> Vec<[f64; N]> {
    loop {
        let n = N + 2 + r.below(maxn);
        let mode = if deg { r.below(5) } else { r.below(2) };
        let k = 2 + r.below(3) as i64;
        let mut v: Vec<[f64; N]> = (0..n).map(|_| {
            let mut p = [0.0; N];
            match mode {
                0 => for x in p.iter_mut() { *x = r.fr(-1.0, 1.0) },
                1 => for x in p.iter_mut() { *x = r.range(0, 255) as f64 },
                2 | 3 => for x in p.iter_mut() { *x = r.range(0, k) as f64 },
                _ => { for x in p.iter_mut() { *x = (if r.chance(0.5) { 1.0 } else { -1.0 }) * if r.chance(0.3) { 0.5 } else { 1.0 } } }
            }
            p
        }).collect();
        if mode == 3 { for p in v.iter_mut() { for x in p.iter_mut() { *x = *x / 3.0 } } }
        // distinct points that span the space, well conditioned
        let mut seen: Vec<[f64; N]> = vec![];
        v.retain(|p| if seen.contains(p) { false } else { seen.push(*p); true });
        if v.len() < N + 2 { continue }
        if spans(&v) { return v }
    }
}
pub fn spans<const N: usize>(v: &[[f64; N]]) -> bool {
    let sc = v.iter().flat_map(|p| p.iter()).fold(0.0f64, |m, x| m.max(x.abs())).max(1e-300);
    let mut rows: Vec<Vec<f64>> = v.iter().skip(1).map(|p| (0..N).map(|i| (p[i] - v[0][i]) / sc).collect()).collect();
    for k in 0..N {
        let (mut bi, mut bj, mut bv) = (0, 0, -1.0);
        for i in k..rows.len() { for j in k..N { if rows[i][j].abs() > bv { bv = rows[i][j].abs(); bi = i; bj = j } } }
        if bv < 1e-3 { return false }
        rows.swap(k, bi);
        for r in rows.iter_mut() { r.swap(k, bj) }
        for i in k + 1..rows.len() { let f = rows[i][k] / rows[k][k]; for j in k..N { let t = rows[k][j]; rows[i][j] -= f * t } }
    }
    true
}
fn mx(v: &[f64]) -> f64 { v.iter().fold(0.0, |m, x| m.max(x.abs())) }

macro_rules! dims { ($m:ident, $n:literal, $n1:literal) => { pub mod $m {
    use super::*;
    pub const N: usize = $n;
    type Hull = ConvexHull<Const<N>>;
    type Tri = Delaunay<Const<N>>;

    pub fn pivot_ratio(vs: &[Vec<f64>]) -> f64 {
        let a: Vec<Vec<f64>> = (0..N).map(|i| (0..N).map(|j| vs[j][i] - vs[N][i]).collect()).collect();
        geo::solve(a, vec![0.0; N]).map_or(0.0, |x| x.1)
    }
    pub fn query(r: &mut Rng, pts: &[[f64; N]]) -> [f64; N] {
        let mut q = [0.0; N];
        let sc = pts.iter().map(|p| mx(p)).fold(0.0f64, f64::max);
        match r.below(8) {
            0 => q = pts[r.below(pts.len())],
            1 => { let (a, b) = (pts[r.below(pts.len())], pts[r.below(pts.len())]); for i in 0..N { q[i] = (a[i] + b[i]) / 2.0 } }
            2 => { for x in q.iter_mut() { *x = r.fr(-2.0 * sc, 2.0 * sc) } }
            3 => { for i in 0..N { q[i] = pts[r.below(pts.len())][i] } }
            _ => {
                let k = 2 + r.below(N + 2);
                let mut tot = 0.0;
                for _ in 0..k { let p = pts[r.below(pts.len())]; let w = r.f() + 1e-3; tot += w; for i in 0..N { q[i] += w * p[i] } }
                for x in q.iter_mut() { *x /= tot }
            }
        }
        q
    }

    /// Search histories: C02 (soundness of every answer) and C03 (nothing panics or hangs).
    pub fn search(c: &mut Case, sound: bool, special: bool, small: bool) -> R {
        let pts = if small {
            let mut p = points::<N>(&mut c.rng, false, 1); p.truncate(N + 1);
            if !spans(&p) { return Ok(()) }
            p
        } else { points::<N>(&mut c.rng, true, if N == 5 { 14 } else { 24 }) };
        c.note("points", &pts);
        let tri = Tri::from_arrays(&pts);
        let simp: Vec<Vec<Vec<f64>>> = tri.simplices().map(|s| s.vertices().map(|v| v.point().as_slice().to_vec()).collect()).collect();
        if simp.is_empty() { return Ok(()) }
        let deg: Vec<bool> = simp.iter().map(|s| pivot_ratio(s) < 1e-9).collect();
        let nb: Vec<Vec<Option<usize>>> = tri.simplices().map(|s| s.neighbors().map(|n| n.map(|n| n.index())).collect()).collect();
        let mut se = tri.simplex_searcher();
        let sc = pts.iter().map(|p| mx(p)).fold(1e-9f64, f64::max);
        for _ in 0..12 {
            match c.rng.below(10) {
                0 => { se.clear_start_hint(); c.note("clear", &()); }
                1 => { let b = c.rng.chance(0.5); se.set_bruteforce(b); c.note("bruteforce", &b); }
                2 => { let e = [f64::EPSILON, 1e-10, 1e-6, 1e-3][c.rng.below(4)]; se.set_eps(e); c.note("eps", &e); }
                _ => ()
            }
            let mut q = query(&mut c.rng, &pts);
            if special && c.rng.chance(0.2) { q[c.rng.below(N)] = [f64::NAN, f64::INFINITY, -1e300, 1e308][c.rng.below(4)] }
            c.note("query", &q);
            let qv: OVector<f64, Const<N>> = q.into();
            let mut co = OVector::<f64, Const<$n1>>::from_element(7.0);
            let Some(s) = se.find_simplex_mut(&qv, &mut co) else { c.checks += 1; continue };
            if !sound { c.checks += 1; ck!(c, s.index() < simp.len(), "returned simplex {} of {}", s.index(), simp.len()); continue }
            let vs: Vec<Vec<f64>> = s.vertices().map(|v| v.point().as_slice().to_vec()).collect();
            let eps = se.eps();
            let sum: f64 = co.iter().sum();
            ck!(c, (sum - 1.0).abs() < 1e-6, "coordinates {:?} of query {:?} sum to {}", co.as_slice(), q, sum);
            for i in 0..N {
                let v: f64 = (0..N + 1).map(|k| co[k] * vs[k][i]).sum();
                ck!(c, (v - q[i]).abs() < 1e-6 * sc, "coordinates {:?} recombine simplex {:?} to component {} = {} instead of {:?}", co.as_slice(), vs, i, v, q);
            }
            for k in 0..N + 1 {
                let wide = nb[s.index()].get(k).copied().flatten().map_or(false, |n| deg[n]);
                let lo = if wide { -(eps.sqrt()) } else { -eps };
                ck!(c, co[k] >= lo && co[k] <= 1.0 + eps, "coordinate {} = {:e} is outside [0,1] by more than the tolerance {:e} (query {:?})", k, co[k], eps, q);
            }
            // the other entry points agree
            let mut c3 = OVector::<f64, Const<$n1>>::from_element(-3.0);
            se.barycentric_coords_mut(s, qv.clone(), &mut c3);
            let c2 = se.barycentric_coords(s, qv.clone());
            let scale = 1e-9 * (1.0 + mx(co.as_slice()));
            for k in 0..N + 1 { ck!(c, (c2[k] - co[k]).abs() <= scale && (c3[k] - co[k]).abs() <= scale, "barycentric_coords gives {:?} / {:?} where the search gave {:?} (query {:?})", c2.as_slice(), c3.as_slice(), co.as_slice(), q); }
            if c.rng.chance(0.3) {
                let Some(s2) = se.find_simplex(&qv) else { continue };
                let c2 = se.barycentric_coords(s2, qv.clone());
                for k in 0..N + 1 { ck!(c, c2[k] >= -(eps.sqrt()) - 1e-9 && c2[k] <= 1.0 + eps.sqrt() + 1e-9, "find_simplex returns simplex {} whose coordinates for {:?} are {:?}", s2.index(), q, c2.as_slice()); }
            }
        }
        Ok(())
    }

    pub fn hull(c: &mut Case) -> R {
        let pts = points::<N>(&mut c.rng, true, 30);
        c.note("points", &pts);
        let raw = RawHull::<Const<N>>::from_arrays(&pts);
        let h = Hull::from_qhull_raw(RawHull::<Const<N>>::from_arrays(&pts));
        let rv: Vec<(u64, Vec<f64>)> = raw.vertices().map(|v| (v.id(), v.point().to_vec())).collect();
        let mut hv: Vec<Vec<f64>> = h.vertices().map(|v| v.point().as_slice().to_vec()).collect();
        for (i, v) in h.vertices().enumerate() { ck!(c, v.index() == i, "vertex {} reports index {}", i, v.index()); }
        let cmp = |a: &Vec<f64>, b: &Vec<f64>| a.partial_cmp(b).unwrap();
        let mut a: Vec<Vec<f64>> = rv.iter().map(|x| x.1.clone()).collect();
        let mut b = hv.clone(); a.sort_by(cmp); b.sort_by(cmp);
        ck!(c, a == b, "hull vertices {:?} differ from qhull's {:?}", b, a);
        // facets as (sorted vertex points, normal, offset)
        let key = |vs: Vec<Vec<f64>>| { let mut vs = vs; vs.sort_by(cmp); format!("{:?}", vs) };
        let mut rf: HashMap<String, (Vec<f64>, f64, HashSet<String>)> = HashMap::new();
        for f in raw.facets() {
            let k = key(f.vertices().map(|v| v.point().to_vec()).collect());
            let nn = f.neighbors().map(|g| key(g.vertices().map(|v| v.point().to_vec()).collect())).collect();
            rf.insert(k, (f.normal()[..N].to_vec(), f.offset(), nn));
        }
        ck!(c, h.facets().len() == raw.facets().count(), "{} facets instead of {}", h.facets().len(), raw.facets().count());
        let fverts: Vec<Vec<usize>> = h.facets().map(|f| f.vertices().map(|v| v.index()).collect()).collect();
        let sc = pts.iter().map(|p| mx(p)).fold(1e-9f64, f64::max);
        for (i, f) in h.facets().enumerate() {
            ck!(c, f.index() == i, "facet {} reports index {}", i, f.index());
            ck!(c, fverts[i].iter().all(|v| *v < hv.len()), "facet {} has vertex indices {:?}", i, fverts[i]);
            let k = key(f.vertices().map(|v| v.point().as_slice().to_vec()).collect());
            let Some((n, o, nn)) = rf.get(&k) else { return Err(format!("facet {} = {} is not one of qhull's", i, k)) };
            ck!(c, f.normal().as_slice() == &n[..] && f.offset() == *o, "facet {} has hyperplane {:?} {} instead of {:?} {}", k, f.normal().as_slice(), f.offset(), n, o);
            let nb: Vec<usize> = f.neighbors().map(|g| g.index()).collect();
            ck!(c, nb.len() == N && nb.iter().all(|g| *g < fverts.len()), "facet {} has neighbours {:?}", i, nb);
            let got: HashSet<String> = f.neighbors().map(|g| key(g.vertices().map(|v| v.point().as_slice().to_vec()).collect())).collect();
            ck!(c, &got == nn, "facet {} has neighbours {:?} instead of {:?}", k, got, nn);
            for (kth, g) in nb.iter().enumerate() {
                for (j, v) in fverts[i].iter().enumerate() {
                    if j != kth { ck!(c, fverts[*g].contains(v), "neighbour {} of facet {:?} is facet {:?}, not the one opposite its vertex {}", kth, fverts[i], fverts[*g], kth); }
                }
                ck!(c, !fverts[*g].contains(&fverts[i][kth]), "neighbour {} of facet {:?} is facet {:?}, not the one opposite its vertex {}", kth, fverts[i], fverts[*g], kth);
            }
            for p in &pts {
                let d: f64 = (0..N).map(|j| f.normal()[j] * p[j]).sum::<f64>() + f.offset();
                ck!(c, d <= 1e-7 * sc, "input point {:?} lies {} outside facet {}", p, d, k);
            }
            for v in f.vertices() {
                let d: f64 = (0..N).map(|j| f.normal()[j] * v.point()[j]).sum::<f64>() + f.offset();
                ck!(c, d.abs() <= 1e-6 * sc, "vertex {:?} is {} off its facet's plane", v.point(), d);
            }
            if N == 3 {
                let v: Vec<[f64; 3]> = f.vertices().map(|v| { let p = v.point(); [p[0], p[1 % N], p[2 % N]] }).collect();
                let n = geo::cross(geo::sub(v[1], v[0]), geo::sub(v[2], v[0]));
                let m = [f.normal()[0], f.normal()[1 % N], f.normal()[2 % N]];
                let ar = geo::norm(n);
                if ar > 1e-6 * sc * sc { ck!(c, geo::dot(n, m) > 0.0, "the vertices {:?} of a facet are ordered against its outward normal {:?}", v, m); }
            }
        }
        Ok(())
    }

    pub fn tri(c: &mut Case) -> R {
        let pts = points::<N>(&mut c.rng, true, if N == 5 { 14 } else { 30 });
        c.note("points", &pts);
        let raw = RawDelaunay::<Const<N>>::from_arrays(&pts);
        let t = Tri::from_qhull_raw(RawDelaunay::<Const<N>>::from_arrays(&pts));
        let cmp = |a: &Vec<f64>, b: &Vec<f64>| a.partial_cmp(b).unwrap();
        let key = |vs: Vec<Vec<f64>>| { let mut vs = vs; vs.sort_by(cmp); format!("{:?}", vs) };
        let mut rf: HashMap<String, (Vec<f64>, f64, Vec<Option<String>>, Vec<Vec<f64>>)> = HashMap::new();
        let mut used: Vec<Vec<f64>> = vec![];
        let mut cnt = 0;
        for f in raw.simplices() {
            if f.is_upper_delaunay() { continue }
            cnt += 1;
            let vs: Vec<Vec<f64>> = f.vertices().map(|v| v.point().to_vec()).collect();
            for v in &vs { if !used.contains(v) { used.push(v.clone()) } }
            let nn = f.neighbors().map(|g| if g.is_upper_delaunay() { None } else { Some(key(g.vertices().map(|v| v.point().to_vec()).collect())) }).collect();
            rf.insert(key(vs.clone()), (f.normal().to_vec(), f.offset(), nn, vs));
        }
        ck!(c, t.simplices().len() == cnt, "{} simplices instead of qhull's {} lower ones", t.simplices().len(), cnt);
        let tv: Vec<Vec<f64>> = t.vertices().map(|v| v.point().as_slice().to_vec()).collect();
        for (i, v) in t.vertices().enumerate() { ck!(c, v.index() == i, "vertex {} reports index {}", i, v.index()); }
        let (mut a, mut b) = (used.clone(), tv.clone()); a.sort_by(cmp); b.sort_by(cmp);
        ck!(c, a == b, "vertices {:?} instead of those used by the lower simplices {:?}", b, a);
        let sv: Vec<Vec<usize>> = t.simplices().map(|s| s.vertices().map(|v| v.index()).collect()).collect();
        for (i, s) in t.simplices().enumerate() {
            ck!(c, s.index() == i, "simplex {} reports index {}", i, s.index());
            ck!(c, sv[i].len() == N + 1 && sv[i].iter().all(|v| *v < tv.len()), "simplex {} has vertex indices {:?}", i, sv[i]);
            let vs: Vec<Vec<f64>> = s.vertices().map(|v| v.point().as_slice().to_vec()).collect();
            let k = key(vs.clone());
            let Some((n, o, nn, rvs)) = rf.get(&k) else { return Err(format!("simplex {} = {} is not one of qhull's lower simplices", i, k)) };
            let mut x = OVector::<f64, Const<$n1>>::from_element(0.0);
            let o2 = s.plane_distance(&x);
            ck!(c, (o2 - o).abs() <= 1e-12 * (1.0 + o.abs()), "simplex {} has offset {} instead of {}", k, o2, o);
            for j in 0..N + 1 {
                x[j] = 1.0; let d = s.plane_distance(&x) - o2; x[j] = 0.0;
                ck!(c, (d - n[j]).abs() <= 1e-12 * (1.0 + o.abs() + n[j].abs()), "simplex {} has normal component {} = {} instead of {}", k, j, d, n[j]);
            }
            let nb: Vec<Option<usize>> = s.neighbors().map(|g| g.map(|g| g.index())).collect();
            ck!(c, nb.len() == N + 1, "simplex {} has {} neighbours", i, nb.len());
            for (kth, g) in nb.iter().enumerate() {
                // qhull's own k-th neighbour of the vertex at that place
                let place = rvs.iter().position(|v| v == &vs[kth]).unwrap();
                match g {
                    None => { ck!(c, nn[place].is_none(), "neighbour {} of simplex {:?} is reported absent but qhull has {:?}", kth, vs, nn[place]); }
                    Some(g) => {
                        ck!(c, *g < sv.len(), "neighbour index {} of {}", g, sv.len());
                        let gk = key(sv[*g].iter().map(|v| tv[*v].clone()).collect());
                        ck!(c, nn[place].as_ref() == Some(&gk), "neighbour {} of simplex {:?} is {} instead of {:?}", kth, vs, gk, nn[place]);
                        ck!(c, !sv[*g].contains(&sv[i][kth]), "neighbour {} of {:?} contains the opposite vertex", kth, sv[i]);
                        for (j, v) in sv[i].iter().enumerate() { if j != kth { ck!(c, sv[*g].contains(v), "neighbour {} of {:?} is {:?}: not opposite vertex {}", kth, sv[i], sv[*g], kth); } }
                    }
                }
            }
        }
        Ok(())
    }

    pub fn planes(c: &mut Case, lift: Option<&dyn Fn(&Tri, [f64; N]) -> Vec<f64>>) -> R {
        let pts = points::<N>(&mut c.rng, true, if N == 5 { 14 } else { 30 });
        c.note("points", &pts);
        let raw = RawDelaunay::<Const<N>>::from_arrays(&pts);
        let t = Tri::from_qhull_raw(RawDelaunay::<Const<N>>::from_arrays(&pts));
        let sc = pts.iter().map(|p| mx(p)).fold(1e-9f64, f64::max);
        let mut raws: Vec<(Vec<f64>, f64)> = vec![];
        for f in raw.simplices() { if !f.is_upper_delaunay() { raws.push((f.normal().to_vec(), f.offset())) } }
        for (s, (n, o)) in t.simplices().zip(&raws) {
            let mut x = OVector::<f64, Const<$n1>>::from_element(0.0);
            for j in 0..N + 1 { x[j] = c.rng.fr(-2.0 * sc, 2.0 * sc) }
            let want: f64 = o + (0..N + 1).map(|j| n[j] * x[j]).sum::<f64>();
            let got = s.plane_distance(&x);
            ck!(c, (want - got).abs() <= 1e-9 * (1.0 + sc), "plane distance of {:?} to simplex {} is {} instead of normal.point+offset = {}", x.as_slice(), s.index(), got, want);
        }
        if let Some(lift) = lift {
            for s in t.simplices() {
                for v in s.vertices() {
                    let mut p = [0.0; N]; p.copy_from_slice(v.point().as_slice());
                    let l = lift(&t, p);
                    ck!(c, l.len() == N + 1 && l[..N] == p[..], "lifting {:?} gives {:?}", p, l);
                    let d = s.plane_distance(&OVector::<f64, Const<$n1>>::from_column_slice(&l));
                    ck!(c, d.abs() <= 1e-6 * sc, "the lifted vertex {:?} is {} away from the hyperplane of its simplex {}", l, d, s.index());
                }
            }
            // the same affine image of the squared norm for every point
            let z = lift(&t, [0.0; N])[N];
            let mut e = [0.0; N]; e[0] = sc; let u = lift(&t, e)[N] - z;
            for _ in 0..6 {
                let q = query(&mut c.rng, &pts);
                let s2: f64 = q.iter().map(|x| x * x).sum();
                let l = lift(&t, q);
                ck!(c, (l[N] - (z + u * s2 / (sc * sc))).abs() <= 1e-9 * (u.abs() + z.abs() + sc) * (1.0 + s2 / sc / sc) && l[..N] == q[..], "lifting {:?} gives {:?}", q, l);
            }
        }
        Ok(())
    }

    pub fn rawsearch(c: &mut Case) -> R {
        let pts = points::<N>(&mut c.rng, true, if N == 5 { 14 } else { 24 });
        c.note("points", &pts);
        let t = RawDelaunay::<Const<N>>::from_arrays(&pts);
        let low: Vec<_> = t.simplices().filter(|s| !s.is_upper_delaunay()).collect();
        if low.is_empty() { return Ok(()) }
        let cache = t.compute_barycentric_solver_cache();
        let sc = pts.iter().map(|p| mx(p)).fold(1e-9f64, f64::max);
        // solver cache rows reproduce unit coordinates at the simplex's vertices
        for s in &low {
            let vs: Vec<Vec<f64>> = s.vertices().map(|v| v.point().to_vec()).collect();
            if pivot_ratio(&vs) < 1e-6 { continue }
            let Some(sol) = cache.get(s) else { return Err(format!("no solver for the non-degenerate simplex {:?}", vs)) };
            for (k, v) in vs.iter().enumerate() {
                let mut p = [0.0; N]; p.copy_from_slice(v);
                let co = sol.solve(p.into());
                for j in 0..N + 1 { let w = if j == k { 1.0 } else { 0.0 };
                    ck!(c, (co[j] - w).abs() < 1e-6, "solver coordinates of vertex {} of {:?} are {:?}", k, vs, co.as_slice()); }
            }
        }
        let mut hint = low[c.rng.below(low.len())];
        for _ in 0..10 {
            let q = query(&mut c.rng, &pts);
            let tol = [None, Some(1e-10), Some(1e-6), Some(1e-3)][c.rng.below(4)];
            let use_hint = c.rng.chance(0.6);
            c.note("query", &(q, tol, use_hint, hint.id()));
            let mut co = OVector::<f64, Const<$n1>>::from_element(9.0);
            let e = tol.unwrap_or(100.0 * f64::EPSILON);
            let got = t.find_best_simplex(q.into(), &cache, tol, Some(&mut co), if use_hint { Some(&mut hint) } else { None });
            let Some(s) = got else { c.checks += 1; continue };
            ck!(c, !s.is_upper_delaunay(), "the search for {:?} returned an upper simplex", q);
            if use_hint { ck!(c, hint == s, "the hint was not updated to the returned simplex"); }
            let vs: Vec<Vec<f64>> = s.vertices().map(|v| v.point().to_vec()).collect();
            let sum: f64 = co.iter().sum();
            ck!(c, (sum - 1.0).abs() < 1e-6, "coordinates {:?} of {:?} sum to {}", co.as_slice(), q, sum);
            for i in 0..N {
                let v: f64 = (0..N + 1).map(|k| co[k] * vs[k][i]).sum();
                ck!(c, (v - q[i]).abs() < 1e-6 * sc, "coordinates {:?} recombine {:?} to component {} = {} instead of {:?}", co.as_slice(), vs, i, v, q);
            }
            let nb: Vec<bool> = s.neighbors().map(|g| !g.is_upper_delaunay() && pivot_ratio(&g.vertices().map(|v| v.point().to_vec()).collect::<Vec<_>>()) < 1e-9).collect();
            for k in 0..N + 1 {
                let lo = if nb.get(k) == Some(&true) { -(e.sqrt()) } else { -e };
                ck!(c, co[k] >= lo && co[k] <= 1.0 + e, "coordinate {} = {:e} is outside [0,1] by more than {:e}", k, co[k], e);
            }
            // the variant without stored coordinates
            let mut h2 = s;
            let g2 = t.find_best_simplex__(q.into(), &cache, tol, Some(&mut h2));
            if let Some(g2) = g2 {
                ck!(c, !g2.is_upper_delaunay() && h2 == g2, "find_best_simplex__ returned {:?} and hint {:?}", g2.id(), h2.id());
                let vs: Vec<Vec<f64>> = g2.vertices().map(|v| v.point().to_vec()).collect();
                if pivot_ratio(&vs) > 1e-9 {
                    let a: Vec<Vec<f64>> = (0..N).map(|i| (0..N).map(|j| vs[j][i] - vs[N][i]).collect()).collect();
                    let b: Vec<f64> = (0..N).map(|i| q[i] - vs[N][i]).collect();
                    let (x, _) = geo::solve(a, b).unwrap();
                    let last = 1.0 - x.iter().sum::<f64>();
                    let w = e.sqrt() + 1e-6;
                    ck!(c, x.iter().chain(Some(&last)).all(|f| *f >= -w && *f <= 1.0 + w), "find_best_simplex__({:?}) returned simplex {:?} with coordinates {:?}", q, vs, x);
                }
            }
        }
        Ok(())
    }

    /// Points in convex position: every one must come back as a vertex, at its own place.
    pub fn buffers(c: &mut Case) -> R {
        let n = if N < 5 && c.rng.chance(0.1) { 1000 + c.rng.below(600) } else { N + 2 + c.rng.below(if N == 5 { 30 } else { 120 }) };
        let pts: Vec<[f64; N]> = (0..n).map(|_| loop {
            let mut p = [0.0; N]; let mut l = 0.0;
            for x in p.iter_mut() { *x = c.rng.fr(-1.0, 1.0); l += *x * *x }
            if l > 0.05 && l < 1.0 { let l = l.sqrt(); for x in p.iter_mut() { *x /= l } break p }
        }).collect();
        if !spans(&pts) { return Ok(()) }
        c.note("points", &pts);
        let vecs: Vec<OVector<f64, Const<N>>> = pts.iter().map(|p| (*p).into()).collect();
        struct NoHint<I>(I);
        impl<I: Iterator> Iterator for NoHint<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.0.next() } }
        let hulls = [("from_arrays", RawHull::<Const<N>>::from_arrays(&pts)), ("from_vectors", RawHull::from_vectors(&vecs)),
            ("from_iter", vecs.iter().cloned().collect()), ("from_iter without size hint", NoHint(vecs.iter().cloned()).collect())];
        for (name, h) in &hulls { order(c, name, h.vertices().map(|v| v.point()).collect(), &pts, N)? }
        drop(hulls);
        for (name, h) in [("ConvexHull::from_arrays", Hull::from_arrays(&pts)), ("ConvexHull::from_iter", vecs.iter().cloned().collect::<Hull>())] {
            let mut a: Vec<Vec<f64>> = h.vertices().map(|v| v.point().as_slice().to_vec()).collect();
            let mut b: Vec<Vec<f64>> = pts.iter().map(|p| p.to_vec()).collect();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap()); b.sort_by(|x, y| x.partial_cmp(y).unwrap());
            ck!(c, a == b, "{} lists vertices {:?} instead of {:?}", name, a, b);
        }
        let tris = [("Delaunay::from_arrays", RawDelaunay::<Const<N>>::from_arrays(&pts)), ("Delaunay::from_vectors", RawDelaunay::from_vectors(&vecs))];
        for (name, t) in &tris {
            let mut v: Vec<&[f64]> = vec![];
            for s in t.simplices() { if s.is_upper_delaunay() { continue } for x in s.vertices() { let p = x.point(); if !v.iter().any(|y| y.as_ptr() == p.as_ptr()) { v.push(p) } } }
            order(c, name, v, &pts, N + 1)?;
        }
        Ok(())
    }
    fn order(c: &mut Case, name: &str, mut v: Vec<&[f64]>, pts: &[[f64; N]], stride: usize) -> R {
        v.sort_by_key(|p| p.as_ptr() as usize);
        ck!(c, v.len() == pts.len(), "{}: {} of {} points in convex position became vertices", name, v.len(), pts.len());
        let base = v[0].as_ptr() as usize;
        for (i, p) in v.iter().enumerate() {
            ck!(c, *p == &pts[i][..], "{}: point {} is {:?} instead of {:?}", name, i, p, pts[i]);
            ck!(c, p.as_ptr() as usize == base + i * stride * 8, "{}: point {} is at byte {} of qhull's buffer, not {}", name, i, p.as_ptr() as usize - base, i * stride * 8);
        }
        Ok(())
    }
    pub fn leak(c: &mut Case) -> R {
        let pts = points::<N>(&mut c.rng, false, 12);
        c.note("points", &pts);
        let vecs: Vec<OVector<f64, Const<N>>> = pts.iter().map(|p| (*p).into()).collect();
        let used = || unsafe { libc::mallinfo2().uordblks + libc::mallinfo2().hblkhd } as i64;
        for k in 0..6 {
            let mut go = |n: usize| for _ in 0..n { match k {
                0 => drop(RawHull::<Const<N>>::from_arrays(&pts)), 1 => drop(RawHull::from_vectors(&vecs)),
                2 => drop(vecs.iter().cloned().collect::<RawHull<Const<N>>>()), 3 => drop(Hull::from_arrays(&pts)),
                4 => drop(RawDelaunay::<Const<N>>::from_arrays(&pts)), _ => drop(RawDelaunay::from_vectors(&vecs)) } };
            go(3);
            let grown = (0..5).map(|_| { let a = used(); go(20); used() - a }).min().unwrap();
            ck!(c, grown < 20 * 16, "creating and dropping 20 hulls or triangulations (constructor {}) leaves {} more heap bytes allocated every time", k, grown);
        }
        Ok(())
    }
} } }
dims!(d2, 2, 3);
dims!(d3, 3, 4);
dims!(d5, 5, 6);

pub fn c02(c: &mut Ctx) {
    c.run("search2", 900, |c| d2::search(c, true, false, false));
    c.run("search3", 700, |c| d3::search(c, true, false, false));
    c.run("search5", 120, |c| d5::search(c, true, false, false));
}
pub fn c03(c: &mut Ctx) {
    for s in [false, true] {
        let n = if s { "one-simplex" } else { "history" };
        c.run(&format!("{}2", n), 500, |c| d2::search(c, false, true, s));
        c.run(&format!("{}3", n), 400, |c| d3::search(c, false, true, s));
        c.run(&format!("{}5", n), 80, |c| d5::search(c, false, true, s));
    }
}
pub fn c12(c: &mut Ctx) {
    c.run("hull2", 600, d2::hull);
    c.run("hull3", 800, d3::hull);
    c.run("hull5", 60, d5::hull);
}
pub fn c13(c: &mut Ctx) {
    c.run("tri2", 600, d2::tri);
    c.run("tri3", 400, d3::tri);
    c.run("tri5", 40, d5::tri);
}
pub fn c14(c: &mut Ctx) {
    #[cfg(feature = "vp_lift")]
    {
        c.run("planes2", 500, |c| d2::planes(c, Some(&|t, p| unsafe { crate::shim::vp_lift2(t, p) })));
        c.run("planes3", 400, |c| d3::planes(c, Some(&|t, p| unsafe { crate::shim::vp_lift3(t, p) })));
        c.run("planes5", 40, |c| d5::planes(c, Some(&|t, p| unsafe { crate::shim::vp_lift5(t, p) })));
    }
    #[cfg(not(feature = "vp_lift"))]
    {
        c.run("planes2", 500, |c| d2::planes(c, None));
        c.run("planes3", 400, |c| d3::planes(c, None));
        c.run("planes5", 40, |c| d5::planes(c, None));
    }
}
pub fn c15(c: &mut Ctx) {
    c.run("raw2", 600, d2::rawsearch);
    c.run("raw3", 400, d3::rawsearch);
    c.run("raw5", 50, d5::rawsearch);
}
pub fn c16(c: &mut Ctx) {
    c.run("buffers2", 60, d2::buffers);
    c.run("buffers3", 40, d3::buffers);
    c.run("buffers5", 8, d5::buffers);
    c.run("leak2", 2, d2::leak);
    c.run("leak3", 2, d3::leak);
    c.run("leak5", 1, d5::leak);
}
