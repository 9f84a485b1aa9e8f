use crate::ck;
use crate::geo::{self, P3};
use crate::hulls::spans;
#[allow(unused_imports)] use crate::shim;
use crate::util::*;
use image::{GenericImageView, ImageBuffer, Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use nalgebra::{Const, DMatrix, Vector3};
use qhull_rs::ConvexHull;
use std::collections::HashMap;

pub type Hull3 = ConvexHull<Const<3>>;
pub fn col(p: Rgb<u8>) -> P3 { [p[0] as f64, p[1] as f64, p[2] as f64] }

/// Images whose pixels span colour space and the 5-dimensional colour-and-position space.
pub fn gen_image(r: &mut Rng, maxd: usize, lo: i64, hi: i64) -> RgbImage {
    loop {
        let (w, h) = (2 + r.below(maxd - 1) as u32, 2 + r.below(maxd - 1) as u32);
        if w * h < 9 { continue }
        let mode = r.below(4);
        let k = 5 + r.below(6);
        let base: Vec<[i64; 3]> = (0..k).map(|_| [r.range(lo, hi), r.range(lo, hi), r.range(lo, hi)]).collect();
        let img: RgbImage = ImageBuffer::from_fn(w, h, |x, y| {
            let mut p = match mode {
                0 => [r.range(lo, hi), r.range(lo, hi), r.range(lo, hi)],
                1 => base[r.below(k)],
                2 => { let d = hi - lo; [lo + d * x as i64 / w as i64, lo + d * y as i64 / h as i64, lo + d * (x as i64 * y as i64) / (w * h) as i64] }
                _ => { let b = base[(x as usize * 7 + y as usize * 3) % k]; [b[0] + r.range(-9, 9), b[1] + r.range(-9, 9), b[2] + r.range(-9, 9)] }
            };
            for c in p.iter_mut() { *c = (*c).clamp(lo, hi) }
            Rgb([p[0] as u8, p[1] as u8, p[2] as u8])
        });
        let p5: Vec<[f64; 5]> = img.enumerate_pixels().map(|(x, y, p)| [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0, x as f64 / w as f64, y as f64 / h as f64]).collect();
        let p3: Vec<[f64; 3]> = img.pixels().map(|p| col(*p)).collect();
        let scale = p3.iter().map(|p| [p[0] / 255.0, p[1] / 255.0, p[2] / 255.0]).collect::<Vec<_>>();
        if well(&p5, 0.02) && well(&scale, 0.02) { return img }
    }
}
fn well<const N: usize>(v: &[[f64; N]], tol: f64) -> bool {
    let mut rows: Vec<Vec<f64>> = v.iter().skip(1).map(|p| (0..N).map(|i| p[i] - v[0][i]).collect()).collect();
    for k in 0..N {
        let (mut bi, mut bj, mut bv) = (0, 0, -1.0);
        for i in k..rows.len() { for j in k..N { if rows[i][j].abs() > bv { bv = rows[i][j].abs(); bi = i; bj = j } } }
        if bv < tol { return false }
        rows.swap(k, bi);
        for r in rows.iter_mut() { r.swap(k, bj) }
        for i in k + 1..rows.len() { let f = rows[i][k] / rows[k][k]; for j in k..N { let t = rows[k][j]; rows[i][j] -= f * t } }
    }
    true
}
fn note_img(c: &mut Case, img: &RgbImage) { let v: Vec<[u8; 3]> = img.pixels().map(|p| p.0).collect(); c.note("image", &(img.width(), img.height(), v)); }

/// A palette in convex position (every colour an extreme point by a margin), shuffled.
pub fn gen_palette(r: &mut Rng, maxn: usize) -> Vec<Rgb<u8>> {
    loop {
        let n = 4 + r.below(maxn - 3);
        let mode = r.below(4);
        let ctr = [r.fr(110.0, 145.0), r.fr(110.0, 145.0), r.fr(110.0, 145.0)];
        let rad = r.fr(60.0, 105.0);
        let mut v: Vec<Rgb<u8>> = (0..n).map(|_| match mode {
            0 | 1 => loop {
                let d = [r.fr(-1.0, 1.0), r.fr(-1.0, 1.0), r.fr(-1.0, 1.0)];
                let l = geo::norm(d);
                if l > 0.1 && l < 1.0 { break Rgb([0, 1, 2].map(|i| (ctr[i] + rad * d[i] / l).round() as u8)) }
            },
            _ => Rgb([r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]),
        }).collect();
        if mode == 3 { // box corners, possibly cut: coplanar facets that touch the darkest colour
            let a = [r.below(100) as u8, r.below(100) as u8, r.below(100) as u8];
            let b = [150 + r.below(106) as u8, 150 + r.below(106) as u8, 150 + r.below(106) as u8];
            v = (0..8).map(|k| Rgb([0, 1, 2].map(|i| if k >> i & 1 == 0 { a[i] } else { b[i] }))).collect();
            if r.chance(0.3) { v.swap_remove(r.below(8)); }
        }
        r.shuffle(&mut v);
        if convex_position(&v, 2.0) { return v }
    }
}
pub fn convex_position(v: &[Rgb<u8>], margin: f64) -> bool {
    let p: Vec<P3> = v.iter().map(|c| col(*c)).collect();
    if v.len() < 4 || !spans(&p) { return false }
    if !well(&p, 12.0) { return false }
    (0..p.len()).all(|i| {
        let rest: Vec<P3> = p.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, q)| *q).collect();
        geo::hull_nearest(p[i], &rest).0 > margin
    })
}
fn query_color(r: &mut Rng, p: &[P3]) -> P3 {
    match r.below(6) {
        0 => p[r.below(p.len())],
        1 => { let (a, b) = (p[r.below(p.len())], p[r.below(p.len())]); geo::mul(geo::add(a, b), 0.5) }
        2 => { let (a, b, d) = (p[r.below(p.len())], p[r.below(p.len())], p[r.below(p.len())]); geo::mul(geo::add(geo::add(a, b), d), 1.0 / 3.0) }
        3 | 4 => [r.below(256) as f64, r.below(256) as f64, r.below(256) as f64],
        _ => { let mut q = [0.0; 3]; let mut t = 0.0; for _ in 0..5 { let w = r.f(); t += w; q = geo::add(q, geo::mul(p[r.below(p.len())], w)) } geo::mul(q, 1.0 / t) }
    }
}

fn weights_case(c: &mut Case, maxd: usize) -> R {
    let (lo, hi) = [(0, 255), (0, 255), (0, 60), (180, 255)][c.rng.below(4)];
    let img = gen_image(&mut c.rng, maxd, lo, hi);
    weights_of(c, img)
}
fn weights_of(c: &mut Case, img: RgbImage) -> R {
    note_img(c, &img);
    let sub = c.rng.chance(0.3);
    // the same picture seen through a view into a larger one
    let (ox, oy) = (c.rng.below(4) as u32, c.rng.below(4) as u32);
    let mut big = RgbImage::from_pixel(img.width() + 5, img.height() + 5, Rgb([255, 0, 255]));
    for (x, y, p) in img.enumerate_pixels() { big.put_pixel(x + ox, y + oy, *p) }
    let w = if sub { ImageWeights::new(&*big.view(ox, oy, img.width(), img.height())) } else { ImageWeights::new(&img) };
    c.note("view", &sub);
    ck!(c, w.width() == img.width() && w.height() == img.height(), "recorded size is {}x{}", w.width(), w.height());
    #[cfg(feature = "vp_w")]
    {
        let (rows, cols, trip, rgb, ww, wh) = unsafe { shim::vp_w_parts(&w) };
        ck!(c, ww == img.width() && wh == img.height(), "recorded size is {}x{}", ww, wh);
        ck!(c, rows == (img.width() * img.height()) as usize, "{} rows of weights", rows);
        ck!(c, cols == rgb.len(), "{} columns of weights but {} hull colours", cols, rgb.len());
        let mut sum = vec![0.0; rows]; let mut mixc = vec![[0.0; 3]; rows]; let mut cnt = vec![0; rows];
        for (i, j, v) in trip {
            ck!(c, v >= -1e-4 && v <= 1.0 + 1e-4, "pixel {} has weight {}", i, v);
            sum[i] += v; cnt[i] += 1; mixc[i] = geo::add(mixc[i], geo::mul(rgb[j], v));
        }
        for (i, p) in img.pixels().enumerate() {
            let (x, y) = (i as u32 % img.width(), i as u32 / img.width());
            ck!(c, (sum[i] - 1.0).abs() < 1e-7, "the weights of pixel ({},{}) sum to {}", x, y, sum[i]);
            ck!(c, cnt[i] <= 6, "pixel ({},{}) has {} weights", x, y, cnt[i]);
            ck!(c, geo::norm(geo::sub(mixc[i], col(*p))) < 1e-4, "the weights of pixel ({},{}) give {:?} instead of {:?}", x, y, mixc[i], p);
        }
    }
    // through the public interface: an enclosing palette reproduces every pixel
    let big = [Rgb([0u8, 0, 0]), Rgb([255, 0, 0]), Rgb([0, 255, 0]), Rgb([0, 0, 255]), Rgb([255, 255, 0]), Rgb([255, 0, 255]), Rgb([0, 255, 255]), Rgb([255, 255, 255])];
    let d = match DecomposedImage::new(&w, &big) { Ok(d) => d, Err(e) => return Err(format!("the cube palette is rejected: {}", e)) };
    same_picture(c, &img, &d.reconstruct(&big).unwrap(), |_| true)
}
fn same_picture(c: &mut Case, img: &RgbImage, out: &RgbImage, inside: impl Fn(P3) -> bool) -> R {
    ck!(c, out.width() == img.width() && out.height() == img.height(), "result is {}x{}", out.width(), out.height());
    for (x, y, p) in img.enumerate_pixels() {
        if !inside(col(*p)) { continue }
        let q = out.get_pixel(x, y);
        for k in 0..3 { ck!(c, (p[k] as i32 - q[k] as i32).abs() <= 1, "pixel ({},{}) is {:?} instead of {:?}", x, y, q, p); }
    }
    Ok(())
}
/// Long thin pictures (positions beyond 8 bits).
fn strip(r: &mut Rng) -> RgbImage {
    loop {
        let (a, b) = (2 + r.below(2) as u32, 200 + r.below(200) as u32);
        let (w, h) = if r.chance(0.5) { (a, b) } else { (b, a) };
        let k = 5 + r.below(4);
        let base: Vec<[u8; 3]> = (0..k).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect();
        let mut inner = vec![]; for _ in 0..6 { let (x, y) = (base[r.below(k)], base[r.below(k)]); inner.push([0, 1, 2].map(|i| ((x[i] as u32 + y[i] as u32) / 2) as u8)) }
        let img: RgbImage = ImageBuffer::from_fn(w, h, |_, _| Rgb(if r.chance(0.03) { base[r.below(k)] } else { inner[r.below(6)] }));
        let p5: Vec<[f64; 5]> = img.enumerate_pixels().map(|(x, y, p)| [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0, x as f64 / w as f64, y as f64 / h as f64]).collect();
        if well(&p5, 0.02) { return img }
    }
}
/// A picture of more than 65536 pixels: blended colours, with a few extreme ones at random places.
pub fn large(r: &mut Rng) -> RgbImage {
    let (w, h) = [(300, 230), (230, 300), (2, 33000), (33000, 2), (70, 1000)][r.below(5)];
    let base: Vec<[u8; 3]> = (0..8).map(|i| [0, 1, 2].map(|k| if i >> k & 1 == 1 { 255 - r.below(60) as u8 } else { r.below(60) as u8 })).collect();
    let inner: Vec<[u8; 3]> = (0..40).map(|_| [0, 1, 2].map(|_| 80 + r.below(90) as u8)).collect();
    let mut img: RgbImage = ImageBuffer::from_fn(w, h, |_, _| Rgb(inner[r.below(40)]));
    for b in &base { for _ in 0..3 { let (x, y) = (r.below(w as usize) as u32, r.below(h as usize) as u32); img.put_pixel(x, y, Rgb(*b)) } }
    img
}
pub fn c01(c: &mut Ctx) {
    c.run("large", 1, |c| { let i = large(&mut c.rng); weights_of(c, i) });
    c.run("strip", 2, |c| { let i = strip(&mut c.rng); weights_of(c, i) });
    c.run("weights-small", 40, |c| weights_case(c, 6));
    c.run("weights", 12, |c| weights_case(c, 14));
}

pub fn c04(c: &mut Ctx) {
    #[cfg(feature = "vp_star")]
    c.run("star", 900, |c| {
        let pal = gen_palette(&mut c.rng, 10);
        let p: Vec<P3> = pal.iter().map(|x| col(*x)).collect();
        let cols: Vec<P3> = (0..8).map(|_| query_color(&mut c.rng, &p)).collect();
        c.note("palette", &pal); c.note("colours", &cols);
        let ch: Hull3 = p.iter().map(|x| (*x).into()).collect();
        let v: Vec<Vector3<f64>> = cols.iter().map(|x| (*x).into()).collect();
        let m = unsafe { shim::vp_star_coords(&pal, &ch, &v) };
        ck!(c, m.nrows() == cols.len() && m.ncols() == pal.len(), "{}x{} coordinates for {} colours and {} palette entries", m.nrows(), m.ncols(), cols.len(), pal.len());
        for (i, q) in cols.iter().enumerate() {
            let row: Vec<f64> = (0..pal.len()).map(|j| m[(i, j)]).collect();
            ck!(c, row.iter().filter(|x| **x != 0.0).count() <= 4, "colour {:?} has more than four coordinates: {:?}", q, row);
            ck!(c, (row.iter().sum::<f64>() - 1.0).abs() < 1e-6, "the coordinates of {:?} sum to {}: {:?}", q, row.iter().sum::<f64>(), row);
            ck!(c, row.iter().all(|x| *x >= -1.1e-6 && *x <= 1.0 + 1.1e-6), "the coordinates of {:?} leave [0,1]: {:?}", q, row);
            let mut s = [0.0; 3];
            for j in 0..pal.len() { s = geo::add(s, geo::mul(p[j], row[j])) }
            let (d, near) = geo::hull_nearest(*q, &p);
            ck!(c, geo::norm(geo::sub(s, near)) < 2e-3, "the coordinates of {:?} give {:?} instead of {:?} (distance to the hull {})", q, s, near, d);
        }
        Ok(())
    });
    c.run("public", 60, |c| {
        // one decomposition through the public interface; the picture's hull lies in or out of the palette
        let img = gen_image(&mut c.rng, 5, 0, 255);
        let pal = gen_palette(&mut c.rng, 9);
        note_img(c, &img); c.note("palette", &pal);
        let p: Vec<P3> = pal.iter().map(|x| col(*x)).collect();
        let w = ImageWeights::new(&img);
        let d = match DecomposedImage::new(&w, &pal) { Ok(d) => d, Err(e) => return Err(format!("palette rejected: {}", e)) };
        let out = d.reconstruct(&pal).unwrap();
        // extreme pixels of the 5-d hull keep or project: corner pixels are always hull vertices
        for (x, y) in [(0, 0), (img.width() - 1, 0), (0, img.height() - 1), (img.width() - 1, img.height() - 1)] {
            let q = col(*img.get_pixel(x, y));
            let (_, near) = geo::hull_nearest(q, &p);
            let o = out.get_pixel(x, y);
            for k in 0..3 { ck!(c, (o[k] as f64 - near[k]).abs() <= 1.001, "corner pixel {:?} is recoloured to {:?} instead of {:?}", q, o, near); }
        }
        Ok(())
    });
}

pub fn c05(c: &mut Ctx) {
    #[cfg(feature = "vp_tri")]
    for (name, n) in [("lattice", 60000u64), ("real", 20000)] {
        c.run(name, n, |c| {
            let lat = name == "lattice";
            let sc = if lat { 1.0 } else { [1.0, 255.0, 1e-3][c.rng.below(3)] };
            let k = 1 + c.rng.below(6) as i64;
            let mut g = |r: &mut Rng| -> P3 { [0, 1, 2].map(|_| if lat { r.range(-k, k) as f64 } else { r.fr(-sc, sc) }) };
            let (a, b, d) = (g(&mut c.rng), g(&mut c.rng), g(&mut c.rng));
            let mut p = g(&mut c.rng);
            if c.rng.chance(0.2) { let t = [c.rng.f(), c.rng.f(), c.rng.f()]; for i in 0..3 { p[i] = t[0] * a[i] + t[1] * b[i] + t[2] * d[i] } }
            let ar = geo::norm(geo::cross(geo::sub(b, a), geo::sub(d, a)));
            let l = [geo::norm(geo::sub(b, a)), geo::norm(geo::sub(d, a)), geo::norm(geo::sub(b, d))];
            let lm = l.iter().cloned().fold(0.0, f64::max);
            if ar < 1e-3 * lm * lm { return Ok(()) }
            c.note("point,v0,v1,v2", &(p, a, b, d));
            let q = unsafe { shim::vp_tri_closest(&p.into(), &a.into(), &b.into(), &d.into()) };
            let q = [q[0], q[1], q[2]];
            let want = geo::tri_closest(p, a, b, d);
            let s = sc.max(if lat { k as f64 } else { sc });
            ck!(c, geo::norm(geo::sub(q, want)) <= 1e-6 * s, "nearest point is {:?} instead of {:?}", q, want);
            let d2 = unsafe { shim::vp_tri_dist2(&p.into(), &a.into(), &b.into(), &d.into()) };
            let w2 = geo::dot(geo::sub(p, want), geo::sub(p, want));
            ck!(c, (d2 - w2).abs() <= 1e-6 * s * s, "squared distance is {} instead of {}", d2, w2);
            Ok(())
        });
    }
    #[cfg(not(feature = "vp_tri"))]
    c04(c);
}

fn small_weights(seed: u64) -> (RgbImage, ImageWeights) {
    let mut r = Rng::new(seed);
    let img = gen_image(&mut r, 5, 0, 255);
    let w = ImageWeights::new(&img);
    (img, w)
}
pub fn c06(c: &mut Ctx) {
    let (img, w) = small_weights(c.seed);
    c.run("accept", 500, |c| {
        let mut pal = gen_palette(&mut c.rng, 9);
        let p: Vec<P3> = pal.iter().map(|x| col(*x)).collect();
        let kind = c.rng.below(8);
        let mut ok = true;
        match kind {
            3 | 4 => { // a colour inside the hull, close to one of its vertices (or anywhere)
                let v = p[c.rng.below(p.len())];
                let q = if c.rng.chance(0.8) { let m = 1 + c.rng.below(3) as i64; [0, 1, 2].map(|i| v[i] + c.rng.range(-m, m) as f64) } else { [0, 1, 2].map(|_| c.rng.below(256) as f64) };
                if q.iter().any(|x| *x < 0.0 || *x > 255.0) || geo::depth(q, &p) < 0.02 { return Ok(()) }
                let q = Rgb(q.map(|x| x as u8));
                if pal.contains(&q) { return Ok(()) }
                let i = c.rng.below(pal.len() + 1);
                pal.insert(i, q); ok = false
            }
            5 => { // more colours, all of them extreme
                let (n, rad) = (10 + c.rng.below(40), c.rng.fr(100.0, 127.0));
                let mut v: Vec<Rgb<u8>> = vec![];
                for _ in 0..n { let d = [c.rng.fr(-1.0, 1.0), c.rng.fr(-1.0, 1.0), c.rng.fr(-1.0, 1.0)]; let l = geo::norm(d); if l < 0.1 { continue } let q = Rgb([0, 1, 2].map(|i| (127.5 + rad * d[i] / l).round() as u8)); if !v.contains(&q) { v.push(q) } }
                if !convex_position(&v, 0.5) { return Ok(()) }
                pal = v;
            }
            0 => { let k = c.rng.below(4); pal.truncate(k); ok = false }
            1 => { // an interior colour
                let ctr = geo::mul(p.iter().fold([0.0; 3], |s, x| geo::add(s, *x)), 1.0 / p.len() as f64);
                let i = c.rng.below(pal.len() + 1);
                let q = Rgb([0, 1, 2].map(|i| ctr[i].round() as u8));
                if pal.contains(&q) || geo::depth(col(q), &p) < 3.0 { return Ok(()) }
                pal.insert(i, q); ok = false
            }
            2 => { let q = pal[c.rng.below(pal.len())]; let i = c.rng.below(pal.len() + 1); pal.insert(i, q); ok = false }
            _ => ()
        }
        c.note("palette", &pal);
        let r = DecomposedImage::new(&w, &pal);
        ck!(c, r.is_ok() == ok, "a palette that should be {} is {}", if ok { "accepted" } else { "rejected" }, if ok { format!("rejected: {}", r.as_ref().err().unwrap()) } else { "accepted".into() });
        if let Ok(d) = r {
            ck!(c, d.num_channels() == pal.len(), "{} channels for {} colours", d.num_channels(), pal.len());
            ck!(c, d.width() == img.width() && d.height() == img.height(), "size {}x{}", d.width(), d.height());
        }
        Ok(())
    });
}
fn level_ok(v: f64, got: u8, slack: f64) -> bool {
    let f = |x: f64| { let x = x.clamp(0.0, 255.0); (x.floor(), x.round()) };
    let g = got as f64;
    [v - slack, v, v + slack].iter().any(|x| { let (a, b) = f(*x); a == g || b == g })
}
#[cfg(feature = "vp_d")]
fn gen_matrix(c: &mut Case) -> (DMatrix<f64>, u32, u32) {
    let (mut w, mut h) = (1 + c.rng.below(7) as u32, 1 + c.rng.below(7) as u32);
    let mut ch = 1 + c.rng.below(12);
    match c.rng.below(16) { 0 => w = 250 + c.rng.below(60) as u32, 1 => h = 250 + c.rng.below(60) as u32, 2 => { w = 1; h = 1; ch = 250 + c.rng.below(20) } _ => () }
    if c.rng.chance(0.001) { (w, h) = [(1, 70000), (70000, 1), (300, 230)][c.rng.below(3)]; ch = 1 + c.rng.below(3) }
    let m = DMatrix::from_fn((w * h) as usize, ch, |_, _| match c.rng.below(6) { 0 => 0.0, 1 => 1.0, 2 => c.rng.fr(-1.0, 2.0), 3 => -1e-9, _ => c.rng.f() / 2.0 });
    c.note("size", &(w, h)); c.note("matrix", &m.as_slice());
    (m, w, h)
}
pub fn c07(c: &mut Ctx) {
    #[cfg(feature = "vp_d")]
    c.run("matrix", 2500, |c| {
        let (m, w, h) = gen_matrix(c);
        let d = unsafe { shim::vp_d_make(m.clone(), w, h) };
        let n = match c.rng.below(5) { 0 => c.rng.below(14), _ => m.ncols() };
        let pal: Vec<Rgb<u8>> = (0..n).map(|_| Rgb([c.rng.below(256) as u8, c.rng.below(256) as u8, c.rng.below(256) as u8])).collect();
        c.note("palette", &pal);
        recon_check(c, &d, &m, w, h, &pal)
    });
    #[cfg(feature = "vp_dm")]
    c.run("decomposed", 25, |c| {
        let img = gen_image(&mut c.rng, 6, 0, 255);
        let pal = gen_palette(&mut c.rng, 8);
        note_img(c, &img); c.note("palette", &pal);
        let d = DecomposedImage::new(&ImageWeights::new(&img), &pal).map_err(|e| format!("palette rejected: {}", e))?;
        let m = unsafe { shim::vp_dm_matrix(&d) };
        let n = if c.rng.chance(0.2) { c.rng.below(14) } else { pal.len() };
        let np: Vec<Rgb<u8>> = (0..n).map(|_| Rgb([c.rng.below(256) as u8, c.rng.below(256) as u8, c.rng.below(256) as u8])).collect();
        recon_check(c, &d, &m, img.width(), img.height(), &np)
    });
    c.run("public", 25, |c| channels_public(c));
}
fn recon_check(c: &mut Case, d: &DecomposedImage, m: &DMatrix<f64>, w: u32, h: u32, pal: &[Rgb<u8>]) -> R {
    let r = d.reconstruct(pal);
    ck!(c, r.is_some() == (pal.len() == m.ncols()), "{} colours for {} channels give {}", pal.len(), m.ncols(), if r.is_some() { "a picture" } else { "nothing" });
    let Some(out) = r else { return Ok(()) };
    ck!(c, out.width() == w && out.height() == h && out.len() == (3 * w * h) as usize, "result is {}x{}", out.width(), out.height());
    for y in 0..h { for x in 0..w { for k in 0..3 {
        let i = (y * w + x) as usize;
        let v: f64 = (0..pal.len()).map(|j| m[(i, j)] * pal[j][k] as f64).sum();
        ck!(c, level_ok(v, out.get_pixel(x, y)[k], 1e-6), "component {} of pixel ({},{}) is {} but its mixture is {}", k, x, y, out.get_pixel(x, y)[k], v);
    } } }
    Ok(())
}
/// Public-interface relation between channel images and reconstruction.
fn channels_public(c: &mut Case) -> R {
    let img = gen_image(&mut c.rng, 6, 0, 255);
    let pal = gen_palette(&mut c.rng, 8);
    note_img(c, &img); c.note("palette", &pal);
    let d = DecomposedImage::new(&ImageWeights::new(&img), &pal).map_err(|e| format!("palette rejected: {}", e))?;
    let n = d.num_channels();
    for extra in [n, n + 1, usize::MAX] { ck!(c, d.get_channel_grayscale(extra).is_none(), "channel {} of {} exists", extra, n); }
    for k in [0, n - 1, n + 1] { if k != n { ck!(c, d.reconstruct(&vec![Rgb([1, 2, 3]); k]).is_none(), "{} colours are accepted for {} channels", k, n); } }
    let mut tot = vec![0i32; (img.width() * img.height()) as usize];
    for ch in 0..n {
        let Some(g) = d.get_channel_grayscale(ch) else { return Err(format!("channel {} of {} is missing", ch, n)) };
        ck!(c, g.width() == img.width() && g.height() == img.height(), "channel image is {}x{}", g.width(), g.height());
        // white for that channel only: reconstruct paints the same levels
        let mut q = vec![Rgb([0, 0, 0]); n]; q[ch] = Rgb([255, 255, 255]);
        let Some(o) = d.reconstruct(&q) else { return Err("reconstruct gives nothing".into()) };
        for (x, y, p) in g.enumerate_pixels() {
            tot[(y * img.width() + x) as usize] += p[0] as i32;
            let o = o.get_pixel(x, y);
            ck!(c, (0..3).all(|k| (o[k] as i32 - p[0] as i32).abs() <= 1), "channel {} at ({},{}) is {} but the picture painted with it is {:?}", ch, x, y, p[0], o);
        }
    }
    for (i, t) in tot.iter().enumerate() { ck!(c, *t >= 254 - n as i32 && *t <= 256 + n as i32, "the channels of pixel {} add up to {}", i, t); }
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    #[cfg(feature = "vp_d")]
    c.run("matrix", 2500, |c| {
        let (m, w, h) = gen_matrix(c);
        let d = unsafe { shim::vp_d_make(m.clone(), w, h) };
        gray_check(c, &d, &m, w, h)
    });
    #[cfg(feature = "vp_dm")]
    c.run("decomposed", 25, |c| {
        let img = gen_image(&mut c.rng, 6, 0, 255);
        let pal = gen_palette(&mut c.rng, 8);
        note_img(c, &img); c.note("palette", &pal);
        let d = DecomposedImage::new(&ImageWeights::new(&img), &pal).map_err(|e| format!("palette rejected: {}", e))?;
        let m = unsafe { shim::vp_dm_matrix(&d) };
        gray_check(c, &d, &m, img.width(), img.height())
    });
    c.run("public", 25, |c| channels_public(c));
}
fn gray_check(c: &mut Case, d: &DecomposedImage, m: &DMatrix<f64>, w: u32, h: u32) -> R {
    let n = m.ncols();
    ck!(c, d.num_channels() == n, "{} channels reported", d.num_channels());
    for extra in [n, n + 1, usize::MAX] { ck!(c, d.get_channel_grayscale(extra).is_none(), "channel {} of {} exists", extra, n); }
    for ch in 0..n {
        let Some(g) = d.get_channel_grayscale(ch) else { return Err(format!("channel {} of {} is missing", ch, n)) };
        ck!(c, g.width() == w && g.height() == h, "channel image is {}x{}", g.width(), g.height());
        for (x, y, p) in g.enumerate_pixels() {
            let v = m[((y * w + x) as usize, ch)] * 255.0;
            ck!(c, level_ok(v, p[0], 0.0), "channel {} at ({},{}) is {} but its weight is {}", ch, x, y, p[0], v / 255.0);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- palettes
fn hull_of(pts: impl Iterator<Item = P3>) -> Hull3 { pts.map(|p| p.into()).collect() }
fn hull_pts(h: &Hull3) -> Vec<P3> { h.vertices().map(|v| { let p = v.point(); [p[0], p[1], p[2]] }).collect() }
fn round_pal(p: &[P3]) -> Vec<[u8; 3]> { let mut v: Vec<[u8; 3]> = p.iter().map(|p| [0, 1, 2].map(|i| (p[i].clamp(0.0, 1.0) * 255.0).round() as u8)).collect(); v.sort(); v }
fn counts(img: &RgbImage) -> Vec<(P3, f64)> {
    let mut m: HashMap<[u8; 3], f64> = HashMap::new();
    for p in img.pixels() { *m.entry(p.0).or_insert(0.0) += 1.0 }
    let mut v: Vec<_> = m.into_iter().collect(); v.sort_by_key(|x| x.0);
    v.into_iter().map(|(p, n)| ([0, 1, 2].map(|i| p[i] as f64 / 255.0), n)).collect()
}
/// Root-mean-square distance to the clamped hull (independent of the code under test).
pub fn rms(h: &[P3], counts: &[(P3, f64)]) -> f64 {
    let cl: Vec<P3> = h.iter().map(|p| p.map(|x| x.clamp(0.0, 1.0))).collect();
    let (mut s, mut n) = (0.0, 0.0);
    for (p, k) in counts { let d = geo::hull_nearest(*p, &cl).0; s += d * d * k; n += k }
    (s / n).sqrt()
}
/// A colour as the code scales it.
fn unit(p: Rgb<u8>) -> P3 { [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0] }
fn few_colors(r: &mut Rng) -> RgbImage {
    loop {
        let k = 5 + r.below(7);
        let m = r.below(3);
        let pal: Vec<[u8; 3]> = (0..k).map(|_| [0, 1, 2].map(|_| match m { 0 => r.below(256) as u8, 1 => [0u8, 255, 128, 64][r.below(4)], _ => (40 + r.below(170)) as u8 })).collect();
        let (w, h) = (3 + r.below(5) as u32, 3 + r.below(5) as u32);
        let img: RgbImage = ImageBuffer::from_fn(w, h, |_, _| Rgb(if r.chance(0.6) { pal[r.below(k)] } else { let (a, b, t) = (pal[r.below(k)], pal[r.below(k)], r.f()); [0, 1, 2].map(|i| (a[i] as f64 * t + b[i] as f64 * (1.0 - t)) as u8) }));
        let p3: Vec<P3> = img.pixels().map(|p| unit(*p)).collect();
        if well(&p3, 0.05) { return img }
    }
}
pub fn c09(c: &mut Ctx) {
    c.run("octahedron", 4, |c| {
        // no edge of an octahedron can be collapsed outwards
        let m = c.rng.range(100, 150) as u8; let d = c.rng.range(60, 100) as u8;
        let v = [[m - d, m, m], [m + d, m, m], [m, m - d, m], [m, m + d, m], [m, m, m - d], [m, m, m + d]];
        let img: RgbImage = ImageBuffer::from_fn(4, 3, |x, y| Rgb(v[((x + 4 * y) % 6) as usize]));
        note_img(c, &img);
        let p = compute_palette(&img, 4, 4, 1e9);
        ck!(c, p.len() >= 4, "palette {:?}", p);
        Ok(())
    });
    c.run("palette", 220, |c| {
        let img = few_colors(&mut c.rng);
        note_img(c, &img);
        let (min, max) = (c.rng.below(9), c.rng.below(14));
        c.note("min,max", &(min, max));
        let h0 = hull_of(img.pixels().map(|p| unit(*p)));
        let start = hull_pts(&h0);
        // a hull no bigger than the target is returned as it is
        let p = compute_palette(&img, start.len() + c.rng.below(3), max, 1e9);
        let mut got: Vec<[u8; 3]> = p.iter().map(|x| x.0).collect(); got.sort();
        ck!(c, got == round_pal(&start), "target above the hull size: palette {:?} instead of {:?}", got, round_pal(&start));
        // a hull within the maximum whose error exceeds the (negative) bound is returned as it is
        let p = compute_palette(&img, min, start.len() + c.rng.below(3), -1.0);
        let mut got: Vec<[u8; 3]> = p.iter().map(|x| x.0).collect(); got.sort();
        ck!(c, got == round_pal(&start), "negative bound: palette {:?} instead of {:?}", got, round_pal(&start));
        let eb = [0.0, 1e9, 2.0 / 255.0][c.rng.below(3)];
        let p = compute_palette(&img, min, max, eb);
        ck!(c, p.len() >= 4, "the palette has {} colours", p.len());
        ck!(c, p.len() <= start.len(), "{} colours from a hull of {}", p.len(), start.len());
        if start.len() > min.max(4) && p.len() == start.len() && eb == 1e9 && min <= 4 {
            #[cfg(feature = "vp_edge")]
            ck!(c, unsafe { shim::vp_edge_locate(&h0) }.map_or(true, |(q, e)| {
                let pts: Vec<P3> = h0.vertices().filter(|v| !e.contains(&v.index())).map(|v| { let p = v.point(); [p[0], p[1], p[2]] }).chain(std::iter::once(q)).collect();
                hull_of(pts.into_iter()).vertices().len() >= start.len() }), "a hull of {} was not simplified towards {}", start.len(), min);
        }
        Ok(())
    });
    #[cfg(feature = "vp_edge")]
    c.run("rounds", 160, |c| rounds(c));
}
/// The whole simplification loop against a restatement of its contract over hulls.
#[cfg(feature = "vp_edge")]
fn rounds(c: &mut Case) -> R {
    // a component half way between two levels may go either way
    let matches = |got: &[[u8; 3]], want: &[P3]| {
        let near = |x: &[u8; 3], y: &P3| (0..3).all(|k| (x[k] as f64 - y[k].clamp(0.0, 1.0) * 255.0).abs() <= 0.5 + 1e-6);
        got.len() == want.len() && got.iter().all(|x| want.iter().any(|y| near(x, y))) && want.iter().all(|y| got.iter().any(|x| near(x, y)))
    };
    let img = few_colors(&mut c.rng);
    note_img(c, &img);
    let cn = counts(&img);
    let mut h = hull_of(img.pixels().map(|p| unit(*p)));
    let (min, max) = (c.rng.below(8), c.rng.below(14));
    let target = min.max(4);
    let mut path = vec![(hull_pts(&h), rms(&hull_pts(&h), &cn))];
    while h.vertices().len() > target {
        let Some((p, e)) = (unsafe { shim::vp_edge_locate(&h) }) else { break };
        // equally good edges: the choice depends on the iteration order of a hash map
        for _ in 0..4 { if unsafe { shim::vp_edge_locate(&h) }.map_or(true, |(q, f)| f != e || geo::norm(geo::sub(p, q)) > 1e-9) { return Ok(()) } }
        let n = h.vertices().len();
        let mut pts: Vec<P3> = h.vertices().filter(|v| !e.contains(&v.index())).map(|v| { let p = v.point(); [p[0], p[1], p[2]] }).collect();
        pts.push(p);
        ck!(c, pts.len() == n - 1, "the edge {:?} to collapse is not two of {} vertices", e, n);
        let nh = hull_of(pts.into_iter());
        ck!(c, nh.vertices().len() < n, "a round did not shrink the hull");
        h = nh;
        path.push((hull_pts(&h), rms(&hull_pts(&h), &cn)));
    }
    // choose a bound that no error is close to
    let mut errs: Vec<f64> = path.iter().map(|x| x.1).collect(); errs.sort_by(f64::total_cmp);
    let i = c.rng.below(errs.len());
    let eb = if c.rng.chance(0.2) { 1e9 } else { let nx = errs.get(i + 1).copied().unwrap_or(errs[i] + 0.1); if nx - errs[i] < 1e-5 { errs[errs.len() - 1] + 0.01 } else { (errs[i] + nx) / 2.0 } };
    c.note("min,max,bound", &(min, max, eb));
    let mut want = &path[path.len() - 1].0;
    for (k, (p, e)) in path.iter().enumerate() {
        if p.len() <= target { want = p; break }
        if p.len() <= max && *e > eb { want = p; break }
    }
    let got = compute_palette(&img, min, max, eb);
    let mut got: Vec<[u8; 3]> = got.iter().map(|x| x.0).collect(); got.sort();
    ck!(c, matches(&got, want), "the palette is {:?}; simplifying while the size exceeds {} and (above {} colours, or error at most {}) gives {:?}; errors per round {:?}", got, target, max, eb, round_pal(want), path.iter().map(|x| (x.0.len(), x.1)).collect::<Vec<_>>());
    Ok(())
}
pub fn c10(c: &mut Ctx) {
    #[cfg(feature = "vp_edge")]
    {
        c.run("edge", 260, |c| {
            let n = 5 + c.rng.below(12);
            let mut pts: Vec<P3> = (0..n).map(|_| [c.rng.f(), c.rng.f(), c.rng.f()]).collect();
            if c.rng.chance(0.2) { for p in pts.iter_mut() { for x in p.iter_mut() { *x = (*x * 255.0).round() / 255.0 } } }
            if !well(&pts, 0.1) { return Ok(()) }
            c.note("points", &pts);
            let h = hull_of(pts.iter().cloned());
            let v = hull_pts(&h);
            if v.len() < 5 { return Ok(()) }
            let faces: Vec<[usize; 3]> = h.facets().map(|f| { let i: Vec<usize> = f.vertices().map(|v| v.index()).collect(); [i[0], i[1], i[2]] }).collect();
            let plane = |f: &[usize; 3]| { let n = geo::cross(geo::sub(v[f[1]], v[f[0]]), geo::sub(v[f[2]], v[f[0]])); let l = geo::norm(n); (geo::mul(n, 1.0 / l), l) };
            if faces.iter().any(|f| plane(f).1 < 1e-4) { return Ok(()) }
            let mut cand: Vec<([usize; 2], P3, bool, f64)> = vec![];
            for a in 0..v.len() { for b in a + 1..v.len() {
                if !faces.iter().any(|f| f.contains(&a) && f.contains(&b)) { continue }
                let fs: Vec<&[usize; 3]> = faces.iter().filter(|f| f.contains(&a) || f.contains(&b)).collect();
                let cons: Vec<(P3, f64)> = fs.iter().map(|f| { let (n, _) = plane(f); (n, geo::dot(n, v[f[0]])) }).collect();
                let obj = cons.iter().fold([0.0; 3], |s, x| geo::add(s, x.0));
                if let Some((p, uniq)) = geo::lp3(&cons, obj) {
                    let vol = fs.iter().map(|f| geo::det3(geo::sub(v[f[0]], p), geo::sub(v[f[1]], p), geo::sub(v[f[2]], p)).abs() / 6.0).sum::<f64>();
                    cand.push(([a, b], p, uniq, vol));
                }
            } }
            let got = unsafe { shim::vp_edge_locate(&h) };
            let Some((p, e)) = got else { ck!(c, cand.is_empty(), "no edge is proposed although {:?} can be collapsed", cand.first()); return Ok(()) };
            let fs: Vec<&[usize; 3]> = faces.iter().filter(|f| f.contains(&e[0]) || f.contains(&e[1])).collect();
            ck!(c, e[0] != e[1] && faces.iter().any(|f| f.contains(&e[0]) && f.contains(&e[1])), "{:?} is not an edge of the hull", e);
            for f in &fs {
                let (n, _) = plane(f);
                let s = geo::dot(n, geo::sub(p, v[f[0]]));
                ck!(c, s >= -1e-6 * (1.0 + geo::norm(p)), "collapsing edge {:?} of {:?} to {:?} cuts {} below its face {:?}", e, v, p, s, f);
            }
            let vol = fs.iter().map(|f| geo::det3(geo::sub(v[f[0]], p), geo::sub(v[f[1]], p), geo::sub(v[f[2]], p)).abs() / 6.0).sum::<f64>();
            if cand.iter().all(|x| x.2) {
                for (o, q, _, ov) in &cand { ck!(c, vol <= ov + 1e-6 * (1.0 + ov), "edge {:?} adds volume {} but edge {:?} only {}", e, vol, o, ov); }
            }
            Ok(())
        });
        c.run("rounds", 120, |c| rounds(c));
    }
    c.run("cover", 120, |c| {
        // without clamping the palette's hull still contains every colour of the picture
        let mut img = few_colors(&mut c.rng);
        for p in img.pixels_mut() { for x in p.0.iter_mut() { *x = 90 + *x / 4 } }
        if !well(&img.pixels().map(|p| unit(*p)).collect::<Vec<_>>(), 0.05) { return Ok(()) }
        note_img(c, &img);
        let min = 4 + c.rng.below(4);
        let p = compute_palette(&img, min, 100, 1e9);
        let pp: Vec<P3> = p.iter().map(|x| col(*x)).collect();
        if p.iter().any(|x| x.0.iter().any(|v| *v == 0 || *v == 255)) || pp.len() > 16 { return Ok(()) }
        for q in img.pixels() {
            let d = geo::hull_nearest(col(*q), &pp).0;
            ck!(c, d <= 1.5, "colour {:?} lies {} outside the palette {:?}", q, d, p);
        }
        Ok(())
    });
}
pub fn c11(c: &mut Ctx) {
    #[cfg(feature = "vp_err")]
    c.run("error", 300, |c| {
        let n = 5 + c.rng.below(8);
        let ext = c.rng.fr(0.0, 0.6);
        let pts: Vec<P3> = (0..n).map(|_| [0, 1, 2].map(|_| c.rng.fr(-ext, 1.0 + ext))).collect();
        if !well(&pts, 0.15) { return Ok(()) }
        let cl: Vec<P3> = pts.iter().map(|p| p.map(|x| x.clamp(0.0, 1.0))).collect();
        if !well(&cl, 0.15) { return Ok(()) }
        let k = 1 + c.rng.below(12);
        let cn: Vec<(P3, f64)> = (0..k).map(|_| ([0, 1, 2].map(|_| c.rng.below(256) as f64 / 255.0), 1.0 + c.rng.below(50) as f64)).collect();
        c.note("hull points", &pts); c.note("colours", &cn);
        let h = hull_of(pts.iter().cloned());
        let tot: f64 = cn.iter().map(|x| x.1).sum();
        let cv: Vec<(Vector3<f64>, f64)> = cn.iter().map(|(p, k)| ((*p).into(), *k)).collect();
        let got = unsafe { shim::vp_err_error(&h, &cv, tot) };
        let want = rms(&hull_pts(&h), &cn);
        ck!(c, (got - want).abs() < 1e-6, "error is {} but the root-mean-square distance to the clamped hull is {}", got, want);
        Ok(())
    });
    #[cfg(feature = "vp_edge")]
    c.run("rounds", 200, |c| rounds(c));
    c.run("bounds", 120, |c| {
        let img = few_colors(&mut c.rng);
        note_img(c, &img);
        let h0 = hull_of(img.pixels().map(|p| unit(*p)));
        let start = hull_pts(&h0);
        let p = compute_palette(&img, 4, start.len() + c.rng.below(3), -1.0);
        let mut got: Vec<[u8; 3]> = p.iter().map(|x| x.0).collect(); got.sort();
        ck!(c, got == round_pal(&start), "negative bound: palette {:?} instead of {:?}", got, round_pal(&start));
        // larger bounds never give larger palettes
        let mut last = usize::MAX;
        for eb in [-1.0, 0.001, 0.01, 0.05, 0.2, 1e9] { let n = compute_palette(&img, 4, 100, eb).len(); ck!(c, n <= last, "bound {} gives {} colours, a smaller bound gave {}", eb, n, last); last = n }
        Ok(())
    });
}

// ---------------------------------------------------------------- text and end to end
fn oracle(s: &str) -> Option<Vec<[u8; 3]>> {
    let mut out = vec![];
    for part in s.split(',') {
        let b = part.as_bytes();
        if b.len() != 6 { return None }
        let mut v = [0u8; 6];
        for (i, x) in b.iter().enumerate() { v[i] = match x { b'0'..=b'9' => x - b'0', b'a'..=b'f' => x - b'a' + 10, b'A'..=b'F' => x - b'A' + 10, _ => return None } }
        out.push([v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5]]);
    }
    Some(out)
}
fn gen_list(r: &mut Rng) -> String {
    let n = 1 + r.below(9);
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push(',') } for _ in 0..6 { s.push(*b"0123456789abcdefABCDEF".get(r.below(22)).unwrap() as char) } }
    let muts = if r.chance(0.4) { 0 } else { 1 + r.below(3) };
    for _ in 0..muts {
        let chars: Vec<char> = s.chars().collect();
        let i = r.below(chars.len() + 1);
        let alt = ['+', '-', ' ', 'g', 'G', 'z', ',', '0', 'f', '#', '\u{e9}', '\u{20ac}', '\u{1f600}', '_', '\t', '@', '`', ':', '/', '[', '\u{0}', '\u{ff16}', '\u{660}'];
        let a = alt[r.below(alt.len())];
        let mut c2 = chars.clone();
        match r.below(3) { 0 => c2.insert(i, a), 1 => { if i < c2.len() { c2[i] = a } } _ => { if i < c2.len() { c2.remove(i); } } }
        if c2.is_empty() { break }
        s = c2.into_iter().collect();
    }
    // multi-byte characters with the right byte length
    if r.chance(0.08) { s = ["\u{20ac}\u{20ac}", "0\u{20ac}ff", "\u{1f600}ab", "\u{e9}\u{e9}\u{e9}", "ab\u{e9}cd", ""][r.below(6)].to_string(); }
    s
}
pub fn c19(c: &mut Ctx) {
    #[cfg(feature = "vp_cli")]
    {
        c.run("parse", 60000, |c| {
            let s = gen_list(&mut c.rng);
            c.note("list", &s);
            let got = unsafe { shim::vp_cli_parse(&s) };
            ck!(c, got.as_ref().ok() == oracle(&s).as_ref(), "{:?} parses to {:?} instead of {:?}", s, got, oracle(&s));
            Ok(())
        });
        c.run("byte", 3, |c| {
            // every character at every place of one colour
            for pos in 0..6 { for ch in (0u32..0x250).chain(0xff10..0xff1a) { let Some(ch) = char::from_u32(ch) else { continue };
                let mut v: Vec<char> = "12aB3f".chars().collect(); v[pos] = ch; let s: String = v.into_iter().collect();
                let got = unsafe { shim::vp_cli_parse(&s) };
                ck!(c, got.as_ref().ok() == oracle(&s).as_ref(), "{:?} parses to {:?} instead of {:?}", s, got, oracle(&s)); } }
            Ok(())
        });
    }
    let (Ok(cli), Ok(tmp)) = (std::env::var("VP_CLI"), std::env::var("VP_TMP")) else { return };
    c.run("tool", 24, |c| {
        let list = if c.rng.chance(0.3) { let p = gen_palette(&mut c.rng, 6); p.iter().map(|c| format!("{:02x}{:02X}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(",") } else { gen_list(&mut c.rng) };
        if list.contains('\0') || list.starts_with('-') { return Ok(()) }
        c.note("list", &list);
        // an unreadable picture: the list is judged before the picture is opened
        let o = std::process::Command::new(&cli).arg("recolor-image").arg(format!("-d={}", list)).arg(format!("-r={}", list)).args(["-i", "/nonexistent.png", "-o", "/nonexistent/out.png"]).output().map_err(|e| e.to_string())?;
        let rejected = o.status.code() == Some(2);
        ck!(c, rejected == oracle(&list).is_none(), "the tool {} the list {:?}", if rejected { "rejects" } else { "accepts" }, list);
        Ok(())
    });
    c.run("roundtrip", 6, |c| {
        let img = few_colors(&mut c.rng);
        note_img(c, &img);
        let f = format!("{}/in.png", tmp);
        img.save(&f).map_err(|e| e.to_string())?;
        let o = std::process::Command::new(&cli).args(["generate-palette", "--error-bound", "1000", "--min-size", "5", &f]).output().map_err(|e| e.to_string())?;
        let line = String::from_utf8_lossy(&o.stdout).trim().to_string();
        let p = compute_palette(&img, 5, 10, 1000.0);
        let mut want: Vec<[u8; 3]> = p.iter().map(|x| x.0).collect();
        let Some(mut got) = oracle(&line) else { return Err(format!("generate-palette prints {:?}", line)) };
        let order = got.clone();
        got.sort(); want.sort();
        ck!(c, got == want, "generate-palette prints {:?} for the palette {:?}", line, want);
        #[cfg(feature = "vp_cli")]
        { let back = unsafe { shim::vp_cli_parse(&line) }; ck!(c, back.as_ref().ok() == Some(&order), "the printed palette {:?} parses back to {:?}", line, back); }
        Ok(())
    });
}
pub fn c20(c: &mut Ctx) {
    c.run("identity", 60, |c| {
        let (lo, hi) = if c.rng.chance(0.5) { (0, 255) } else { (70, 180) };
        let img = if lo == 0 && c.rng.chance(0.02) { large(&mut c.rng) } else { gen_image(&mut c.rng, 7, lo, hi) };
        note_img(c, &img);
        let mut pal = if lo > 0 { gen_palette(&mut c.rng, 9) } else { (0..8u32).map(|k| Rgb([0, 1, 2].map(|i| if k >> i & 1 == 0 { 0 } else { 255 }))).collect() };
        c.rng.shuffle(&mut pal);
        c.note("palette", &pal);
        let pp: Vec<P3> = pal.iter().map(|x| col(*x)).collect();
        let all_in = img.pixels().all(|p| geo::depth(col(*p), &pp) > -1e-9);
        let w = ImageWeights::new(&img);
        let d = DecomposedImage::new(&w, &pal).map_err(|e| format!("palette rejected: {}", e))?;
        let out = d.reconstruct(&pal).ok_or("reconstruct gives nothing")?;
        ck!(c, out.width() == img.width() && out.height() == img.height(), "result is {}x{}", out.width(), out.height());
        if all_in { same_picture(c, &img, &out, |_| true)? }
        let one = Rgb([c.rng.below(256) as u8, c.rng.below(256) as u8, c.rng.below(256) as u8]);
        let flat = d.reconstruct(&vec![one; pal.len()]).ok_or("reconstruct gives nothing")?;
        for (x, y, p) in flat.enumerate_pixels() { for k in 0..3 { ck!(c, (p[k] as i32 - one[k] as i32).abs() <= 1, "recolouring to {:?} gives {:?} at ({},{})", one, p, x, y); } }
        Ok(())
    });
    c.run("own-palette", 24, |c| {
        let img = gen_image(&mut c.rng, 7, 0, 255);
        note_img(c, &img);
        let pal = compute_palette(&img, 100, 100, 0.0);
        if pal.len() > 20 || !convex_position(&pal, 0.6) { return Ok(()) }
        let w = ImageWeights::new(&img);
        let d = DecomposedImage::new(&w, &pal).map_err(|e| format!("the computed palette {:?} is rejected: {}", pal, e))?;
        same_picture(c, &img, &d.reconstruct(&pal).ok_or("reconstruct gives nothing")?, |_| true)
    });
}
