//! Instantiation roots: nothing here is verified; it only makes the compiler produce the
//! monomorphic instances of the generic library functions that the obligations are about.
use image::{ImageBuffer, Rgb};
use image_palette_recoloring::{DecomposedImage, ImageWeights};
use nalgebra::{Const, OVector, Vector3, Vector5, Vector4, Vector6};
use qhull_rs::{delaunay, ConvexHull, Delaunay, RawDelaunay, RawHull};

type Img = ImageBuffer<Rgb<u8>, Vec<u8>>;

pub fn weights_new(img: &Img) -> ImageWeights { ImageWeights::new(img) }
pub fn weights_dims(w: &ImageWeights) -> (u32, u32) { (w.width(), w.height()) }
pub fn decomposed_new(w: &ImageWeights, p: &[Rgb<u8>]) -> Result<DecomposedImage, String> { DecomposedImage::new(w, p) }
pub fn decomposed_misc(d: &DecomposedImage) -> (u32, u32, usize) { (d.width(), d.height(), d.num_channels()) }
pub fn grayscale(d: &DecomposedImage, n: usize) -> Option<ImageBuffer<image::Luma<u8>, Vec<u8>>> { d.get_channel_grayscale(n) }
pub fn reconstruct(d: &DecomposedImage, p: &[Rgb<u8>]) -> Option<Img> { d.reconstruct(p) }
pub fn compute_palette(img: &Img, a: usize, b: usize, e: f64) -> Vec<Rgb<u8>> { image_palette_recoloring::compute_palette(img, a, b, e) }

pub fn hull3_arrays(s: &[[f64; 3]]) -> ConvexHull<Const<3>> { ConvexHull::from_arrays(s) }
pub fn hull5_arrays(s: &[[f64; 5]]) -> ConvexHull<Const<5>> { ConvexHull::from_arrays(s) }
pub fn hull3_raw(h: RawHull<Const<3>>) -> ConvexHull<Const<3>> { ConvexHull::from_qhull_raw(h) }
pub fn hull5_raw(h: RawHull<Const<5>>) -> ConvexHull<Const<5>> { ConvexHull::from_qhull_raw(h) }
pub fn hull2_raw(h: RawHull<Const<2>>) -> ConvexHull<Const<2>> { ConvexHull::from_qhull_raw(h) }
pub fn hull3_iter(v: Vec<Vector3<f64>>) -> ConvexHull<Const<3>> { v.into_iter().collect() }
pub fn hull3_facet(h: &ConvexHull<Const<3>>) -> usize {
    let f = h.facets().next().unwrap();
    let v = h.vertices().next().unwrap();
    let _ = (f.normal(), f.offset(), v.point(), v == v);
    f.index() + f.neighbors().count() + f.vertices().count() + v.index()
}
pub fn raw3_vectors(v: &[Vector3<f64>]) -> RawHull<Const<3>> { RawHull::from_vectors(v) }
pub fn rawd3_vectors(v: &[Vector3<f64>]) -> RawDelaunay<Const<3>> { RawDelaunay::from_vectors(v) }
pub fn rawd3_arrays(v: &[[f64; 3]]) -> RawDelaunay<Const<3>> { RawDelaunay::from_arrays(v) }
pub fn tri3_raw(h: RawDelaunay<Const<3>>) -> Delaunay<Const<3>> { Delaunay::from_qhull_raw(h) }
pub fn tri5_raw(h: RawDelaunay<Const<5>>) -> Delaunay<Const<5>> { Delaunay::from_qhull_raw(h) }
pub fn tri2_raw(h: RawDelaunay<Const<2>>) -> Delaunay<Const<2>> { Delaunay::from_qhull_raw(h) }

macro_rules! tri_roots {
    ($n:literal, $v:ty, $w:ty, $new:ident, $find:ident, $find0:ident, $misc:ident, $coords:ident) => {
        pub fn $new<'a>(d: &'a Delaunay<Const<$n>>) -> delaunay::SimplexSearcher<'a, Const<$n>> { d.simplex_searcher() }
        pub fn $find<'a>(s: &delaunay::SimplexSearcher<'a, Const<$n>>, p: &$v, c: &mut $w) -> Option<delaunay::Simplex<'a, Const<$n>>> { s.find_simplex_mut(p, c) }
        pub fn $find0<'a>(s: &delaunay::SimplexSearcher<'a, Const<$n>>, p: &$v) -> Option<delaunay::Simplex<'a, Const<$n>>> { s.find_simplex(p) }
        pub fn $misc<'a>(s: &mut delaunay::SimplexSearcher<'a, Const<$n>>, b: bool, e: f64) -> f64 { s.set_bruteforce(b).set_eps(e).clear_start_hint(); if s.bruteforce() { s.eps() } else { 0.0 } }
        pub fn $coords<'a>(s: &delaunay::SimplexSearcher<'a, Const<$n>>, x: delaunay::Simplex<'a, Const<$n>>, p: $v, o: &mut $w) -> $w { s.barycentric_coords_mut(x, p.clone(), o); s.barycentric_coords(x, p) }
    };
}
tri_roots!(3, Vector3<f64>, Vector4<f64>, searcher3_new, searcher3_find, searcher3_find0, searcher3_misc, searcher3_coords);
tri_roots!(5, Vector5<f64>, Vector6<f64>, searcher5_new, searcher5_find, searcher5_find0, searcher5_misc, searcher5_coords);

pub fn raw2_find<'a>(d: &'a RawDelaunay<Const<2>>, p: nalgebra::Vector2<f64>, c: &qhull_rs::raw::BarycentricSolverCache<Const<2>>, t: Option<f64>, b: Option<&mut Vector3<f64>>, h: Option<&mut qhull_rs::raw::Facet<'a, Const<2>>>) -> Option<qhull_rs::raw::Facet<'a, Const<2>>> { d.find_best_simplex(p, c, t, b, h) }
pub fn raw2_cache(d: &RawDelaunay<Const<2>>) -> qhull_rs::raw::BarycentricSolverCache<Const<2>> { d.compute_barycentric_solver_cache() }
pub fn raw3_find<'a>(d: &'a RawDelaunay<Const<3>>, p: Vector3<f64>, c: &qhull_rs::raw::BarycentricSolverCache<Const<3>>, t: Option<f64>, b: Option<&mut Vector4<f64>>, h: Option<&mut qhull_rs::raw::Facet<'a, Const<3>>>) -> Option<qhull_rs::raw::Facet<'a, Const<3>>> { d.find_best_simplex(p, c, t, b, h) }
pub fn raw3_cache(d: &RawDelaunay<Const<3>>) -> qhull_rs::raw::BarycentricSolverCache<Const<3>> { d.compute_barycentric_solver_cache() }
pub fn raw_points(v: qhull_rs::raw::Vertex<'_, Const<3>>, f: qhull_rs::raw::Facet<'_, Const<3>>, p: &Vector3<f64>) -> f64 { v.point()[0] + f.plane_distance(p) + v.neighbors().count() as f64 }
pub fn _ov(v: OVector<f64, Const<3>>) -> f64 { v[0] }
