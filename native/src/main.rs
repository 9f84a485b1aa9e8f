#![allow(dead_code, unused_imports, unused_macros, unused_variables, improper_ctypes)]
mod geo;
mod util;
mod hulls;
mod color;
mod capi;
use util::*;

pub mod shim {
    use image::Rgb;
    use image_palette_recoloring::{DecomposedImage, ImageWeights};
    use nalgebra::{Const, DMatrix, Vector3};
    use qhull_rs::{ConvexHull, Delaunay};
    extern "Rust" {
        #[cfg(feature = "vp_w")] pub fn vp_w_parts(w: &ImageWeights) -> (usize, usize, Vec<(usize, usize, f64)>, Vec<[f64; 3]>, u32, u32);
        #[cfg(feature = "vp_iw")] pub fn vp_iw_make(weights: nalgebra_sparse::CsrMatrix<f64>, cols: Vec<[f64; 3]>, width: u32, height: u32) -> ImageWeights;
        #[cfg(feature = "vp_d")] pub fn vp_d_make(matrix: DMatrix<f64>, width: u32, height: u32) -> DecomposedImage;
        #[cfg(feature = "vp_dm")] pub fn vp_dm_matrix(d: &DecomposedImage) -> DMatrix<f64>;
        #[cfg(feature = "vp_err")] pub fn vp_err_error(ch: &ConvexHull<Const<3>>, counts: &[(Vector3<f64>, f64)], total: f64) -> f64;
        #[cfg(feature = "vp_edge")] pub fn vp_edge_locate(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])>;
        #[cfg(feature = "vp_star")] pub fn vp_star_coords(palette: &[Rgb<u8>], ch: &ConvexHull<Const<3>>, cols: &[Vector3<f64>]) -> DMatrix<f64>;
        #[cfg(feature = "vp_tri")] pub fn vp_tri_closest(p: &Vector3<f64>, a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>) -> Vector3<f64>;
        #[cfg(feature = "vp_tri")] pub fn vp_tri_dist2(p: &Vector3<f64>, a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>) -> f64;
        #[cfg(feature = "vp_lift")] pub fn vp_lift2(d: &Delaunay<Const<2>>, p: [f64; 2]) -> Vec<f64>;
        #[cfg(feature = "vp_lift")] pub fn vp_lift3(d: &Delaunay<Const<3>>, p: [f64; 3]) -> Vec<f64>;
        #[cfg(feature = "vp_lift")] pub fn vp_lift5(d: &Delaunay<Const<5>>, p: [f64; 5]) -> Vec<f64>;
        #[cfg(feature = "vp_cli")] pub fn vp_cli_parse(s: &str) -> Result<Vec<[u8; 3]>, String>;
    }
}
#[cfg(feature = "vp_cli")]
extern crate vp_cli_lib;

fn main() {
    // vpnative PROP SEED SCALE LIMIT_S CURFILE [only_generator only_index]  (+ env VP_SO, VP_CLI, VP_TMP)
    let a: Vec<String> = std::env::args().collect();
    let mut c = Ctx {
        prop: a[1].clone(), seed: a[2].parse().unwrap(), only: if a.len() > 7 { Some((a[6].clone(), a[7].parse().unwrap())) } else { None },
        scale: a[3].parse().unwrap(), limit: a[4].parse().unwrap(), cur: a[5].clone(), cases: 0, checks: 0, start: std::time::Instant::now(), gens: vec![], seen: Default::default(), samples: vec![],
    };
    hook();
    match c.prop.as_str() {
        "C01" => color::c01(&mut c), "C04" => color::c04(&mut c), "C05" => color::c05(&mut c), "C06" => color::c06(&mut c),
        "C07" => color::c07(&mut c), "C08" => color::c08(&mut c), "C09" => color::c09(&mut c), "C10" => color::c10(&mut c),
        "C11" => color::c11(&mut c), "C19" => color::c19(&mut c), "C20" => color::c20(&mut c),
        "C02" => hulls::c02(&mut c), "C03" => hulls::c03(&mut c), "C12" => hulls::c12(&mut c), "C13" => hulls::c13(&mut c),
        "C14" => hulls::c14(&mut c), "C15" => hulls::c15(&mut c), "C16" => hulls::c16(&mut c),
        "C17" | "C18" => capi::c17(&mut c),
        _ => panic!("unknown property"),
    }
    let g: Vec<String> = c.gens.iter().map(|(n, k, q)| format!("{{\"generator\": \"{}\", \"cases\": {}, \"checks\": {}}}", n, k, q)).collect();
    let s: Vec<String> = c.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!("{{\"ok\": true, \"cases\": {}, \"checks\": {}, \"distinct\": {}, \"generators\": [{}], \"samples\": [{}]}}", c.cases, c.checks, c.seen.len(), g.join(", "), s.join(", "));
}
