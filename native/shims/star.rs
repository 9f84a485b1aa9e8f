#[no_mangle]
pub fn vp_star_coords(palette: &[image::Rgb<u8>], ch: &qhull_rs::ConvexHull<nalgebra::Const<3>>, cols: &[nalgebra::Vector3<f64>]) -> nalgebra::DMatrix<f64> {
    super::compute_star_triangulation_coordinates(palette, ch, cols)
}
