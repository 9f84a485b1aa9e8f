#[no_mangle]
pub fn vp_err_error(ch: &qhull_rs::ConvexHull<nalgebra::Const<3>>, counts: &[(nalgebra::Vector3<f64>, f64)], total: f64) -> f64 {
    super::compute_pixel_error(ch, counts, total)
}
