#[no_mangle]
pub fn vp_dm_matrix(d: &super::DecomposedImage) -> nalgebra::DMatrix<f64> {
    nalgebra::DMatrix::from_fn(d.matrix.nrows(), d.matrix.ncols(), |r, c| d.matrix[(r, c)])
}
