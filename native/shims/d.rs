#[no_mangle]
pub fn vp_d_make(matrix: nalgebra::DMatrix<f64>, width: u32, height: u32) -> super::DecomposedImage { super::DecomposedImage { matrix, width, height } }
