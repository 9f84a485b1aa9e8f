#[no_mangle]
pub fn vp_iw_make(weights: nalgebra_sparse::CsrMatrix<f64>, cols: Vec<[f64; 3]>, width: u32, height: u32) -> super::ImageWeights {
    super::ImageWeights { weights, ch_rgb_vertices: cols.into_iter().map(|c| c.into()).collect(), width, height }
}
