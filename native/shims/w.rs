#[no_mangle]
pub fn vp_w_parts(w: &super::ImageWeights) -> (usize, usize, Vec<(usize, usize, f64)>, Vec<[f64; 3]>, u32, u32) {
    (w.weights.nrows(), w.weights.ncols(),
     w.weights.triplet_iter().map(|(r, c, v)| (r, c, *v)).collect(),
     w.ch_rgb_vertices.iter().map(|v| [v[0], v[1], v[2]]).collect(), w.width, w.height)
}
