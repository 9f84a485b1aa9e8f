type V = nalgebra::Vector3<f64>;
#[no_mangle]
pub fn vp_tri_closest(p: &V, a: &V, b: &V, c: &V) -> V { super::triangle_closest_point(p, a, b, c) }
#[no_mangle]
pub fn vp_tri_dist2(p: &V, a: &V, b: &V, c: &V) -> f64 { super::triangle_distance_sqr(p, a, b, c) }
