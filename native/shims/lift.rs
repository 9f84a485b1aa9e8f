type D<const N: usize> = super::Delaunay<nalgebra::Const<N>>;
#[no_mangle]
pub fn vp_lift2(d: &D<2>, p: [f64; 2]) -> Vec<f64> { d.lift_point(&p.into()).iter().copied().collect() }
#[no_mangle]
pub fn vp_lift3(d: &D<3>, p: [f64; 3]) -> Vec<f64> { d.lift_point(&p.into()).iter().copied().collect() }
#[no_mangle]
pub fn vp_lift5(d: &D<5>, p: [f64; 5]) -> Vec<f64> { d.lift_point(&p.into()).iter().copied().collect() }
