pub trait Loc { fn get(self) -> Option<([f64; 3], [usize; 2])>; }
impl Loc for ([f64; 3], [usize; 2]) { fn get(self) -> Option<([f64; 3], [usize; 2])> { Some(self) } }
impl Loc for Option<([f64; 3], [usize; 2])> { fn get(self) -> Option<([f64; 3], [usize; 2])> { self } }
#[no_mangle]
pub fn vp_edge_locate(ch: &qhull_rs::ConvexHull<nalgebra::Const<3>>) -> Option<([f64; 3], [usize; 2])> { super::locate_edge_to_collapse(ch).get() }
