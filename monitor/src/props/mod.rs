mod algebra;
mod arith;
mod curve;
mod curve_hi;
mod history;
mod refuse;
mod seriesp;
mod shape;

use crate::rt::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        arith::c01(), arith::c02(), shape::c03(), algebra::c04(), algebra::c05(), algebra::c06(), algebra::c07(), algebra::c08(),
        algebra::c09(), curve_hi::c10(), seriesp::c11(), seriesp::c12(), seriesp::c13(), seriesp::c14(), shape::c15(), seriesp::c16(),
        curve::c17(), curve::c18(), curve::c19(), curve::c20(), curve::c21(), curve::c22(), curve_hi::c23(), curve_hi::c24(),
        curve_hi::c25(), seriesp::c26(), seriesp::c27(), seriesp::c28(), shape::c29(), history::c30(), refuse::c31(), shape::c32(),
    ]
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
