//! C15 the Minkowski difference's support point
use crate::c05::Any;
use crate::spec::*;
use auburn::col2d::local_minkowski_diff::LocalMinkowskiDiff2d;
use auburn::col2d::*;
use glam::Vec2;

fn support<T: Transformation2d>(rel: &T, d: Vec2) {
    let (a, b) = (Any(0), Any(1));
    let e = LocalMinkowskiDiff2d::raw(&a, &b, rel).extreme_point(d);
    let towards = rel.unapply_normal(-d);
    check_eq(e, a.extreme_point(d) - rel.apply(b.extreme_point(towards)), "support of a minus support of the placed b in the opposite direction");
}
pub fn law_c15_formula(c: Vec2, angle: f32, s: f32, d: Vec2) {
    assume(s > 0.0);
    support(&c, d);
    support(&Translate2d::new(c), d);
    support(&AxisTransform2d::new(c, s), d);
    support(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) }, d);
}
/// no pair of points of two boxes is farther apart along d
pub fn law_c15_boxes(c: Vec2, d: Vec2, h: Vec2, k: Vec2, p: Vec2, q: Vec2) {
    assume(h.x >= 0.0);
    assume(h.y >= 0.0);
    assume(k.x >= 0.0);
    assume(k.y >= 0.0);
    let (a, b) = (Box2d::new(h), Box2d::new(k));
    let e = LocalMinkowskiDiff2d::raw(&a, &b, &c).extreme_point(d);
    check_eq(e.x * d.x + e.y * d.y, d.x.abs() * (h.x + k.x) + d.y.abs() * (h.y + k.y) - (c.x * d.x + c.y * d.y), "support value of the difference of two boxes");
}
