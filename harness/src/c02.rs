//! C02 inverse / compose / delta / origin laws (uniform scale)
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn laws<T: Transformation2d + Invertible + Composable>(a: &T, b: &T, p: Vec2) {
    check_eq(a.inverse().apply(a.apply(p)), p, "inverse undoes apply");
    check_eq(a.apply(a.inverse().apply(p)), p, "apply undoes inverse");
    check_eq(a.inverse().apply(p), a.unapply(p), "inverse().apply == unapply");
    check_eq(a.inverse().unapply(p), a.apply(p), "inverse().unapply == apply");
    check_eq(a.inverse().apply_normal(p), a.unapply_normal(p), "inverse().apply_normal == unapply_normal");
    let c = a.compose(b);
    check_eq(c.apply(p), a.apply(b.apply(p)), "compose(a,b).apply == a.apply . b.apply");
    check_eq(c.unapply(p), b.unapply(a.unapply(p)), "compose(a,b).unapply == b.unapply . a.unapply");
    check_eq(c.apply_normal(p), a.apply_normal(b.apply_normal(p)), "compose direction mapping");
    check_eq(c.unapply_normal(p), b.unapply_normal(a.unapply_normal(p)), "compose inverse direction mapping");
    let d = a.delta_transform(b);
    check_eq(a.apply(d.apply(p)), b.apply(p), "a . delta(a,b) == b");
    check_eq(d.apply(p), a.unapply(b.apply(p)), "delta(a,b) == unapply_a . b");
    check_eq(d.unapply(p), b.unapply(a.apply(p)), "delta(a,b) inverse mapping");
    check_eq(d.apply_normal(p), a.unapply_normal(b.apply_normal(p)), "delta direction mapping");
    check_eq(d.apply_origin(), a.unapply(b.apply_origin()), "delta(a,b) origin");
    check_eq(a.apply_origin(), a.apply(Vec2::ZERO), "apply_origin == apply(0)");
    check_eq(c.apply_origin(), c.apply(Vec2::ZERO), "apply_origin == apply(0) of a composition");
    check_eq(a.inverse().apply_origin(), a.unapply(Vec2::ZERO), "inverse().apply_origin == unapply(0)");
}

pub fn law_c02_identity_origin() {
    check_eq(Transformation2d::apply_origin(&IdentityTransform), Transformation2d::apply(&IdentityTransform, Vec2::ZERO), "apply_origin == apply(0)");
}
pub fn law_c02_vec2(a: Vec2, b: Vec2, p: Vec2) {
    laws(&a, &b, p);
}
pub fn law_c02_translate(a: Vec2, b: Vec2, p: Vec2) {
    laws(&Translate2d::new(a), &Translate2d::from(b), p);
}
pub fn law_c02_axis(a: Vec2, b: Vec2, s: f32, u: f32, p: Vec2) {
    assume(s != 0.0);
    assume(u != 0.0);
    laws(&AxisTransform2d::new(a, s), &AxisTransform2d::new(b, u), p);
}
pub fn law_c02_transform(a: Vec2, b: Vec2, s: f32, u: f32, alpha: f32, beta: f32, p: Vec2) {
    assume(s != 0.0);
    assume(u != 0.0);
    let x = Transform2d { pos: a, rot: Rotor2d::from_angle(alpha), scale: Vec2::splat(s) };
    let y = Transform2d { pos: b, rot: Rotor2d::from_angle(beta), scale: Vec2::splat(u) };
    laws(&x, &y, p);
}
pub fn law_c02_neutral(a: Vec2, s: f32, alpha: f32, p: Vec2) {
    assume(s != 0.0);
    let x = Transform2d { pos: a, rot: Rotor2d::from_angle(alpha), scale: Vec2::splat(s) };
    check_eq(Transform2d::IDENTITY.compose(&x).apply(p), x.apply(p), "identity is left neutral");
    check_eq(x.compose(&Transform2d::IDENTITY).apply(p), x.apply(p), "identity is right neutral");
    check_eq(Transform2d::default().apply(p), p, "default is the identity");
    check_eq(Transform2d::IDENTITY.apply(p), p, "IDENTITY is the identity");
    check_eq(Translate2d::default().apply(p), p, "default translation is the identity");
    check_eq(x.delta_transform(&x).apply(p), p, "delta of a frame with itself is the identity");
}
