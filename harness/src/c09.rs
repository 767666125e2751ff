//! C09 the scalar signed distance is the signed length of the vector and the true distance
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn dot(a: Vec2, b: Vec2) -> f32 {
    a.x * b.x + a.y * b.y
}
fn signed<A, B, T>(a: &A, b: &B, rel: &T)
where
    T: Transformation2d + Invertible,
    A: SdfvCommonRel2d<true, true, B, T> + SdfRel2d<B>,
{
    let s = a.sdf_rel(b, rel);
    let (hit, v) = a.sdfv_rel(b, rel);
    check_eq(s * s, dot(v, v), "the scalar is as large as the vector is long");
    check_eq(s < 0.0, hit, "the scalar is negative exactly when the shapes collide");
}
fn all<A, B>(a: &A, b: &B, c: Vec2, angle: f32)
where
    A: SdfvCommonRel2d<true, true, B, Vec2> + SdfvCommonRel2d<true, true, B, Translate2d> + SdfvCommonRel2d<true, true, B, Transform2d> + SdfRel2d<B>,
{
    signed(a, b, &c);
    signed(a, b, &Translate2d::new(c));
    signed(a, b, &Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE });
}
pub fn law_c09_ball_ball(c: Vec2, angle: f32, r: f32, q: f32) {
    assume(r > 0.0);
    assume(q > 0.0);
    all(&Ball::with_radius(r), &Ball::with_radius(q), c, angle);
}
pub fn law_c09_ball_point(c: Vec2, angle: f32, r: f32) {
    assume(r > 0.0);
    all(&Ball::with_radius(r), &Point, c, angle);
}
pub fn law_c09_box_point(c: Vec2, angle: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    all(&Box2d::new(h), &Point, c, angle);
}
pub fn law_c09_box_ball(c: Vec2, angle: f32, h: Vec2, r: f32) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    assume(r > 0.0);
    all(&Box2d::new(h), &Ball::with_radius(r), c, angle);
}
pub fn law_c09_point_point(c: Vec2) {
    let s = Point.sdf_rel(&Point, &c);
    let (_, v) = Point.sdfv_rel(&Point, &c);
    check_eq(s * s, dot(v, v), "the scalar is as large as the vector is long");
    check(s >= 0.0, "points never overlap by a positive amount");
}
pub fn law_c09_collider(p: Vec2, q: Vec2, alpha: f32, beta: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let x = Box2d::new(h);
    let a = Transform2d { pos: p, rot: Rotor2d::from_angle(alpha), scale: Vec2::ONE };
    let b = Transform2d { pos: q, rot: Rotor2d::from_angle(beta), scale: Vec2::ONE };
    let s = Collider2d::new(&x, &a).sdf((&Point, &b));
    let l = a.unapply(q);
    check_eq(s, x.sdf_rel(&Point, &l), "the collider-level scalar is the relative one");
}
