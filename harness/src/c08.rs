//! C08 the four kinds of query agree with each other and always answer with defined numbers
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn agree<A, B, T>(a: &A, b: &B, rel: &T)
where
    T: Transformation2d + Invertible,
    A: SdfvCommonRel2d<false, false, B, T> + SdfvCommonRel2d<true, false, B, T> + SdfvCommonRel2d<false, true, B, T> + SdfvCommonRel2d<true, true, B, T>,
{
    let hit = a.collides_rel(b, rel);
    let pen = a.penetrates_rel(b, rel);
    let dis = a.distance_to_rel(b, rel);
    let (h, v) = a.sdfv_rel(b, rel);
    check_eq(hit, h, "collides and sdfv give the same verdict");
    check_eq(hit, pen.is_some(), "penetrates answers exactly when the shapes collide");
    check_eq(hit, dis.is_none(), "distance_to answers exactly when the shapes do not collide");
    if let Some(p) = pen {
        check(p.x == v.x && p.y == v.y, "penetrates and sdfv report the same vector");
    }
    if let Some(d) = dis {
        check(d.x == v.x && d.y == v.y, "distance_to and sdfv report the same vector");
    }
    check(is_defined(v.x) && is_defined(v.y), "the reported vector is a defined number");
}
fn all<A, B>(a: &A, b: &B, c: Vec2, angle: f32, s: Vec2)
where
    A: SdfvCommonRel2d<false, false, B, Vec2> + SdfvCommonRel2d<true, false, B, Vec2> + SdfvCommonRel2d<false, true, B, Vec2> + SdfvCommonRel2d<true, true, B, Vec2>,
    A: SdfvCommonRel2d<false, false, B, Translate2d> + SdfvCommonRel2d<true, false, B, Translate2d> + SdfvCommonRel2d<false, true, B, Translate2d> + SdfvCommonRel2d<true, true, B, Translate2d>,
    A: SdfvCommonRel2d<false, false, B, Transform2d> + SdfvCommonRel2d<true, false, B, Transform2d> + SdfvCommonRel2d<false, true, B, Transform2d> + SdfvCommonRel2d<true, true, B, Transform2d>,
{
    assume(s.x > 0.0);
    assume(s.y > 0.0);
    agree(a, b, &c);
    agree(a, b, &Translate2d::new(c));
    agree(a, b, &Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: s });
}
pub fn law_c08_ball_ball(c: Vec2, angle: f32, s: Vec2, r: f32, q: f32) {
    assume(r > 0.0);
    assume(q > 0.0);
    all(&Ball::with_radius(r), &Ball::with_radius(q), c, angle, s);
}
pub fn law_c08_ball_point(c: Vec2, angle: f32, s: Vec2, r: f32) {
    assume(r > 0.0);
    all(&Ball::with_radius(r), &Point, c, angle, s);
}
pub fn law_c08_point_ball(c: Vec2, angle: f32, s: f32, r: f32) {
    assume(r > 0.0);
    all(&Point, &Ball::with_radius(r), c, angle, Vec2::splat(s));
}
pub fn law_c08_box_point(c: Vec2, angle: f32, s: Vec2, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    all(&Box2d::new(h), &Point, c, angle, s);
}
pub fn law_c08_point_box(c: Vec2, angle: f32, s: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    all(&Point, &Box2d::new(h), c, angle, Vec2::splat(s));
}
pub fn law_c08_box_ball(c: Vec2, angle: f32, s: Vec2, h: Vec2, r: f32) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    assume(r > 0.0);
    all(&Box2d::new(h), &Ball::with_radius(r), c, angle, s);
}
pub fn law_c08_point_point(c: Vec2, angle: f32, s: Vec2) {
    all(&Point, &Point, c, angle, s);
}
// the collider-level wrappers turn verdict and vector into Option alike
fn placed<A, B, T>(a: Collider2d<A, T>, b: Collider2d<B, T>)
where
    T: Transformation2d + DeltaTransform,
    A: SdfvCommonRel2d<false, false, B, T> + SdfvCommonRel2d<true, false, B, T> + SdfvCommonRel2d<false, true, B, T> + SdfvCommonRel2d<true, true, B, T>,
{
    let hit = a.collides(b);
    let (h, v) = a.sdfv(b);
    check_eq(hit, h, "collides and sdfv give the same verdict");
    let (pen, dis) = (a.penetrates(b), a.distance_to(b));
    check_eq(pen.is_some(), hit, "penetrates answers exactly when the shapes collide");
    check_eq(dis.is_none(), hit, "distance_to answers exactly when the shapes do not collide");
    if let Some(w) = pen {
        check_eq(w, v, "penetrates and sdfv report the same vector");
    }
    if let Some(w) = dis {
        check_eq(w, v, "distance_to and sdfv report the same vector");
    }
}
pub fn law_c08_collider(p: Vec2, q: Vec2, r: f32, k: f32) {
    assume(r > 0.0);
    assume(k > 0.0);
    let (x, y) = (Ball::with_radius(r), Ball::with_radius(k));
    let (a, b) = (Collider2d::new(&x, &p), Collider2d::new(&y, &q));
    placed(a, b);
    check_eq(a.sdf(b) < 0.0, a.collides(b), "sdf is negative exactly when the shapes collide");
}
pub fn law_c08_collider_rotated(p: Vec2, l: Vec2, alpha: f32, beta: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let x = Transform2d { pos: p, rot: Rotor2d::from_angle(alpha), scale: Vec2::ONE };
    let y = Transform2d { pos: x.apply(l), rot: Rotor2d::from_angle(beta), scale: Vec2::ONE };
    placed(Collider2d::new(&Box2d::new(h), &x), Collider2d::new(&Point, &y));
}
