//! C07 closed-form contacts: translating `a` by the reported vector makes the shapes just touch, by
//! the shortest such translation; the verdict is whether they overlap
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn dot(a: Vec2, b: Vec2) -> f32 {
    a.x * b.x + a.y * b.y
}
fn len(a: Vec2) -> f32 {
    dot(a, a).sqrt()
}
/// signed distance from the box to p
fn box_sd(h: Vec2, p: Vec2) -> f32 {
    let (x, y) = (p.x.abs() - h.x, p.y.abs() - h.y);
    if x <= 0.0 && y <= 0.0 {
        if x > y {
            x
        } else {
            y
        }
    } else {
        let (x, y) = (if x > 0.0 { x } else { 0.0 }, if y > 0.0 { y } else { 0.0 });
        len(Vec2::new(x, y))
    }
}

fn ball_ball<T: Transformation2d + Invertible>(rel: &T, c: Vec2, r: f32, q: f32) {
    let (hit, v) = Ball::with_radius(r).sdfv_rel(&Ball::with_radius(q), rel);
    check_eq(hit, len(c) < r + q, "balls overlap exactly when their centres are nearer than the radii");
    check_eq(dot(v, v), (len(c) - (r + q)) * (len(c) - (r + q)), "ball v ball: the vector is as long as the gap or overlap");
    check_eq(dot(c - v, c - v), (r + q) * (r + q), "ball v ball: after moving by the vector the balls touch");
}
pub fn law_c07_ball_ball(c: Vec2, angle: f32, r: f32, q: f32) {
    assume(r > 0.0);
    assume(q > 0.0);
    ball_ball(&c, c, r, q);
    ball_ball(&Translate2d::new(c), c, r, q);
    ball_ball(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c, r, q);
    ball_ball(&AxisTransform2d::new(c, 1.0), c, r, q);
}
fn ball_point<T: Transformation2d + Invertible>(rel: &T, c: Vec2, r: f32) {
    let (hit, v) = Ball::with_radius(r).sdfv_rel(&Point, rel);
    check_eq(hit, len(c) < r, "a ball contains the points nearer than its radius");
    check_eq(dot(v, v), (len(c) - r) * (len(c) - r), "ball v point: the vector is as long as the gap or overlap");
    check_eq(dot(c - v, c - v), r * r, "ball v point: after moving by the vector the point is on the circle");
}
pub fn law_c07_ball_point(c: Vec2, angle: f32, r: f32) {
    assume(r > 0.0);
    ball_point(&c, c, r);
    ball_point(&Translate2d::new(c), c, r);
    ball_point(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c, r);
    ball_point(&AxisTransform2d::new(c, 1.0), c, r);
}
fn box_point<T: Transformation2d + Invertible>(rel: &T, c: Vec2, h: Vec2) {
    let (hit, v) = Box2d::new(h).sdfv_rel(&Point, rel);
    let d = box_sd(h, c);
    check_eq(hit, d < 0.0, "a box contains the points strictly inside its sides");
    check_eq(dot(v, v), d * d, "box v point: the vector is as long as the gap or overlap");
    check_eq(box_sd(h, c - v), 0.0, "box v point: after moving by the vector the point is on the box's edge");
}
pub fn law_c07_box_point(c: Vec2, angle: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    box_point(&c, c, h);
    box_point(&Translate2d::new(c), c, h);
    box_point(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c, h);
    box_point(&AxisTransform2d::new(c, 1.0), c, h);
}
fn box_ball<T: Transformation2d + Invertible>(rel: &T, c: Vec2, h: Vec2, r: f32) {
    let (hit, v) = Box2d::new(h).sdfv_rel(&Ball::with_radius(r), rel);
    let d = box_sd(h, c) - r;
    check_eq(hit, d < 0.0, "a ball overlaps a box exactly when its centre is nearer than its radius");
    check_eq(dot(v, v), d * d, "box v ball: the vector is as long as the gap or overlap");
    check_eq(box_sd(h, c - v), r, "box v ball: after moving by the vector the ball touches the box");
}
pub fn law_c07_box_ball(c: Vec2, angle: f32, h: Vec2, r: f32) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    assume(r > 0.0);
    box_ball(&c, c, h, r);
    box_ball(&Translate2d::new(c), c, h, r);
    box_ball(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c, h, r);
    box_ball(&AxisTransform2d::new(c, 1.0), c, h, r);
}
fn point_point<T: Transformation2d + Invertible>(rel: &T, c: Vec2) {
    let (hit, v) = Point.sdfv_rel(&Point, rel);
    check_eq(hit, c.x == 0.0 && c.y == 0.0, "points meet exactly when they coincide");
    check_eq(v, c, "point v point: the vector leads to the other point");
}
pub fn law_c07_point_point(c: Vec2, angle: f32) {
    point_point(&c, c);
    point_point(&Translate2d::new(c), c);
    point_point(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c);
}
/// the point first: seen from the point's frame, the other shape is at `rel`
fn point_ball<T: Transformation2d + Invertible>(rel: &T, c: Vec2, r: f32) {
    let (hit, v) = Point.sdfv_rel(&Ball::with_radius(r), rel);
    check_eq(hit, len(c) < r, "point v ball: the verdict of ball v point");
    check_eq(dot(v, v), (len(c) - r) * (len(c) - r), "point v ball: the vector is as long as the gap or overlap");
    check_eq(dot(c - v, c - v), r * r, "point v ball: after moving by the vector the point is on the circle");
}
pub fn law_c07_point_ball(c: Vec2, angle: f32, r: f32) {
    assume(r > 0.0);
    point_ball(&c, c, r);
    point_ball(&Translate2d::new(c), c, r);
    point_ball(&Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::ONE }, c, r);
    point_ball(&AxisTransform2d::new(c, 1.0), c, r);
}
/// p: the point in the box's own frame
fn point_box<T: Transformation2d + Invertible>(rel: &T, p: Vec2, h: Vec2) {
    let (hit, v) = Point.sdfv_rel(&Box2d::new(h), rel);
    let d = box_sd(h, p);
    check_eq(hit, d < 0.0, "point v box: the verdict of box v point");
    check_eq(dot(v, v), d * d, "point v box: the vector is as long as the gap or overlap");
    let moved = p + rel.unapply_normal(v);
    check_eq(box_sd(h, moved), 0.0, "point v box: after moving by the vector the point is on the box's edge");
}
pub fn law_c07_point_box(p: Vec2, angle: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    point_box(&-p, p, h);
    point_box(&Translate2d::new(-p), p, h);
    point_box(&AxisTransform2d::new(-p, 1.0), p, h);
    let rot = Rotor2d::from_angle(angle);
    point_box(&Transform2d { pos: -(rot * p), rot, scale: Vec2::ONE }, p, h);
}
