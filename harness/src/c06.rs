//! C06 bounding boxes contain the shape and are tight
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn inside(h: Vec2, p: Vec2) -> bool {
    p.x.abs() <= h.x && p.y.abs() <= h.y
}
pub fn law_c06_ball(r: f32, p: Vec2) {
    assume(r >= 0.0);
    let b = Ball::with_radius(r).symmetric_bounding_box().halfsize;
    check_eq(b, Vec2::new(r, r), "a ball's bounding box is the square around it");
    assume(p.x * p.x + p.y * p.y <= r * r);
    check(inside(b, p), "every point of the ball is in its bounding box");
}
pub fn law_c06_box(h: Vec2) {
    check_eq(Box2d::new(h).symmetric_bounding_box().halfsize, h, "a box bounds itself");
}
pub fn law_c06_point() {
    check_eq(Point.symmetric_bounding_box().halfsize, Vec2::ZERO, "a point's bounding box is empty");
}
fn poly(points: &[Vec2]) {
    let b = Poly2d::new(points).symmetric_bounding_box().halfsize;
    let (mut tx, mut ty) = (false, false);
    for p in points {
        check(inside(b, *p), "every vertex is in the polygon's bounding box");
        tx = tx || p.x.abs() == b.x;
        ty = ty || p.y.abs() == b.y;
    }
    check(tx, "the polygon's bounding box is tight in x");
    check(ty, "the polygon's bounding box is tight in y");
}
pub fn law_c06_poly1(a: Vec2) {
    poly(&[a]);
}
pub fn law_c06_poly2(a: Vec2, b: Vec2) {
    poly(&[a, b]);
}
pub fn law_c06_poly3(a: Vec2, b: Vec2, c: Vec2) {
    poly(&[a, b, c]);
}
pub fn law_c06_cover(h: Vec2, p: Vec2, q: Vec2) {
    assume(h.x >= 0.0);
    assume(h.y >= 0.0);
    let mut b = Box2d::new(h);
    b.cover(&p);
    check(inside(b.halfsize, p), "a covered point is inside");
    assume(inside(h, q));
    check(inside(b.halfsize, q), "covering keeps every point that was inside");
    check(b.halfsize.x == h.x || b.halfsize.x == p.x.abs(), "covering grows no more than needed in x");
    check(b.halfsize.y == h.y || b.halfsize.y == p.y.abs(), "covering grows no more than needed in y");
}
pub fn law_c06_box_as_poly(h: Vec2) {
    assume(h.x >= 0.0);
    assume(h.y >= 0.0);
    let p = Poly2d::from(Box2d::new(h));
    check_eq(p.symmetric_bounding_box().halfsize, h, "the polygon of a box has the box as bounding box");
}
/// an arbitrary vertex anywhere among many
fn among(at: usize, a: Vec2) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < 17 {
        let k = i as f32;
        v.push(if i == at { a } else { Vec2::new(k * 0.25 - 2.0, 1.5 - k * 0.125) });
        i += 1;
    }
    let b = Poly2d::new(&v).symmetric_bounding_box().halfsize;
    let x = if at == 0 { 2.0 - 0.25 } else { 2.0 };
    let x = if at == 0 || at == 16 { 2.0 } else { x };
    let y = if at == 0 { 1.375 } else { 1.5 };
    check_eq(b.x, if a.x.abs() > x { a.x.abs() } else { x }, "the bounding box of many vertices in x");
    check_eq(b.y, if a.y.abs() > y { a.y.abs() } else { y }, "the bounding box of many vertices in y");
}
pub fn law_c06_many(a: Vec2) {
    among(0, a);
    among(1, a);
    among(7, a);
    among(8, a);
    among(15, a);
    among(16, a);
}
fn hundreds(at: usize, a: Vec2) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < 300 {
        v.push(if i == at { a } else { Vec2::new((i % 5) as f32 - 2.0, (i % 7) as f32 - 3.0) });
        i += 1;
    }
    let b = Poly2d::new(&v).symmetric_bounding_box().halfsize;
    check_eq(b.x, if a.x.abs() > 2.0 { a.x.abs() } else { 2.0 }, "the bounding box of hundreds of vertices in x");
    check_eq(b.y, if a.y.abs() > 3.0 { a.y.abs() } else { 3.0 }, "the bounding box of hundreds of vertices in y");
}
pub fn law_c06_hundreds(a: Vec2) {
    loops(2000);
    hundreds(0, a);
    hundreds(63, a);
    hundreds(64, a);
    hundreds(150, a);
    hundreds(256, a);
    hundreds(299, a);
}
