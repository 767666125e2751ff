//! C05 support points: extreme_point(d) is a point of the shape that is farthest along d
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn dot(a: Vec2, b: Vec2) -> f32 {
    a.x * b.x + a.y * b.y
}

pub fn law_c05_ball(r: f32, d: Vec2) {
    assume(r > 0.0);
    assume(d.x != 0.0 || d.y != 0.0);
    let e = Ball::with_radius(r).extreme_point(d);
    check_eq(dot(e, e), r * r, "a ball's support point is on the circle");
    check_eq(e.x * d.y, e.y * d.x, "a ball's support point is in line with the direction");
    check(dot(e, d) > 0.0, "a ball's support point is on the side of the direction");
}
pub fn law_c05_ball_zero(r: f32) {
    assume(r > 0.0);
    let e = Ball::with_radius(r).extreme_point(Vec2::ZERO);
    check(is_defined(e.x) && is_defined(e.y), "the zero direction gives a defined point");
    check(dot(e, e) <= r * r, "the zero direction gives a point of the ball");
}
pub fn law_c05_box(h: Vec2, d: Vec2, q: Vec2) {
    assume(h.x >= 0.0);
    assume(h.y >= 0.0);
    let e = Box2d::new(h).extreme_point(d);
    check(e.x.abs() <= h.x && e.y.abs() <= h.y, "a box's support point is in the box");
    check_eq(dot(e, d), d.x.abs() * h.x + d.y.abs() * h.y, "a box's support value");
    assume(q.x.abs() <= h.x);
    assume(q.y.abs() <= h.y);
    check(dot(e, d) >= dot(q, d), "no point of the box is farther along the direction");
}
pub fn law_c05_point(d: Vec2) {
    check_eq(Point.extreme_point(d), Vec2::ZERO, "a point's support point");
}

fn poly(points: &[Vec2], d: Vec2) {
    let e = Poly2d::new(points).extreme_point(d);
    let mut vertex = false;
    for p in points {
        vertex = vertex || (e.x == p.x && e.y == p.y);
    }
    check(vertex, "a polygon's support point is one of its vertices");
    for p in points {
        check(dot(*p, d) <= dot(e, d), "no vertex is farther along the direction");
    }
}
/// within the range of f32 the smallest score is never reached
fn in_range(p: Vec2, d: Vec2) {
    assume(d.x * p.x + d.y * p.y > f32::MIN);
}
pub fn law_c05_poly1(d: Vec2, a: Vec2) {
    in_range(a, d);
    poly(&[a], d);
}
pub fn law_c05_poly2(d: Vec2, a: Vec2, b: Vec2) {
    in_range(a, d);
    in_range(b, d);
    poly(&[a, b], d);
}
pub fn law_c05_poly3(d: Vec2, a: Vec2, b: Vec2, c: Vec2) {
    in_range(a, d);
    in_range(b, d);
    in_range(c, d);
    poly(&[a, b, c], d);
}
pub fn law_c05_poly4(d: Vec2, a: Vec2, b: Vec2, c: Vec2, e: Vec2) {
    in_range(a, d);
    in_range(b, d);
    in_range(c, d);
    in_range(e, d);
    poly(&[a, b, c, e], d);
}
pub fn law_c05_box_as_poly(h: Vec2, d: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let p = Poly2d::from(Box2d::new(h));
    assume(d.x.abs() * h.x + d.y.abs() * h.y < -f32::MIN);
    let (e, f) = (p.extreme_point(d), Box2d::new(h).extreme_point(d));
    check_eq(dot(e, d), dot(f, d), "the polygon of a box has the box's support values");
}
pub fn law_c05_union(r: f32, h: Vec2, d: Vec2, a: Vec2, b: Vec2, c: Vec2) {
    check_eq(Shape2d::ball(r).extreme_point(d), Ball::with_radius(r).extreme_point(d), "Shape2d::ball supports like Ball");
    check_eq(Shape2d::rect(h.x, h.y).extreme_point(d), Box2d::with_halfdims(h.x, h.y).extreme_point(d), "Shape2d::rect supports like Box2d");
    check_eq(Shape2d::poly(&[a, b, c]).extreme_point(d), Poly2d::new(&[a, b, c]).extreme_point(d), "Shape2d::poly supports like Poly2d");
}

// world-space support under a transform
/// an arbitrary convex shape, seen through its support function
pub struct Any(pub i32);
impl ExtremePoint2d for Any {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let (x, y) = uf2(self.0, d.x, d.y);
        Vec2::new(x, y)
    }
}
impl<T: Transformation2d> ExtremePointT2d<T> for Any {}

/// the world support of a moved shape is the moved local support, for the direction seen locally
fn placed<T: Transformation2d>(t: &T, d: Vec2) {
    let local = t.unapply_normal(d);
    let e = Collider2d::new(&Any(0), t).extreme_point(d);
    check_eq(e, t.apply(Any(0).extreme_point(local)), "placed support point");
    check_eq(Any(0).extreme_point_t(t, d), e, "extreme_point_t agrees with the collider");
}
pub fn law_c05_placed(t: Vec2, angle: f32, s: f32, d: Vec2) {
    assume(s > 0.0);
    placed(&t, d);
    placed(&Translate2d::new(t), d);
    placed(&AxisTransform2d::new(t, s), d);
    placed(&Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) }, d);
    placed(&IdentityTransform, d);
}
pub fn law_c05_placed_box(t: Vec2, angle: f32, s: f32, h: Vec2, d: Vec2, q: Vec2) {
    assume(s > 0.0);
    assume(h.x >= 0.0);
    assume(h.y >= 0.0);
    assume(q.x.abs() <= h.x);
    assume(q.y.abs() <= h.y);
    let x = Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) };
    let shape = Box2d::new(h);
    let e = Collider2d::new(&shape, &x).extreme_point(d);
    let l = x.unapply(e);
    check(l.x.abs() <= h.x && l.y.abs() <= h.y, "a placed box's support point is in the placed box");
    let w = x.apply(q);
    check(dot(e, d) >= dot(w, d), "no point of the placed box is farther along the direction");
}
fn placed_ball<T: Transformation2d>(x: &T, o: Vec2, s: f32, r: f32, d: Vec2) {
    let shape = Ball::with_radius(r);
    let e = Collider2d::new(&shape, x).extreme_point(d) - o;
    check_eq(dot(e, e), s * r * s * r, "a placed ball's support point is on the placed circle");
    check_eq(e.x * d.y, e.y * d.x, "a placed ball's support point is in line with the direction");
    check(dot(e, d) > 0.0, "a placed ball's support point is on the side of the direction");
}
pub fn law_c05_placed_ball(t: Vec2, angle: f32, s: f32, r: f32, d: Vec2) {
    assume(s > 0.0);
    assume(r > 0.0);
    assume(d.x != 0.0 || d.y != 0.0);
    placed_ball(&t, t, 1.0, r, d);
    placed_ball(&Translate2d::new(t), t, 1.0, r, d);
    placed_ball(&AxisTransform2d::new(t, s), t, s, r, d);
    placed_ball(&Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) }, t, s, r, d);
}
pub fn law_c05_placed_point(t: Vec2, angle: f32, s: f32, d: Vec2) {
    assume(s > 0.0);
    let x = Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) };
    check_eq(Collider2d::new(&Point, &x).extreme_point(d), t, "a placed point's support point");
    check_eq(Point.extreme_point_t(&AxisTransform2d::new(t, s), d), t, "a placed point's support point");
}
/// the rest of a polygon: far more vertices than a test has, in no particular order
const ROUND: [(f32, f32); 12] = [(5.0, 0.0), (-4.0, 3.0), (4.0, 3.0), (3.0, 4.0), (-3.0, -4.0), (0.0, 5.0), (-3.0, 4.0), (-5.0, 0.0), (4.0, -3.0), (-4.0, -3.0), (0.0, -5.0), (3.0, -4.0)];
const TURN: [(f32, f32); 12] = [(5.0, 0.0), (4.0, 3.0), (3.0, 4.0), (0.0, 5.0), (-3.0, 4.0), (-4.0, 3.0), (-5.0, 0.0), (-4.0, -3.0), (-3.0, -4.0), (0.0, -5.0), (3.0, -4.0), (4.0, -3.0)];
fn many(points: &[(f32, f32)], d: Vec2) {
    assume(d.x.abs() < 1.0e6);
    assume(d.y.abs() < 1.0e6);
    let mut v = Vec::new();
    for p in points {
        v.push(Vec2::new(p.0, p.1));
    }
    let e = Poly2d::new(&v).extreme_point(d);
    let mut vertex = false;
    for p in points {
        vertex = vertex || (e.x == p.0 && e.y == p.1);
        check(p.0 * d.x + p.1 * d.y <= dot(e, d), "no vertex of many is farther along the direction");
    }
    check(vertex, "a polygon's support point is one of its many vertices");
}
pub fn law_c05_many_mixed(d: Vec2) {
    many(&ROUND, d);
}
pub fn law_c05_many_in_turn(d: Vec2) {
    many(&TURN, d);
}
pub fn law_c05_many_doubled(d: Vec2) {
    let mut v = [(0.0, 0.0); 24];
    let mut i = 0;
    while i < 24 {
        v[i] = TURN[(i + 7) / 2 % 12];
        i += 1;
    }
    many(&v, d);
}
/// an arbitrary vertex anywhere among hundreds
fn hundreds(at: usize, a: Vec2, d: Vec2) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < 300 {
        let p = TURN[i * 7 % 12];
        v.push(if i == at { a } else { Vec2::new(p.0, p.1) });
        i += 1;
    }
    let e = Poly2d::new(&v).extreme_point(d);
    check(dot(a, d) <= dot(e, d), "the arbitrary vertex among hundreds is not farther along the direction");
    let mut vertex = e.x == a.x && e.y == a.y;
    for p in &TURN {
        vertex = vertex || (e.x == p.0 && e.y == p.1);
        check(p.0 * d.x + p.1 * d.y <= dot(e, d), "no vertex of hundreds is farther along the direction");
    }
    check(vertex, "a polygon's support point is one of its hundreds of vertices");
}
pub fn law_c05_hundreds(a: Vec2) {
    loops(2000);
    hundreds(0, a, Vec2::new(1.0, 2.0));
    hundreds(63, a, Vec2::new(-1.0, 0.0));
    hundreds(64, a, Vec2::new(0.0, 1.0));
    hundreds(150, a, Vec2::new(-3.0, -2.0));
    hundreds(256, a, Vec2::new(2.0, -1.0));
    hundreds(299, a, Vec2::new(0.0, -1.0));
}
