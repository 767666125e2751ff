//! C27 constructors build what they name
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

pub fn law_c27_plain(r: f32, h: Vec2) {
    check_eq(Ball::new(r).radius, r, "Ball::new");
    check_eq(Ball::with_radius(r).radius, r, "Ball::with_radius");
    check_eq(Box2d::new(h).halfsize, h, "Box2d::new");
    check_eq(Box2d::with_halfdims(h.x, h.y).halfsize, h, "Box2d::with_halfdims");
    check_eq(Ball::default().radius, 0.0, "Ball::default");
    check_eq(Box2d::default().halfsize, Vec2::ZERO, "Box2d::default");
    check_eq(Poly2d::default().points.len(), 0, "Poly2d::default");
}
pub fn law_c27_union(r: f32, h: Vec2, a: Vec2, b: Vec2, c: Vec2) {
    check(matches!(Shape2d::ball(r), Shape2d::Ball(x) if x.radius == r), "Shape2d::ball");
    check(matches!(Shape2d::rect(h.x, h.y), Shape2d::Box2d(x) if x.halfsize.x == h.x && x.halfsize.y == h.y), "Shape2d::rect");
    match Shape2d::poly(&[a, b, c]) {
        Shape2d::Poly2d(p) => {
            check_eq(p.points.len(), 3, "Shape2d::poly has the vertices given");
            check_eq(p.points[0], a, "Shape2d::poly");
            check_eq(p.points[1], b, "Shape2d::poly");
            check_eq(p.points[2], c, "Shape2d::poly");
        }
        _ => check(false, "Shape2d::poly is a polygon"),
    }
    let s = Shape2d::ball(r);
    check(matches!(s.clone(), Shape2d::Ball(x) if x.radius == r), "a clone is the same shape");
}
pub fn law_c27_corners(h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let p = Poly2d::from(Box2d::new(h));
    check_eq(p.points.len(), 4, "the polygon of a box has four vertices");
    let (mut ll, mut lh, mut hl, mut hh) = (0, 0, 0, 0);
    for v in &p.points {
        check(v.x.abs() == h.x && v.y.abs() == h.y, "each vertex is a corner of the box");
        if v.x < 0.0 && v.y < 0.0 {
            ll += 1;
        } else if v.x < 0.0 {
            lh += 1;
        } else if v.y < 0.0 {
            hl += 1;
        } else {
            hh += 1;
        }
    }
    check(ll == 1 && lh == 1 && hl == 1 && hh == 1, "the polygon of a box has each corner once");
}
fn regular(n: usize, r: f32) {
    let p = Poly2d::regular(n, r);
    let q = Poly2d::regular_upright(n, r);
    check_eq(p.points.len(), n, "a regular polygon has as many vertices as sides");
    check_eq(q.points.len(), n, "an upright regular polygon has as many vertices as sides");
    let mut i = 0;
    while i < n {
        let angle = 2.0 * core::f32::consts::PI * (i as f32) / (n as f32);
        let (s, c) = (angle.sin(), angle.cos());
        check_eq(p.points[i], Vec2::new(r * c, r * s), "the vertices of a regular polygon are evenly turned from the right");
        check_eq(q.points[i], Vec2::new(r * s, r * c), "the vertices of an upright regular polygon are evenly turned from the top");
        i += 1;
    }
}
pub fn law_c27_regular(r: f32) {
    assume(r > 0.0);
    regular(0, r);
    regular(1, r);
    regular(2, r);
    regular(3, r);
    regular(4, r);
    regular(5, r);
    regular(6, r);
    regular(7, r);
    regular(8, r);
    regular(12, r);
    regular(33, r);
}
/// strict_check: every vertex is the support point in its own direction
fn strict(points: &[Vec2]) {
    let p = Poly2d::new(points);
    let mut own = true;
    for v in points {
        own = own && p.extreme_point(*v) == *v;
    }
    check_eq(p.strict_check(), own, "strict_check answers whether every vertex is farthest in its own direction");
}
pub fn law_c27_strict1(a: Vec2) {
    strict(&[a]);
}
pub fn law_c27_strict2(a: Vec2, b: Vec2) {
    strict(&[a, b]);
}
pub fn law_c27_strict3(a: Vec2, b: Vec2, c: Vec2) {
    strict(&[a, b, c]);
}
fn placed(t: &Transform2d, pos: Vec2, rot: Rotor2d, scale: Vec2, p: Vec2) {
    check_eq(t.pos, pos, "the placement has the translation it was built with");
    check_eq(t.scale, scale, "the placement has the scale it was built with");
    check_eq(t.rot * p, rot * p, "the placement has the rotation it was built with");
}
pub fn law_c27_placements(pos: Vec2, angle: f32, b: f32, scale: Vec2, p: Vec2) {
    let id = Rotor2d::IDENTITY;
    let rot = Rotor2d::from_angle(angle);
    placed(&Transform2d::IDENTITY, Vec2::ZERO, id, Vec2::ONE, p);
    placed(&Transform2d::default(), Vec2::ZERO, id, Vec2::ONE, p);
    placed(&Transform2d::from_translation(pos), pos, id, Vec2::ONE, p);
    placed(&Transform2d::from_angle(angle), Vec2::ZERO, rot, Vec2::ONE, p);
    placed(&Transform2d::from_rotation(rot), Vec2::ZERO, rot, Vec2::ONE, p);
    placed(&Transform2d::from_scale(scale), Vec2::ZERO, id, scale, p);
    let t = Transform2d { pos, rot, scale };
    let other = Rotor2d::from_angle(b);
    placed(&t.clone().with_translation(scale), scale, rot, scale, p);
    placed(&t.clone().with_angle(b), pos, other, scale, p);
    placed(&t.clone().with_rotation(other), pos, other, scale, p);
    placed(&t.clone().with_scale(pos), pos, rot, pos, p);
    placed(&t, pos, rot, scale, p);
    check_eq(id * p, p, "the identity rotation turns nothing");
    check_eq(Rotor2d::default() * p, p, "the default rotation turns nothing");
}
pub fn law_c27_placements2(pos: Vec2, s: f32, p: Vec2) {
    let t = Translate2d::new(pos);
    check_eq(t.apply(p), pos + p, "Translate2d::new");
    check_eq(Translate2d::from(pos).apply(p), pos + p, "Translate2d::from");
    check_eq(Translate2d::default().apply(p), p, "Translate2d::default");
    let a = AxisTransform2d::new(pos, s);
    check_eq(a.apply(p), p * s + pos, "AxisTransform2d::new");
    check_eq(a.apply_origin(), pos, "AxisTransform2d::new");
}
pub fn law_c27_collider(r: f32, pos: Vec2) {
    let (s, t) = (Ball::with_radius(r), Translate2d::new(pos));
    let c = Collider2d::new(&s, &t);
    let d: Collider2d<Ball, Translate2d> = (&s, &t).into();
    let e = c.clone();
    check_eq(c.shape.radius, r, "Collider2d::new");
    check_eq(c.transform.apply_origin(), pos, "Collider2d::new");
    check_eq(d.shape.radius, r, "Collider2d::from");
    check_eq(d.transform.apply_origin(), pos, "Collider2d::from");
    check_eq(e.shape.radius, r, "Collider2d::clone");
    check_eq(e.transform.apply_origin(), pos, "Collider2d::clone");
}
/// a polygon of many vertices, one of which may be inside
fn strict_many(inside: usize) {
    const TURN: [(f32, f32); 12] = [(5.0, 0.0), (4.0, 3.0), (3.0, 4.0), (0.0, 5.0), (-3.0, 4.0), (-4.0, 3.0), (-5.0, 0.0), (-4.0, -3.0), (-3.0, -4.0), (0.0, -5.0), (3.0, -4.0), (4.0, -3.0)];
    let mut v = Vec::new();
    let mut i = 0;
    while i < 36 {
        let p = TURN[i / 3];
        v.push(if i == inside { Vec2::new(p.0 / 2.0, p.1 / 2.0) } else { Vec2::new(p.0, p.1) });
        i += 1;
    }
    check_eq(Poly2d::new(&v).strict_check(), inside >= 36, "strict_check finds the one vertex of many that is inside");
}
pub fn law_c27_strict_many() {
    strict_many(0);
    strict_many(8);
    strict_many(16);
    strict_many(32);
    strict_many(35);
    strict_many(36);
}
pub fn law_c27_regular_many(r: f32) {
    assume(r > 0.0);
    loops(2000);
    regular(150, r);
}
