//! C10 collider-level queries depend on the relative placement only and answer in world directions
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

/// a shape whose answers are an arbitrary function of where it sees a test point and direction
pub struct Probe(pub Vec2, pub Vec2);
impl<const P: bool, const D: bool, T: Transformation2d> SdfvCommonRel2d<P, D, Probe, T> for Probe {
    fn sdfv_common_rel(&self, b: &Probe, rel: &T) -> (bool, Vec2) {
        answer(rel.apply(b.0), rel.apply_normal(b.1), rel.unapply(self.0), rel.unapply_normal(self.1))
    }
}
impl SdfRel2d<Probe> for Probe {
    fn sdf_rel(&self, b: &Probe, rel: &impl Transformation2d) -> f32 {
        uf2(9, rel.apply(b.0).x, rel.unapply(self.0).y).0
    }
}
fn answer(p: Vec2, n: Vec2, q: Vec2, m: Vec2) -> (bool, Vec2) {
    let (a, b) = uf2(0, p.x, p.y);
    let (c, d) = uf2(1, n.x, n.y);
    let (e, f) = uf2(2, q.x, q.y);
    let (g, h) = uf2(3, m.x, m.y);
    (a + c + e + g > 0.0, Vec2::new(a + d + e + h, b + c + f + g))
}
fn world<T: Transformation2d + DeltaTransform>(a: &T, b: &T, x: &Probe, y: &Probe) {
    let (hit, v) = answer(
        a.unapply(b.apply(y.0)),
        a.unapply_normal(b.apply_normal(y.1)),
        b.unapply(a.apply(x.0)),
        b.unapply_normal(a.apply_normal(x.1)),
    );
    let w = a.apply_normal(v);
    let (ca, cb) = (Collider2d::new(x, a), Collider2d::new(y, b));
    check_eq(ca.collides(cb), hit, "collides uses the relative placement");
    check_eq(ca.sdfv(cb), (hit, w), "sdfv uses the relative placement and answers in world directions");
    check_eq(ca.sdf(cb), uf2(9, a.unapply(b.apply(y.0)).x, b.unapply(a.apply(x.0)).y).0, "sdf uses the relative placement");
    let (pen, dis) = (ca.penetrates(cb), ca.distance_to(cb));
    check_eq(pen.is_some(), hit, "penetrates uses the relative placement");
    check_eq(dis.is_none(), hit, "distance_to uses the relative placement");
    if let Some(p) = pen {
        check_eq(p, w, "penetrates answers in world directions");
    }
    if let Some(d) = dis {
        check_eq(d, w, "distance_to answers in world directions");
    }
    // tuples and colliders are the same thing
    check_eq((x, a).collides((y, b)), hit, "a (shape, transform) pair collides like the collider");
    check_eq((x, a).sdfv((y, b)), (hit, w), "a (shape, transform) pair answers sdfv like the collider");
    check_eq(ca.sdfv((y, b)), (hit, w), "colliders and pairs mix");
    check_eq((x, a).penetrates(cb).is_some(), hit, "pairs and colliders mix");
}
pub fn law_c10_vec2(p: Vec2, q: Vec2, x: Vec2, n: Vec2, y: Vec2, m: Vec2) {
    world(&p, &q, &Probe(x, n), &Probe(y, m));
}
pub fn law_c10_translate(p: Vec2, q: Vec2, x: Vec2, n: Vec2, y: Vec2, m: Vec2) {
    world(&Translate2d::new(p), &Translate2d::new(q), &Probe(x, n), &Probe(y, m));
}
pub fn law_c10_rigid(p: Vec2, q: Vec2, alpha: f32, beta: f32, x: Vec2, n: Vec2, y: Vec2, m: Vec2) {
    let a = Transform2d { pos: p, rot: Rotor2d::from_angle(alpha), scale: Vec2::ONE };
    let b = Transform2d { pos: q, rot: Rotor2d::from_angle(beta), scale: Vec2::ONE };
    world(&a, &b, &Probe(x, n), &Probe(y, m));
}
/// uniform scales: the placement seen is still the relative one
pub fn law_c10_axis(p: Vec2, q: Vec2, s: f32, r: f32, x: Vec2, n: Vec2, y: Vec2, m: Vec2) {
    assume(s > 0.0);
    assume(r > 0.0);
    world(&AxisTransform2d::new(p, s), &AxisTransform2d::new(q, r), &Probe(x, n), &Probe(y, m));
}
pub fn law_c10_bevy(p: glam::Vec3, q: glam::Vec3, g: f32, h: f32, x: Vec2, n: Vec2, y: Vec2, m: Vec2) {
    let a = bevy::prelude::Transform { translation: p, rotation: glam::Quat::from_rotation_z(2.0 * g), scale: glam::Vec3::ONE };
    let b = bevy::prelude::Transform { translation: q, rotation: glam::Quat::from_rotation_z(2.0 * h), scale: glam::Vec3::ONE };
    world(&a, &b, &Probe(x, n), &Probe(y, m));
}

// ---- concrete pairs: moving the whole scene moves the answer along; swapping the roles mirrors it
fn place(g: &Transform2d, p: Vec2, rot: Rotor2d) -> Transform2d {
    Transform2d { pos: g.apply(p), rot: g.rot * rot, scale: Vec2::ONE }
}
fn scene<A, B>(a: &A, b: &B, p: Vec2, q: Vec2, alpha: f32, beta: f32, t: Vec2, gamma: f32)
where
    A: SdfvCommonRel2d<true, true, B, Transform2d>,
{
    let (ra, rb) = (Rotor2d::from_angle(alpha), Rotor2d::from_angle(beta));
    let x = Transform2d { pos: p, rot: ra, scale: Vec2::ONE };
    let y = Transform2d { pos: q, rot: rb, scale: Vec2::ONE };
    let g = Transform2d { pos: t, rot: Rotor2d::from_angle(gamma), scale: Vec2::ONE };
    let (gx, gy) = (place(&g, p, ra), place(&g, q, rb));
    let (hit, v) = (a, &x).sdfv((b, &y));
    let (hit2, v2) = (a, &gx).sdfv((b, &gy));
    check_eq(hit2, hit, "moving the whole scene keeps the verdict");
    check_eq(v2, g.apply_normal(v), "moving the whole scene turns the vector along");
}
pub fn law_c10_scene_ball_point(p: Vec2, q: Vec2, alpha: f32, beta: f32, t: Vec2, gamma: f32, r: f32) {
    assume(r > 0.0);
    assume(p.x != q.x || p.y != q.y);
    scene(&Ball::with_radius(r), &Point, p, q, alpha, beta, t, gamma);
}
pub fn law_c10_scene_box_point(p: Vec2, q: Vec2, alpha: f32, beta: f32, t: Vec2, gamma: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    scene(&Box2d::new(h), &Point, p, q, alpha, beta, t, gamma);
}
fn mirrored<A, B, T>(a: &A, b: &B, x: &T, y: &T)
where
    T: Transformation2d + DeltaTransform,
    A: SdfvCommonRel2d<true, true, B, T>,
    B: SdfvCommonRel2d<true, true, A, T>,
{
    let (h1, v1) = (a, x).sdfv((b, y));
    let (h2, v2) = (b, y).sdfv((a, x));
    check_eq(h1, h2, "swapping the shapes keeps the verdict");
    check_eq(v2, -v1, "swapping the shapes flips the vector");
}
pub fn law_c10_mirror_ball_ball(p: Vec2, q: Vec2, r: f32, k: f32) {
    assume(r > 0.0);
    assume(k > 0.0);
    assume(p.x != q.x || p.y != q.y);
    mirrored(&Ball::with_radius(r), &Ball::with_radius(k), &p, &q);
}
pub fn law_c10_mirror_box_point(p: Vec2, q: Vec2, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    mirrored(&Box2d::new(h), &Point, &p, &q);
    mirrored(&Box2d::new(h), &Point, &Translate2d::new(p), &Translate2d::new(q));
}
pub fn law_c10_mirror_box_point_rotated(p: Vec2, l: Vec2, alpha: f32, beta: f32, h: Vec2) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let x = Transform2d { pos: p, rot: Rotor2d::from_angle(alpha), scale: Vec2::ONE };
    let y = Transform2d { pos: x.apply(l), rot: Rotor2d::from_angle(beta), scale: Vec2::ONE };
    mirrored(&Box2d::new(h), &Point, &x, &y);
}
pub fn law_c10_mirror_ball_point(p: Vec2, q: Vec2, alpha: f32, beta: f32, r: f32) {
    assume(r > 0.0);
    assume(p.x != q.x || p.y != q.y);
    let x = Transform2d { pos: p, rot: Rotor2d::from_angle(alpha), scale: Vec2::ONE };
    let y = Transform2d { pos: q, rot: Rotor2d::from_angle(beta), scale: Vec2::ONE };
    mirrored(&Ball::with_radius(r), &Point, &x, &y);
}
