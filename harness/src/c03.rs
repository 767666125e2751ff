//! C03 direction mapping is an orientation-preserving isometry; rotor algebra; scaling factor
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn isometry<T: Transformation2d>(t: &T, n: Vec2, m: Vec2) {
    let (a, b) = (t.apply_normal(n), t.apply_normal(m));
    check_eq(a.x * a.x + a.y * a.y, n.x * n.x + n.y * n.y, "apply_normal keeps lengths");
    check_eq(a.x * b.x + a.y * b.y, n.x * m.x + n.y * m.y, "apply_normal keeps angles");
    check_eq(a.x * b.y - a.y * b.x, n.x * m.y - n.y * m.x, "apply_normal keeps orientation");
    let (a, b) = (t.unapply_normal(n), t.unapply_normal(m));
    check_eq(a.x * a.x + a.y * a.y, n.x * n.x + n.y * n.y, "unapply_normal keeps lengths");
    check_eq(a.x * b.y - a.y * b.x, n.x * m.y - n.y * m.x, "unapply_normal keeps orientation");
}
/// points displaced by d end up displaced by the rotated, scaled d
fn similarity<T: Transformation2d>(t: &T, s: f32, p: Vec2, d: Vec2) {
    let e = t.apply(p + d) - t.apply(p);
    check_eq(e, s * t.apply_normal(d), "apply acts on displacements as scale * apply_normal");
    check_eq(t.scaling_factor(), s, "scaling_factor is the factor distances grow by");
}

pub fn law_c03_identity(n: Vec2, m: Vec2) {
    isometry(&IdentityTransform, n, m);
    similarity(&IdentityTransform, 1.0, n, m);
}
pub fn law_c03_vec2(t: Vec2, n: Vec2, m: Vec2) {
    isometry(&t, n, m);
    similarity(&t, 1.0, n, m);
}
pub fn law_c03_translate(t: Vec2, n: Vec2, m: Vec2) {
    isometry(&Translate2d::new(t), n, m);
    similarity(&Translate2d::new(t), 1.0, n, m);
}
pub fn law_c03_axis(t: Vec2, s: f32, n: Vec2, m: Vec2) {
    assume(s > 0.0);
    isometry(&AxisTransform2d::new(t, s), n, m);
    similarity(&AxisTransform2d::new(t, s), s, n, m);
}
pub fn law_c03_transform(t: Vec2, angle: f32, s: f32, n: Vec2, m: Vec2) {
    assume(s > 0.0);
    let t = Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) };
    isometry(&t, n, m);
    similarity(&t, s, n, m);
}
/// with a non-uniform scale the factor bounds how much distances grow
pub fn law_c03_scaling_bound(t: Vec2, angle: f32, s: Vec2, p: Vec2, d: Vec2) {
    assume(s.x > 0.0);
    assume(s.y > 0.0);
    let t = Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: s };
    isometry(&t, p, d);
    let e = t.apply(p + d) - t.apply(p);
    let f = t.scaling_factor();
    check(e.x * e.x + e.y * e.y <= f * f * (d.x * d.x + d.y * d.y), "distances never grow by more than scaling_factor");
    check(f == s.x || f == s.y, "scaling_factor is one of the axis scales");
}
pub fn law_c03_bevy(t: glam::Vec3, angle: f32, s: f32, n: Vec2, m: Vec2) {
    assume(s > 0.0);
    let t = bevy::prelude::Transform { translation: t, rotation: glam::Quat::from_rotation_z(angle), scale: glam::Vec3::splat(s) };
    isometry(&t, n, m);
    similarity(&t, s, n, m);
}
pub fn law_c03_rotor(a: f32, b: f32, p: Vec2) {
    let (ra, rb) = (Rotor2d::from_angle(a), Rotor2d::from_angle(b));
    let (s, c) = a.sin_cos();
    check_eq(ra * p, Vec2::new(c * p.x - s * p.y, s * p.x + c * p.y), "rotation matrix of an angle");
    check_eq((ra * rb) * p, ra * (rb * p), "rotor product composes rotations");
    check_eq(ra * rb, Rotor2d::from_angle(a + b), "angles add");
    check_eq(ra * rb, rb * ra, "planar rotations commute");
    check_eq(ra.inverse() * (ra * p), p, "inverse rotor undoes the rotation");
    check_eq(ra.inverse(), Rotor2d::from_angle(-a), "inverse rotor has the opposite angle");
    check_eq(ra * Rotor2d::IDENTITY, ra, "identity rotor is neutral");
    check_eq(Rotor2d::default() * p, p, "default rotor is the identity");
}
pub fn law_c03_angle(a: f32) {
    let r = Rotor2d::from_angle(a);
    check_eq(Rotor2d::from_angle(r.angle()), r, "from_angle(angle()) is the same rotation");
}
pub fn law_c03_quaternion(h: f32, k: f32, p: Vec2) {
    let a = 2.0 * h;
    let q = glam::Quat::from_rotation_z(a);
    check_eq(Rotor2d::from_quaternion(q), Rotor2d::from_angle(a), "from_quaternion of a Z rotation");
    assume(k > 0.0);
    let q = glam::Quat::from_xyzw(0.0, 0.0, q.z * k, q.w * k);
    check_eq(Rotor2d::from_quaternion(q) * p, Rotor2d::from_angle(a) * p, "from_quaternion normalises");
}
