//! C04 engine transforms agree with the native ones
use crate::spec::*;
use auburn::col2d::*;
use glam::{Quat, Vec2, Vec3};
type B = bevy::prelude::Transform;

pub fn law_c04_agree_2d(t: Vec3, h: f32, s: Vec3, p: Vec2) {
    let angle = 2.0 * h;
    assume(s.x != 0.0);
    assume(s.y != 0.0);
    let b = B { translation: t, rotation: Quat::from_rotation_z(angle), scale: s };
    let n = Transform2d { pos: Vec2::new(t.x, t.y), rot: Rotor2d::from_angle(angle), scale: Vec2::new(s.x, s.y) };
    check_eq(Transformation2d::apply(&b, p), n.apply(p), "apply");
    check_eq(Transformation2d::unapply(&b, p), n.unapply(p), "unapply");
    check_eq(Transformation2d::apply_normal(&b, p), n.apply_normal(p), "apply_normal");
    check_eq(Transformation2d::unapply_normal(&b, p), n.unapply_normal(p), "unapply_normal");
    check_eq(Transformation2d::apply_origin(&b), n.apply_origin(), "apply_origin");
    check_eq(Transformation2d::scaling_factor(&b), n.scaling_factor(), "scaling_factor");
    let c: Transform2d = b.into();
    check_eq(c.pos, n.pos, "conversion keeps the position");
    check_eq(c.scale, n.scale, "conversion keeps the scale");
    check_eq(c.rot, n.rot, "conversion keeps the rotation");
    // lifting a planar point to 3D and back
    let q = Transformation3d::apply(&b, Vec3::new(p.x, p.y, 0.0));
    check_eq(Vec2::new(q.x, q.y), n.apply(p), "the 3D mapping agrees in the plane");
}
pub fn law_c04_roundtrip_3d(t: Vec3, s: Vec3, p: Vec3) {
    assume(s.x != 0.0);
    assume(s.y != 0.0);
    assume(s.z != 0.0);
    let b = B { translation: t, rotation: unit_quat(0), scale: s };
    check_eq(Transformation3d::unapply(&b, Transformation3d::apply(&b, p)), p, "3D unapply(apply(p)) == p");
    check_eq(Transformation3d::apply(&b, Transformation3d::unapply(&b, p)), p, "3D apply(unapply(p)) == p");
    check_eq(Transformation3d::apply_origin(&b), Transformation3d::apply(&b, Vec3::ZERO), "3D apply_origin == apply(0)");
}
pub fn law_c04_compose_3d(t: Vec3, u: Vec3, s: f32, r: f32, p: Vec3) {
    assume(s != 0.0);
    assume(r != 0.0);
    let a = B { translation: t, rotation: unit_quat(0), scale: Vec3::splat(s) };
    let b = B { translation: u, rotation: unit_quat(1), scale: Vec3::splat(r) };
    check_eq(Transformation3d::apply(&a.compose(&b), p), Transformation3d::apply(&a, Transformation3d::apply(&b, p)), "3D compose");
    check_eq(Transformation3d::apply(&a.inverse(), Transformation3d::apply(&a, p)), p, "3D inverse undoes apply");
    check_eq(Transformation3d::apply(&a.inverse(), p), Transformation3d::unapply(&a, p), "3D inverse == unapply");
}
pub fn law_c04_compose_2d(t: Vec3, u: Vec3, s: f32, r: f32, g: f32, h: f32, p: Vec2) {
    let (alpha, beta) = (2.0 * g, 2.0 * h);
    assume(s != 0.0);
    assume(r != 0.0);
    let a = B { translation: t, rotation: Quat::from_rotation_z(alpha), scale: Vec3::splat(s) };
    let b = B { translation: u, rotation: Quat::from_rotation_z(beta), scale: Vec3::splat(r) };
    let c = a.compose(&b);
    check_eq(Transformation2d::apply(&c, p), Transformation2d::apply(&a, Transformation2d::apply(&b, p)), "compose");
    check_eq(Transformation2d::apply_normal(&c, p), Transformation2d::apply_normal(&a, Transformation2d::apply_normal(&b, p)), "compose directions");
    check_eq(Transformation2d::apply(&a.inverse(), Transformation2d::apply(&a, p)), p, "inverse undoes apply");
    let d = a.delta_transform(&b);
    check_eq(Transformation2d::apply(&d, p), Transformation2d::unapply(&a, Transformation2d::apply(&b, p)), "delta");
}
