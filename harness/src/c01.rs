//! C01 apply and unapply are mutually inverse (points and directions)
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn roundtrip<T: Transformation2d>(t: &T, p: Vec2) {
    check_eq(t.unapply(t.apply(p)), p, "unapply(apply(p)) == p");
    check_eq(t.apply(t.unapply(p)), p, "apply(unapply(p)) == p");
    check_eq(t.unapply_normal(t.apply_normal(p)), p, "unapply_normal(apply_normal(n)) == n");
    check_eq(t.apply_normal(t.unapply_normal(p)), p, "apply_normal(unapply_normal(n)) == n");
}

pub fn law_c01_identity(p: Vec2) {
    roundtrip(&IdentityTransform, p);
}
pub fn law_c01_vec2(t: Vec2, p: Vec2) {
    roundtrip(&t, p);
}
pub fn law_c01_translate(t: Vec2, p: Vec2) {
    roundtrip(&Translate2d::new(t), p);
    roundtrip(&Translate2d::from(t), p);
}
pub fn law_c01_axis(t: Vec2, s: f32, p: Vec2) {
    assume(s != 0.0);
    roundtrip(&AxisTransform2d::new(t, s), p);
}
pub fn law_c01_transform(t: Vec2, angle: f32, s: Vec2, p: Vec2) {
    assume(s.x != 0.0);
    assume(s.y != 0.0);
    let t = Transform2d { pos: t, rot: Rotor2d::from_angle(angle), scale: s };
    roundtrip(&t, p);
}
pub fn law_c01_builders(t: Vec2, angle: f32, s: Vec2, p: Vec2) {
    assume(s.x != 0.0);
    assume(s.y != 0.0);
    roundtrip(&Transform2d::IDENTITY, p);
    roundtrip(&Transform2d::default(), p);
    roundtrip(&Transform2d::from_translation(t), p);
    roundtrip(&Transform2d::from_angle(angle), p);
    roundtrip(&Transform2d::from_rotation(Rotor2d::from_angle(angle)), p);
    roundtrip(&Transform2d::from_scale(s), p);
    roundtrip(&Transform2d::from_scale(s).with_angle(angle).with_translation(t), p);
    roundtrip(&Transform2d::from_translation(t).with_rotation(Rotor2d::from_angle(angle)).with_scale(s), p);
}
pub fn law_c01_bevy(t: glam::Vec3, angle: f32, s: glam::Vec3, p: Vec2) {
    assume(s.x != 0.0);
    assume(s.y != 0.0);
    let t = bevy::prelude::Transform { translation: t, rotation: glam::Quat::from_rotation_z(angle), scale: s };
    roundtrip(&t, p);
}
