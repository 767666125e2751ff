//! C23 approximate equality
use crate::spec::*;
use auburn::utils::approx::Approx;
use glam::{Vec2, Vec3};

pub fn law_c23_f32_reflexive(a: f32, t: f32) {
    assume(t > 0.0);
    check(a.approx_eq_tolerance(&a, t), "a number approximately equals itself");
    check(a.approx_eq(&a), "a number approximately equals itself by default");
    check((a - a).approx_eq(&0.0), "zero approximately equals zero");
}
pub fn law_c23_f32_nan(a: f32, t: f32) {
    check(!a.approx_eq_tolerance(&nan(), t), "nothing approximately equals NaN");
    check(!nan().approx_eq_tolerance(&a, t), "NaN approximately equals nothing");
    check(!nan().approx_eq_tolerance(&nan(), t), "NaN does not even equal itself");
}
pub fn law_c23_f32_inf(a: f32, t: f32) {
    check(!a.approx_eq_tolerance(&f32::INFINITY, t), "no number is near infinity");
    check(!f32::NEG_INFINITY.approx_eq_tolerance(&f32::INFINITY, t), "the infinities are apart");
}
/// numbers that differ by more than the tolerance, relative to the larger one, are told apart
pub fn law_c23_f32_apart(a: f32, b: f32, t: f32) {
    assume(t > 0.0);
    assume(a != 0.0);
    assume(b != 0.0);
    let d = (a - b).abs();
    assume(d > t * a.abs());
    check(!a.approx_eq_tolerance(&b, t), "numbers farther apart than the relative tolerance differ");
}
pub fn law_c23_f32_near(a: f32, b: f32, t: f32) {
    assume(t > 0.0);
    assume(a != 0.0);
    assume(b != 0.0);
    let d = (a - b).abs();
    assume(d <= t * a.abs());
    check(a.approx_eq_tolerance(&b, t), "numbers within the relative tolerance are approximately equal");
}
pub fn law_c23_f32_zero(b: f32, t: f32) {
    assume(t > 0.0);
    check_eq((0.0f32).approx_eq_tolerance(&b, t), b.abs() < t, "against zero the tolerance is absolute");
    check_eq(b.approx_eq_tolerance(&0.0, t), b.abs() < t, "against zero the tolerance is absolute (swapped)");
}
pub fn law_c23_vec2_symmetric(a: Vec2, b: Vec2, t: f32) {
    assume(t > 0.0);
    check_eq(a.approx_eq_tolerance(&b, t), b.approx_eq_tolerance(&a, t), "Vec2 approximate equality is symmetric");
}
pub fn law_c23_vec2(a: Vec2, t: f32) {
    assume(t > 0.0);
    check(a.approx_eq_tolerance(&a, t), "a vector approximately equals itself");
    check(a.approx_eq(&a), "a vector approximately equals itself by default");
}
pub fn law_c23_vec2_bound(a: Vec2, b: Vec2, t: f32) {
    assume(t > 0.0);
    let (x, y) = (a.x - b.x, a.y - b.y);
    let (m, n) = (a.x * a.x + a.y * a.y, b.x * b.x + b.y * b.y);
    if a.approx_eq_tolerance(&b, t) {
        let big = if m > n { m } else { n };
        check(x * x + y * y <= t * t * big, "approximately equal vectors are within the relative tolerance");
    }
}
pub fn law_c23_vec2_nan(a: Vec2, b: f32, t: f32) {
    let n = Vec2::new(nan(), b);
    let m = Vec2::new(b, nan());
    check(!a.approx_eq_tolerance(&n, t), "no vector approximately equals one with NaN in x");
    check(!n.approx_eq_tolerance(&a, t), "a vector with NaN in x approximately equals none");
    check(!a.approx_eq_tolerance(&m, t), "no vector approximately equals one with NaN in y");
    check(!m.approx_eq_tolerance(&a, t), "a vector with NaN in y approximately equals none");
}
pub fn law_c23_vec3_symmetric(a: Vec3, b: Vec3, t: f32) {
    assume(t > 0.0);
    check_eq(a.approx_eq_tolerance(&b, t), b.approx_eq_tolerance(&a, t), "Vec3 approximate equality is symmetric");
}
pub fn law_c23_vec3(a: Vec3, t: f32) {
    assume(t > 0.0);
    check(a.approx_eq_tolerance(&a, t), "a vector approximately equals itself");
    check(a.approx_eq(&a), "a vector approximately equals itself by default");
}
pub fn law_c23_vec3_bound(a: Vec3, b: Vec3, t: f32) {
    assume(t > 0.0);
    let (x, y, z) = (a.x - b.x, a.y - b.y, a.z - b.z);
    let (m, n) = (a.x * a.x + a.y * a.y + a.z * a.z, b.x * b.x + b.y * b.y + b.z * b.z);
    if a.approx_eq_tolerance(&b, t) {
        let big = if m > n { m } else { n };
        check(x * x + y * y + z * z <= t * t * big, "approximately equal vectors are within the relative tolerance");
    }
}
pub fn law_c23_vec3_nan(a: Vec3, b: f32, c: f32, t: f32) {
    let n = Vec3::new(nan(), b, c);
    let m = Vec3::new(b, nan(), c);
    let k = Vec3::new(b, c, nan());
    check(!a.approx_eq_tolerance(&n, t), "no vector approximately equals one with NaN in x");
    check(!n.approx_eq_tolerance(&a, t), "a vector with NaN in x approximately equals none");
    check(!a.approx_eq_tolerance(&m, t), "no vector approximately equals one with NaN in y");
    check(!a.approx_eq_tolerance(&k, t), "no vector approximately equals one with NaN in z");
    check(!k.approx_eq_tolerance(&a, t), "a vector with NaN in z approximately equals none");
}
