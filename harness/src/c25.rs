//! C25 scalar helpers
use crate::spec::*;
use auburn::{Lerp, Square};
use glam::Vec2;

pub fn law_c25_square(a: f32) {
    check_eq(Square::square(a), a * a, "square");
}
pub fn law_c25_lerp(a: f32, b: f32, t: f32) {
    check_eq(Lerp::lerp(a, b, 0.0), a, "interpolation starts at the first value");
    check_eq(Lerp::lerp(a, b, 1.0), b, "interpolation ends at the second value");
    check_eq(Lerp::lerp(a, b, t) - a, t * (b - a), "interpolation is linear");
    check_eq(Lerp::lerp(a, b, t), Lerp::lerp(b, a, 1.0 - t), "interpolation is symmetric");
    assume(t >= 0.0);
    assume(t <= 1.0);
    assume(a <= b);
    let m = Lerp::lerp(a, b, t);
    check(a <= m && m <= b, "interpolation stays between its ends");
}
pub fn law_c25_lerp_vec2(a: Vec2, b: Vec2, t: f32) {
    check_eq(Lerp::lerp(a, b, 0.0), a, "interpolation starts at the first value");
    check_eq(Lerp::lerp(a, b, 1.0), b, "interpolation ends at the second value");
    let m = Lerp::lerp(a, b, t);
    check_eq(m, Vec2::new(Lerp::lerp(a.x, b.x, t), Lerp::lerp(a.y, b.y, t)), "vectors interpolate by component");
}
