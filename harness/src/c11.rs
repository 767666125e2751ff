//! C11 a GJK verdict is backed by what the shapes answered
use crate::c16::{placed, round, boxes, in_by, out_by, triangle, turned};
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;
use std::cell::Cell;

/// answers the k-th question with m[k] (relative to the other shape's origin); remembers the questions
pub struct Probe<const N: usize> {
    pub m: [Vec2; N],
    pub at: Vec2,
    pub asked: Cell<usize>,
    pub last: Cell<Vec2>,
    pub separated: Cell<bool>,
}
impl<const N: usize> Probe<N> {
    pub fn new(m: [Vec2; N], at: Vec2) -> Self {
        Probe { m, at, asked: Cell::new(0), last: Cell::new(Vec2::ZERO), separated: Cell::new(false) }
    }
}
impl<const N: usize> ExtremePoint2d for Probe<N> {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let k = self.asked.get();
        // only executions with at most N questions
        assume(k < N);
        self.asked.set(k + 1);
        self.last.set(d);
        let m = self.m[k];
        if m.dot(d) <= 0.0 {
            self.separated.set(true);
        }
        m + self.at
    }
}
pub struct Origin;
impl ExtremePoint2d for Origin {
    fn extreme_point(&self, _: Vec2) -> Vec2 {
        Vec2::ZERO
    }
}
impl<const N: usize> DefaultMinkowski<Origin> for Probe<N> {}

fn cross(a: Vec2, b: Vec2) -> f32 {
    a.x * b.y - a.y * b.x
}
/// the origin lies in the triangle a b c
pub fn inside(a: Vec2, b: Vec2, c: Vec2) -> bool {
    let (u, v, w) = (cross(a, b), cross(b, c), cross(c, a));
    (u >= 0.0 && v >= 0.0 && w >= 0.0) || (u <= 0.0 && v <= 0.0 && w <= 0.0)
}
/// the search direction e rotated towards the origin, scaled by c, is not too short to be one
fn long(c: f32, e: Vec2) {
    assume(!(Vec2::new(-e.y * c, e.x * c).length_squared() < f32::MIN_POSITIVE));
}
/// clear of degenerate positions: no difference point at the origin, or in line with it and the next one, or all three in line
fn generic3(m: &[Vec2; 3]) {
    assume(!(m[0].length_squared() < f32::MIN_POSITIVE));
    assume(!(m[1].length_squared() < f32::MIN_POSITIVE));
    long(cross(m[0] - m[1], m[1]), m[0] - m[1]);
    let abc = cross(m[1] - m[2], m[0] - m[2]);
    long(abc, m[1] - m[2]);
    long(abc, m[0] - m[2]);
}

pub fn law_c11_collides3(m: [Vec2; 3], t: Vec2) {
    generic3(&m);
    let p = Probe::new(m, t);
    let hit = p.collides_rel(&Origin, &t);
    check(hit || p.separated.get(), "no collision is reported without a separating direction");
    check(!hit || !p.separated.get(), "no collision is reported after a separating direction was found");
    check(!hit || inside(m[0], m[1], m[2]), "a collision is reported only if the difference contains the origin");
}

fn meets<A: CollidesRel2d<B, Vec2>, B>(a: &A, b: &B, t: Vec2, d: &[Vec2]) {
    let hit = a.collides_rel(b, &t);
    check(!hit || !out_by(d, t, 1e-3), "shapes apart are not reported as colliding");
    check(hit || !in_by(d, t, 1e-3), "overlapping shapes are reported as colliding");
}
pub fn law_c11_boxes_collides(t: Vec2) {
    let (a, b, d) = boxes(1.0);
    meets(&a, &b, t, &d);
}
pub fn law_c11_triangle_collides(t: Vec2) {
    let (a, b, d) = triangle();
    meets(&a, &b, t, &d);
}
pub fn law_c11_turned_collides_deep(t: Vec2) {
    let (a, b, d) = turned();
    meets(&a, &b, t, &d);
}
// many corners, along a line
pub fn law_c11_round_near_collides(k: f32) {
    let (a, b, d) = round();
    meets(&a, &b, Vec2::new(k, 6.5), &d);
}
pub fn law_c11_round_across_collides(k: f32) {
    let (a, b, d) = round();
    meets(&a, &b, Vec2::new(-5.5, k), &d);
}
pub fn law_c11_round_through_collides(k: f32) {
    let (a, b, d) = round();
    meets(&a, &b, Vec2::new(k * 0.5 - 1.0, k), &d);
}
pub fn law_c11_round_slanted_collides(k: f32) {
    let (a, b, d) = round();
    meets(&a, &b, Vec2::new(k, 6.5 - k * 0.75), &d);
}
pub fn law_c11_round_steep_collides(k: f32) {
    let (a, b, d) = round();
    meets(&a, &b, Vec2::new(5.0 - k * 0.25, k), &d);
}
const WHEEL: [(f32, f32); 36] = [(-52.0, 39.0), (-25.0, 60.0), (39.0, 52.0), (-52.0, -39.0), (0.0, 65.0), (25.0, -60.0), (-39.0, 52.0), (-60.0, 25.0), (63.0, 16.0), (-16.0, -63.0), (-56.0, -33.0), (-33.0, -56.0), (16.0, -63.0), (-16.0, 63.0), (56.0, 33.0), (52.0, 39.0), (-33.0, 56.0), (39.0, -52.0), (0.0, -65.0), (52.0, -39.0), (-25.0, -60.0), (33.0, 56.0), (25.0, 60.0), (-63.0, 16.0), (56.0, -33.0), (63.0, -16.0), (65.0, 0.0), (-63.0, -16.0), (60.0, 25.0), (-65.0, 0.0), (-60.0, -25.0), (33.0, -56.0), (-39.0, -52.0), (16.0, 63.0), (60.0, -25.0), (-56.0, 33.0)];
const WHEEL_BOX: [(f32, f32); 40] = [(-70.0, -2.0), (-68.0, -18.0), (-65.0, -27.0), (-61.0, -35.0), (-57.0, -41.0), (-44.0, -54.0), (-38.0, -58.0), (-30.0, -62.0), (-21.0, -65.0), (-5.0, -67.0), (5.0, -67.0), (21.0, -65.0), (30.0, -62.0), (38.0, -58.0), (44.0, -54.0), (57.0, -41.0), (61.0, -35.0), (65.0, -27.0), (68.0, -18.0), (70.0, -2.0), (70.0, 2.0), (68.0, 18.0), (65.0, 27.0), (61.0, 35.0), (57.0, 41.0), (44.0, 54.0), (38.0, 58.0), (30.0, 62.0), (21.0, 65.0), (5.0, 67.0), (-5.0, 67.0), (-21.0, 65.0), (-30.0, 62.0), (-38.0, 58.0), (-44.0, 54.0), (-57.0, 41.0), (-61.0, 35.0), (-65.0, 27.0), (-68.0, 18.0), (-70.0, 2.0)];
fn wheel() -> (Poly2d, Box2d, [Vec2; 40]) {
    let mut points = Vec::new();
    for p in WHEEL {
        points.push(Vec2::new(p.0, p.1));
    }
    let mut d = [Vec2::ZERO; 40];
    for i in 0..40 {
        d[i] = Vec2::new(WHEEL_BOX[i].0, WHEEL_BOX[i].1);
    }
    (Poly2d { points }, Box2d::with_halfdims(5.0, 2.0), d)
}
pub fn law_c11_wheel_near_collides(k: f32) {
    assume(k > 0.0);
    let (a, b, d) = wheel();
    meets(&a, &b, Vec2::new(k, 66.0), &d);
}
pub fn law_c11_wheel_slanted_collides_deep(k: f32) {
    let (a, b, d) = wheel();
    meets(&a, &b, Vec2::new(k, 100.0 - k * 1.25), &d);
}
// one of them turned and grown
fn placed_meets(t: Vec2) {
    let (a, b, r, d) = placed(t);
    let hit = a.collides_rel(&b, &r);
    check(!hit || !out_by(&d, t, 1e-2), "shapes apart are not reported as colliding");
    check(hit || !in_by(&d, t, 1e-2), "overlapping shapes are reported as colliding");
}
pub fn law_c11_placed_across_collides(k: f32) {
    placed_meets(Vec2::new(2.5, k));
}
pub fn law_c11_placed_through_collides(k: f32) {
    placed_meets(Vec2::new(k, 4.5 - 2.0 * k));
}
pub fn law_c11_placed_collides_deep(t: Vec2) {
    placed_meets(t);
}
// a fine disc of hundreds of corners, its partner (a mere point) given just inside or outside the rim:
// the search for the verdict takes up to ten steps
pub fn disc() -> (Poly2d, Box2d, Vec<Vec2>) {
    let mut v = Vec::new();
    let mut k = 0;
    while k < 256 {
        let t = (k % 64) as f32 / 64.0;
        let (x, y) = (64.0 * (1.0 - t * t) / (1.0 + t * t), 128.0 * t / (1.0 + t * t));
        v.push(if k < 64 {
            Vec2::new(x, y)
        } else if k < 128 {
            Vec2::new(-y, x)
        } else if k < 192 {
            Vec2::new(-x, -y)
        } else {
            Vec2::new(y, -x)
        });
        k += 1;
    }
    (Poly2d { points: v.clone() }, Box2d::with_halfdims(0.0, 0.0), v)
}
fn rim(t: Vec2, hit: bool) {
    loops(2000);
    let (a, b, d) = disc();
    check(if hit { in_by(&d, t, 0.0) } else { out_by(&d, t, 0.0) }, "the point is where it is said to be");
    check_eq(a.collides_rel(&b, &t), hit, "the verdict at the rim of a fine disc");
    check_eq(a.penetrates_rel(&b, &t).is_some(), hit, "the penetration query's verdict at the rim of a fine disc");
    check_eq(a.distance_to_rel(&b, &t).is_none(), hit, "the distance query's verdict at the rim of a fine disc");
    check_eq(a.sdfv_rel(&b, &t).0, hit, "the signed query's verdict at the rim of a fine disc");
}
pub fn law_c11_disc_collides() {
    rim(Vec2::new(-62.77490234375, 12.42919921875), true);
    rim(Vec2::new(61.963623046875, -15.986572265625), true);
    rim(Vec2::new(41.80615234375, 48.45166015625), true);
    rim(Vec2::new(-20.47314453125, -60.636474609375), false);
    rim(Vec2::new(-12.13037109375, -62.838623046875), false);
    rim(Vec2::new(59.549560546875, 23.446044921875), false);
}
