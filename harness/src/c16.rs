//! C16 what GJK/EPA reports is what the shapes' answers say: the gap is the closest point of the last
//! simplex, the depth is the support value along the last direction asked
use crate::c11::{Origin, Probe};
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

fn cross(a: Vec2, b: Vec2) -> f32 {
    a.x * b.y - a.y * b.x
}
/// p is the point of the segment a b closest to the origin
fn closest(p: Vec2, a: Vec2, b: Vec2) {
    check(cross(p - a, b - a) == 0.0, "the gap ends on the line of the last two difference points");
    check((p - a).dot(p - b) <= 0.0, "the gap ends between the last two difference points");
    check(p.dot(a - p) >= 0.0 && p.dot(b - p) >= 0.0, "the gap ends at the closest of the points between them");
}

pub fn law_c16_gap_point(m: [Vec2; 2], t: Vec2) {
    let p = Probe::new(m, t);
    let d = p.distance_to_rel(&Origin, &t);
    check(d.is_none() || d == Some(-m[0]), "with one difference point known, the gap is that point");
}
fn repeat_last(m: [Vec2; 2]) -> [Vec2; 3] {
    [m[0], m[1], m[1]]
}
pub fn law_c16_gap_segment_sdfv(m: [Vec2; 2], t: Vec2) {
    let p = Probe::new(repeat_last(m), t);
    let (hit, v) = p.sdfv_rel(&Origin, &t);
    if p.asked.get() == 3 && !hit {
        closest(-v, m[0], m[1]);
    }
}
pub fn law_c16_gap_segment_distance(m: [Vec2; 2], t: Vec2) {
    let p = Probe::new(repeat_last(m), t);
    if let Some(v) = p.distance_to_rel(&Origin, &t) {
        if p.asked.get() == 3 {
            closest(-v, m[0], m[1]);
        }
    }
}

/// three answers around the origin, then one more
fn around(mirror: bool, q: Vec2) -> [Vec2; 4] {
    let s = if mirror { -1.0 } else { 1.0 };
    [Vec2::new(3.0, 1.0 * s), Vec2::new(-2.0, 2.0 * s), Vec2::new(-1.0, -3.0 * s), q]
}
const AT: Vec2 = Vec2::new(1.0, 0.0);
fn depth<const N: usize>(p: &Probe<N>, v: Vec2) {
    let n = p.last.get();
    let k = p.asked.get();
    assume(k > 3);
    let a = p.m[k - 1];
    check(n != Vec2::ZERO, "a depth is along a direction");
    check(cross(v, n) == 0.0, "the depth is along the last direction asked");
    check(v.dot(n) + a.dot(n) == 0.0, "moving by the depth brings the last support point level with the origin");
}
pub fn law_c16_depth_penetrates(q: Vec2, mirror: bool) {
    let p = Probe::new(around(mirror, q), AT);
    let v = p.penetrates_rel(&Origin, &AT);
    check(v.is_some(), "answers around the origin are a collision");
    if let Some(v) = v {
        depth(&p, v);
    }
}
pub fn law_c16_depth_sdfv(q: Vec2, mirror: bool) {
    let p = Probe::new(around(mirror, q), AT);
    let (hit, v) = p.sdfv_rel(&Origin, &AT);
    check(hit, "answers around the origin are a collision");
    depth(&p, v);
}

// Scenes: two fixed shapes, the second anywhere.  The verdict, gap and depth that GJK and EPA end up
// with must be those of the true Minkowski difference, a convex polygon d given by hand (counter
// clockwise).  `tol` is a length that does not matter at the scale of the scene.
fn edge(d: &[Vec2], i: usize) -> (Vec2, Vec2) {
    let e = d[(i + 1) % d.len()] - d[i];
    (d[i], Vec2::new(e.y, -e.x))
}
pub fn out_by(d: &[Vec2], t: Vec2, tol: f32) -> bool {
    (0..d.len()).any(|i| {
        let (p, n) = edge(d, i);
        n.dot(t - p) > tol * (n.x.abs() + n.y.abs())
    })
}
pub fn in_by(d: &[Vec2], t: Vec2, tol: f32) -> bool {
    (0..d.len()).all(|i| {
        let (p, n) = edge(d, i);
        n.dot(t - p) < -tol * (n.x.abs() + n.y.abs())
    })
}
fn right_gap(d: &[Vec2], t: Vec2, v: Vec2, tol: f32) {
    let p = t - v;
    check(!out_by(d, p, tol), "moving by the gap brings the shapes together");
    check(!in_by(d, p, tol), "moving by the gap does not make the shapes overlap");
    // p is the closest point of d to t, up to two percent of the gap
    check(d.iter().all(|q| v.dot(*q - p) <= 0.02 * v.length_squared() + tol * tol), "the gap is the shortest");
}
fn right_depth(d: &[Vec2], t: Vec2, v: Vec2, tol: f32) {
    check(!in_by(d, t - v, tol), "moving by the depth separates the shapes");
    let short = (0..d.len()).all(|i| {
        let (p, n) = edge(d, i);
        let s = n.dot(p - t);
        v.length_squared() * n.length_squared() <= 1.021 * s * s + tol * tol * n.length_squared()
    });
    check(short, "the depth is the shortest up to a percent");
}
fn scene_distance<A: DistanceToRel2d<B, T>, B, T: Transformation2d>(a: &A, b: &B, r: &T, d: &[Vec2], tol: f32) {
    let t = r.apply_origin();
    assume(out_by(d, t, tol));
    let g = a.distance_to_rel(b, r);
    check(g.is_some(), "shapes apart have a distance");
    if let Some(v) = g {
        right_gap(d, t, v, tol);
    }
}
fn scene_sdfv_apart<A: SdfvRel2d<B, T>, B, T: Transformation2d>(a: &A, b: &B, r: &T, d: &[Vec2], tol: f32) {
    let t = r.apply_origin();
    assume(out_by(d, t, tol));
    let (hit, v) = a.sdfv_rel(b, r);
    check(!hit, "shapes apart do not collide");
    right_gap(d, t, v, tol);
}
fn scene_penetrates<A: PenetratesRel2d<B, T>, B, T: Transformation2d>(a: &A, b: &B, r: &T, d: &[Vec2], tol: f32) {
    let t = r.apply_origin();
    assume(in_by(d, t, tol));
    let g = a.penetrates_rel(b, r);
    check(g.is_some(), "overlapping shapes penetrate");
    if let Some(v) = g {
        right_depth(d, t, v, tol);
    }
}
fn scene_sdfv_overlap<A: SdfvRel2d<B, T>, B, T: Transformation2d>(a: &A, b: &B, r: &T, d: &[Vec2], tol: f32) {
    let t = r.apply_origin();
    assume(in_by(d, t, tol));
    let (hit, v) = a.sdfv_rel(b, r);
    check(hit, "overlapping shapes collide");
    right_depth(d, t, v, tol);
}

// a box and a smaller box
pub fn boxes(s: f32) -> (Box2d, Box2d, [Vec2; 4]) {
    let v = |x: f32, y: f32| Vec2::new(x * s, y * s);
    (Box2d::with_halfdims(s, 2.0 * s), Box2d::with_halfdims(0.5 * s, 0.5 * s), [v(-1.5, -2.5), v(1.5, -2.5), v(1.5, 2.5), v(-1.5, 2.5)])
}
pub fn law_c16_boxes_distance(t: Vec2) {
    let (a, b, d) = boxes(1.0);
    scene_distance(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_boxes_sdfv_apart(t: Vec2) {
    let (a, b, d) = boxes(1.0);
    scene_sdfv_apart(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_boxes_penetrates(t: Vec2) {
    let (a, b, d) = boxes(1.0);
    scene_penetrates(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_boxes_sdfv_overlap(t: Vec2) {
    let (a, b, d) = boxes(1.0);
    scene_sdfv_overlap(&a, &b, &t, &d, 1e-3);
}
// the same a hundred times smaller
pub fn law_c16_small_boxes_sdfv_apart(t: Vec2) {
    let (a, b, d) = boxes(0.01);
    scene_sdfv_apart(&a, &b, &t, &d, 1e-5);
}
pub fn law_c16_small_boxes_sdfv_overlap(t: Vec2) {
    let (a, b, d) = boxes(0.01);
    scene_sdfv_overlap(&a, &b, &t, &d, 1e-5);
}
// a triangle and a box
pub fn triangle() -> (Poly2d, Box2d, [Vec2; 6]) {
    let v = |x: f32, y: f32| Vec2::new(x, y);
    (
        Poly2d { points: vec![v(2.0, -1.0), v(0.0, 2.0), v(-1.5, -1.0)] },
        Box2d::with_halfdims(0.5, 0.5),
        [v(-2.0, -1.5), v(2.5, -1.5), v(2.5, -0.5), v(0.5, 2.5), v(-0.5, 2.5), v(-2.0, -0.5)],
    )
}
pub fn law_c16_triangle_distance(t: Vec2) {
    let (a, b, d) = triangle();
    scene_distance(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_triangle_sdfv_apart(t: Vec2) {
    let (a, b, d) = triangle();
    scene_sdfv_apart(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_triangle_penetrates_deep(t: Vec2) {
    let (a, b, d) = triangle();
    scene_penetrates(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_triangle_sdfv_overlap_deep(t: Vec2) {
    let (a, b, d) = triangle();
    scene_sdfv_overlap(&a, &b, &t, &d, 1e-3);
}
// a box and a turned square
pub fn turned() -> (Box2d, Poly2d, [Vec2; 8]) {
    let v = |x: f32, y: f32| Vec2::new(x, y);
    (
        Box2d::with_halfdims(1.0, 2.0),
        Poly2d { points: vec![v(0.125, -0.75), v(0.75, 0.125), v(-0.125, 0.75), v(-0.75, -0.125)] },
        [v(-0.875, -2.75), v(1.125, -2.75), v(1.75, -1.875), v(1.75, 2.125), v(0.875, 2.75), v(-1.125, 2.75), v(-1.75, 1.875), v(-1.75, -2.125)],
    )
}
pub fn law_c16_turned_distance_deep(t: Vec2) {
    let (a, b, d) = turned();
    scene_distance(&a, &b, &t, &d, 1e-3);
}
pub fn law_c16_turned_sdfv_apart_deep(t: Vec2) {
    let (a, b, d) = turned();
    scene_sdfv_apart(&a, &b, &t, &d, 1e-3);
}
// a polygon of twelve corners and a box, the second anywhere on a line
pub fn round() -> (Poly2d, Box2d, [Vec2; 16]) {
    let v = |x: f32, y: f32| Vec2::new(x, y);
    (
        Poly2d { points: vec![v(5.0, 0.0), v(-4.0, 3.0), v(4.0, 3.0), v(3.0, 4.0), v(-3.0, -4.0), v(0.0, 5.0), v(-3.0, 4.0), v(-5.0, 0.0), v(4.0, -3.0), v(-4.0, -3.0), v(0.0, -5.0), v(3.0, -4.0)] },
        Box2d::with_halfdims(1.0, 2.0),
        [v(-6.0, -2.0), v(-5.0, -5.0), v(-4.0, -6.0), v(-1.0, -7.0), v(1.0, -7.0), v(4.0, -6.0), v(5.0, -5.0), v(6.0, -2.0), v(6.0, 2.0), v(5.0, 5.0), v(4.0, 6.0), v(1.0, 7.0), v(-1.0, 7.0), v(-4.0, 6.0), v(-5.0, 5.0), v(-6.0, 2.0)],
    )
}
pub fn law_c16_round_across_distance(k: f32) {
    let (a, b, d) = round();
    scene_distance(&a, &b, &Vec2::new(k, 8.0), &d, 1e-2);
}
pub fn law_c16_round_through_distance(k: f32) {
    let (a, b, d) = round();
    scene_distance(&a, &b, &Vec2::new(k, k * 0.75 + 1.0), &d, 1e-2);
}
pub fn law_c16_round_across_sdfv_apart(k: f32) {
    let (a, b, d) = round();
    scene_sdfv_apart(&a, &b, &Vec2::new(-7.0, k), &d, 1e-2);
}
pub fn law_c16_round_through_sdfv_apart(k: f32) {
    let (a, b, d) = round();
    scene_sdfv_apart(&a, &b, &Vec2::new(k * 0.5 - 1.0, k), &d, 1e-2);
}
pub fn law_c16_round_near_penetrates(k: f32) {
    let (a, b, d) = round();
    assume(k > 0.0);
    scene_penetrates(&a, &b, &Vec2::new(k, 4.5), &d, 1e-2);
}
pub fn law_c16_round_near_sdfv_overlap(k: f32) {
    let (a, b, d) = round();
    assume(k > 0.0);
    scene_sdfv_overlap(&a, &b, &Vec2::new(4.0, k), &d, 1e-2);
}
pub fn law_c16_round_across_penetrates_deep(k: f32) {
    let (a, b, d) = round();
    scene_penetrates(&a, &b, &Vec2::new(k, 1.0), &d, 1e-2);
}
pub fn law_c16_round_through_penetrates_deep(k: f32) {
    let (a, b, d) = round();
    scene_penetrates(&a, &b, &Vec2::new(k, k * 0.75 + 1.0), &d, 1e-2);
}
pub fn law_c16_round_across_sdfv_overlap_deep(k: f32) {
    let (a, b, d) = round();
    scene_sdfv_overlap(&a, &b, &Vec2::new(k, -2.0), &d, 1e-2);
}
pub fn law_c16_round_through_sdfv_overlap_deep(k: f32) {
    let (a, b, d) = round();
    scene_sdfv_overlap(&a, &b, &Vec2::new(k * 0.5 - 1.0, k), &d, 1e-2);
}
// a box and a box turned (by 3-4-5) and grown
pub fn placed(t: Vec2) -> (Box2d, Box2d, Transform2d, [Vec2; 8]) {
    let v = |x: f32, y: f32| Vec2::new(x, y);
    let rot = Rotor2d::from_quaternion(glam::Quat::from_xyzw(0.0, 0.0, 1.0, 3.0));
    (
        Box2d::with_halfdims(1.0, 2.0),
        Box2d::with_halfdims(1.0, 0.5),
        Transform2d { pos: t, rot, scale: Vec2::splat(2.0) },
        [v(-3.2, -2.4), v(-2.0, -4.0), v(0.0, -4.0), v(3.2, -1.6), v(3.2, 2.4), v(2.0, 4.0), v(0.0, 4.0), v(-3.2, 1.6)],
    )
}
pub fn law_c16_placed_across_distance(k: f32) {
    let (a, b, r, d) = placed(Vec2::new(k, 5.0));
    scene_distance(&a, &b, &r, &d, 1e-2);
}
pub fn law_c16_placed_across_sdfv_apart(k: f32) {
    let (a, b, r, d) = placed(Vec2::new(-4.0, k));
    scene_sdfv_apart(&a, &b, &r, &d, 1e-2);
}
pub fn law_c16_placed_across_penetrates(k: f32) {
    let (a, b, r, d) = placed(Vec2::new(2.0, k));
    scene_penetrates(&a, &b, &r, &d, 1e-2);
}
pub fn law_c16_placed_across_sdfv_overlap(k: f32) {
    let (a, b, r, d) = placed(Vec2::new(k, -1.5));
    scene_sdfv_overlap(&a, &b, &r, &d, 1e-2);
}
pub fn law_c16_placed_distance_deep(t: Vec2) {
    let (a, b, r, d) = placed(t);
    scene_distance(&a, &b, &r, &d, 1e-2);
}
// near the middle of a polygon of many corners, where EPA has to find every edge of it
pub fn law_c16_round_middle_penetrates(k: f32) {
    let (a, b, d) = round();
    assume(k > 0.0);
    assume(k < 0.01);
    scene_penetrates(&a, &b, &Vec2::new(k, 0.125), &d, 1e-2);
}
pub fn law_c16_round_middle_sdfv_overlap(k: f32) {
    let (a, b, d) = round();
    assume(k > 0.0);
    assume(k < 0.01);
    scene_sdfv_overlap(&a, &b, &Vec2::new(k - 0.25, 0.0625), &d, 1e-2);
}
pub fn law_c16_round_centre() {
    let (a, b, d) = round();
    scene_penetrates(&a, &b, &Vec2::new(0.0, 0.0), &d, 1e-2);
    scene_penetrates(&a, &b, &Vec2::new(0.125, -0.0625), &d, 1e-2);
    scene_penetrates(&a, &b, &Vec2::new(-0.5, 0.25), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(0.0, 0.0), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(0.0, -0.5), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(-0.03125, 0.125), &d, 1e-2);
}
pub fn law_c16_round_inside_penetrates(k: f32) {
    let (a, b, d) = round();
    assume(k > 0.25);
    assume(k < 0.375);
    scene_penetrates(&a, &b, &Vec2::new(k, k * 0.5), &d, 1e-2);
}
// the fine disc: many steps to the closest edge
pub fn law_c16_disc_distance() {
    loops(2000);
    let (a, b, d) = crate::c11::disc();
    scene_distance(&a, &b, &Vec2::new(-64.5, 0.43359375), &d, 1e-2);
    scene_distance(&a, &b, &Vec2::new(39.5, -51.0), &d, 1e-2);
    scene_distance(&a, &b, &Vec2::new(-20.625, 61.0), &d, 1e-2);
}
pub fn law_c16_disc_sdfv_apart() {
    loops(2000);
    let (a, b, d) = crate::c11::disc();
    scene_sdfv_apart(&a, &b, &Vec2::new(-62.75, 14.0), &d, 1e-2);
    scene_sdfv_apart(&a, &b, &Vec2::new(26.0, -59.0), &d, 1e-2);
    scene_sdfv_apart(&a, &b, &Vec2::new(60.0, 24.0), &d, 1e-2);
}
pub fn law_c16_disc_overlap() {
    loops(2000);
    let (a, b, d) = crate::c11::disc();
    scene_penetrates(&a, &b, &Vec2::new(-62.75, 12.5), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(17.125, 61.25), &d, 1e-2);
}
// twenty corners, none of which EPA may leave out
fn twenty() -> (Poly2d, Box2d, [Vec2; 20]) {
    let q = [(65.0, 0.0), (60.0, 25.0), (52.0, 39.0), (39.0, 52.0), (25.0, 60.0)];
    let mut d = [Vec2::ZERO; 20];
    for i in 0..5 {
        let (x, y) = q[i];
        d[i] = Vec2::new(x, y);
        d[i + 5] = Vec2::new(-y, x);
        d[i + 10] = Vec2::new(-x, -y);
        d[i + 15] = Vec2::new(y, -x);
    }
    let mut points = Vec::new();
    for i in 0..20 {
        points.push(d[i * 7 % 20]);
    }
    (Poly2d { points }, Box2d::with_halfdims(0.0, 0.0), d)
}
pub fn law_c16_twenty_penetrates() {
    let (a, b, d) = twenty();
    scene_penetrates(&a, &b, &Vec2::new(0.0, 0.0), &d, 1e-2);
    scene_penetrates(&a, &b, &Vec2::new(0.5, 0.25), &d, 1e-2);
    scene_penetrates(&a, &b, &Vec2::new(-0.25, -1.0), &d, 1e-2);
}
pub fn law_c16_twenty_sdfv() {
    let (a, b, d) = twenty();
    scene_sdfv_overlap(&a, &b, &Vec2::new(0.0, 0.0), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(-0.5, 0.5), &d, 1e-2);
    scene_sdfv_overlap(&a, &b, &Vec2::new(0.125, -0.75), &d, 1e-2);
}
