//! C13 no query panics.  Floats are arbitrary here (NaN and infinities too):
//! every comparison may come out either way.
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;

/// a shape whose support points are arbitrary
pub struct Wild;
impl ExtremePoint2d for Wild {
    fn extreme_point(&self, _: Vec2) -> Vec2 {
        wild()
    }
}
impl DefaultMinkowski<Wild> for Wild {}

pub fn law_c13_gjk_collides() {
    let (a, b) = (Wild, Wild);
    let _ = a.collides_rel(&b, &wild::<Transform2d>());
    check(true, "a verdict is reached");
}
pub fn law_c13_gjk_penetrates() {
    let (a, b) = (Wild, Wild);
    let _ = a.penetrates_rel(&b, &wild::<Transform2d>());
    check(true, "a penetration answer is reached");
}
pub fn law_c13_gjk_distance() {
    let (a, b) = (Wild, Wild);
    let _ = a.distance_to_rel(&b, &wild::<Transform2d>());
    check(true, "a distance answer is reached");
}
pub fn law_c13_gjk_sdfv() {
    let (a, b) = (Wild, Wild);
    let _ = a.sdfv_rel(&b, &wild::<Transform2d>());
    check(true, "a contact answer is reached");
}

fn four<A, B, T>(a: &A, b: &B, t: &T)
where
    T: Transformation2d,
    A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>,
{
    let _ = a.collides_rel(b, t);
    let _ = a.penetrates_rel(b, t);
    let _ = a.distance_to_rel(b, t);
    let _ = a.sdfv_rel(b, t);
}
fn closed<T: Transformation2d + Invertible>(t: &T) {
    let (ball, bx) = (wild::<Ball>(), wild::<Box2d>());
    four(&ball, &wild::<Ball>(), t);
    four(&ball, &Point, t);
    four(&bx, &Point, t);
    four(&bx, &wild::<Ball>(), t);
    four(&Point, &Point, t);
    four(&Point, &bx, t);
    four(&Point, &ball, t);
    let _ = ball.sdf_rel(&wild::<Ball>(), t);
    let _ = ball.sdf_rel(&Point, t);
    let _ = bx.sdf_rel(&Point, t);
    let _ = bx.sdf_rel(&wild::<Ball>(), t);
    let _ = Point.sdf_rel(&Point, t);
    check(true, "every closed-form query answers");
}
pub fn law_c13_closed_vec2() {
    closed(&wild::<Vec2>());
    closed(&wild::<Translate2d>());
}
pub fn law_c13_closed_axis() {
    closed(&wild::<AxisTransform2d>());
}
pub fn law_c13_closed_transform() {
    closed(&wild::<Transform2d>());
}
fn wild_poly(n: usize) -> Poly2d {
    let p: [Vec2; 5] = wild();
    Poly2d::new(&p[..n])
}
fn supports(s: &impl ExtremePoint2d) {
    let _ = s.extreme_point(wild());
}
pub fn law_c13_supports() {
    supports(&wild::<Ball>());
    supports(&wild::<Box2d>());
    supports(&Point);
    let t: Transform2d = wild();
    supports(&Collider2d::new(&wild::<Ball>(), &t));
    supports(&Collider2d::new(&wild::<Box2d>(), &t));
    supports(&Collider2d::new(&Point, &t));
    check(true, "every shape has a support point");
}
pub fn law_c13_poly_supports() {
    supports(&wild_poly(0));
    supports(&wild_poly(1));
    supports(&wild_poly(2));
    supports(&wild_poly(3));
    supports(&wild_poly(5));
    let t: Transform2d = wild();
    supports(&Collider2d::new(&wild_poly(3), &t));
    supports(&Shape2d::Poly2d(wild_poly(4)));
    supports(&Shape2d::Ball(wild()));
    supports(&Shape2d::Box2d(wild()));
    check(true, "every polygon has a support point");
}
/// more vertices than a small buffer or an index of one byte holds
pub fn law_c13_poly_many() {
    loops(2000);
    let mut v = Vec::new();
    let mut i = 0;
    while i < 300 {
        v.push(if i % 99 == 70 { wild() } else { Vec2::new((i % 5) as f32, (i % 7) as f32) });
        i += 1;
    }
    let p = Poly2d::new(&v);
    let _ = p.extreme_point(Vec2::new(1.0, -2.0));
    let _ = p.symmetric_bounding_box();
    let _ = Poly2d::regular(300, wild());
    let _ = Poly2d::regular_upright(300, wild());
    check(true, "every polygon of many vertices answers");
}
pub fn law_c13_bounds() {
    let _ = wild::<Ball>().symmetric_bounding_box();
    let _ = wild::<Box2d>().symmetric_bounding_box();
    let _ = Point.symmetric_bounding_box();
    let _ = wild_poly(0).symmetric_bounding_box();
    let _ = wild_poly(4).symmetric_bounding_box();
    let _ = wild_poly(3).strict_check();
    let _ = Poly2d::from(wild::<Box2d>());
    let _ = Poly2d::regular(0, wild());
    let _ = Poly2d::regular(7, wild());
    let _ = Poly2d::regular_upright(0, wild());
    let _ = Poly2d::regular_upright(7, wild());
    check(true, "bounds and constructors answer");
}
fn placement<T: Transformation2d + DeltaTransform + Invertible>(a: T, b: T) {
    let _ = a.apply(wild());
    let _ = a.unapply(wild());
    let _ = a.apply_normal(wild());
    let _ = a.unapply_normal(wild());
    let _ = a.apply_origin();
    let _ = a.scaling_factor();
    let _ = a.delta_transform(&b);
    let _ = a.inverse();
}
pub fn law_c13_placements() {
    placement(wild::<Vec2>(), wild::<Vec2>());
    placement(wild::<Translate2d>(), wild::<Translate2d>());
    placement(wild::<AxisTransform2d>(), wild::<AxisTransform2d>());
    placement(wild::<Transform2d>(), wild::<Transform2d>());
    check(true, "every placement maps every point");
}
/// two placed shapes, at collider level
pub fn law_c13_colliders() {
    let (t, u) = (wild::<Transform2d>(), wild::<Transform2d>());
    let (a, b) = (wild::<Ball>(), wild::<Box2d>());
    let (a, b, p) = (Collider2d::new(&a, &t), Collider2d::new(&b, &u), Collider2d::new(&Point, &t));
    let _ = a.collides(a);
    let _ = b.collides(a);
    let _ = b.penetrates(p);
    let _ = b.distance_to(p);
    let _ = b.sdfv(a);
    let _ = b.sdf(a);
    check(true, "every collider query answers");
}
