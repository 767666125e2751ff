//! C12 every query ends: the number of support points a query asks for is bounded, whatever the
//! shapes answer
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;
use std::cell::Cell;

/// a shape whose support points are arbitrary floats, counting how often it is asked
#[derive(Default)]
pub struct Wild {
    pub asked: Cell<u32>,
}
impl ExtremePoint2d for Wild {
    fn extreme_point(&self, _: Vec2) -> Vec2 {
        self.asked.set(self.asked.get() + 1);
        wild()
    }
}
impl DefaultMinkowski<Wild> for Wild {}

const GJK: u32 = 21;
const EPA: u32 = 20;

fn asked(a: &Wild, b: &Wild, limit: u32) {
    check(a.asked.get() <= limit, "the first shape is asked a bounded number of times");
    check(b.asked.get() <= limit, "the second shape is asked a bounded number of times");
}
pub fn law_c12_collides() {
    let (a, b) = (Wild::default(), Wild::default());
    let _ = a.collides_rel(&b, &wild::<Transform2d>());
    asked(&a, &b, GJK);
}
pub fn law_c12_distance() {
    let (a, b) = (Wild::default(), Wild::default());
    let _ = a.distance_to_rel(&b, &wild::<Transform2d>());
    asked(&a, &b, GJK);
}
pub fn law_c12_penetrates() {
    let (a, b) = (Wild::default(), Wild::default());
    let _ = a.penetrates_rel(&b, &wild::<Transform2d>());
    asked(&a, &b, GJK + EPA);
}
pub fn law_c12_sdfv() {
    let (a, b) = (Wild::default(), Wild::default());
    let _ = a.sdfv_rel(&b, &wild::<Transform2d>());
    asked(&a, &b, GJK + EPA);
}
