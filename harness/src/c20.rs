//! C20 rectangles of tiles: every walk visits each tile exactly once, in its order; padding grows
use crate::spec::*;
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;

fn v(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
/// the tiles of a w x h rectangle at (x, y) in walking order: rows first
fn expect<I: Iterator<Item = V2i32>>(mut it: I, x: i32, y: i32, w: i32, h: i32, west: bool, south: bool) {
    let mut j = 0;
    while j < h {
        let ty = if south { y + h - 1 - j } else { y + j };
        let mut i = 0;
        while i < w {
            let tx = if west { x + w - 1 - i } else { x + i };
            match it.next() {
                Some(p) => {
                    check(p.x() == tx, "walk order in x");
                    check(p.y() == ty, "walk order in y");
                }
                None => check(false, "the walk visits every tile"),
            }
            i += 1;
        }
        j += 1;
    }
    check(it.next().is_none(), "the walk ends after the last tile");
}
fn walks(x: i32, y: i32, w: i32, h: i32) {
    let r = || Rect2i32::min_max(v(x, y), v(x + w - 1, y + h - 1));
    expect(r().iterate_north_east(), x, y, w, h, false, false);
    expect(r().iterate_south_east(), x, y, w, h, false, true);
    expect(r().iterate_south_west(), x, y, w, h, true, true);
    expect(r().iterate_north_west(), x, y, w, h, true, false);
    expect(r().iterate(), x, y, w, h, false, false);
}
pub fn law_c20_walk_1x1(x: i32, y: i32) {
    walks(x, y, 1, 1);
}
pub fn law_c20_walk_3x1(x: i32, y: i32) {
    walks(x, y, 3, 1);
}
pub fn law_c20_walk_1x3(x: i32, y: i32) {
    walks(x, y, 1, 3);
}
pub fn law_c20_walk_2x2(x: i32, y: i32) {
    walks(x, y, 2, 2);
}
pub fn law_c20_walk_3x2(x: i32, y: i32) {
    walks(x, y, 3, 2);
}
pub fn law_c20_walk_2x3(x: i32, y: i32) {
    walks(x, y, 2, 3);
}
pub fn law_c20_empty(x: i32, y: i32) {
    walks(x, y, 0, 2);
    walks(x, y, 2, 0);
    walks(x, y, -3, 1);
}
pub fn law_c20_boxed(x: i32, y: i32) {
    let r = || Rect2i32::min_max(v(x, y), v(x + 1, y + 2));
    expect(r().iterate_boxed(false, false), x, y, 2, 3, false, false);
    expect(r().iterate_boxed(true, false), x, y, 2, 3, true, false);
    expect(r().iterate_boxed(false, true), x, y, 2, 3, false, true);
    expect(r().iterate_boxed(true, true), x, y, 2, 3, true, true);
}
/// a direction walks with the direction: towards growing coordinates unless it points backwards
pub fn law_c20_direction(x: i32, y: i32, dx: f32, dy: f32) {
    let r = Rect2i32::min_max(v(x, y), v(x + 1, y + 1));
    expect(r.iterate_with_direction_f32(dx, dy), x, y, 2, 2, dx < 0.0, dy < 0.0);
}
/// the first tile of every walk of a rectangle of any size, and that it ends at once when empty
fn first<I: Iterator<Item = V2i32>>(mut it: I, empty: bool, x: i32, y: i32) {
    match it.next() {
        Some(p) => {
            check(!empty, "an empty rectangle has no tiles");
            check(p.x() == x && p.y() == y, "the walk starts at its corner");
        }
        None => check(empty, "a non-empty rectangle has tiles"),
    }
}
pub fn law_c20_any_size(x: i32, y: i32, z: i32, w: i32) {
    let r = Rect2i32::min_max(v(x, y), v(z, w));
    assume(x <= z);
    let empty = w < y;
    first(r.iterate_north_east(), empty, x, y);
    first(r.iterate_south_east(), empty, x, w);
    first(r.iterate_south_west(), empty, z, w);
    first(r.iterate_north_west(), empty, z, y);
}
pub fn law_c20_pad(a: i32, b: i32, c: i32, d: i32, x: i32, y: i32) {
    let r = Rect2i32::min_max(v(a, b), v(c, d)).pad(v(x, y));
    check_eq(r.min, v(a - x, b - y), "padding moves the lower corner out");
    check_eq(r.max, v(c + x, d + y), "padding moves the upper corner out");
}
/// sizes that no small case stands for
pub fn law_c20_walk_5x5(x: i32, y: i32) {
    walks(x, y, 5, 5);
}
pub fn law_c20_walk_17x2(x: i32, y: i32) {
    walks(x, y, 17, 2);
}
pub fn law_c20_walk_2x17(x: i32, y: i32) {
    walks(x, y, 2, 17);
}
pub fn law_c20_walk_33x1(x: i32, y: i32) {
    walks(x, y, 33, 1);
}
pub fn law_c20_walk_1x33(x: i32, y: i32) {
    walks(x, y, 1, 33);
}
pub fn law_c20_walk_300x1(x: i32, y: i32) {
    loops(2000);
    walks(x, y, 300, 1);
}
pub fn law_c20_walk_1x300(x: i32, y: i32) {
    loops(2000);
    walks(x, y, 1, 300);
}
pub fn law_c20_walk_18x18(x: i32, y: i32) {
    loops(2000);
    walks(x, y, 18, 18);
}
