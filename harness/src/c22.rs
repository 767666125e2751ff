//! C22 world positions and tiles
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;
use lk_math::vector::V2i32;

fn at(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
/// the tile of a world position is the (a) nearest one
pub fn law_c22_nearest(m: Tilemap, p: Vec2) {
    let t = m.world_to_tile_pos(&p);
    let d = p - Vec2::new(t.x() as f32, t.y() as f32);
    check(d.x <= 0.5 && d.x >= -0.5, "the tile's centre is at most half a tile away in x");
    check(d.y <= 0.5 && d.y >= -0.5, "the tile's centre is at most half a tile away in y");
}
pub fn law_c22_roundtrip(m: Tilemap, x: i32, y: i32) {
    let w = m.tile_to_world_pos(&at(x, y));
    check(w.x == x as f32 && w.y == y as f32, "a tile's world position is its centre");
    let t = m.world_to_tile_pos(&w);
    check(t.x() == x && t.y() == y, "a tile's world position belongs to the tile");
}
/// everything within less than half a tile of the centre belongs to the tile
pub fn law_c22_inside(m: Tilemap, x: i32, y: i32, d: Vec2) {
    assume(d.x < 0.5);
    assume(d.x > -0.5);
    assume(d.y < 0.5);
    assume(d.y > -0.5);
    let t = m.world_to_tile_pos(&(m.tile_to_world_pos(&at(x, y)) + d));
    check(t.x() == x, "positions inside a tile belong to it (x)");
    check(t.y() == y, "positions inside a tile belong to it (y)");
}
/// the quantized rectangle has every tile the box overlaps, and no tile it does not reach
pub fn law_c22_quantize_x(m: Tilemap, p: Vec2, h: Vec2, x: i32) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let r = m.quantize(&Box2d::new(h), &p);
    check(r.min.x() <= r.max.x() && r.min.y() <= r.max.y(), "the rectangle is not empty");
    let d = (x as f32 - p.x).abs();
    if d < h.x + 0.5 {
        check(r.min.x() <= x && x <= r.max.x(), "tiles overlapping the box are in the rectangle (x)");
    }
    if d > h.x + 0.5 {
        check(x < r.min.x() || r.max.x() < x, "tiles beyond the box are not in the rectangle (x)");
    }
}
pub fn law_c22_quantize_y(m: Tilemap, p: Vec2, h: Vec2, y: i32) {
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    let r = m.quantize(&Box2d::new(h), &p);
    let d = (y as f32 - p.y).abs();
    if d < h.y + 0.5 {
        check(r.min.y() <= y && y <= r.max.y(), "tiles overlapping the box are in the rectangle (y)");
    }
    if d > h.y + 0.5 {
        check(y < r.min.y() || r.max.y() < y, "tiles beyond the box are not in the rectangle (y)");
    }
}
