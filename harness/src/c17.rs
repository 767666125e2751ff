//! C17 tile addressing: what is written at a tile position is what is read there, and nowhere else
use crate::spec::*;
use auburn::col2d::Tilemap;
use lk_math::vector::V2i32;

fn at(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
pub fn law_c17_decompose(m: Tilemap, x: i32, y: i32) {
    let (c, l) = m.tile_to_chunk_and_local_pos(&at(x, y));
    check(l.x() >= 0 && l.x() < 16 && l.y() >= 0 && l.y() < 16, "local coordinates are inside the chunk");
    check(c.x() * 16 + l.x() == x && c.y() * 16 + l.y() == y, "chunk and local coordinates make up the tile position");
    let d = m.tile_to_chunk_pos(&at(x, y));
    check(d.x() == c.x() && d.y() == c.y(), "the chunk position is the chunk part of the decomposition");
}
pub fn law_c17_empty(x: i32, y: i32) {
    let m = Tilemap::default();
    check(m.get_tile(at(x, y)) == 0, "a new tile map is empty everywhere");
    check(m.get_chunk(&at(x, y)).is_none(), "a new tile map has no chunks");
}
pub fn law_c17_set(mut m: Tilemap, x: i32, y: i32, t: u8) {
    m.set_tile(at(x, y), t);
    check(m.get_tile(at(x, y)) == t, "a tile reads back as it was set");
}
pub fn law_c17_set_frame(mut m: Tilemap, x: i32, y: i32, t: u8, u: i32, v: i32) {
    assume(u != x || v != y);
    let before = m.get_tile(at(u, v));
    m.set_tile(at(x, y), t);
    check(m.get_tile(at(u, v)) == before, "setting a tile changes no other tile");
}
pub fn law_c17_remove(mut m: Tilemap, x: i32, y: i32) {
    m.remove_tile(at(x, y));
    check(m.get_tile(at(x, y)) == 0, "a removed tile reads as empty");
}
pub fn law_c17_remove_frame(mut m: Tilemap, x: i32, y: i32, u: i32, v: i32) {
    assume(u != x || v != y);
    let before = m.get_tile(at(u, v));
    m.remove_tile(at(x, y));
    check(m.get_tile(at(u, v)) == before, "removing a tile changes no other tile");
}
