//! C19: saving and loading a tile map.
use crate::spec::*;
use auburn::col2d::Tilemap;
use lk_math::vector::V2i32;

const NAME: &str = "tiles.json";

/// Ok means the file now holds exactly this map
pub fn law_c19_save(m: Tilemap) {
    file(NAME, true);
    let ok = m.save(NAME).is_ok();
    if ok {
        check(on_disk(&m), "save said Ok: the file holds the map");
        check(!io_failed(), "save said Ok: no step failed");
    } else {
        check(io_failed(), "save said Err: some step failed");
    }
}

/// nothing but the named file is written
pub fn law_c19_save_elsewhere(m: Tilemap) {
    file("other.json", true);
    let _ = m.save(NAME);
    check(untouched(), "saving leaves other files alone");
}

/// loading reports any failure, and otherwise what the file holds
pub fn law_c19_load(x: i32, y: i32) {
    file(NAME, true);
    match Tilemap::load(NAME) {
        Ok(m) => {
            check(!io_failed(), "load said Ok: no step failed");
            let w = file_value::<Tilemap>();
            check_eq(m.get_tile(V2i32::from_xy(x, y)), w.get_tile(V2i32::from_xy(x, y)), "loaded what the file holds");
        }
        Err(_) => check(io_failed(), "load said Err: some step failed"),
    }
    check(untouched(), "loading leaves the file alone");
}

/// what was saved is loaded again, tile by tile
pub fn law_c19_round(mut m: Tilemap, p: i32, q: i32, t: u8, x: i32, y: i32) {
    file(NAME, false);
    m.set_tile(V2i32::from_xy(p, q), t);
    check(m.save(NAME).is_ok(), "saving works when nothing fails");
    match Tilemap::load(NAME) {
        Ok(w) => check_eq(w.get_tile(V2i32::from_xy(x, y)), m.get_tile(V2i32::from_xy(x, y)), "every tile comes back"),
        Err(_) => check(false, "loading works when nothing fails"),
    }
}

/// what a map writes it reads back: every tile of maps made by any two writes
fn there_and_back(m: &Tilemap, x: i32, y: i32) {
    use crate::wire::{In, Out};
    loops(2000);
    match serde::Serialize::serialize(m, Out) {
        Ok(v) => match <Tilemap as serde::Deserialize>::deserialize(In(v)) {
            Ok(w) => {
                check_eq(w.get_tile(V2i32::from_xy(x, y)), m.get_tile(V2i32::from_xy(x, y)), "every tile is encoded and decoded again");
            }
            Err(_) => check(false, "what was encoded decodes"),
        },
        Err(_) => check(false, "every map can be encoded"),
    }
}
pub fn law_c19_encode_empty(x: i32, y: i32) {
    there_and_back(&Tilemap::default(), x, y);
}
fn encode_at(c: i32, d: i32, i: i32, j: i32, t: u8, x: i32, y: i32) {
    if c < -0x8000 || 0x7fff < c || d < -0x8000 || 0x7fff < d {
        return;
    }
    let mut m = Tilemap::default();
    m.set_tile(V2i32::from_xy(16 * c + i, 16 * d + j), t);
    there_and_back(&m, x, y);
}
pub fn law_c19_encode_first(c: i32, d: i32, t: u8, x: i32, y: i32) {
    encode_at(c, d, 0, 0, t, x, y);
}
pub fn law_c19_encode_last(c: i32, d: i32, t: u8, x: i32, y: i32) {
    encode_at(c, d, 15, 15, t, x, y);
}
pub fn law_c19_encode_inner(c: i32, d: i32, t: u8, x: i32, y: i32) {
    encode_at(c, d, 3, 6, t, x, y);
}
/// two chunks, in either order
pub fn law_c19_encode_two(t: u8, u: u8) {
    let mut m = Tilemap::default();
    m.set_tile(V2i32::from_xy(15, 32), t);
    m.set_tile(V2i32::from_xy(-32, 5), u);
    there_and_back(&m, 15, 32);
    there_and_back(&m, -32, 5);
}
