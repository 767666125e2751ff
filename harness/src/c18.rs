//! C18 tile map events mirror what happened to the chunks
use crate::spec::*;
use auburn::col2d::{Tilemap, TilemapEvent};
use auburn::utils::publisher::Ledger;
use lk_math::vector::V2i32;

fn at(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
fn same(p: &V2i32, q: &V2i32) -> bool {
    p.x() == q.x() && p.y() == q.y()
}
fn created(e: &TilemapEvent, c: &V2i32) -> bool {
    match e {
        TilemapEvent::ChunkCreated(p) => same(p, c),
        _ => false,
    }
}
fn removed(e: &TilemapEvent, c: &V2i32) -> bool {
    match e {
        TilemapEvent::ChunkRemoved(p) => same(p, c),
        _ => false,
    }
}
fn changed(e: &TilemapEvent, c: &V2i32) -> bool {
    match e {
        TilemapEvent::ChunkChanged(p) => same(p, c),
        _ => false,
    }
}
pub fn law_c18_set(mut m: Tilemap, x: i32, y: i32, t: u8) {
    m.events = Ledger::new();
    let c = m.tile_to_chunk_pos(&at(x, y));
    let had = m.get_chunk(&c).is_some();
    let before = m.get_tile(at(x, y));
    m.set_tile(at(x, y), t);
    check(m.get_chunk(&c).is_some(), "setting a tile leaves its chunk in existence");
    let e = &m.events.events;
    if !had {
        check(e.len() == 1, "creating a chunk is one event");
        check(created(&e[0], &c), "creating a chunk is reported with its position");
    } else if before != t {
        check(e.len() == 1, "changing a tile is one event");
        check(changed(&e[0], &c), "changing a tile is reported as a change of its chunk");
    } else {
        check(e.len() == 0, "setting a tile to what it was reports nothing");
    }
}
pub fn law_c18_remove(mut m: Tilemap, x: i32, y: i32) {
    m.events = Ledger::new();
    let c = m.tile_to_chunk_pos(&at(x, y));
    let had = m.get_chunk(&c).is_some();
    let before = m.get_tile(at(x, y));
    m.remove_tile(at(x, y));
    let has = m.get_chunk(&c).is_some();
    let e = &m.events.events;
    if !had {
        check(!has, "removing a tile creates no chunk");
        check(e.len() == 0, "removing a tile of an absent chunk reports nothing");
    } else if !has {
        check(e.len() == 1, "removing a chunk is one event");
        check(removed(&e[0], &c), "removing a chunk is reported with its position");
    } else if before != 0 {
        check(e.len() == 1, "clearing a tile is one event");
        check(changed(&e[0], &c), "clearing a tile is reported as a change of its chunk");
    } else {
        check(e.len() == 0, "removing an empty tile of a remaining chunk reports nothing");
    }
}
/// other chunks come and go with nothing
pub fn law_c18_frame(mut m: Tilemap, x: i32, y: i32, t: u8, a: i32, b: i32) {
    let c = m.tile_to_chunk_pos(&at(x, y));
    let d = at(a, b);
    assume(!same(&c, &d));
    let had = m.get_chunk(&d).is_some();
    m.set_tile(at(x, y), t);
    check(m.get_chunk(&d).is_some() == had, "setting a tile creates and removes no other chunk");
    m.remove_tile(at(x, y));
    check(m.get_chunk(&d).is_some() == had, "removing a tile creates and removes no other chunk");
}
/// the only tile of a chunk takes the chunk with it
pub fn law_c18_last_tile(x: i32, y: i32, t: u8) {
    let mut m = Tilemap::default();
    check(m.events.events.len() == 0, "a new tile map has reported nothing");
    assume(t != 0);
    m.set_tile(at(x, y), t);
    let c = m.tile_to_chunk_pos(&at(x, y));
    check(m.get_chunk(&c).is_some(), "a set tile's chunk exists");
    m.remove_tile(at(x, y));
    check(m.get_chunk(&c).is_none(), "a chunk whose last tile is removed disappears");
    let e = &m.events.events;
    check(e.len() == 2, "creating and removing a chunk are two events");
    check(created(&e[0], &c), "the first event is the creation");
    check(removed(&e[1], &c), "the second event is the removal");
}
/// a chunk with a tile left stays
pub fn law_c18_tile_left(mut m: Tilemap, x: i32, y: i32, u: i32, v: i32) {
    m.events = Ledger::new();
    assume(u != x || v != y);
    assume(m.get_tile(at(u, v)) != 0);
    let (c, d) = (m.tile_to_chunk_pos(&at(x, y)), m.tile_to_chunk_pos(&at(u, v)));
    assume(same(&c, &d));
    m.remove_tile(at(x, y));
    check(m.get_chunk(&c).is_some(), "a chunk with another tile left stays");
}
