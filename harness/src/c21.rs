//! C21 tile maps collide where their tiles are
use crate::spec::*;
use auburn::col2d::*;
use glam::Vec2;
use lk_math::vector::V2i32;

fn at(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
fn point<T>(m: &Tilemap, t: &T)
where
    T: Transformation2d,
{
    let _ = Chunk::default();
    let p = t.apply_origin();
    let solid = m.get_tile(m.world_to_tile_pos(&p)) != 0;
    check_eq(m.collides_rel(&Point, t), solid, "a point collides with a tile map exactly where a tile is set");
    check_eq(m.penetrates_rel(&Point, t).is_some(), solid, "a point penetrates a tile map exactly where a tile is set");
}
pub fn law_c21_point(m: Tilemap, c: Vec2, angle: f32, s: f32) {
    assume(s > 0.0);
    point(&m, &c);
    point(&m, &Translate2d::new(c));
    point(&m, &AxisTransform2d::new(c, s));
    point(&m, &Transform2d { pos: c, rot: Rotor2d::from_angle(angle), scale: Vec2::splat(s) });
}
/// a position well inside a tile collides exactly when that tile is set
pub fn law_c21_point_in_tile(m: Tilemap, x: i32, y: i32, d: Vec2) {
    assume(d.x < 0.5);
    assume(d.x > -0.5);
    assume(d.y < 0.5);
    assume(d.y > -0.5);
    let _ = Chunk::default();
    let p = Vec2::new(x as f32, y as f32) + d;
    check_eq(m.collides_rel(&Point, &p), m.get_tile(at(x, y)) != 0, "a point inside a tile collides exactly when the tile is set");
}
pub fn law_c21_empty(c: Vec2, r: f32, dir: Vec2) {
    assume(r > 0.0);
    assume(r < 0.5);
    let m = Tilemap::default();
    check_eq(m.collides_rel(&Point, &c), false, "nothing collides with an empty tile map");
    check_eq(m.simple_resolve_ball(&Ball::with_radius(r), c, &dir), c, "an empty tile map moves no ball");
}
/// what resolving against the tile (x, y) is to do
fn out_of<S: PenetratesRel2d<Box2d, Vec2>>(m: &Tilemap, s: &S, pos: &mut Vec2, x: i32, y: i32) {
    if m.get_tile(at(x, y)) != 0 {
        let tile = Box2d::with_halfdims(0.5, 0.5);
        let seen = Vec2::new(x as f32, y as f32) - *pos;
        if let Some(v) = s.penetrates_rel(&tile, &seen) {
            *pos += v;
        }
    }
}
fn resolved<S: PenetratesRel2d<Box2d, Vec2>>(m: &Tilemap, s: &S, mut pos: Vec2, dir: &Vec2, xs: (i32, i32), ys: (i32, i32)) -> Vec2 {
    let (x0, x1) = if dir.x < 0.0 { (xs.1, xs.0) } else { xs };
    let (y0, y1) = if dir.y < 0.0 { (ys.1, ys.0) } else { ys };
    out_of(m, s, &mut pos, x0, y0);
    if x0 != x1 {
        out_of(m, s, &mut pos, x1, y0);
    }
    if y0 != y1 {
        out_of(m, s, &mut pos, x0, y1);
        if x0 != x1 {
            out_of(m, s, &mut pos, x1, y1);
        }
    }
    pos
}
/// the box touches only the tile (x, y)
fn within(c: f32, h: f32) {
    assume(c + h < 0.5);
    assume(c - h > -0.5);
}
/// the interval reaches from tile -1 to tile 0
fn astride(c: f32, h: f32) {
    assume(c + h > -0.5);
    assume(c + h < 0.5);
    assume(c - h > -1.5);
    assume(c - h < -0.5);
}
pub fn law_c21_ball_one_tile(m: Tilemap, x: i32, y: i32, d: Vec2, r: f32, dir: Vec2) {
    opaque_penetration();
    assume(r > 0.0);
    within(d.x, r);
    within(d.y, r);
    let b = Ball::with_radius(r);
    let c = Vec2::new(x as f32, y as f32) + d;
    let mut e = c;
    out_of(&m, &b, &mut e, x, y);
    check_eq(m.simple_resolve_ball(&b, c, &dir), e, "a ball inside one tile is moved out of it exactly if the tile is set");
}
pub fn law_c21_box_one_tile(m: Tilemap, x: i32, y: i32, d: Vec2, h: Vec2, dir: Vec2) {
    opaque_penetration();
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    within(d.x, h.x);
    within(d.y, h.y);
    let b = Box2d { halfsize: h };
    let c = Vec2::new(x as f32, y as f32) + d;
    let mut e = c;
    out_of(&m, &b, &mut e, x, y);
    check_eq(m.simple_resolve_box(&b, c, &dir), e, "a box inside one tile is moved out of it exactly if the tile is set");
}
pub fn law_c21_ball_row(m: Tilemap, c: Vec2, r: f32, dir: Vec2) {
    opaque_penetration();
    assume(r > 0.0);
    astride(c.x, r);
    within(c.y, r);
    let b = Ball::with_radius(r);
    check_eq(m.simple_resolve_ball(&b, c, &dir), resolved(&m, &b, c, &dir, (-1, 0), (0, 0)), "a ball is moved out of the set tiles of a row one after the other, in the order of its direction");
}
pub fn law_c21_ball_column(m: Tilemap, c: Vec2, r: f32, dir: Vec2) {
    opaque_penetration();
    assume(r > 0.0);
    within(c.x, r);
    astride(c.y, r);
    let b = Ball::with_radius(r);
    check_eq(m.simple_resolve_ball(&b, c, &dir), resolved(&m, &b, c, &dir, (0, 0), (-1, 0)), "a ball is moved out of the set tiles of a column one after the other, in the order of its direction");
}
pub fn law_c21_ball_block(m: Tilemap, c: Vec2, r: f32, dir: Vec2) {
    opaque_penetration();
    assume(r > 0.0);
    astride(c.x, r);
    astride(c.y, r);
    let b = Ball::with_radius(r);
    check_eq(m.simple_resolve_ball(&b, c, &dir), resolved(&m, &b, c, &dir, (-1, 0), (-1, 0)), "a ball is moved out of the set tiles it reaches one after the other, rows first, in the order of its direction");
}
pub fn law_c21_box_block(m: Tilemap, c: Vec2, h: Vec2, dir: Vec2) {
    opaque_penetration();
    assume(h.x > 0.0);
    assume(h.y > 0.0);
    astride(c.x, h.x);
    astride(c.y, h.y);
    let b = Box2d { halfsize: h };
    check_eq(m.simple_resolve_box(&b, c, &dir), resolved(&m, &b, c, &dir, (-1, 0), (-1, 0)), "a box is moved out of the set tiles it reaches one after the other, rows first, in the order of its direction");
}
/// a body over many tiles, of which some are set
fn many<S: PenetratesRel2d<Box2d, Vec2>>(m: &Tilemap, s: &S, mut pos: Vec2, dir: &Vec2, w: i32, h: i32) -> Vec2 {
    let mut j = -h;
    while j <= h {
        let mut i = -w;
        while i <= w {
            out_of(m, s, &mut pos, if dir.x < 0.0 { -i } else { i }, if dir.y < 0.0 { -j } else { j });
            i += 1;
        }
        j += 1;
    }
    pos
}
/// the interval reaches from tile -k to tile k
fn across(c: f32, h: f32, k: f32) {
    assume(c + h > k - 0.5);
    assume(c + h < k + 0.5);
    assume(c - h < 0.5 - k);
    assume(c - h > -0.5 - k);
}
fn some_tiles(a: (i32, i32), b: (i32, i32), c: (i32, i32)) -> Tilemap {
    let mut m = Tilemap::default();
    m.set_tile(at(a.0, a.1), 1);
    m.set_tile(at(b.0, b.1), 2);
    m.set_tile(at(c.0, c.1), 3);
    m
}
pub fn law_c21_ball_wide(c: Vec2, r: f32, dir: Vec2) {
    opaque_penetration();
    across(c.x, r, 3.0);
    across(c.y, r, 3.0);
    let m = some_tiles((-3, 1), (2, -3), (3, 3));
    let b = Ball::with_radius(r);
    check_eq(m.simple_resolve_ball(&b, c, &dir), many(&m, &b, c, &dir, 3, 3), "a large ball is moved out of every set tile it reaches, rows first, in the order of its direction");
}
pub fn law_c21_box_wide(c: Vec2, h: Vec2, dir: Vec2) {
    opaque_penetration();
    across(c.x, h.x, 4.0);
    across(c.y, h.y, 2.0);
    let m = some_tiles((-4, -2), (3, -2), (0, 2));
    let b = Box2d { halfsize: h };
    check_eq(m.simple_resolve_box(&b, c, &dir), many(&m, &b, c, &dir, 4, 2), "a large box is moved out of every set tile it reaches, rows first, in the order of its direction");
}
/// a given box over dozens of set tiles: none is left out however many came before
fn dozens(dir: Vec2) {
    let mut m = Tilemap::default();
    let mut j = -3;
    while j <= 3 {
        let mut i = -3;
        while i <= 3 {
            if (i * 3 + j * 7) % 4 != 0 {
                m.set_tile(at(i, j), 1);
            }
            i += 1;
        }
        j += 1;
    }
    let b = Box2d::with_halfdims(3.125, 2.75);
    let c = Vec2::new(0.0625, -0.03125);
    check_eq(m.simple_resolve_box(&b, c, &dir), many(&m, &b, c, &dir, 3, 3), "a box over dozens of set tiles is moved out of each");
}
pub fn law_c21_dozens_there() {
    dozens(Vec2::new(1.0, 1.0));
}
pub fn law_c21_dozens_back() {
    dozens(Vec2::new(-1.0, -1.0));
}
