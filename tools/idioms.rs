//! Idioms of the standard library and glam that a rewritten body of auburn may use.
//! tools/idioms.sh: the engine must decide every one of these, and none of their negations.
use crate::spec::*;
use glam::{Vec2, IVec2};
use std::collections::{HashMap, HashSet};

fn s3(a: f32, b: f32, c: f32) -> f32 { a + b + c }
pub fn law_i01_map_collect(a: [f32; 4]) {
    let v: Vec<f32> = a.iter().map(|x| x * 2.0).collect();
    check_eq(v[3], a[3] + a[3], "map collect");
    check(v.len() == 4, "len");
}
pub fn law_i02_arr_map(a: [f32; 4]) {
    let v = a.map(|x| x + 1.0);
    check_eq(v[2], a[2] + 1.0, "array map");
}
pub fn law_i03_range_map_collect(a: f32) {
    let v: Vec<f32> = (0..5).map(|i| i as f32 * a).map(|x| x + 1.0).collect();
    check_eq(v[4], 4.0 * a + 1.0, "range map map");
    check(v.len() == 5, "len");
}
pub fn law_i04_into_iter_map(a: [f32; 3]) {
    let v: Vec<Vec2> = a.into_iter().map(|x| Vec2::new(x, 1.0)).collect();
    check_eq(v[1].x, a[1], "into_iter map");
    let w: Vec<f32> = v.into_iter().map(|p| p.x).collect();
    check_eq(w[2], a[2], "vec into_iter map");
    check(w.len() == 3, "len");
}
pub fn law_i05_filter_collect(a: [f32; 3]) {
    let v: Vec<f32> = a.iter().copied().filter(|x| *x > 0.0).collect();
    check(v.len() <= 3, "len");
    for x in &v { check(*x > 0.0, "positive"); }
    check(v.is_empty() == (a[0] <= 0.0 && a[1] <= 0.0 && a[2] <= 0.0), "empty iff none");
}
pub fn law_i06_max_by(a: [f32; 3]) {
    let m = *a.iter().max_by(|x, y| x.total_cmp(y)).unwrap();
    check(m >= a[0] && m >= a[1] && m >= a[2], "max_by total_cmp");
    check(m == a[0] || m == a[1] || m == a[2], "one of");
}
pub fn law_i07_max_by_partial(a: [f32; 3]) {
    let m = *a.iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();
    check(m >= a[0] && m >= a[1] && m >= a[2], "max_by partial_cmp");
    let n = a.iter().copied().min_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();
    check(n <= a[0] && n <= a[1] && n <= a[2], "min_by partial_cmp");
}
pub fn law_i08_min_by_idx(a: [f32; 3]) {
    let (i, m) = a.iter().enumerate().min_by(|x, y| x.1.total_cmp(y.1)).unwrap();
    check(*m <= a[0] && *m <= a[1] && *m <= a[2], "min");
    check_eq(*m, a[i], "index");
}
pub fn law_i09_fold(a: [f32; 4]) {
    check_eq(a.iter().fold(0.0, |s, x| s + x), a[0] + a[1] + a[2] + a[3], "fold");
    check_eq(a.iter().sum::<f32>(), a[0] + a[1] + a[2] + a[3], "sum");
    check_eq(a.iter().product::<f32>(), a[0] * a[1] * a[2] * a[3], "product");
    check_eq(a.iter().copied().fold(f32::INFINITY, f32::min), a[0].min(a[1]).min(a[2]).min(a[3]), "fold min");
}
pub fn law_i10_any_all(a: [f32; 4]) {
    check(a.iter().any(|x| *x > 0.0) == !a.iter().all(|x| *x <= 0.0), "any / all");
    check(a.iter().map(|x| x * 2.0).any(|x| x > 0.0) == a.iter().any(|x| *x > 0.0), "map any");
}
pub fn law_i11_zip(a: [f32; 3], b: [f32; 3]) {
    let d: f32 = a.iter().zip(b.iter()).map(|(x, y)| x * y).sum();
    check_eq(d, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "zip sum");
    let v: Vec<(f32, f32)> = a.iter().copied().zip(b).collect();
    check_eq(v[2].1, b[2], "zip collect");
}
pub fn law_i12_enumerate(a: [f32; 3]) {
    let mut s = 0.0;
    for (i, x) in a.iter().enumerate() { s += i as f32 * x; }
    check_eq(s, a[1] + 2.0 * a[2], "enumerate");
}
pub fn law_i13_rev_skip(a: [f32; 4]) {
    let v: Vec<f32> = a.iter().rev().skip(1).copied().collect();
    check_eq(v[0], a[2], "rev skip");
    check(v.len() == 3, "len");
    let w: Vec<f32> = a.iter().take(2).cloned().collect();
    check(w.len() == 2, "take");
    check_eq(w[1], a[1], "take");
}
pub fn law_i14_chain(a: f32, b: [f32; 2]) {
    let v: Vec<f32> = std::iter::once(a).chain(b.iter().copied()).collect();
    check_eq(v[2], b[1], "chain");
    check(v.len() == 3, "len");
    let mut n = 0;
    for _ in [1, 2].iter().chain([3].iter()) { n += 1; }
    check(n == 3, "chain for");
}
pub fn law_i15_windows(a: [f32; 4]) {
    let mut s = 0.0;
    for w in a.windows(2) { s += w[1] - w[0]; }
    check_eq(s, a[3] - a[0], "windows");
}
pub fn law_i16_flat_map(a: f32) {
    let v: Vec<f32> = (0..2).flat_map(|i| (0..3).map(move |j| a * (i * 3 + j) as f32)).collect();
    check(v.len() == 6, "len");
    check_eq(v[5], 5.0 * a, "flat_map");
}
pub fn law_i17_position(a: [f32; 3]) {
    match a.iter().position(|x| *x > 0.0) {
        Some(i) => check(a[i] > 0.0, "position"),
        None => check(a[0] <= 0.0 && a[1] <= 0.0 && a[2] <= 0.0, "none"),
    }
    if let Some(x) = a.iter().find(|x| **x > 0.0) { check(*x > 0.0, "find"); }
    if let Some(x) = a.iter().find_map(|x| if *x > 0.0 { Some(x * 2.0) } else { None }) { check(x > 0.0, "find_map"); }
}
pub fn law_i18_filter_count(a: [f32; 3]) {
    let n = a.iter().filter(|x| **x > 0.0).count();
    check((n == 0) == (a[0] <= 0.0 && a[1] <= 0.0 && a[2] <= 0.0), "count");
}
pub fn law_i19_filter_map(a: [f32; 3]) {
    let v: Vec<f32> = a.iter().filter_map(|x| if *x > 0.0 { Some(-x) } else { None }).collect();
    for x in v { check(x < 0.0, "filter_map"); }
}
pub fn law_i20_successors(a: f32) {
    let v: Vec<f32> = std::iter::successors(Some(a), |x| Some(x + 1.0)).take(3).collect();
    check_eq(v[2], a + 2.0, "successors");
    let mut k = 0;
    let w: Vec<i32> = std::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } }).collect();
    check(w.len() == 3, "from_fn");
}
pub fn law_i21_repeat(a: f32) {
    let v: Vec<f32> = std::iter::repeat(a).take(3).collect();
    check_eq(v[2], a, "repeat");
    let w = vec![a; 4];
    check_eq(w[3], a, "vec!");
    check(w.len() == 4, "len");
}
pub fn law_i22_iter_mut(a: [f32; 3]) {
    let mut v = a.to_vec();
    for (i, x) in v.iter_mut().enumerate() { *x += i as f32; }
    check_eq(v[2], a[2] + 2.0, "iter_mut enumerate");
    v.iter_mut().for_each(|x| *x *= 2.0);
    check_eq(v[1], 2.0 * a[1] + 2.0, "for_each");
}
pub fn law_i23_slice_pat(a: [f32; 3]) {
    let v = a.to_vec();
    match v[..] {
        [x, y, z] => check_eq(s3(x, y, z), a[0] + a[1] + a[2], "slice pattern"),
        _ => check(false, "no"),
    }
    match v.as_slice() {
        [x, rest @ ..] => { check_eq(*x, a[0], "head"); check(rest.len() == 2, "rest"); check_eq(rest[1], a[2], "rest") }
        [] => check(false, "no"),
    }
    if let [.., y, z] = &v[..] { check_eq(*y, a[1], "tail"); check_eq(*z, a[2], "tail"); } else { check(false, "no"); }
}
pub fn law_i24_split(a: [f32; 3]) {
    if let Some((f, r)) = a.split_first() { check_eq(*f, a[0], "split_first"); check_eq(r[0], a[1], "rest"); }
    if let Some((l, _)) = a.split_last() { check_eq(*l, a[2], "split_last"); }
    let (x, y) = a.split_at(1);
    check(x.len() == 1 && y.len() == 2, "split_at");
    check_eq(y[1], a[2], "split_at");
}
pub fn law_i25_while_let(a: [f32; 3]) {
    let mut v = a.to_vec();
    let mut s = 0.0;
    while let Some(x) = v.pop() { s += x; }
    check_eq(s, a[0] + a[1] + a[2], "while pop");
    let mut it = a.iter();
    let mut t = 0.0;
    while let Some(x) = it.next() { t += x; }
    check_eq(t, s, "while next");
    let mut p = a.iter().peekable();
    let mut k = 0;
    while p.peek().is_some() { p.next(); k += 1; }
    check(k == 3, "peekable");
}
pub fn law_i26_option(a: f32, b: bool) {
    let o = if b { Some(a) } else { None };
    check_eq(o.map_or(0.0, |x| x * 2.0), if b { a + a } else { 0.0 }, "map_or");
    check_eq(o.map(|x| x + 1.0).unwrap_or(0.0), if b { a + 1.0 } else { 0.0 }, "map unwrap_or");
    check(o.is_some_and(|x| x > 0.0) == (b && a > 0.0), "is_some_and");
    check(o.filter(|x| *x > 0.0).is_some() == (b && a > 0.0), "filter");
    check_eq(o.and_then(|x| if x > 0.0 { Some(x) } else { None }).unwrap_or_default(), if b && a > 0.0 { a } else { 0.0 }, "and_then");
    check(b.then_some(a) == o, "then_some");
    check(b.then(|| a) == o, "then");
    check(o.xor(None) == o, "xor");
    check(o.or(Some(0.0)) == Some(if b { a } else { 0.0 }), "or");
    check(o.or_else(|| Some(0.0)) == Some(if b { a } else { 0.0 }), "or_else");
    check(o.ok_or(3).is_ok() == b, "ok_or");
    check(o.zip(Some(1)).is_some() == b, "zip");
    check(o.is_none_or(|x| x > 0.0) == (!b || a > 0.0), "is_none_or");
    check_eq(o.map_or_else(|| 0.0, |x| x), if b { a } else { 0.0 }, "map_or_else");
    check(o.iter().count() == b as usize, "iter");
    let mut q = o;
    check(q.take() == o && q.is_none(), "take");
    check(q.replace(1.0).is_none() && q == Some(1.0), "replace");
    check(*q.get_or_insert(2.0) == 1.0, "get_or_insert");
    if let Some(x) = q.as_mut() { *x = 5.0; }
    check(q == Some(5.0), "as_mut");
    check(q.insert(4.0) == &4.0, "insert");
}
pub fn law_i27_qmark(a: f32) {
    fn f(a: f32) -> Option<f32> { let x = if a > 0.0 { Some(a) } else { None }?; Some(x + 1.0) }
    check(f(a).is_some() == (a > 0.0), "?");
    fn g(a: f32) -> Result<f32, i32> { let x = if a > 0.0 { Ok(a) } else { Err(1) }?; Ok(x + 1.0) }
    check(g(a).is_ok() == (a > 0.0), "? result");
    check(g(a).ok() == f(a), "ok");
    check(g(a).map_err(|_| ()).is_err() == !(a > 0.0), "map_err");
    check(g(a).unwrap_or(0.0) == f(a).unwrap_or(0.0), "unwrap_or");
    check(g(a).is_ok_and(|x| x > 1.0) == (a > 0.0), "is_ok_and");
}
pub fn law_i28_minmax(a: f32, b: f32) {
    check_eq(if a < b { a } else { b }, a.min(b), "min");
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    check_eq(lo, a.min(b), "lo");
    check_eq(hi, a.max(b), "hi");
    assume(a <= b);
    check(0.0f32.clamp(a, b) >= a, "clamp");
    check_eq(0.5f32.max(a).min(b), 0.5f32.clamp(a, b), "clamp as max min");
}
pub fn law_i29_ordering(a: f32, b: f32) {
    use std::cmp::Ordering::*;
    let r = match a.partial_cmp(&b) { Some(Less) => -1, Some(Greater) => 1, Some(Equal) => 0, None => 2 };
    check((r == -1) == (a < b), "less");
    check(matches!(a.partial_cmp(&b), Some(Less | Equal)) == (a <= b), "matches");
    check(a.partial_cmp(&b).is_some_and(|o| o.is_lt()) == (a < b), "is_lt");
    check(a.partial_cmp(&b).map(|o| o.reverse()) == b.partial_cmp(&a), "reverse");
    check(a.partial_cmp(&b).unwrap_or(Equal).is_ge() == (a >= b), "is_ge");
}
pub fn law_i30_int(a: i32, b: i32) {
    assume(a.abs() < 1000);
    assume(b.abs() < 1000);
    check(a.cmp(&b) as i32 == (a - b).signum(), "cmp");
    check(a.max(b) >= a && a.max(b) >= b, "max");
    check(std::cmp::min(a, b) <= a, "min");
    check(a.rem_euclid(8) == a - a.div_euclid(8) * 8, "euclid");
    check(a.div_euclid(8) == a >> 3, "shift");
    check(a.rem_euclid(8) == a & 7, "mask");
    check((a.div_euclid(8) as f32) == (a as f32 / 8.0).floor(), "floor");
    check(a.abs_diff(b) == (a - b).unsigned_abs(), "abs_diff");
    check(a.clamp(-5, 5) >= -5, "clamp");
    check(a.is_positive() == (a > 0), "is_positive");
    check((0..10).contains(&a) == (a >= 0 && a < 10), "contains");
    check((0..=10).contains(&a) == (a >= 0 && a <= 10), "contains inclusive");
    check(i32::try_from(a).is_ok(), "try_from");
    check(usize::try_from(a).is_ok() == (a >= 0), "try_from usize");
    check(a.checked_add(b) == Some(a + b), "checked_add");
    check(a.wrapping_add(b) == a + b, "wrapping");
    check(a.saturating_sub(b) == a - b, "sat");
}
pub fn law_i31_floats(a: f32) {
    check(a.is_sign_positive() || a <= 0.0, "sign");
    check_eq(a.abs() * a.signum(), if a == 0.0 { 0.0 } else { a }, "abs signum");
    check_eq(a.mul_add(2.0, 1.0), a * 2.0 + 1.0, "mul_add");
    check_eq(a.powi(2), a * a, "powi");
    check_eq(a.recip() * a, if a == 0.0 { a.recip() * a } else { 1.0 }, "recip");
    check(a.is_finite() && !a.is_nan(), "finite");
    assume(a >= 0.0);
    check_eq(a.sqrt() * a.sqrt(), a, "sqrt");
    check_eq(a.hypot(0.0), a, "hypot");
    check_eq(a.copysign(-1.0), -a, "copysign");
}
pub fn law_i32_trig(a: f32) {
    let (s, c) = a.sin_cos();
    check_eq(s, a.sin(), "sin");
    check_eq(c, a.cos(), "cos");
    check_eq(s * s + c * c, 1.0, "unit");
    let r = Vec2::from_angle(a);
    check_eq(r.x, c, "from_angle");
    check_eq(r.y, s, "from_angle");
}
pub fn law_i33_vec2(a: Vec2, b: Vec2) {
    check_eq(a.dot(b), a.x * b.x + a.y * b.y, "dot");
    check_eq(a.perp_dot(b), a.x * b.y - a.y * b.x, "perp_dot");
    check_eq(a.perp().x, -a.y, "perp");
    check_eq(a.rotate(b).x, a.x * b.x - a.y * b.y, "rotate");
    check_eq(a.length_squared(), a.dot(a), "length2");
    check_eq(a.distance_squared(b), (a - b).length_squared(), "dist2");
    check_eq(a.min(b).x, a.x.min(b.x), "min");
    check_eq(a.abs().y, a.y.abs(), "abs");
    check_eq(a.lerp(b, 0.5).x, (a.x + b.x) * 0.5, "lerp");
    check_eq(a.element_product(), a.x * a.y, "prod");
    check_eq(a.element_sum(), a.x + a.y, "sum");
    check_eq(a.max_element(), a.x.max(a.y), "max_element");
    check_eq(a.yx().x, a.y, "yx");
    check_eq(Vec2::splat(2.0).x, 2.0, "splat");
    check_eq(a.with_x(1.0).y, a.y, "with_x");
    let t: [f32; 2] = a.into();
    check_eq(t[1], a.y, "into");
    check_eq(Vec2::from_array(t), a, "from_array");
    check_eq(Vec2::from((1.0, 2.0)).y, 2.0, "from tuple");
    check_eq(a.extend(1.0).z, 1.0, "extend");
    check(a.cmplt(b).all() == (a.x < b.x && a.y < b.y), "cmplt");
    check(a.cmpge(b).any() == (a.x >= b.x || a.y >= b.y), "cmpge");
    check_eq(Vec2::select(a.cmplt(b), a, b), a.min(b), "select");
    check_eq(a.signum().abs().x, 1.0, "signum");
    check_eq(a.clamp(Vec2::ZERO, Vec2::ONE).x, a.x.clamp(0.0, 1.0), "clamp");
    check_eq([a, b].iter().sum::<Vec2>(), a + b, "sum");
    check_eq(a.project_onto(Vec2::X).x, a.x, "project");
    check_eq(a.to_array()[0], a.x, "to_array");
    check_eq(a[1], a.y, "index");
    assume(a.x != 0.0);
    check_eq(a.normalize().length(), 1.0, "normalize");
    check_eq(a.normalize_or_zero().dot(a), a.length(), "normalize_or_zero");
    check(a.try_normalize().is_some(), "try_normalize");
    check_eq(a.length() * a.length_recip(), 1.0, "length_recip");
}
use glam::Vec2Swizzles;
pub fn law_i34_hashmap(k: i32, j: i32, v: f32) {
    let mut m: HashMap<i32, f32> = HashMap::new();
    *m.entry(k).or_insert(0.0) += v;
    *m.entry(j).or_default() += v;
    check_eq(m[&k], if k == j { v + v } else { v }, "entry");
    check(m.len() == if k == j { 1 } else { 2 }, "len");
    check(m.get(&k).copied().is_some(), "get");
    if let Some(x) = m.get_mut(&k) { *x = 1.0; }
    check_eq(m.get(&k).copied().unwrap_or(0.0), 1.0, "get_mut");
    check(m.contains_key(&j), "contains");
    m.entry(k).and_modify(|x| *x += 1.0).or_insert(7.0);
    check_eq(m[&k], 2.0, "and_modify");
    check(m.remove(&k) == Some(2.0), "remove");
    check(m.values().count() == if k == j { 0 } else { 1 }, "values");
    check(m.is_empty() == (k == j), "is_empty");
}
pub fn law_i35_entry_match(k: i32, j: i32, v: f32) {
    use std::collections::hash_map::Entry;
    let mut m: HashMap<i32, f32> = HashMap::with_capacity(4);
    m.insert(j, v);
    let r = match m.entry(k) {
        Entry::Occupied(o) => *o.into_mut(),
        Entry::Vacant(e) => *e.insert(1.0),
    };
    check_eq(r, if k == j { v } else { 1.0 }, "entry match");
    if let Entry::Occupied(mut o) = m.entry(k) { *o.get_mut() = 3.0; check(o.insert(4.0) == 3.0, "insert"); }
    check_eq(m[&k], 4.0, "occupied");
    let s: f32 = m.iter().map(|(_, x)| *x).sum();
    check_eq(s, if k == j { 4.0 } else { v + 4.0 }, "iter sum");
    for (_, x) in m.iter_mut() { *x = 0.0; }
    for x in m.values_mut() { *x += 1.0; }
    check_eq(m[&k], 1.0, "iter_mut");
}
pub fn law_i36_hashset(k: i32, j: i32) {
    let mut m: HashSet<i32> = HashSet::new();
    check(m.insert(k), "insert");
    check(m.insert(j) == (k != j), "insert 2");
    check(m.contains(&k), "contains");
    check(m.remove(&k), "remove");
    check(m.is_empty() == (k == j), "empty");
}
pub fn law_i37_vec_ops(a: [f32; 3], x: f32) {
    let mut v = Vec::with_capacity(4);
    v.extend_from_slice(&a);
    v.push(x);
    v.insert(1, 0.0);
    check_eq(v[2], a[1], "insert");
    check_eq(v.remove(0), a[0], "remove");
    check_eq(v.swap_remove(0), 0.0, "swap_remove");
    check_eq(v[0], x, "swapped");
    v.swap(0, 1);
    check_eq(v[1], x, "swap");
    v.truncate(2);
    check(v.len() == 2, "truncate");
    v.reverse();
    check_eq(v[0], x, "reverse");
    v.extend(a.iter());
    v.extend(std::iter::once(x));
    check(v.len() == 6, "extend");
    check(v.first() == Some(&x) && v.last() == Some(&x), "first last");
    v.rotate_left(1);
    check_eq(v[5], x, "rotate");
    check_eq(v[v.len() - 2], x, "last but one");
    v.clear();
    check(v.is_empty(), "clear");
    let mut w = vec![1, 2, 3];
    w.retain(|q| *q != 2);
    check(w.len() == 2 && w[1] == 3, "retain");
    w.append(&mut vec![7]);
    check(w[2] == 7, "append");
    w.resize(5, 0);
    check(w.len() == 5 && w[4] == 0, "resize");
    let d: Vec<i32> = w.drain(..2).collect();
    check(d.len() == 2 && w.len() == 3, "drain");
    let t = w.split_off(1);
    check(t.len() == 2, "split_off");
    let c = [t, w].concat();
    check(c.len() == 3, "concat");
    let s = &c[1..];
    check(s.len() == 2, "slice");
    check(c.get(7).is_none() && c.get(0).is_some(), "get");
    check(c.contains(&7), "contains");
    check(c.chunks(2).count() == 2, "chunks");
    let b: Box<[i32]> = c.into_boxed_slice();
    check(b.len() == 3, "boxed");
}
pub fn law_i38_fn_ptr(a: f32) {
    fn twice(f: impl Fn(f32) -> f32, x: f32) -> f32 { f(f(x)) }
    fn p(f: fn(f32) -> f32, x: f32) -> f32 { f(x) }
    check_eq(twice(|x| x + 1.0, a), a + 2.0, "impl Fn");
    check_eq(p(|x| x * 2.0, a), a + a, "fn pointer");
    check_eq(p(f32::abs, a), a.abs(), "fn path");
    let fs: [fn(f32) -> f32; 2] = [f32::abs, |x| -x];
    check_eq(fs[1](a), -a, "fn table");
    let b: Box<dyn Fn(f32) -> f32> = Box::new(move |x| x + a);
    check_eq(b(1.0), 1.0 + a, "boxed closure");
    let d: &dyn Fn(f32) -> f32 = &|x| x - a;
    check_eq(d(1.0), 1.0 - a, "dyn closure");
}
pub fn law_i39_mem(a: f32, b: f32) {
    let (mut x, mut y) = (a, b);
    std::mem::swap(&mut x, &mut y);
    check_eq(x, b, "swap");
    check_eq(std::mem::replace(&mut y, 3.0), a, "replace");
    check_eq(std::mem::take(&mut x), b, "take");
    (x, y) = (y, x);
    check_eq(x, 3.0, "tuple assign");
    let mut v = vec![a];
    let w = std::mem::take(&mut v);
    check(v.is_empty() && w.len() == 1, "take vec");
}
pub fn law_i40_labeled(a: [f32; 3]) {
    let mut found = None;
    'o: for i in 0..3 {
        for j in 0..3 {
            if i != j && a[i] == a[j] { found = Some((i, j)); break 'o; }
            if a[i] < 0.0 { continue 'o; }
        }
    }
    if let Some((i, j)) = found { check(a[i] == a[j] && i != j, "labeled"); }
    let v = loop { break a[0]; };
    check_eq(v, a[0], "loop value");
    let z = 'b: { if a[0] > 0.0 { break 'b 1 } 2 };
    check((z == 1) == (a[0] > 0.0), "labeled block");
}
pub fn law_i41_sort(a: [i32; 3]) {
    assume(a[0] > -9);assume(a[1] > -9);assume(a[2] > -9);let mut v = a;
    v.sort();
    check(v[0] <= v[1] && v[1] <= v[2], "sort");
    let mut w = a.to_vec();
    w.sort_by_key(|x| -*x);
    check(w[0] >= w[2], "sort_by_key");
    w.sort_unstable();
    check(w[0] <= w[2], "sort_unstable");
    check(a.iter().max() == Some(&v[2]), "max");
    check(a.iter().copied().min() == Some(v[0]), "min");
    check(a.iter().max_by_key(|x| -**x) == Some(&v[0]), "max_by_key");
}
pub fn law_i42_sort_f(a: [f32; 3]) {
    let mut v = a;
    v.sort_by(|x, y| x.total_cmp(y));
    check(v[0] <= v[1] && v[1] <= v[2], "sort_by");
    let m = a.iter().copied().reduce(f32::max).unwrap();
    check_eq(m, v[2], "reduce");
}
pub fn law_i43_arrays(a: [f32; 4]) {
    let v = std::array::from_fn::<f32, 4, _>(|i| a[3 - i]);
    check_eq(v[0], a[3], "from_fn");
    check(a == a, "eq");
    let [x, y, ..] = a;
    check_eq(x + y, a[0] + a[1], "destructure");
    let s: &[f32] = &a;
    let t: [f32; 2] = s[..2].try_into().unwrap();
    check_eq(t[1], a[1], "try_into");
    check(s.iter().eq(a.iter()), "iter eq");
    let b: Vec<f32> = a.into();
    check(b == a, "vec eq");
    check(s.first().copied() == Some(a[0]), "first");
    check(s.iter().last() == Some(&a[3]), "last");
    check(s.iter().nth(2) == Some(&a[2]), "nth");
    check(a.iter().skip_while(|x| **x < 0.0).count() <= 4, "skip_while");
    check(a.iter().take_while(|x| **x < 0.0).count() <= 4, "take_while");
    check(a.iter().cycle().nth(5) == Some(&a[1]), "cycle");
    check(a.iter().step_by(2).count() == 2, "step_by");
    check(a.iter().copied().partition::<Vec<f32>, _>(|x| *x > 0.0).0.len() <= 4, "partition");
    let (p, q): (Vec<f32>, Vec<f32>) = a.iter().map(|x| (*x, -x)).unzip();
    check_eq(p[1], -q[1], "unzip");
    check_eq(a.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).last().unwrap(), a[0] + a[1] + a[2] + a[3], "scan");
    check(a.iter().try_fold(0.0, |s, x| if *x > 0.0 { Some(s + x) } else { None }).is_some() == a.iter().all(|x| *x > 0.0), "try_fold");
    check(a.iter().min_by(|x, y| x.total_cmp(y)).is_some(), "min_by");
    check(a.chunks_exact(2).all(|c| c.len() == 2), "chunks_exact");
    check(a.iter().map(|x| x * x).fold(0.0, |s, x| s + x) >= 0.0, "map fold");
    check(a.iter().rev().enumerate().all(|(i, x)| *x == a[3 - i]), "rev enumerate");
    check(a.iter().sum::<f32>() == a.iter().rev().sum::<f32>(), "rev sum");
    check((0..4).rev().map(|i| a[i]).sum::<f32>() == a.iter().sum::<f32>(), "range rev");
    check((0..4).step_by(2).count() == 2, "range step_by");
    check((0..4).filter(|i| i % 2 == 0).count() == 2, "range filter");
    check((0..4).all(|i| a[i] == a[i]), "range all");
    check((0..4).any(|i| a[i] > 0.0) == a.iter().any(|x| *x > 0.0), "range any");
    check((0..4).zip(a).all(|(i, x)| a[i] == x), "range zip");
    check((1..=3).map(|i| i * i).sum::<i32>() == 14, "inclusive sum");
    check((1..=3).fold(0, |s, i| s + i) == 6, "inclusive fold");
    check((0..3).max_by(|i, j| a[*i].total_cmp(&a[*j])).is_some(), "range max_by");
    check((0..3).find(|i| a[*i] > 0.0).is_some() == (a[0] > 0.0 || a[1] > 0.0 || a[2] > 0.0), "range find");
}
pub fn law_i47_ivec(a: IVec2, b: IVec2) {
    check_eq((a + b).x, a.x + b.x, "add");
    check(a.as_vec2().x == a.x as f32, "as_vec2");
    check(a.cmpge(b).all() == (a.x >= b.x && a.y >= b.y), "cmpge");
    check_eq(a.min(b).x, a.x.min(b.x), "min");
    check(a.div_euclid(IVec2::splat(8)).x == a.x.div_euclid(8), "div_euclid");
    check(a.rem_euclid(IVec2::splat(8)).x == a.x.rem_euclid(8), "rem_euclid");
    check((a == b) == (a.x == b.x && a.y == b.y), "eq");
}
pub fn law_i49_const_tables(a: f32) {
    const T: [(f32, f32); 3] = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0)];
    let mut s = 0.0;
    for (x, y) in T { s += x * a + y; }
    check_eq(s, 1.0, "const table");
    for &(x, _) in T.iter() { check(x <= 1.0, "table"); }
    static S: &[f32] = &[1.0, 2.0];
    check_eq(S[1] * a, a + a, "static");
}
pub fn law_i50_generic_trait(a: f32) {
    trait Sh { fn f(&self) -> f32; fn g(&self) -> f32 { self.f() + 1.0 } }
    struct P(f32); struct Q { x: f32 }
    impl Sh for P { fn f(&self) -> f32 { self.0 } }
    impl Sh for Q { fn f(&self) -> f32 { self.x * 2.0 } fn g(&self) -> f32 { self.x } }
    fn sum(l: &[&dyn Sh]) -> f32 { l.iter().map(|s| s.g()).sum() }
    check_eq(sum(&[&P(a), &Q { x: a }]), a + 1.0 + a, "dyn");
    let v: Vec<Box<dyn Sh>> = vec![Box::new(P(a)), Box::new(Q { x: a })];
    let mut t = 0.0;
    for s in &v { t += s.f(); }
    check_eq(t, 3.0 * a, "boxed dyn");
}
