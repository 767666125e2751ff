//! Specification vocabulary, interpreted by the analyser.
#[inline(never)]
pub fn assume(_c: bool) {}
#[inline(never)]
pub fn check(_c: bool, _label: &'static str) {}
#[inline(never)]
pub fn check_eq<T>(_a: T, _b: T, _label: &'static str) {}
/// an arbitrary (cos, sin) pair
#[inline(never)]
pub fn unit_pair() -> (f32, f32) {
    (1.0, 0.0)
}
/// an arbitrary value
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}
#[inline(never)]
pub fn nan() -> f32 {
    f32::NAN
}
/// finite (neither NaN nor infinite)
#[inline(never)]
pub fn is_defined(x: f32) -> bool {
    x.is_finite()
}
/// an arbitrary function (i, x, y) -> (f32, f32)
#[inline(never)]
pub fn uf2(_i: i32, x: f32, y: f32) -> (f32, f32) {
    (x, y)
}
/// an arbitrary unit quaternion
#[inline(never)]
pub fn unit_quat(_i: i32) -> glam::Quat {
    glam::Quat::IDENTITY
}
/// an arbitrary value whose floats may be anything (NaN and infinities included)
#[inline(never)]
pub fn wild<T>() -> T {
    loop {}
}
/// something observable happened
#[inline(never)]
pub fn emit(_tag: i32, _x: i32) {}
/// how many things happened so far
#[inline(never)]
pub fn emitted() -> usize {
    0
}
/// the i-th thing that happened
#[inline(never)]
pub fn emitted_at(_i: usize) -> (i32, i32) {
    (0, 0)
}
/// from here on, what penetrates_rel answers is an arbitrary function of shapes and placement
#[inline(never)]
pub fn opaque_penetration() {}
/// the file of this name exists or not, with any content; I/O may fail at any step if `may_fail`
#[inline(never)]
pub fn file(_name: &'static str, _may_fail: bool) {}
/// whether any I/O step failed so far
#[inline(never)]
pub fn io_failed() -> bool {
    false
}
/// whether the declared file has been touched
#[inline(never)]
pub fn untouched() -> bool {
    false
}
/// whether the declared file holds exactly this value
#[inline(never)]
pub fn on_disk<T>(_v: &T) -> bool {
    false
}
/// the value that the declared file held at the start, if it held one
#[inline(never)]
pub fn file_value<T>() -> T {
    loop {}
}
/// loops may run this often in this law
#[inline(never)]
pub fn loops(_n: usize) {}
