//! The interface to the symbolic executor (or to the native replay).
extern "C" {
    fn v_input(p: *mut u8) -> usize;
    fn v_param(i: usize) -> usize;
    fn v_fail(code: usize, a: usize, b: usize);
    fn v_trace(x: usize);
    fn v_cover(x: usize);
    fn v_note(x: usize);
    fn v_assume(x: usize);
}
pub const MAX_INPUT: usize = 4096;
pub struct Input {
    pub buf: [u8; MAX_INPUT],
    pub len: usize,
}
impl Input {
    pub fn read(&mut self) {
        self.len = unsafe { v_input(self.buf.as_mut_ptr()) };
    }
    pub const fn new() -> Self {
        Input { buf: [0; MAX_INPUT], len: 0 }
    }
    /// The bytes as text. Symbolic bytes are ASCII, literal parts are checked when jobs are made.
    pub fn str(&self) -> &str {
        text(&self.buf[..self.len])
    }
}
pub fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
pub fn param(i: usize) -> usize {
    unsafe { v_param(i) }
}
/// Report that property `prop` is broken in way `code`. A run is about one property (parameter 0)
/// and may name further ones whose violations also count as violations of it (parameter 1).
pub fn fail(prop: usize, code: usize, detail: usize) {
    let mask = param(0);
    if mask == 0 {
        unsafe { v_fail(prop * 1000 + code, detail, 0) }
    } else if mask == prop {
        unsafe { v_fail(prop * 1000 + code, detail, 0) }
    } else if param(1) >> prop & 1 != 0 {
        unsafe { v_fail(mask * 1000 + 500 + prop * 12 + code, detail, 0) }
    }
}
/// Report that the property this run is about is broken.
pub fn fail_own(code: usize, detail: usize) {
    fail(param(0), code, detail)
}
pub fn trace(x: usize) {
    unsafe { v_trace(x) }
}
pub fn cover(x: usize) {
    unsafe { v_cover(x) }
}
#[allow(unused)]
pub fn note(x: usize) {
    unsafe { v_note(x) }
}
pub fn assume(x: bool) {
    unsafe { v_assume(x as usize) }
}
