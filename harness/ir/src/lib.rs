//! Links the harness for a bare target: every allocation and panic becomes an intrinsic of the
//! symbolic executor.
#![no_std]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
pub use harness::*;

extern "C" {
    fn v_alloc(size: usize, align: usize) -> *mut u8;
    fn v_panic() -> !;
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        v_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static G: A = A;
#[panic_handler]
fn ph(_: &core::panic::PanicInfo) -> ! {
    unsafe { v_panic() }
}
