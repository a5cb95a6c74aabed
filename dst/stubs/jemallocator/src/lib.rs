//! Stand-in for jemallocator. Allocations made by the code under test go to
//! the simulated heap (`simrt::heap`), all others to the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};

#[derive(Copy, Clone, Default, Debug)]
pub struct Jemalloc;

unsafe impl GlobalAlloc for Jemalloc {
    #[inline]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if simrt::in_sut() { simrt::heap::alloc(layout, false) } else { System.alloc(layout) }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if simrt::in_sut() { simrt::heap::alloc(layout, true) } else { System.alloc_zeroed(layout) }
    }
    #[inline]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if simrt::heap::owns(ptr) { simrt::heap::dealloc(ptr, layout) } else { System.dealloc(ptr, layout) }
    }
    #[inline]
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if simrt::heap::owns(ptr) { simrt::heap::realloc(ptr, layout, new_size) } else { System.realloc(ptr, layout, new_size) }
    }
}
