//! A global allocator that counts live allocations of recognisable sizes: the strings owned by the
//! joints and links of C14 have one size each.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub const BASE: usize = 3001;
pub const STEP: usize = 16;
pub const N: usize = 64;
static LIVE: [AtomicI64; N] = [const { AtomicI64::new(0) }; N];

pub struct Counting;
#[inline]
fn slot(l: usize, align: usize) -> Option<usize> {
    if l < BASE || l >= BASE + STEP * N || align != 1 || (l - BASE) % STEP != 0 {
        return None;
    }
    Some((l - BASE) / STEP)
}
fn add(l: usize, align: usize, d: i64) {
    if let Some(i) = slot(l, align) {
        LIVE[i].fetch_add(d, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size(), l.align(), 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size(), l.align(), 1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(l.size(), l.align(), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(l.size(), l.align(), -1);
        add(n, l.align(), 1);
        System.realloc(p, l, n)
    }
}
pub fn live() -> Vec<i64> {
    LIVE.iter().map(|x| x.load(Relaxed)).collect()
}
