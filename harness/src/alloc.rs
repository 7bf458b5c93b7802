//! Checking global allocator. Every block carries a header with the layout it was requested with, a tag saying who
//! requested it (harness, library, payload handed to the library) and the serial number of the case it belongs to.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const TAG_HARNESS: u8 = 0;
pub const TAG_LIB: u8 = 1;
pub const TAG_PAYLOAD: u8 = 2;

const HEADER: usize = 32;
const TAIL: usize = 8;
const MAGIC_LIVE: u32 = 0x4C49_5645;
const MAGIC_DEAD: u32 = 0x4445_4144;
const CANARY: u64 = 0xA5C3_96F0_1B7D_E248;

/// Blocks at least this large are counted separately ("big" blocks: packet data rather than bookkeeping).
pub const BIG: usize = 600;

#[repr(C)]
struct Header {
    size: usize,
    case: u64,
    align: u32,
    magic: u32,
    tag: u8,
    big: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Layout { had: (usize, usize), got: (usize, usize) },
    Double { size: usize },
    Overrun { size: usize },
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub lib_live: i64,
    pub lib_peak: i64,
    pub lib_big: i64,
    pub lib_blocks: i64,
    pub payload_live: i64,
    pub allocs: u64,
    pub frees: u64,
    pub odd_frees: u64,
}

thread_local! {
    static TAG: Cell<u8> = const { Cell::new(TAG_HARNESS) };
    static CASE: Cell<u64> = const { Cell::new(0) };
    static STATS: Cell<Stats> = const { Cell::new(Stats { lib_live: 0, lib_peak: 0, lib_big: 0, lib_blocks: 0, payload_live: 0, allocs: 0, frees: 0, odd_frees: 0 }) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Checking;

fn offset(align: usize) -> usize {
    HEADER.max(align)
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let off = offset(layout.align());
        let Some(total) = layout.size().checked_add(off + TAIL) else { return std::ptr::null_mut() };
        let Ok(real) = Layout::from_size_align(total, layout.align().max(16)) else { return std::ptr::null_mut() };
        let tag = TAG.try_with(|t| t.get()).unwrap_or(TAG_HARNESS);
        if tag == TAG_LIB && layout.size() > (4usize << 30) {
            return std::ptr::null_mut();
        }
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let h = user.sub(HEADER) as *mut Header;
        let big = layout.size() >= BIG;
        h.write(Header {
            size: layout.size(),
            align: layout.align() as u32,
            magic: MAGIC_LIVE,
            tag,
            big,
            case: CASE.try_with(|c| c.get()).unwrap_or(0),
        });
        (user.add(layout.size()) as *mut u64).write_unaligned(CANARY);
        if tag != TAG_HARNESS {
            let mut over = false;
            let _ = STATS.try_with(|s| {
                let mut v = s.get();
                if tag == TAG_LIB {
                    v.lib_live += layout.size() as i64;
                    v.lib_blocks += 1;
                    v.lib_peak = v.lib_peak.max(v.lib_live);
                    v.allocs += 1;
                    if big {
                        v.lib_big += layout.size() as i64;
                    }
                    over = v.lib_live > LIMIT.with(|l| l.get());
                } else {
                    v.payload_live += layout.size() as i64;
                }
                s.set(v);
            });
            if over {
                LIMIT.with(|l| l.set(i64::MAX));
                crate::core::runaway("memory", layout.size() as u64);
            }
        }
        user
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let h = &mut *(ptr.sub(HEADER) as *mut Header);
        if h.magic != MAGIC_LIVE {
            // Freed twice or corrupted: report and leak
            note(Fault::Double { size: layout.size() });
            return;
        }
        if h.size != layout.size() || h.align as usize != layout.align() {
            note(Fault::Layout { had: (h.size, h.align as usize), got: (layout.size(), layout.align()) });
        }
        if (ptr.add(h.size) as *mut u64).read_unaligned() != CANARY {
            note(Fault::Overrun { size: h.size });
        }
        if h.tag != TAG_HARNESS && h.case == CASE.try_with(|c| c.get()).unwrap_or(0) {
            let _ = STATS.try_with(|s| {
                let mut v = s.get();
                if h.tag == TAG_LIB {
                    v.lib_live -= h.size as i64;
                    v.lib_blocks -= 1;
                    v.frees += 1;
                    if h.size % 1448 != 0 && h.size > 1448 {
                        v.odd_frees += 1;
                    }
                    if h.big {
                        v.lib_big -= h.size as i64;
                    }
                } else {
                    v.payload_live -= h.size as i64;
                }
                s.set(v);
            });
        }
        h.magic = MAGIC_DEAD;
        let (size, align) = (h.size, h.align as usize);
        if h.tag != TAG_HARNESS {
            // Make uses after free visible as wrong contents
            std::ptr::write_bytes(ptr, 0xDD, size.min(64));
        }
        let off = offset(align);
        let real = Layout::from_size_align_unchecked(size + off + TAIL, align.max(16));
        System.dealloc(ptr.sub(off), real);
    }
}

fn note(f: Fault) {
    let _ = FAULT.try_with(|c| {
        if c.get() == Fault::None {
            c.set(f);
        }
    });
}

pub fn set_tag(tag: u8) -> u8 {
    TAG.with(|t| t.replace(tag))
}

pub fn begin_case(serial: u64, limit: i64) {
    CASE.with(|c| c.set(serial));
    STATS.with(|s| s.set(Stats::default()));
    FAULT.with(|f| f.set(Fault::None));
    LIMIT.with(|l| l.set(limit));
}

pub fn stats() -> Stats {
    STATS.with(|s| s.get())
}

/// Starts a new measurement of the peak of live library memory.
pub fn reset_peak() {
    STATS.with(|s| {
        let mut v = s.get();
        v.lib_peak = v.lib_live;
        s.set(v);
    });
}

pub fn fault() -> Fault {
    FAULT.with(|f| f.get())
}

/// Allocates a copy of `data` tagged as payload owned by the library from now on.
pub fn payload(data: &[u8]) -> Box<[u8]> {
    let old = set_tag(TAG_PAYLOAD);
    let b: Box<[u8]> = data.into();
    set_tag(old);
    b
}
