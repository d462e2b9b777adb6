//! Stand-in for the allocator the generated library names. Besides allocating, it notices
//! buffers released with another layout or twice, and writes next to a buffer.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use core::arch::wasm32::{memory_grow, memory_size};
pub struct WeeAlloc;
impl WeeAlloc {
    pub const INIT: WeeAlloc = WeeAlloc;
}
const GUARD: usize = 32;
const LIVE: u32 = 0x4c49_5645;
const DEAD: u32 = 0x4445_4144;
// size, align, state, then GUARD bytes; the payload; GUARD bytes
const HEAD: usize = 16;
const CLASSES: usize = 512;
static mut FREE: [usize; CLASSES] = [0; CLASSES];
static mut TOP: usize = 0;
static mut CODE: i32 = 0;
static mut COUNT: i32 = 0;
fn blame(code: i32) {
    unsafe {
        if CODE == 0 {
            CODE = code;
        }
    }
}
unsafe fn fill(at: usize, n: usize, b: u8) {
    for i in 0..n {
        ((at + i) as *mut u8).write_volatile(b);
    }
}
unsafe fn is(at: usize, n: usize, b: u8) -> bool {
    (0..n).all(|i| ((at + i) as *const u8).read_volatile() == b)
}
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        if size == 0 {
            return align as *mut u8;
        }
        let class = (size + 7) / 8;
        let block = if class < CLASSES && FREE[class] != 0 {
            let b = FREE[class];
            FREE[class] = *((b + HEAD + GUARD) as *const usize);
            b
        } else {
            if TOP == 0 {
                TOP = memory_size(0) * 65536;
            }
            let b = TOP;
            TOP += HEAD + GUARD + class * 8 + GUARD;
            while TOP > memory_size(0) * 65536 {
                if memory_grow(0, 1) == usize::MAX {
                    return core::ptr::null_mut();
                }
            }
            b
        };
        let h = block as *mut u32;
        h.write(size as u32);
        h.add(1).write(align as u32);
        h.add(2).write(LIVE);
        fill(block + HEAD, GUARD, 0xa5);
        let p = block + HEAD + GUARD;
        fill(p, size, 0xcd);
        fill(p + size, GUARD, 0x5a);
        COUNT += 1;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (size, align) = (l.size(), l.align());
        if size == 0 {
            return;
        }
        let p = p as usize;
        if p < HEAD + GUARD || p % 8 != 0 || p > memory_size(0) * 65536 - GUARD {
            return blame(2);
        }
        let block = p - GUARD - HEAD;
        let h = block as *mut u32;
        if h.add(2).read() != LIVE {
            return blame(2);
        }
        let (had, had_align) = (h.read() as usize, h.add(1).read() as usize);
        if had != size || had_align != align {
            blame(1);
        }
        if !is(block + HEAD, GUARD, 0xa5) || !is(p + had, GUARD, 0x5a) {
            blame(3);
        }
        h.add(2).write(DEAD);
        fill(p, had, 0xdd);
        let class = (had + 7) / 8;
        if class < CLASSES {
            *(p as *mut usize) = FREE[class];
            FREE[class] = block;
        }
        COUNT -= 1;
    }
}
#[no_mangle]
pub extern "C" fn verif_health() -> i32 {
    unsafe { CODE }
}
#[no_mangle]
pub extern "C" fn verif_live() -> i32 {
    unsafe { COUNT }
}
