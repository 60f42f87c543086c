//! Guard allocator: every block carries a header and red zones. While a thread is `on`, new memory is
//! filled with a poison pattern, freed memory is poisoned and kept in a small quarantine, layouts
//! passed to `dealloc` are compared with those used to allocate, and the blocks are counted. Misuse is
//! recorded (first error wins) instead of being executed, so an exploration can report it and go on.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Guard;

const MAGIC_LIVE: u64 = 0x6c69_7665_6c69_7665;
const MAGIC_DEAD: u64 = 0xdead_dead_dead_dead;
// The tail looks like live slots (position 1, generation 1) or handles, so that an index past the end is
// believed by code that fails to check it.
const TAIL: usize = 64;
const QUARANTINE: usize = 48;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0xDE;
const TAIL_WORD: [u8; 4] = [1, 0, 0, 0];
const POISON_CHECK_MAX: usize = 1 << 14;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u32,
    counted: u32,
    front: u64,
}
const HEADER: usize = std::mem::size_of::<Header>();

#[derive(Clone, Copy)]
struct Quarantined {
    user: *mut u8,
    layout: Layout,
}

struct Ring {
    items: [Option<Quarantined>; QUARANTINE],
    next: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ERROR: Cell<Option<&'static str>> = const { Cell::new(None) };
    static RING: UnsafeCell<Ring> = const {
        UnsafeCell::new(Ring { items: [None; QUARANTINE], next: 0 })
    };
}

fn report(error: &'static str) {
    let _ = ERROR.try_with(|slot| {
        if slot.get().is_none() {
            slot.set(Some(error));
        }
    });
}

/// Takes the first recorded misuse on this thread.
pub fn take_error() -> Option<&'static str> {
    ERROR.with(|slot| slot.take())
}

#[inline]
pub fn peek_error() -> Option<&'static str> {
    ERROR.with(|slot| slot.get())
}

/// Blocks allocated minus blocks freed on this thread while `on` (for blocks allocated while `on`).
pub fn outstanding() -> i64 {
    BLOCKS.with(|b| b.get())
}

pub fn allocations() -> u64 {
    ALLOCS.with(|b| b.get())
}

pub fn set(on: bool) -> bool {
    ON.with(|cell| cell.replace(on))
}

/// Restores the previous state when dropped.
pub struct Scope(bool);

impl Drop for Scope {
    #[inline]
    fn drop(&mut self) {
        set(self.0);
    }
}

/// Harness bookkeeping that outlives a single run is allocated with guarding off.
#[inline]
pub fn off() -> Scope {
    Scope(set(false))
}

#[inline]
pub fn on() -> Scope {
    Scope(set(true))
}

/// Starts a run: forgets errors and counts.
pub fn reset() {
    ERROR.with(|slot| slot.set(None));
    BLOCKS.with(|b| b.set(0));
}

/// Flushes the quarantine, verifying that nothing wrote to freed memory.
pub fn flush() {
    let _ = RING.try_with(|ring| unsafe {
        let ring = &mut *ring.get();
        for item in ring.items.iter_mut() {
            if let Some(item) = item.take() {
                release(item);
            }
        }
    });
}

unsafe fn front(align: usize) -> usize {
    HEADER.max(align)
}

unsafe fn release(item: Quarantined) {
    unsafe {
        let size = item.layout.size();
        if size <= POISON_CHECK_MAX {
            let bytes = std::slice::from_raw_parts(item.user, size);
            if bytes.iter().any(|b| *b != FREED) {
                report("freed memory was written to");
            }
        }
        free_now(item.user, item.layout);
    }
}

unsafe fn free_now(user: *mut u8, layout: Layout) {
    unsafe {
        let front = front(layout.align());
        let full = Layout::from_size_align_unchecked(
            front + layout.size() + TAIL,
            layout.align().max(std::mem::align_of::<Header>()),
        );
        System.dealloc(user.sub(front), full);
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe {
            let front = front(layout.align());
            let full = match Layout::from_size_align(
                front.wrapping_add(layout.size()).wrapping_add(TAIL),
                layout.align().max(std::mem::align_of::<Header>()),
            ) {
                Ok(full) if layout.size() < (1 << 46) => full,
                _ => return std::ptr::null_mut(),
            };
            let base = System.alloc(full);
            if base.is_null() {
                return base;
            }
            let user = base.add(front);
            let on = ON.try_with(|on| on.get()).unwrap_or(false);
            let header = user.sub(HEADER) as *mut Header;
            (*header).magic = MAGIC_LIVE;
            (*header).size = layout.size() as u64;
            (*header).align = layout.align() as u32;
            (*header).counted = on as u32;
            (*header).front = front as u64;
            if on {
                if layout.size() == 0 {
                    report("zero-sized allocation requested");
                }
                std::ptr::write_bytes(user, FRESH, layout.size());
                let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
                let _ = ALLOCS.try_with(|b| b.set(b.get() + 1));
            }
            let tail = user.add(layout.size()) as *mut [u8; 4];
            for i in 0..TAIL / 4 {
                tail.add(i).write(TAIL_WORD);
            }
            user
        }
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        unsafe {
            if (user as usize) % 8 != 0 || (user as usize) < 4096 {
                report("dealloc of a pointer that was never allocated");
                return;
            }
            let header = user.sub(HEADER) as *mut Header;
            if (*header).magic == MAGIC_DEAD {
                report("double free");
                return;
            }
            if (*header).magic != MAGIC_LIVE {
                report("dealloc of an unknown or corrupted block");
                return;
            }
            let real = Layout::from_size_align_unchecked(
                (*header).size as usize,
                (*header).align as usize,
            );
            if real != layout {
                report("dealloc with a layout other than the block was allocated with");
            }
            let tail = std::slice::from_raw_parts(user.add(real.size()) as *const [u8; 4], TAIL / 4);
            if tail.iter().any(|w| *w != TAIL_WORD) {
                report("write past the end of an allocation");
            }
            (*header).magic = MAGIC_DEAD;
            let counted = (*header).counted != 0;
            if counted {
                let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
                std::ptr::write_bytes(user, FREED, real.size());
                if real.size() <= POISON_CHECK_MAX {
                    let item = Quarantined { user, layout: real };
                    let kept = RING.try_with(|ring| {
                        let ring = &mut *ring.get();
                        let old = ring.items[ring.next].replace(item);
                        ring.next = (ring.next + 1) % QUARANTINE;
                        old
                    });
                    match kept {
                        Ok(Some(old)) => release(old),
                        Ok(None) => {}
                        Err(_) => free_now(user, real),
                    }
                    return;
                }
            }
            free_now(user, real);
        }
    }

    // The default `realloc` allocates, copies and deallocates: blocks always move, so stale pointers
    // into the old block are always caught, and the old layout is always verified.
}
