//! Component registry: every component value with a destructor has an identity. The registry knows
//! which identities are live, detects double drops, drops and reads of values that were never
//! constructed, and injects panics into the k-th `Clone` or `Drop`.

use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;

use crate::guard;

#[derive(Default)]
struct Registry {
    live: Vec<bool>,
    live_count: i64,
    zst_live: i64,
    clones: u64,
    drops: u64,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
    static ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
    static CLONE_FUSE: Cell<i64> = const { Cell::new(-1) };
    static DROP_FUSE: Cell<i64> = const { Cell::new(-1) };
}

pub fn reset() {
    let _off = guard::off();
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.clear();
        r.live_count = 0;
        r.zst_live = 0;
        r.clones = 0;
        r.drops = 0;
    });
    ERROR.with(|e| *e.borrow_mut() = None);
    disarm();
}

/// Panics in the `k`-th clone from now (0 = the next one).
pub fn arm_clone(k: usize) {
    CLONE_FUSE.with(|f| f.set(k as i64));
}

/// Panics in the `k`-th drop from now (0 = the next one).
pub fn arm_drop(k: usize) {
    DROP_FUSE.with(|f| f.set(k as i64));
}

/// Disarms both fuses; returns whether any was still armed (did not go off).
pub fn disarm() -> bool {
    let c = CLONE_FUSE.with(|f| f.replace(-1));
    let d = DROP_FUSE.with(|f| f.replace(-1));
    c >= 0 || d >= 0
}

fn fuse(f: &'static std::thread::LocalKey<Cell<i64>>) -> bool {
    f.with(|f| {
        let v = f.get();
        if v < 0 || std::thread::panicking() {
            return false;
        }
        f.set(v - 1);
        v == 0
    })
}

fn error(f: impl FnOnce() -> String) {
    let _off = guard::off();
    let _ = ERROR.try_with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            *e = Some(f());
        }
    });
}

pub fn take_error() -> Option<String> {
    ERROR.with(|e| e.borrow_mut().take())
}

pub fn has_error() -> bool {
    ERROR.with(|e| e.borrow().is_some())
}

/// Number of live registered values (with identity, zero-sized).
pub fn live() -> (i64, i64) {
    REG.with(|r| {
        let r = r.borrow();
        (r.live_count, r.zst_live)
    })
}

pub fn clones() -> u64 {
    REG.with(|r| r.borrow().clones)
}

pub fn drops() -> u64 {
    REG.with(|r| r.borrow().drops)
}

pub fn leaks() -> Option<String> {
    let (a, z) = live();
    if a != 0 || z != 0 {
        Some(format!(
            "component leak: {a} values and {z} zero-sized values were never dropped"
        ))
    } else {
        None
    }
}

const MAGIC: u32 = 0x5EC0_FFEE;

/// The identity of a registered value.
pub struct Reg {
    id: u32,
    magic: u32,
}

impl Reg {
    fn new() -> Reg {
        let _off = guard::off();
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.live.len() as u32;
            r.live.push(true);
            r.live_count += 1;
            Reg { id, magic: MAGIC }
        })
    }

    #[inline]
    fn check(&self, what: &str) -> bool {
        if self.magic != MAGIC {
            error(|| format!("{what} of memory that does not hold a component (identity {:#x}/{:#x})", self.id, self.magic));
            return false;
        }
        let ok = REG.with(|r| r.borrow().live.get(self.id as usize).copied().unwrap_or(false));
        if !ok {
            error(|| format!("{what} of a component value that was already dropped (value #{})", self.id));
        }
        ok
    }

    /// Marks this value as dropped. False if that must not be done.
    fn kill(&mut self) -> bool {
        if !self.check("drop") {
            return false;
        }
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = self.id as usize;
            r.live[id] = false;
            r.live_count -= 1;
            r.drops += 1;
        });
        self.magic = 0xD00D_D00D;
        true
    }
}

fn count_clone() {
    REG.with(|r| r.borrow_mut().clones += 1);
}

/// What the harness needs of every component type.
pub trait Comp: 'static {
    fn make(v: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, v: u32);
    /// What `get` returns after `make(v)`/`set(v)`.
    fn norm(v: u32) -> u32 {
        v
    }
    /// (registered values, registered zero-sized values) per instance.
    const COUNTS: (i64, i64);
}

/// Owns heap memory; registered.
pub struct Tok {
    reg: Reg,
    data: ManuallyDrop<Box<[u32; 3]>>,
}

impl Comp for Tok {
    fn make(v: u32) -> Self {
        let reg = Reg::new();
        Tok { data: ManuallyDrop::new(Box::new([reg.id, v, !v])), reg }
    }
    fn get(&self) -> u32 {
        if !self.reg.check("read") {
            return u32::MAX;
        }
        let d = &**self.data;
        if d[0] != self.reg.id || d[1] != !d[2] {
            error(|| format!("read of a component whose heap data is not its own (value #{})", self.reg.id));
        }
        d[1]
    }
    fn set(&mut self, v: u32) {
        if self.reg.check("write") {
            self.data[1] = v;
            self.data[2] = !v;
        }
    }
    const COUNTS: (i64, i64) = (1, 0);
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.reg.kill() {
            unsafe { ManuallyDrop::drop(&mut self.data) };
        }
        if fuse(&DROP_FUSE) {
            panic!("injected: drop");
        }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        if fuse(&CLONE_FUSE) {
            panic!("injected: clone");
        }
        count_clone();
        Tok::make(self.get())
    }
}

/// Over-aligned, larger than its alignment, padded, registered.
#[repr(align(64))]
pub struct Pad {
    tag: u8,
    reg: Reg,
    val: u64,
    body: [u32; 13],
    tail: [u8; 3],
}

impl Comp for Pad {
    fn make(v: u32) -> Self {
        let mut p = Pad { tag: 0, reg: Reg::new(), val: 0, body: [0; 13], tail: [0; 3] };
        p.fill(v);
        p
    }
    fn get(&self) -> u32 {
        if (self as *const Pad as usize) % 64 != 0 {
            error(|| "misaligned component".into());
        }
        if !self.reg.check("read") {
            return u32::MAX;
        }
        let v = (self.val >> 20) as u32;
        if self.val & 0xFFFFF != 0xABCDE || self.tag != v as u8 || self.tail != [v as u8; 3] || self.body != [!v; 13] {
            error(|| format!("torn component (value #{})", self.reg.id));
        }
        v
    }
    fn set(&mut self, v: u32) {
        if self.reg.check("write") {
            self.fill(v);
        }
    }
    const COUNTS: (i64, i64) = (1, 0);
}

impl Pad {
    fn fill(&mut self, v: u32) {
        self.tag = v as u8;
        self.val = (v as u64) << 20 | 0xABCDE;
        self.body = [!v; 13];
        self.tail = [v as u8; 3];
    }
}

impl Drop for Pad {
    fn drop(&mut self) {
        self.reg.kill();
        if fuse(&DROP_FUSE) {
            panic!("injected: drop");
        }
    }
}

impl Clone for Pad {
    fn clone(&self) -> Self {
        if fuse(&CLONE_FUSE) {
            panic!("injected: clone");
        }
        count_clone();
        Pad::make(self.get())
    }
}

/// Plain data, no destructor.
#[derive(Clone, Copy)]
pub struct Val {
    v: u32,
    n: u32,
}

impl Comp for Val {
    fn make(v: u32) -> Self {
        Val { v, n: !v }
    }
    fn get(&self) -> u32 {
        if self.v != !self.n {
            error(|| format!("read of memory that does not hold a component ({:#x}/{:#x})", self.v, self.n));
        }
        self.v
    }
    fn set(&mut self, v: u32) {
        *self = Val::make(v);
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// Zero-sized with a destructor: counted.
pub struct Zst(());

impl Comp for Zst {
    fn make(_: u32) -> Self {
        REG.with(|r| r.borrow_mut().zst_live += 1);
        Zst(())
    }
    fn get(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
    const COUNTS: (i64, i64) = (0, 1);
}

impl Drop for Zst {
    fn drop(&mut self) {
        let n = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.zst_live -= 1;
            r.drops += 1;
            r.zst_live
        });
        if n < 0 {
            error(|| "a zero-sized component was dropped more often than created".into());
        }
        if fuse(&DROP_FUSE) {
            panic!("injected: drop");
        }
    }
}

impl Clone for Zst {
    fn clone(&self) -> Self {
        if fuse(&CLONE_FUSE) {
            panic!("injected: clone");
        }
        count_clone();
        Zst::make(0)
    }
}

/// One byte, registered nowhere: odd size next to larger columns.
#[derive(Clone, Copy)]
pub struct Byte(u8);

impl Comp for Byte {
    fn make(v: u32) -> Self {
        Byte(Self::norm(v) as u8)
    }
    fn get(&self) -> u32 {
        self.0 as u32
    }
    fn set(&mut self, v: u32) {
        *self = Byte::make(v);
    }
    fn norm(v: u32) -> u32 {
        v.wrapping_mul(0x9E37_79B1) >> 24
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// 96 bytes, 8-aligned, plain data.
#[derive(Clone, Copy)]
pub struct Wide([u64; 12]);

impl Comp for Wide {
    fn make(v: u32) -> Self {
        let mut w = [0; 12];
        for (i, x) in w.iter_mut().enumerate() {
            *x = (v as u64) << 8 | i as u64;
        }
        Wide(w)
    }
    fn get(&self) -> u32 {
        let v = self.0[0] >> 8;
        if self.0.iter().enumerate().any(|(i, x)| *x != v << 8 | i as u64) {
            error(|| format!("torn component {:x?}", self.0));
        }
        v as u32
    }
    fn set(&mut self, v: u32) {
        *self = Wide::make(v);
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// Seven bytes, align 1.
#[derive(Clone, Copy)]
pub struct Odd([u8; 7]);

impl Comp for Odd {
    fn make(v: u32) -> Self {
        let b = v.to_le_bytes();
        Odd([b[0], b[1], b[2], b[3], !b[0], !b[1], 0x5A])
    }
    fn get(&self) -> u32 {
        let b = &self.0;
        if b[4] != !b[0] || b[5] != !b[1] || b[6] != 0x5A {
            error(|| format!("torn component {b:x?}"));
        }
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn set(&mut self, v: u32) {
        *self = Odd::make(v);
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// Bytes of any number, align 1: every byte is checked.
#[derive(Clone, Copy)]
pub struct Bytes<const N: usize>([u8; N]);

fn byte_at(v: u32, i: usize) -> u8 {
    if i < 4 {
        v.to_le_bytes()[i]
    } else {
        (v.rotate_left(i as u32).wrapping_mul(0x9E37_79B1) >> 24) as u8 ^ i as u8
    }
}

impl<const N: usize> Comp for Bytes<N> {
    fn make(v: u32) -> Self {
        Bytes(std::array::from_fn(|i| byte_at(v, i)))
    }
    fn get(&self) -> u32 {
        let b = &self.0;
        let v = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        if b.iter().enumerate().any(|(i, b)| *b != byte_at(v, i)) {
            error(|| format!("torn component of {N} bytes (value {v:#x})"));
        }
        v
    }
    fn set(&mut self, v: u32) {
        *self = Self::make(v);
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// 67 bytes: not a multiple of any word.
pub type Mid = Bytes<67>;
/// Larger than a page, odd.
pub type Huge = Bytes<4099>;

/// 32-aligned, 96 bytes.
#[repr(align(32))]
#[derive(Clone, Copy)]
pub struct Al32(Bytes<77>);

/// 16-aligned, 16 bytes.
#[repr(align(16))]
#[derive(Clone, Copy)]
pub struct Al16(Bytes<16>);

macro_rules! aligned {
    ($T:ident, $N:literal, $A:literal) => {
        impl Comp for $T {
            fn make(v: u32) -> Self {
                $T(Bytes::<$N>::make(v))
            }
            fn get(&self) -> u32 {
                if (self as *const $T as usize) % $A != 0 {
                    error(|| "misaligned component".into());
                }
                self.0.get()
            }
            fn set(&mut self, v: u32) {
                self.0.set(v)
            }
            const COUNTS: (i64, i64) = (0, 0);
        }
    };
}

aligned!(Al32, 77, 32);
aligned!(Al16, 16, 16);

/// Zero-sized without a destructor.
#[derive(Clone, Copy)]
pub struct Empty;

impl Comp for Empty {
    fn make(_: u32) -> Self {
        Empty
    }
    fn get(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
    const COUNTS: (i64, i64) = (0, 0);
}

/// Makes distinct component types out of one.
pub struct Nth<const N: usize, T>(pub T);

impl<const N: usize, T: Clone> Clone for Nth<N, T> {
    fn clone(&self) -> Self {
        Nth(self.0.clone())
    }
}

impl<const N: usize, T: Comp> Comp for Nth<N, T> {
    fn make(v: u32) -> Self {
        Nth(T::make(v))
    }
    fn get(&self) -> u32 {
        self.0.get()
    }
    fn set(&mut self, v: u32) {
        self.0.set(v)
    }
    fn norm(v: u32) -> u32 {
        T::norm(v)
    }
    const COUNTS: (i64, i64) = T::COUNTS;
}
