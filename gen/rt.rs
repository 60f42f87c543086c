//! Runtime support of generated programs: components, what closures record, and its comparison with
//! what the model expects.
#![forbid(unsafe_code)]
#![allow(non_camel_case_types, mixed_script_confusables)]
use gecs::prelude::*;
use std::collections::HashMap;

/// What a query parameter was bound to.
#[derive(Clone, Copy)]
pub enum Val {
    C(u32, u32),
    E(EntityAny, Option<u8>),
    D(EntityDirectAny, Option<u8>),
}

pub trait V {
    fn v(&self) -> Val;
}
pub trait Comp: V {
    const CODE: u32;
    fn make(v: u32) -> Self;
    fn value(&mut self) -> &mut u32;
    /// Reads, then writes.
    fn bump(&mut self) -> Val {
        let v = self.v();
        *self.value() += 1 << 24;
        v
    }
}

macro_rules! comps {
    ($($code:literal $name:ident)*) => { $(
        #[derive(Clone, Debug)]
        pub struct $name(u32);
        impl V for $name {
            fn v(&self) -> Val { Val::C($code, self.0) }
        }
        impl Comp for $name {
            const CODE: u32 = $code;
            fn make(v: u32) -> Self { $name(v) }
            fn value(&mut self) -> &mut u32 { &mut self.0 }
        }
    )* };
}
// Names that are prefixes, suffixes and infixes of each other, and many more.
comps! {
    0 Pos 1 PosX 2 XPos 3 XPosX 4 Os 5 Vel
    10 C0 11 C1 12 C2 13 C3 14 C4 15 C5 16 C6 17 C7 18 C8 19 C9 20 C10 21 C11 22 C12 23 C13 24 C14 25 C15
    26 C16 27 C17 28 C18 29 C19 30 C20 31 C21 32 C22 33 C23 34 C24 35 C25 36 C26 37 C27 38 C28 39 C29 40 C30 41 C31
    50 Vec2D 51 HTTPServer 52 XYZ 53 A1B2 54 T 55 U8 56 X2Y 57 TheIO 58 SomeABCThing 59 Foo_Bar 60 Vec2d 61 Type1 62 Len 63 Été
}
/// Components may be named by an alias.
#[derive(Clone, Debug)]
pub struct Generic<const N: u32>(u32);
impl<const N: u32> V for Generic<N> {
    fn v(&self) -> Val { Val::C(N, self.0) }
}
impl<const N: u32> Comp for Generic<N> {
    const CODE: u32 = N;
    fn make(v: u32) -> Self { Generic(v) }
    fn value(&mut self) -> &mut u32 { &mut self.0 }
}
pub type Alias = Generic<70>;
pub type OtherAlias = Generic<71>;

impl<A: Archetype> V for Entity<A> {
    fn v(&self) -> Val {
        Val::E(self.into_any(), Some(A::ARCHETYPE_ID))
    }
}
impl V for EntityAny {
    fn v(&self) -> Val {
        Val::E(*self, None)
    }
}
impl<A: Archetype> V for EntityDirect<A> {
    fn v(&self) -> Val {
        Val::D(self.into_any(), Some(A::ARCHETYPE_ID))
    }
}
impl V for EntityDirectAny {
    fn v(&self) -> Val {
        Val::D(*self, None)
    }
}

/// The value entity `n` of archetype `a` starts with in component `code`.
pub fn initial(a: u32, n: u32, code: u32) -> u32 {
    (a << 16) | (n << 8) | code
}

#[derive(Default)]
pub struct Rec {
    pub keys: Vec<(EntityAny, u32, u32)>,
    pub directs: Vec<(EntityDirectAny, u32, u32)>,
    of: HashMap<EntityAny, (u32, u32)>,
    of_direct: HashMap<EntityDirectAny, (u32, u32)>,
    ids: HashMap<u32, u8>,
    rows: Vec<Vec<u64>>,
    qid: u32,
    mac: &'static str,
    expect: Vec<Vec<u64>>,
    muts: Vec<(u32, u32)>,
    /// Entities are being destroyed: direct handles only show their archetype.
    pub loose: bool,
    /// Only this archetype's entities were reached.
    pub only: Option<u32>,
    pub bad: usize,
    pub checks: u64,
}

impl Rec {
    pub fn reset(&mut self) {
        self.keys.clear();
        self.directs.clear();
        self.of.clear();
        self.of_direct.clear();
        self.ids.clear();
        self.rows.clear();
    }
    pub fn arch(&mut self, a: u32, id: u8, want: u8) {
        self.ids.insert(a, id);
        if id != want {
            self.fail(format!("archetype {a} has id {id}, expected {want}"));
        }
    }
    pub fn ent(&mut self, e: EntityAny, d: Option<EntityDirectAny>, a: u32, n: u32) {
        self.of.insert(e, (a, n));
        self.keys.push((e, a, n));
        match d {
            Some(d) => {
                self.of_direct.insert(d, (a, n));
                self.directs.push((d, a, n));
            }
            None => self.fail(format!("no direct handle of a live entity of archetype {a}")),
        }
    }
    pub fn fail(&mut self, msg: String) {
        if self.bad < 20 {
            println!("MISMATCH unit={} macro={} {}", self.qid, self.mac, msg);
        }
        self.bad += 1;
    }
    /// Starts unit `qid`: each row is [archetype, parameters..]; parameters: component code, 1000 handle, 1001 direct handle.
    /// `muts`: (archetype, component) pairs every run writes.
    pub fn unit(&mut self, qid: u32, rows: &[&[u32]], muts: &[(u32, u32)]) {
        self.qid = qid;
        self.mac = "-";
        let mut out = Vec::new();
        for (_, a, n) in self.keys.clone() {
            for r in rows {
                if r[0] == a {
                    out.push(std::iter::once(((a as u64) << 8) | n as u64).chain(r[1..].iter().map(|p| match p {
                        1000 => (1 << 56) | ((a as u64) << 8) | n as u64,
                        1001 => (2 << 56) | ((a as u64) << 8) | n as u64,
                        c => ((*c as u64) << 32) | initial(a, n, *c) as u64,
                    })).collect::<Vec<u64>>());
                }
            }
        }
        out.sort();
        self.expect = out;
        self.muts = muts.to_vec();
    }
    pub fn hit(&mut self, vals: &[Val]) -> u32 {
        let mut row = Vec::with_capacity(vals.len());
        for v in vals {
            row.push(match v {
                Val::C(c, v) => ((*c as u64) << 32) | *v as u64,
                Val::E(e, id) => match self.of.get(e).copied() {
                    Some((a, n)) => {
                        if id.map_or(false, |id| id != self.ids[&a]) || e.archetype_id() != self.ids[&a] {
                            self.fail(format!("a handle of archetype {a} is presented as {e:?} of archetype id {id:?}"));
                        }
                        (1 << 56) | ((a as u64) << 8) | n as u64
                    }
                    None => u64::MAX,
                },
                Val::D(d, id) if self.loose => {
                    if id.map_or(false, |id| id != d.archetype_id()) {
                        self.fail(format!("{d:?} is presented as of archetype id {id:?}"));
                    }
                    (2 << 56) | d.archetype_id() as u64
                }
                Val::D(d, id) => match self.of_direct.get(d).copied() {
                    Some((a, n)) => {
                        if id.map_or(false, |id| id != self.ids[&a]) || d.archetype_id() != self.ids[&a] {
                            self.fail(format!("a direct handle of archetype {a} is presented as {d:?} of archetype id {id:?}"));
                        }
                        (2 << 56) | ((a as u64) << 8) | n as u64
                    }
                    None => u64::MAX,
                },
            });
        }
        self.rows.push(row);
        12345
    }
    /// What ran must be what was expected.
    pub fn rows(&mut self, mac: &'static str) {
        self.mac = mac;
        let mut rows = std::mem::take(&mut self.rows);
        rows.sort();
        let mut want: Vec<Vec<u64>> = self.expect.iter().map(|r| {
            r[1..].iter().map(|v| if self.loose && v >> 56 == 2 { (2 << 56) | self.ids[&((r[0] >> 8) as u32)] as u64 } else { *v }).collect()
        }).collect();
        want.sort();
        if rows != want {
            self.fail(format!("closure ran for {:x?}, expected {:x?}", rows, want));
        }
        self.checks += 1;
    }
    pub fn found(&mut self, mac: &'static str, found: Option<u32>, a: u32, n: u32) {
        self.mac = mac;
        let rows = std::mem::take(&mut self.rows);
        let want: Vec<Vec<u64>> = self.expect.iter().filter(|r| r[0] == ((a as u64) << 8) | n as u64).map(|r| r[1..].to_vec()).collect();
        if rows != want {
            self.fail(format!("entity {n} of archetype {a}: closure ran for {:x?}, expected {:x?}", rows, want));
        }
        if found != (if want.is_empty() { None } else { Some(12345) }) {
            self.fail(format!("entity {n} of archetype {a}: returns {found:?}"));
        }
        self.checks += 1;
    }
    /// Compares a component with what the last run must have left, and restores it.
    pub fn cell<C: Comp>(&mut self, e: EntityAny, a: u32, c: &mut C, ran: bool) {
        let Some((aa, n)) = self.of.get(&e).copied() else { return self.fail(format!("unknown entity in archetype {a}")) };
        let base = initial(a, n, C::CODE);
        let mut want = base;
        if ran && self.muts.contains(&(a, C::CODE)) && self.only.map_or(true, |o| o == a) {
            want += 1 << 24;
        }
        if *c.value() != want || aa != a {
            let got = *c.value();
            self.fail(format!("component {} of entity {n} of archetype {a} is {got:x}, expected {want:x}", C::CODE));
        }
        *c.value() = base;
    }
    /// Exactly the matched archetypes were emptied.
    pub fn left(&mut self, mac: &'static str, a: u32, n: u32, len: usize) {
        self.mac = mac;
        let want = if self.expect.iter().any(|r| (r[0] >> 8) as u32 == a) { 0 } else { n as usize };
        if len != want {
            self.fail(format!("archetype {a} has {len} entities left, expected {want}"));
        }
    }
    pub fn eq(&mut self, unit: u32, what: &str, got: u64, want: u64) {
        self.qid = unit;
        self.mac = "-";
        self.checks += 1;
        if got != want {
            self.fail(format!("{what} is {got}, expected {want}"));
        }
    }
    /// Adds what another recorder found.
    pub fn take(&mut self, other: &mut Rec) {
        self.bad += std::mem::take(&mut other.bad);
        self.checks += std::mem::take(&mut other.checks);
    }
    pub fn end(self) {
        println!("CHECKS {}", self.checks);
        std::process::exit(if self.bad > 0 { 1 } else { 0 });
    }
}
