//! C11: runtime-borrowed access panics instead of aliasing, and never refuses wrongly.
//!
//! Every sequence and nesting of accesses up to a depth, against one reader/writer count per column.
use std::cell::{Ref, RefMut};

use gecs::prelude::*;
use mc::ensure;
use mc::explore::*;
use mc::reg::{Comp, Pad, Tok, Val, Zst};
use mc::sys::health;
use mc::worlds::hist::*;
use mc::worlds::sets::T;

/// A component seen through an access.
trait Slot {
    fn g(&self) -> u32;
    fn s(&mut self, v: u32);
}

impl<C: Comp> Slot for C {
    fn g(&self) -> u32 {
        self.get()
    }
    fn s(&mut self, v: u32) {
        self.set(v)
    }
}

/// A guard held by the program.
trait Held {
    /// Reads the component of the entity at index `i` of the column (or of the guard's entity).
    fn read(&self, i: usize) -> u32;
    fn write(&mut self, i: usize, v: u32);
    fn len(&self) -> Option<usize>;
}

impl<C: Comp> Held for Ref<'_, [C]> {
    fn read(&self, i: usize) -> u32 {
        self[i].get()
    }
    fn write(&mut self, _: usize, _: u32) {
        unreachable!()
    }
    fn len(&self) -> Option<usize> {
        Some((**self).len())
    }
}
impl<C: Comp> Held for RefMut<'_, [C]> {
    fn read(&self, i: usize) -> u32 {
        self[i].get()
    }
    fn write(&mut self, i: usize, v: u32) {
        self[i].set(v)
    }
    fn len(&self) -> Option<usize> {
        Some((**self).len())
    }
}
struct One<G>(G);
impl<C: Comp> Held for One<Ref<'_, C>> {
    fn read(&self, _: usize) -> u32 {
        self.0.get()
    }
    fn write(&mut self, _: usize, _: u32) {
        unreachable!()
    }
    fn len(&self) -> Option<usize> {
        None
    }
}
impl<C: Comp> Held for One<RefMut<'_, C>> {
    fn read(&self, _: usize) -> u32 {
        self.0.get()
    }
    fn write(&mut self, _: usize, v: u32) {
        self.0.set(v)
    }
    fn len(&self) -> Option<usize> {
        None
    }
}

/// The columns of the world: (archetype, component).
const COLS: [(usize, usize); 7] = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)];
fn col(a: usize, c: usize) -> usize {
    COLS.iter().position(|x| *x == (a, c)).unwrap()
}

/// How a column is borrowed by a guard.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Via {
    Slice,
    /// The n-th entity's `Borrow`, obtained from world (typed key) or archetype (dynamic key).
    Entity(usize),
}

/// Borrow objects of all entities, by archetype, made up front (they hold no column).
#[derive(Default)]
struct Borrows<'w> {
    a: Vec<<ArchA as Archetype>::Borrow<'w>>,
    b: Vec<<ArchB as Archetype>::Borrow<'w>>,
    c: Vec<<ArchC as Archetype>::Borrow<'w>>,
}

fn acquire<'w>(w: &'w Hist, bs: &'w Borrows<'w>, c: usize, m: bool, via: Via) -> Box<dyn Held + 'w> {
    macro_rules! go {
        ($field:ident, $list:ident, $C:ident) => {
            match (via, m) {
                (Via::Slice, false) => Box::new(w.$field.borrow_slice::<$C>()),
                (Via::Slice, true) => Box::new(w.$field.borrow_slice_mut::<$C>()),
                (Via::Entity(i), false) => Box::new(One(bs.$list[i].component::<$C>())),
                (Via::Entity(i), true) => Box::new(One(bs.$list[i].component_mut::<$C>())),
            }
        };
    }
    match c {
        0 => go!(arch_a, a, Tok),
        1 => go!(arch_a, a, Val),
        2 => go!(arch_b, b, Pad),
        3 => go!(arch_b, b, Tok),
        4 => go!(arch_b, b, Zst),
        5 => go!(arch_c, c, Val),
        _ => go!(arch_c, c, Zst),
    }
}

/// Queries: the parameters they bind, and whether mutably.
const QUERIES: [&[(T, bool)]; 21] = [
    &[],
    &[(T::Tok, false)],
    &[(T::Tok, true)],
    &[(T::Val, false)],
    &[(T::Val, true)],
    &[(T::Zst, false)],
    &[(T::Zst, true)],
    &[(T::Pad, false)],
    &[(T::Pad, true)],
    &[(T::Tok, false), (T::Val, true)],
    &[(T::Val, false), (T::Tok, true)],
    &[(T::Tok, true), (T::Val, true)],
    &[(T::Pad, true), (T::Tok, false), (T::Zst, true)],
    &[(T::Zst, false), (T::Tok, true), (T::Pad, false)],
    &[(T::Val, false), (T::Zst, true)],
    &[(T::Val, true), (T::Zst, false)],
    &[(T::PadOrVal, false)],
    &[(T::PadOrVal, true)],
    &[(T::PadOrVal, false), (T::Zst, true)],
    // The same column twice, shared.
    &[(T::Tok, false), (T::Tok, false)],
    &[(T::Zst, false)],
];

/// The archetypes query `q` acts on (the last is typed to ArchB).
fn matched(q: usize) -> Vec<usize> {
    if q == 20 {
        return vec![1];
    }
    (0..3).filter(|a| QUERIES[q].iter().all(|(t, _)| t.index(*a).is_some())).collect()
}

type Body<'b> = &'b mut dyn FnMut(EntityAny, &mut [P<'_>]);
enum P<'p> {
    S(&'p dyn Slot),
    M(&'p mut dyn Slot),
}
use P::{M, S};

macro_rules! queries {
    ($q:expr, $mac:ident, [$($head:tt)*], $body:ident) => {
        match $q {
            0 => { $mac!($($head)* |e: &EntityAny| $body(*e, &mut [])); }
            1 => { $mac!($($head)* |e: &EntityAny, t: &Tok| $body(*e, &mut [S(t)])); }
            2 => { $mac!($($head)* |t: &mut Tok, e: &Entity<_>| $body(e.into_any(), &mut [M(t)])); }
            3 => { $mac!($($head)* |e: &EntityAny, t: &Val| $body(*e, &mut [S(t)])); }
            4 => { $mac!($($head)* |t: &mut Val, e: &EntityAny| $body(*e, &mut [M(t)])); }
            5 => { $mac!($($head)* |e: &EntityAny, t: &Zst, _d: &EntityDirectAny| $body(*e, &mut [S(t)])); }
            6 => { $mac!($($head)* |t: &mut Zst, e: &EntityAny| $body(*e, &mut [M(t)])); }
            7 => { $mac!($($head)* |e: &EntityAny, t: &Pad| $body(*e, &mut [S(t)])); }
            8 => { $mac!($($head)* |t: &mut Pad, e: &EntityAny| $body(*e, &mut [M(t)])); }
            9 => { $mac!($($head)* |t: &Tok, v: &mut Val, e: &EntityAny| $body(*e, &mut [S(t), M(v)])); }
            10 => { $mac!($($head)* |v: &Val, e: &EntityAny, t: &mut Tok| $body(*e, &mut [S(v), M(t)])); }
            11 => { $mac!($($head)* |e: &EntityAny, t: &mut Tok, v: &mut Val| $body(*e, &mut [M(t), M(v)])); }
            12 => { $mac!($($head)* |p: &mut Pad, t: &Tok, e: &EntityAny, z: &mut Zst| $body(*e, &mut [M(p), S(t), M(z)])); }
            13 => { $mac!($($head)* |z: &Zst, e: &EntityAny, t: &mut Tok, p: &Pad| $body(*e, &mut [S(z), M(t), S(p)])); }
            14 => { $mac!($($head)* |e: &EntityAny, v: &Val, z: &mut Zst| $body(*e, &mut [S(v), M(z)])); }
            15 => { $mac!($($head)* |v: &mut Val, e: &EntityAny, z: &Zst| $body(*e, &mut [M(v), S(z)])); }
            16 => { $mac!($($head)* |e: &EntityAny, x: &OneOf<Pad, Val>| $body(*e, &mut [S(x)])); }
            17 => { $mac!($($head)* |e: &EntityAny, x: &mut OneOf<Pad, Val>| $body(*e, &mut [M(x)])); }
            18 => { $mac!($($head)* |x: &OneOf<Val, Pad>, z: &mut Zst, e: &EntityAny| $body(*e, &mut [S(x), M(z)])); }
            19 => { $mac!($($head)* |x: &Tok, e: &EntityAny, y: &Tok| $body(*e, &mut [S(x), S(y)])); }
            _ => { $mac!($($head)* |x: &Zst, e: &Entity<ArchB>| $body(e.into_any(), &mut [S(x)])); }
        }
    };
}

fn iter(w: &Hist, q: usize, body: Body) {
    queries!(q, ecs_iter_borrow, [w,], body)
}

/// Finds with a dynamically typed key (entity or direct).
fn find(w: &Hist, q: usize, key: EntityAny, direct: bool, body: Body) -> bool {
    let mut ran = false;
    {
        let mut body = |e: EntityAny, ps: &mut [P<'_>]| {
            ran = true;
            body(e, ps)
        };
        if direct {
            if let Some(d) = w.to_direct(key) {
                queries!(q, ecs_find_borrow, [w, d,], body)
            }
        } else {
            queries!(q, ecs_find_borrow, [w, key,], body)
        }
    }
    ran
}

/// Finds with a typed key: only queries that match its archetype compile.
fn find_typed(w: &Hist, q: usize, a: usize, key: EntityAny, body: Body) {
    match a {
        0 => {
            let k = Entity::<ArchA>::from_any(key);
            match q {
                1 => drop(ecs_find_borrow!(w, k, |e: &Entity<ArchA>, t: &Tok| body(e.into_any(), &mut [S(t)]))),
                2 => drop(ecs_find_borrow!(w, k, |e: &EntityAny, t: &mut Tok| body(*e, &mut [M(t)]))),
                9 => drop(ecs_find_borrow!(w, k, |t: &Tok, v: &mut Val, e: &EntityAny| body(*e, &mut [S(t), M(v)]))),
                _ => unreachable!(),
            }
        }
        1 => {
            let k = Entity::<ArchB>::from_any(key);
            match q {
                1 => drop(ecs_find_borrow!(w, k, |e: &Entity<ArchB>, t: &Tok| body(e.into_any(), &mut [S(t)]))),
                2 => drop(ecs_find_borrow!(w, k, |e: &EntityAny, t: &mut Tok| body(*e, &mut [M(t)]))),
                12 => drop(ecs_find_borrow!(w, k, |p: &mut Pad, t: &Tok, e: &EntityAny, z: &mut Zst| body(*e, &mut [M(p), S(t), M(z)]))),
                _ => unreachable!(),
            }
        }
        _ => {
            let k = Entity::<ArchC>::from_any(key);
            match q {
                3 => drop(ecs_find_borrow!(w, k, |e: &EntityAny, t: &Val| body(*e, &mut [S(t)]))),
                4 => drop(ecs_find_borrow!(w, k, |t: &mut Val, e: &EntityAny| body(*e, &mut [M(t)]))),
                _ => unreachable!(),
            }
        }
    }
}
const TYPED: [&[usize]; 3] = [&[1, 2, 9], &[1, 2, 12], &[3, 4]];

#[derive(Clone, Copy, Debug)]
enum Op {
    Guard(usize, bool, Via),
    Release(usize),
    Find(usize, usize, bool),
    FindTyped(usize, usize),
    /// Query, and at which of its visits (in order of presentation) the nested accesses happen.
    Iter(usize, usize),
    Clone,
    CloneArch(usize),
    Leave,
    Unwind,
}

#[derive(Clone, Copy)]
struct Ent {
    arch: usize,
    any: EntityAny,
    vals: [u32; 3],
}

struct Cfg {
    /// (entities in A, B, C)
    pops: Vec<[usize; 3]>,
    depth: usize,
    cols: Vec<usize>,
    queries: Vec<usize>,
    clones: bool,
    vias: bool,
    direct: bool,
    typed: bool,
    /// Guards taken inside a closure may also outlive it.
    escape: bool,
}

/// A borrow in effect: at which nesting level it ends.
#[derive(Clone, Copy)]
struct Mark {
    level: usize,
    col: usize,
    m: bool,
    /// Entity it designates (None: whole column).
    ent: Option<usize>,
    id: u32,
}

struct State<'w> {
    ents: Vec<Ent>,
    marks: Vec<Mark>,
    /// Guards that outlive every closure.
    free: Vec<(u32, Box<dyn Held + 'w>)>,
    left: usize,
    next: u32,
    serial: u32,
    /// The panic under way was raised on purpose.
    unwinding: bool,
}

impl State<'_> {
    fn allowed(&self, col: usize, m: bool) -> bool {
        !self.marks.iter().any(|x| x.col == col && (m || x.m))
    }
    fn value(&mut self) -> u32 {
        self.serial += 1;
        0x1000 + self.serial
    }
    fn mark(&mut self, level: usize, col: usize, m: bool, ent: Option<usize>) -> u32 {
        self.next += 1;
        self.marks.push(Mark { level, col, m, ent, id: self.next });
        self.next
    }
}

struct Cx<'w> {
    w: &'w Hist,
    bs: &'w Borrows<'w>,
    cfg: &'w Cfg,
}

impl<'w> Cx<'w> {
    /// The entities of archetype `a`, in creation order.
    fn of(&self, st: &State, a: usize) -> Vec<usize> {
        (0..st.ents.len()).filter(|i| st.ents[*i].arch == a).collect()
    }

    fn menu(&self, st: &State<'w>, level: usize, mine: &[(u32, Box<dyn Held + 'w>)]) -> Vec<Op> {
        let mut ops = Vec::new();
        for &c in &self.cfg.cols {
            for m in [false, true] {
                ops.push(Op::Guard(c, m, Via::Slice));
                let n = self.of(st, COLS[c].0).len();
                for i in 0..if self.cfg.vias { n } else { n.min(1) } {
                    ops.push(Op::Guard(c, m, Via::Entity(i)));
                }
            }
        }
        for &q in &self.cfg.queries {
            let on = matched(q);
            for i in 0..st.ents.len() {
                if on.contains(&st.ents[i].arch) || i == 0 {
                    ops.push(Op::Find(q, i, false));
                    if self.cfg.direct {
                        ops.push(Op::Find(q, i, true));
                    }
                }
                if self.cfg.typed && TYPED[st.ents[i].arch].contains(&q) {
                    ops.push(Op::FindTyped(q, i));
                }
            }
            // A key that designates nothing.
            ops.push(Op::Find(q, usize::MAX, false));
            let n: usize = on.iter().map(|a| self.of(st, *a).len()).sum();
            for v in 0..n.max(1) {
                ops.push(Op::Iter(q, v));
            }
        }
        for k in 0..st.free.len() + mine.len() {
            ops.push(Op::Release(k));
        }
        if self.cfg.clones {
            ops.push(Op::Clone);
            for a in 0..3 {
                ops.push(Op::CloneArch(a));
            }
        }
        if level > 0 {
            ops.push(Op::Leave);
            ops.push(Op::Unwind);
        }
        ops
    }

    /// Columns query `q` borrows on archetype `a`.
    fn needs(q: usize, a: usize) -> Vec<(usize, bool)> {
        QUERIES[q].iter().map(|(t, m)| (col(a, t.index(a).unwrap()), *m)).collect()
    }

    fn find_ent(st: &State, any: EntityAny) -> R<usize> {
        match st.ents.iter().position(|e| e.any == any) {
            Some(i) => Ok(i),
            None => mc::fail!("a query presented {any:?}, which does not exist"),
        }
    }

    /// Checks what a closure was given, writes through what is mutable.
    fn look(st: &mut State, i: usize, q: usize, ps: &mut [P<'_>]) -> R {
        let a = st.ents[i].arch;
        for (p, (t, m)) in ps.iter_mut().zip(QUERIES[q]) {
            let c = t.index(a).unwrap();
            let norm = |v: u32| if c == zst(a) { 0 } else { v };
            let got = match p {
                S(x) => x.g(),
                M(x) => x.g(),
            };
            ensure!(got == st.ents[i].vals[c], "query {q} read {got:#x} from component {c} of entity #{i}, its value is {:#x}", st.ents[i].vals[c]);
            if let M(x) = p {
                assert!(*m);
                let v = norm(st.value());
                x.s(v);
                st.ents[i].vals[c] = v;
            }
        }
        Ok(())
    }

    fn frame(&self, st: &mut State<'w>, level: usize, ch: &mut Ch) -> R {
        let mut mine: Vec<(u32, Box<dyn Held + 'w>)> = Vec::new();
        while st.left > 0 {
            let ops = self.menu(st, level, &mine);
            let op = ops[ch.choose(ops.len())?];
            st.left -= 1;
            ch.note(|| format!("{}{op:?}", "  ".repeat(level)));
            match op {
                Op::Leave => break,
                Op::Unwind => {
                    st.unwinding = true;
                    ch.stats.panics += 1;
                    panic!("injected: unwind");
                }
                Op::Release(k) => {
                    let id = if k < st.free.len() { st.free.remove(k).0 } else { mine.remove(k - st.free.len()).0 };
                    st.marks.retain(|m| m.id != id);
                }
                Op::Guard(c, m, via) => {
                    let ok = st.allowed(c, m);
                    let r = panics(|| acquire(self.w, self.bs, c, m, via));
                    self.verdict(r.is_some(), ok, level, st, ch, &format!("{via:?} of column {:?}, {}", COLS[c], if m { "mutable" } else { "shared" }))?;
                    if let Some(g) = r {
                        let ent = match via {
                            Via::Slice => None,
                            Via::Entity(i) => Some(self.of(st, COLS[c].0)[i]),
                        };
                        let escapes = level > 0 && self.cfg.escape && ch.flag()?;
                        let id = st.mark(if escapes { 0 } else { level }, c, m, ent);
                        if escapes || level == 0 {
                            st.free.push((id, g));
                        } else {
                            mine.push((id, g));
                        }
                    }
                }
                Op::Find(q, i, direct) => {
                    let dead = i == usize::MAX;
                    let key = if dead { self.stale(st) } else { st.ents[i].any };
                    let hit = !dead && matched(q).contains(&st.ents[i].arch);
                    let targets = if hit { vec![i] } else { vec![] };
                    self.nested(st, level, ch, q, &targets, &mut |w, body| {
                        find(w, q, key, direct, body);
                    }, 0)?;
                }
                Op::FindTyped(q, i) => {
                    let a = st.ents[i].arch;
                    let key = st.ents[i].any;
                    self.nested(st, level, ch, q, &[i], &mut |w, body| find_typed(w, q, a, key, body), 0)?;
                }
                Op::Iter(q, v) => {
                    let targets: Vec<usize> = matched(q).iter().flat_map(|a| self.of(st, *a)).collect();
                    self.nested(st, level, ch, q, &targets, &mut |w, body| iter(w, q, body), v)?;
                }
                Op::Clone => {
                    let ok = !st.marks.iter().any(|m| m.m);
                    let r = panics(|| self.w.clone());
                    self.verdict(r.is_some(), ok, level, st, ch, "clone of the world")?;
                    if let Some(copy) = r {
                        fresh(&copy)?;
                    }
                }
                Op::CloneArch(a) => {
                    let ok = !st.marks.iter().any(|m| m.m && COLS[m.col].0 == a);
                    let r = match a {
                        0 => panics(|| drop(self.w.arch_a.clone())),
                        1 => panics(|| drop(self.w.arch_b.clone())),
                        _ => panics(|| drop(self.w.arch_c.clone())),
                    };
                    self.verdict(r.is_some(), ok, level, st, ch, "clone of an archetype")?;
                }
            }
            ch.step();
            if ch.state() {
                self.probe(st, &mut mine, ch)?;
            }
        }
        for (id, g) in mine {
            drop(g);
            st.marks.retain(|m| m.id != id);
        }
        Ok(())
    }

    /// A single access succeeded or panicked. A denied one may go on to unwind the closures around it.
    fn verdict(&self, granted: bool, ok: bool, level: usize, st: &mut State<'w>, ch: &mut Ch, what: &str) -> R {
        ch.stats.probes += 1;
        if ok {
            ensure!(granted, "{what} is refused although nothing conflicts: {}", last_panic());
        } else {
            ensure!(!granted, "{what} is granted although the column is borrowed in conflict");
            ch.stats.panics += 1;
            if level > 0 && ch.flag()? {
                st.unwinding = true;
                panic!("injected: the denied access is not caught");
            }
        }
        Ok(())
    }

    /// A query whose closure, at visit `v`, goes on with nested accesses.
    #[allow(clippy::too_many_arguments)]
    fn nested(&self, st: &mut State<'w>, level: usize, ch: &mut Ch, q: usize, targets: &[usize], run: &mut dyn FnMut(&Hist, Body), v: usize) -> R {
        let mut visits = 0;
        let mut seen: Vec<usize> = Vec::new();
        let mut res: R = Ok(());
        let r = panics(|| {
            run(self.w, &mut |any, ps| {
                let mut one = || -> R {
                    let i = Self::find_ent(st, any)?;
                    ensure!(!seen.contains(&i), "query {q} presented entity #{i} twice");
                    seen.push(i);
                    let a = st.ents[i].arch;
                    ensure!(matched(q).contains(&a), "query {q} presented an entity of an archetype it does not match");
                    for (c, m) in Self::needs(q, a) {
                        ensure!(st.allowed(c, m), "query {q} was granted column {:?} although it is borrowed in conflict", COLS[c]);
                    }
                    Self::look(st, i, q, ps)?;
                    let at = visits;
                    visits += 1;
                    if at == v {
                        for (c, m) in Self::needs(q, a) {
                            st.mark(level + 1, c, m, Some(i));
                        }
                        if ch.state() {
                            self.probe(st, &mut [], ch)?;
                        }
                        self.frame(st, level + 1, ch)?;
                        // What was written meanwhile (through none of these columns, if they are
                        // mutable) is seen here.
                        for (p, (t, _)) in ps.iter().zip(QUERIES[q]) {
                            let got = match p {
                                S(x) => x.g(),
                                M(x) => x.g(),
                            };
                            let want = st.ents[i].vals[t.index(a).unwrap()];
                            ensure!(got == want, "query {q} reads {got:#x} after the nested accesses, the value is {want:#x}");
                        }
                        st.marks.retain(|m| m.level <= level);
                    }
                    Ok(())
                };
                if res.is_ok() {
                    res = one();
                }
            })
        });
        // Everything deeper has ended, one way or the other.
        st.marks.retain(|m| m.level <= level);
        res?;
        match r {
            Some(()) => {
                ensure!(!st.unwinding, "a panic inside a query's closure was swallowed");
                ensure!(visits == targets.len(), "query {q} visited {visits} of {} entities", targets.len());
            }
            None if st.unwinding => st.unwinding = false,
            None => {
                // Refused rightly if an entity still to be visited is in an archetype with a conflict.
                let ok = targets.iter().filter(|i| !seen.contains(i)).all(|i| Self::needs(q, st.ents[*i].arch).iter().all(|(c, m)| st.allowed(*c, *m)));
                ensure!(!ok, "query {q} is refused although nothing conflicts: {}", last_panic());
                ch.stats.panics += 1;
                if level > 0 && ch.flag()? {
                    st.unwinding = true;
                    panic!("injected: the denied query is not caught");
                }
            }
        }
        Ok(())
    }

    /// A handle to a destroyed entity of an archetype with and without entities.
    fn stale(&self, st: &State) -> EntityAny {
        let _ = st;
        STALE.with(|s| s.get().unwrap())
    }

    /// Every single access in the present state: granted exactly if the counts allow it, and what it
    /// shows and writes is right.
    fn probe(&self, st: &mut State<'w>, mine: &mut [(u32, Box<dyn Held + 'w>)], ch: &mut Ch) -> R {
        for c in 0..COLS.len() {
            let (a, k) = COLS[c];
            let list = self.of(st, a);
            for m in [false, true] {
                let ok = st.allowed(c, m);
                for via in 0..=list.len() {
                    let via = if via == 0 { Via::Slice } else { Via::Entity(via - 1) };
                    let r = panics(|| acquire(self.w, self.bs, c, m, via));
                    ch.stats.probes += 1;
                    match r {
                        None => ensure!(!ok, "{via:?} of column {:?} ({}) is refused although nothing conflicts: {}", COLS[c], if m { "mutable" } else { "shared" }, last_panic()),
                        Some(mut g) => {
                            ensure!(ok, "{via:?} of column {:?} ({}) is granted although it is borrowed in conflict", COLS[c], if m { "mutable" } else { "shared" });
                            self.through(st, a, k, via, m, &mut *g)?;
                        }
                    }
                }
            }
        }
        // Guards still held show the present values and can still be written through.
        let marks = st.marks.clone();
        let mut free = std::mem::take(&mut st.free);
        let mut r: R = Ok(());
        for (id, g) in free.iter_mut().chain(mine.iter_mut()) {
            let m = marks.iter().find(|m| m.id == *id).unwrap();
            let (a, k) = COLS[m.col];
            let via = match m.ent {
                None => Via::Slice,
                Some(i) => Via::Entity(self.of(st, a).iter().position(|x| *x == i).unwrap()),
            };
            if r.is_ok() {
                r = self.through(st, a, k, via, m.m, &mut **g);
            }
        }
        st.free = free;
        r?;
        health()
    }

    fn through(&self, st: &mut State<'w>, a: usize, k: usize, via: Via, m: bool, g: &mut dyn Held) -> R {
        let list = self.of(st, a);
        if let Some(n) = g.len() {
            ensure!(n == list.len(), "a slice of column {:?} has {n} of {} elements", (a, k), list.len());
        }
        let targets: Vec<usize> = match via {
            Via::Slice => list,
            Via::Entity(i) => vec![list[i]],
        };
        for i in targets {
            let at = INDEX.with(|x| x.borrow()[i]);
            let got = g.read(at);
            ensure!(got == st.ents[i].vals[k], "{via:?} of column {:?} reads {got:#x} for entity #{i}, its value is {:#x}", (a, k), st.ents[i].vals[k]);
            if m {
                let v = if k == zst(a) { 0 } else { st.value() };
                g.write(at, v);
                st.ents[i].vals[k] = v;
            }
        }
        Ok(())
    }
}

/// Which component of archetype `a` is zero-sized.
fn zst(a: usize) -> usize {
    match a {
        1 => 2,
        2 => 1,
        _ => usize::MAX,
    }
}

/// Nothing of a new clone is borrowed.
fn fresh(w: &Hist) -> R {
    let r = panics(|| {
        drop(w.arch_a.borrow_slice_mut::<Tok>());
        drop(w.arch_a.borrow_slice_mut::<Val>());
        drop(w.arch_b.borrow_slice_mut::<Pad>());
        drop(w.arch_b.borrow_slice_mut::<Tok>());
        drop(w.arch_b.borrow_slice_mut::<Zst>());
        drop(w.arch_c.borrow_slice_mut::<Val>());
        drop(w.arch_c.borrow_slice_mut::<Zst>());
    });
    ensure!(r.is_some(), "a column of a fresh clone is borrowed: {}", last_panic());
    Ok(())
}

thread_local! {
    static STALE: std::cell::Cell<Option<EntityAny>> = const { std::cell::Cell::new(None) };
    static INDEX: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn run(ch: &mut Ch, cfg: &Cfg) -> R {
    let pop = cfg.pops[ch.choose(cfg.pops.len())?];
    ch.note(|| format!("{pop:?} entities"));
    let mut w: Hist = World::new();
    let mut ents = Vec::new();
    let gone = w.create::<ArchA>((Tok::make(1), Val::make(2))).into_any();
    for (a, n) in pop.iter().enumerate() {
        for k in 0..*n {
            let v = (0x100 * a + 0x10 * k) as u32 + 0x40;
            let (any, vals) = match a {
                0 => (w.create::<ArchA>((Tok::make(v), Val::make(v + 1))).into_any(), [v, v + 1, 0]),
                1 => (w.create::<ArchB>((Pad::make(v), Tok::make(v + 1), Zst::make(0))).into_any(), [v, v + 1, 0]),
                _ => (w.create::<ArchC>((Val::make(v), Zst::make(0))).into_any(), [v, 0, 0]),
            };
            ents.push(Ent { arch: a, any, vals });
        }
    }
    ensure!(w.destroy(gone).is_some(), "destroy refused a live entity");
    STALE.with(|s| s.set(Some(gone)));
    {
        let _off = mc::guard::off();
        let index: Vec<usize> = ents
            .iter()
            .map(|e| match e.arch {
                0 => w.arch_a.resolve(e.any).unwrap(),
                1 => w.arch_b.resolve(e.any).unwrap(),
                _ => w.arch_c.resolve(e.any).unwrap(),
            })
            .collect();
        INDEX.with(|x| *x.borrow_mut() = index);
    }
    {
        let mut bs = Borrows::default();
        for (k, e) in ents.iter().enumerate() {
            match e.arch {
                0 if k % 2 == 0 => bs.a.push(w.borrow(Entity::<ArchA>::from_any(e.any)).unwrap()),
                0 => bs.a.push(w.arch_a.borrow(e.any).unwrap()),
                1 if k % 2 == 0 => bs.b.push(w.arch_b.borrow(Entity::<ArchB>::from_any(e.any)).unwrap()),
                1 => bs.b.push(w.arch_b.borrow(w.to_direct(e.any).unwrap()).unwrap()),
                _ => bs.c.push(w.borrow(w.to_direct(Entity::<ArchC>::from_any(e.any)).unwrap()).unwrap()),
            }
        }
        let mut st = State { ents: std::mem::take(&mut ents), marks: Vec::new(), free: Vec::new(), left: cfg.depth, next: 0, serial: 0, unwinding: false };
        {
            let cx = Cx { w: &w, bs: unsafe { &*(&bs as *const Borrows) }, cfg: unsafe { &*(cfg as *const Cfg) } };
            cx.frame(&mut st, 0, ch)?;
            drop(std::mem::take(&mut st.free));
            st.marks.clear();
            // Everything has ended: nothing is refused.
            cx.probe(&mut st, &mut [], ch)?;
        }
        ents = st.ents;
    }
    fresh(&w)?;
    drop(w.clone());
    // And the world can be changed structurally.
    for e in ents.iter() {
        ensure!(w.destroy(e.any).is_some(), "destroy refused a live entity");
    }
    health()
}

/// Accesses made by a component's own `Clone`, while the world (or an archetype) is being cloned.
mod reentrant {
    use std::cell::{Cell, Ref, RefCell, RefMut};

    use gecs::prelude::*;
    use mc::ensure;
    use mc::explore::{last_panic, panics, Ch, R};

    pub struct Re<const K: usize>(pub u32);

    impl<const K: usize> Clone for Re<K> {
        fn clone(&self) -> Self {
            let v = self.0;
            called(K, v);
            // The component being cloned is the same before and after whatever was accessed meanwhile.
            if std::hint::black_box(&self.0) != &v {
                bad(format!("the component being cloned ({v:#x}) was changed to {:#x}", self.0));
            }
            Re(v)
        }
    }

    ecs_world! {
        ecs_name!(Rew);
        ecs_archetype!(ReA, Re0, Re1);
        #[archetype_id(9)]
        ecs_archetype!(ReC, Re1, Re2);
    }
    pub type Re0 = Re<0>;
    pub type Re1 = Re<1>;
    pub type Re2 = Re<2>;

    /// Columns: ReA.Re0, ReA.Re1, ReC.Re1, ReC.Re2.
    const NAMES: [&str; 4] = ["ReA.Re0", "ReA.Re1", "ReC.Re1", "ReC.Re2"];
    fn arch(c: usize) -> usize {
        c / 2
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    enum How {
        Slice,
        Comp,
        Find,
        Iter,
        /// As `Slice`, but the guard is kept until the clone is over.
        Kept,
    }

    #[derive(Clone, Copy, Debug)]
    enum Act {
        Access(usize, bool, How),
        Nested,
        Panic,
    }

    fn acts() -> Vec<Act> {
        let mut out = Vec::new();
        for c in 0..4 {
            for m in [false, true] {
                for h in [How::Slice, How::Comp, How::Find, How::Iter, How::Kept] {
                    out.push(Act::Access(c, m, h));
                }
            }
        }
        out.push(Act::Nested);
        out.push(Act::Panic);
        out
    }

    enum Guard {
        S1(#[allow(dead_code)] Ref<'static, [Re1]>),
        M1(#[allow(dead_code)] RefMut<'static, [Re1]>),
        S0(#[allow(dead_code)] Ref<'static, [Re0]>),
        M0(#[allow(dead_code)] RefMut<'static, [Re0]>),
        S2(#[allow(dead_code)] Ref<'static, [Re2]>),
        M2(#[allow(dead_code)] RefMut<'static, [Re2]>),
    }

    /// What the callbacks need to know.
    struct Plan {
        w: *const Rew,
        /// Entities of each archetype.
        ents: [Vec<EntityAny>; 2],
        acts: Vec<(usize, Act)>,
        calls: usize,
        /// Which archetypes the operation under way clones.
        cloned: [bool; 2],
        kept: Vec<(usize, bool, Guard)>,
        bad: Option<String>,
        probes: u64,
        refused: u64,
        panicked: bool,
    }

    thread_local! {
        static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
        static DEPTH: Cell<usize> = const { Cell::new(0) };
    }

    fn with<T>(f: impl FnOnce(&mut Plan) -> T) -> Option<T> {
        PLAN.with(|p| p.borrow_mut().as_mut().map(f))
    }

    fn bad(text: String) {
        with(|p| {
            p.bad.get_or_insert(text);
        });
    }

    /// Component type and value say the column: values are 0x100 * column + number.
    fn called(k: usize, v: u32) {
        let Some(now) = with(|p| {
            p.calls += 1;
            let own = (v >> 8 & 3) as usize;
            if [0, 1, 1, 2][own] != k {
                p.bad.get_or_insert(format!("a component of type {k} being cloned has value {v:#x}"));
            }
            if p.kept.iter().any(|g| g.0 == own && g.1) {
                p.bad.get_or_insert(format!("{} is being cloned while a mutable guard of it is held", NAMES[own]));
            }
            let n = p.calls - 1;
            (own, p.acts.iter().filter(|a| a.0 == n).map(|a| a.1).collect::<Vec<_>>())
        }) else {
            return;
        };
        if DEPTH.get() > 0 {
            return;
        }
        for act in now.1 {
            DEPTH.set(1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(now.0, act)));
            DEPTH.set(0);
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        }
    }

    fn touch<const K: usize>(c: usize, s: &mut Re<K>) {
        if (s.0 >> 8 & 3) as usize != c {
            bad(format!("an access to {} reaches a component of value {:#x}", NAMES[c], s.0));
        }
        s.0 += 0x1000;
    }

    fn perform(own: usize, act: Act) {
        let (w, ents, cloned, held) = with(|p| (unsafe { &*p.w }, p.ents.clone(), p.cloned, p.kept.iter().map(|g| (g.0, g.1)).collect::<Vec<_>>())).unwrap();
        match act {
            Act::Panic => {
                with(|p| p.panicked = true);
                panic!("injected: in a component's Clone")
            }
            Act::Nested => {
                // Clones only share what they read, but not with a mutable guard.
                let before = with(|p| p.calls).unwrap();
                let r = panics(|| drop(w.clone()));
                with(|p| p.calls = before);
                let busy = held.iter().any(|g| g.1);
                if r.is_none() && !busy {
                    bad(format!("clone within clone is refused although nothing is mutably borrowed: {}", last_panic()));
                }
                if r.is_some() && held.iter().any(|g| g.1 && !ents[arch(g.0)].is_empty()) {
                    bad("clone within clone is granted although a column is mutably borrowed".into());
                }
            }
            Act::Access(c, m, h) => {
                let a = arch(c);
                if ents[a].is_empty() && matches!(h, How::Comp | How::Find) {
                    return;
                }
                let key = ents[a].first().copied();
                macro_rules! access {
                    ($field:ident, $A:ident, $C:ident, $S:ident, $M:ident) => {
                        match (h, m) {
                            (How::Slice, false) => panics(|| { std::hint::black_box(w.$field.borrow_slice::<$C>().len()); None }),
                            (How::Slice, true) => panics(|| { if let Some(x) = w.$field.borrow_slice_mut::<$C>().first_mut() { touch(c, x); } None }),
                            (How::Comp, false) => panics(|| { std::hint::black_box(w.$field.borrow(key.unwrap()).unwrap().component::<$C>().0); None }),
                            (How::Comp, true) => panics(|| { touch(c, &mut w.$field.borrow(key.unwrap()).unwrap().component_mut::<$C>()); None }),
                            (How::Find, false) => panics(|| { ecs_find_borrow!(w, key.unwrap(), |x: &$C| { std::hint::black_box(x.0); }); None }),
                            (How::Find, true) => panics(|| { ecs_find_borrow!(w, key.unwrap(), |x: &mut $C| touch(c, x)); None }),
                            (How::Iter, false) => panics(|| { ecs_iter_borrow!(w, |x: &$C, _: &Entity<$A>| { std::hint::black_box(x.0); }); None }),
                            (How::Iter, true) => panics(|| { ecs_iter_borrow!(w, |x: &mut $C, _: &Entity<$A>| touch(c, x)); None }),
                            // SAFETY: guards are dropped before the world.
                            (How::Kept, false) => panics(|| Some(Guard::$S(unsafe { std::mem::transmute(w.$field.borrow_slice::<$C>()) }))),
                            (How::Kept, true) => panics(|| Some(Guard::$M(unsafe { std::mem::transmute(w.$field.borrow_slice_mut::<$C>()) }))),
                        }
                    };
                }
                let r = match c {
                    0 => access!(re_a, ReA, Re0, S0, M0),
                    1 => access!(re_a, ReA, Re1, S1, M1),
                    2 => access!(re_c, ReC, Re1, S1, M1),
                    _ => access!(re_c, ReC, Re2, S2, M2),
                };
                let what = || format!("{h:?} of {} ({}) from the Clone of a component of {}", NAMES[c], if m { "mutable" } else { "shared" }, NAMES[own]);
                let granted = r.is_some();
                // An iteration of no entities conflicts with nothing.
                let some = h != How::Iter || !ents[a].is_empty();
                let conflict = some && (held.iter().any(|g| g.0 == c && (m || g.1)) || m && c == own);
                if granted && conflict {
                    bad(format!("{} is granted, aliasing it", what()));
                }
                // What else a clone holds meanwhile in the archetypes it clones is its own business, as
                // long as it shares.
                let free = !held.iter().any(|g| g.0 == c && (m || g.1)) && (!m || !cloned[a]);
                if !granted && free {
                    bad(format!("{} is refused although nothing conflicts: {}", what(), last_panic()));
                }
                with(|p| {
                    p.probes += 1;
                    p.refused += !granted as u64;
                    if let Some(Some(g)) = r {
                        p.kept.push((c, m, g));
                    }
                });
            }
        }
    }

    pub fn run(ch: &mut Ch, two: bool) -> R {
        let (na, nc) = [(1, 1), (2, 1), (0, 2), (1, 2), (3, 0)][ch.choose(if two { 3 } else { 5 })?];
        let what = ch.choose(3)?;
        let cloned = [what != 2, what != 1];
        let calls = if cloned[0] { 2 * na } else { 0 } + if cloned[1] { 2 * nc } else { 0 };
        let menu = acts();
        let mut plan = Vec::new();
        let mut from = 0;
        for _ in 0..1 + two as usize {
            if from >= calls {
                break;
            }
            let at = from + ch.choose(calls - from)?;
            plan.push((at, menu[ch.choose(menu.len())?]));
            from = at;
        }
        ch.note(|| format!("{na} and {nc} entities; clone of {}; accesses at the n-th component cloned: {plan:?}", ["the world", "ReA", "ReC"][what]));
        let mut w = Rew::with_capacity(RewCapacity { re_a: na, re_c: 1 });
        let mut ents = [Vec::new(), Vec::new()];
        for i in 0..na as u32 {
            ents[0].push(w.create::<ReA>((Re(i), Re(0x100 + i))).into_any());
        }
        for i in 0..nc as u32 {
            ents[1].push(w.create::<ReC>((Re(0x200 + i), Re(0x300 + i))).into_any());
        }
        PLAN.with(|p| {
            *p.borrow_mut() = Some(Plan { w: &w, ents: ents.clone(), acts: plan.clone(), calls: 0, cloned, kept: Vec::new(), bad: None, probes: 0, refused: 0, panicked: false });
        });
        enum Copy {
            World(Rew),
            A(ReA),
            C(ReC),
        }
        let r = panics(|| match what {
            0 => Copy::World(w.clone()),
            1 => Copy::A(w.re_a.clone()),
            _ => Copy::C(w.re_c.clone()),
        });
        ch.step();
        ch.state();
        let plan_done = PLAN.with(|p| p.borrow_mut().take()).unwrap();
        ch.stats.probes += plan_done.probes;
        ch.stats.panics += plan_done.refused;
        if let Some(text) = plan_done.bad {
            drop(plan_done.kept);
            mc::fail!("{text}");
        }
        let kept_mut = plan_done.kept.iter().any(|g| g.1);
        if r.is_none() && !plan_done.panicked && !kept_mut {
            mc::fail!("the clone panics although no column is mutably borrowed: {}", last_panic());
        }
        if plan_done.panicked {
            ensure!(r.is_none(), "a panic in a component's Clone was swallowed");
        }
        // Kept guards are in force, and nothing else is.
        fn probe(w: &Rew, held: &[(usize, bool)], when: &str, ch: &mut Ch) -> R {
            for c in 0..4 {
                for m in [false, true] {
                    let r = panics(|| match (c, m) {
                        (0, false) => drop(w.re_a.borrow_slice::<Re0>()),
                        (0, true) => drop(w.re_a.borrow_slice_mut::<Re0>()),
                        (1, false) => drop(w.re_a.borrow_slice::<Re1>()),
                        (1, true) => drop(w.re_a.borrow_slice_mut::<Re1>()),
                        (2, false) => drop(w.re_c.borrow_slice::<Re1>()),
                        (2, true) => drop(w.re_c.borrow_slice_mut::<Re1>()),
                        (_, false) => drop(w.re_c.borrow_slice::<Re2>()),
                        (_, true) => drop(w.re_c.borrow_slice_mut::<Re2>()),
                    });
                    let ok = !held.iter().any(|g| g.0 == c && (m || g.1));
                    ensure!(r.is_some() == ok, "{when}, {} access to {} is {}", if m { "mutable" } else { "shared" }, NAMES[c], if ok { "refused although nothing conflicts" } else { "granted although it is borrowed in conflict" });
                    ch.stats.probes += 1;
                }
            }
            Ok(())
        }
        let held: Vec<(usize, bool)> = plan_done.kept.iter().map(|g| (g.0, g.1)).collect();
        probe(&w, &held, "after the clone", ch)?;
        drop(plan_done.kept);
        probe(&w, &[], "after the clone and its accesses", ch)?;
        let of = |a: Option<&ReA>, c: Option<&ReC>| -> [Vec<u32>; 4] {
            let col = |x: Vec<u32>| x;
            [
                col(a.map_or(vec![], |a| a.borrow_slice::<Re0>().iter().map(|x| x.0 & 0xFFF).collect())),
                col(a.map_or(vec![], |a| a.borrow_slice::<Re1>().iter().map(|x| x.0 & 0xFFF).collect())),
                col(c.map_or(vec![], |c| c.borrow_slice::<Re1>().iter().map(|x| x.0 & 0xFFF).collect())),
                col(c.map_or(vec![], |c| c.borrow_slice::<Re2>().iter().map(|x| x.0 & 0xFFF).collect())),
            ]
        };
        let want = of(Some(&w.re_a), Some(&w.re_c));
        let nothing = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];
        let (got, mut want) = match &r {
            Some(Copy::World(x)) => {
                probe(x, &[], "in the clone", ch)?;
                (of(Some(&x.re_a), Some(&x.re_c)), want)
            }
            Some(Copy::A(x)) => (of(Some(x), None), want),
            Some(Copy::C(x)) => (of(None, Some(x)), want),
            None => (nothing.clone(), nothing),
        };
        if what == 1 {
            want[2].clear();
            want[3].clear();
        } else if what == 2 {
            want[0].clear();
            want[1].clear();
        }
        ensure!(r.is_none() || got == want, "the clone's columns hold {got:x?} instead of {want:x?}");
        drop(r);
        for e in ents.iter().flatten() {
            ensure!(w.destroy(*e).is_some(), "destroy refused a live entity");
        }
        Ok(())
    }
}

/// Very many shared borrows of one column at a time.
mod crowd {
    use gecs::prelude::*;
    use mc::ensure;
    use mc::explore::*;
    use std::collections::VecDeque;

    pub mod world {
        use gecs::prelude::*;
        pub struct U(pub u32);
        pub struct V(pub u8);
        ecs_world! {
            ecs_name!(Crowd);
            ecs_archetype!(CrowdA, U, V);
            ecs_archetype!(CrowdB, V, U);
        }
    }
    use world::*;

    fn check(w: &Crowd, e: Entity<CrowdA>, n: usize, ch: &mut Ch) -> R {
        let say = |what: &str, granted: bool| format!("{what} is {} while {n} shared borrows of CrowdA.U are held", if granted { "granted" } else { "refused" });
        let tests: [(&str, bool, &dyn Fn()); 12] = [
            ("borrow_slice_mut of it", n == 0, &|| drop(w.archetype::<CrowdA>().borrow_slice_mut::<U>())),
            ("component_mut of it", n == 0, &|| drop(w.borrow(e).unwrap().component_mut::<U>())),
            ("ecs_find_borrow! with &mut", n == 0, &|| { ecs_find_borrow!(w, e, |u: &mut U| u.0 += 1); }),
            ("ecs_iter_borrow! with &mut", n == 0, &|| { ecs_iter_borrow!(w, |u: &mut U| u.0 += 1); }),
            ("borrow_slice of it", true, &|| drop(w.archetype::<CrowdA>().borrow_slice::<U>())),
            ("component of it", true, &|| drop(w.borrow(e).unwrap().component::<U>())),
            ("ecs_find_borrow!", true, &|| { ecs_find_borrow!(w, e, |u: &U, v: &mut V| v.0 = v.0.wrapping_add(u.0 as u8)); }),
            ("ecs_iter_borrow!", true, &|| { ecs_iter_borrow!(w, |u: &U, v: &mut V| v.0 = v.0.wrapping_add(u.0 as u8)); }),
            ("borrow_slice_mut of another column", true, &|| drop(w.archetype::<CrowdA>().borrow_slice_mut::<V>())),
            ("component_mut of another column", true, &|| drop(w.borrow(e).unwrap().component_mut::<V>())),
            ("borrow_slice_mut of another archetype", true, &|| drop(w.archetype::<CrowdB>().borrow_slice_mut::<U>())),
            ("borrow_slice of another archetype", true, &|| drop(w.archetype::<CrowdB>().borrow_slice::<V>())),
        ];
        for (what, ok, f) in tests {
            let granted = panics(f).is_some();
            ensure!(granted == ok, "{}", say(what, granted));
            ch.stats.probes += 1;
            ch.stats.panics += !ok as u64;
        }
        Ok(())
    }

    fn look_at(n: usize, max: usize) -> bool {
        n <= 20 || n == max || (n + 1).is_power_of_two() || n.is_power_of_two() || (n - 1).is_power_of_two()
    }

    pub fn run(ch: &mut Ch, max: usize) -> R {
        let kind = ch.choose(3)?;
        let order = ch.choose(3)?;
        ch.note(|| format!("{max} shared borrows at once by {}, released {}", ["borrow_slice", "Borrow::component", "both in turn"][kind], ["oldest first", "newest first", "by unwinding"][order]));
        let mut w = Crowd::default();
        let e = w.create::<CrowdA>((U(1), V(2)));
        w.create::<CrowdA>((U(3), V(4)));
        w.create::<CrowdB>((V(5), U(6)));
        let w = &w;
        let borrow = w.borrow(e).unwrap();
        let mut held = VecDeque::new();
        check(w, e, 0, ch)?;
        for n in 1..=max {
            let slice = kind == 0 || kind == 2 && n % 2 == 0;
            let guard = panics(|| if slice { (Some(w.archetype::<CrowdA>().borrow_slice::<U>()), None) } else { (None, Some(borrow.component::<U>())) });
            let Some(guard) = guard else { mc::fail!("shared borrow number {n} of one column is refused: {}", last_panic()) };
            held.push_back(guard);
            if look_at(n, max) {
                ch.step();
                ch.stats.states += 1;
                check(w, e, n, ch)?;
            }
        }
        if order == 2 {
            let r = panics(move || {
                let _held = held;
                panic!("injected")
            });
            ensure!(r.is_none(), "harness: no panic");
            check(w, e, 0, ch)?;
        } else {
            for n in (0..max).rev() {
                drop(if order == 0 { held.pop_front() } else { held.pop_back() });
                if look_at(n.max(1), max) {
                    ch.step();
                    ch.stats.states += 1;
                    check(w, e, n, ch)?;
                }
            }
        }
        Ok(())
    }

    fn deeper(w: &Crowd, e: Entity<CrowdA>, n: usize, max: usize, which: usize, ch: &mut Ch) -> R {
        if n == max {
            return Ok(());
        }
        let mut r = Ok(());
        let mut inner = |ch: &mut Ch| -> R {
            if look_at(n + 1, max) {
                ch.stats.states += 1;
                check(w, e, n + 1, ch)?;
            }
            deeper(w, e, n + 1, max, which, ch)?;
            if look_at(n + 1, max) {
                check(w, e, n + 1, ch)?;
            }
            Ok(())
        };
        if which == 0 || which == 2 && n % 2 == 0 {
            let found = ecs_find_borrow!(w, e, |u: &U| { std::hint::black_box(u.0); r = inner(ch) });
            ensure!(found.is_some() || r.is_err(), "ecs_find_borrow! finds nothing");
        } else {
            ecs_iter_borrow!(w, |_: &Entity<CrowdA>, u: &U| { std::hint::black_box(u.0); r = inner(ch); EcsStep::Break });
        }
        r
    }

    /// Shared queries nested that deeply.
    pub fn nested(ch: &mut Ch, max: usize) -> R {
        let which = ch.choose(3)?;
        ch.note(|| format!("shared queries nested {max} deep: {}", ["ecs_find_borrow!", "ecs_iter_borrow!", "both in turn"][which]));
        let mut w = Crowd::default();
        let e = w.create::<CrowdA>((U(1), V(2)));
        w.create::<CrowdB>((V(5), U(6)));
        deeper(&w, e, 0, max, which, ch)?;
        check(&w, e, 0, ch)
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let base = |pops: &[[usize; 3]], depth: usize| Cfg {
        pops: pops.to_vec(),
        depth,
        cols: (0..7).collect(),
        queries: (0..QUERIES.len()).collect(),
        clones: true,
        vias: true,
        direct: true,
        typed: true,
        escape: true,
    };
    // Every pair of accesses, all ways.
    let cfg = if tier.micro() {
        Cfg { direct: false, typed: false, ..base(&[[2, 1, 1]], 2) }
    } else {
        base(&[[2, 1, 1], [0, 2, 1], [1, 0, 2], [2, 2, 0], [3, 0, 0], [0, 0, 0]], 2)
    };
    out.push(Scenario::new("c11-pairs", "every access inside or next to every other", move |ch| run(ch, &cfg)).guarded());
    let cfg = Cfg { direct: false, typed: false, vias: false, queries: tier.pick(vec![2, 3, 9, 13, 17], vec![0, 1, 2, 4, 6, 8, 9, 13, 17]), ..base(tier.pick(&[[1, 1, 1]], &[[2, 1, 0], [1, 1, 1], [1, 2, 0], [2, 0, 1]]), tier.depth(3, 3)) };
    out.push(Scenario::new("c11-triples", "three accesses deep", move |ch| run(ch, &cfg)).guarded());
    for (a, cols, queries) in [(0, vec![0, 1], tier.pick(vec![2, 9], vec![1, 2, 9, 11])), (1, vec![2, 4], tier.pick(vec![8, 13], vec![8, 12, 13])), (2, vec![5, 6], tier.pick(vec![4, 14], vec![4, 14, 16]))] {
        let mut pop = [0, 0, 0];
        pop[a] = 2;
        let cfg = Cfg { cols, queries, direct: false, typed: false, clones: false, vias: false, ..base(&[pop], tier.depth(4, 5)) };
        out.push(Scenario::new(format!("c11-deep-{a}"), "one archetype, deeper", move |ch| run(ch, &cfg)).guarded());
    }
    let cfg = Cfg { cols: vec![1], queries: vec![3, 4], direct: false, typed: false, clones: true, vias: false, escape: true, ..base(&[[1, 0, 1]], tier.depth(4, 5)) };
    out.push(Scenario::new("c11-column", "one column type in two archetypes, deepest", move |ch| run(ch, &cfg)).guarded());
    out.push(Scenario::new("c11-clone-one", "an access from a component's Clone: every column, at every component cloned", |ch| reentrant::run(ch, false)));
    if !tier.micro() {
        out.push(Scenario::new("c11-clone-two", "two accesses from components' Clones", |ch| reentrant::run(ch, true)));
    }
    if !tier.micro() {
        let many = tier.pick(70_000, 1 << 20);
        out.push(Scenario::new("c11-crowd", "very many shared borrows of one column at a time", move |ch| crowd::run(ch, many)));
        out.push(Scenario::new("c11-crowd-nested", "shared queries nested hundreds deep", move |ch| crowd::nested(ch, 300)));
    }
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 2..=max {
        out.push(Scenario::new(format!("c11-shape-{n}"), format!("archetype of {n} components: every pair of columns"), move |ch| super::shapes::borrows(n, ch)));
    }
    out
}
