//! C19: what the API shows of a history, condensed to a digest that must not depend on features or
//! profile (check.py compares the digests of all builds), nor on the width of the archetype.
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use gecs::prelude::*;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::reg::{self, Comp, Nth, Tok};
use mc::sys::*;
use mc::worlds::sets::{self, Mac};
use mc::worlds::*;
use mc::{ensure, fail};

/// Collects observations.
struct Obs {
    h: Fnv,
    text: Option<String>,
}

struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01B3);
        }
    }
    fn write_u32(&mut self, v: u32) {
        self.0 = (self.0 ^ v as u64).wrapping_mul(0x100_0000_01B3);
        self.0 ^= self.0 >> 31;
    }
    fn write_u64(&mut self, v: u64) {
        self.write_u32(v as u32);
        self.write_u32((v >> 32) as u32);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
}

impl Obs {
    fn new(ch: &Ch) -> Self {
        Obs { h: Fnv(0xCBF2_9CE4_8422_2325), text: ch.verbose.then(String::new) }
    }
    fn put<T: Hash + Debug>(&mut self, what: &str, v: T) {
        v.hash(&mut self.h);
        if let Some(t) = &mut self.text {
            use std::fmt::Write;
            let _ = write!(t, " {what}={v:?}");
        }
    }
    fn done(self, ch: &mut Ch) {
        let h = self.h.finish();
        ch.observe(h);
        if let Some(t) = self.text {
            ch.note(|| format!("  shows{t} => {h:016x}"));
        }
    }
}

type Shown = (Option<(u32, u32)>, Option<EntityDirectAny>, Option<Vec<u32>>);

fn item(i: &Item) -> Shown {
    (Some(raw(i.entity)), i.direct, i.vals.map(|v| v.as_slice().to_vec()))
}

fn raw(e: EntityAny) -> (u32, u32) {
    let (k, v) = e.raw();
    (k, v)
}

/// Everything a world shows, apart from events: counts, orders, handles, values, direct handles.
fn show(w: &mut Hist, issued: &[(usize, EntityAny)], full: bool, o: &mut Obs) {
    for a in 0..3 {
        o.put("len", w.len_of(a));
        o.put("empty", w.empty_of(a));
        o.put("capacity", w.cap_of(a));
        let mut ents = Vec::new();
        w.entities_of(a, &mut |e| ents.push(raw(e)));
        o.put("entities", &ents);
        let scans: &[Scan] = if full { Scan::ALL } else { &[Scan::ArchIter, Scan::EcsIterBorrowMut] };
        for &path in scans {
            let mut seen = Vec::new();
            w.scan(a, path, &mut |i| {
                seen.push(item(&i));
                true
            });
            o.put("pass", seen);
        }
        if full {
            w.slice_lens(a, &mut |_, n| o.put("slice", n));
        }
    }
    if full {
        for &path in ScanAll::ALL {
            let mut seen = Vec::new();
            w.scan_all(path, &mut |i| {
                seen.push((i.arch, item(&i)));
                true
            });
            o.put("pass", seen);
        }
        for q in 0..sets::SETS {
            for mac in sets::MACS {
                let mut seen = Vec::new();
                sets::run(w, mac, q, &mut |e, d, bound| {
                    seen.push((raw(e), d, bound.iter().map(|b| b.1).collect::<Vec<_>>()));
                    0
                });
                if mac != Mac::IterDestroy {
                    o.put("query", seen);
                }
            }
        }
    }
    for &(a, e) in issued {
        for typed in [true, false] {
            let looks: &[Look] = if full { Look::ALL } else { &[Look::ArchResolve, Look::ArchToDirect, Look::FindBorrow] };
            for &path in looks.iter().filter(|p| p.takes(typed)) {
                let seen = w.look(a, path, Key::ent(e, typed));
                o.put("lookup", seen.map(|s| (s.entity.map(raw), s.direct, s.index, s.vals.map(|v| v.as_slice().to_vec()))));
            }
        }
    }
    o.put("alive", reg::live());
}

fn observe(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>, full: bool) -> R {
    let mut o = Obs::new(ch);
    for s in worlds.iter_mut() {
        let issued: Vec<(usize, EntityAny)> = s.m.ents.iter().map(|e| (e.arch, e.any)).collect();
        show(&mut s.w, &issued, full, &mut o);
        for d in &s.m.dirs {
            let at = s.w.look(s.m.ents[d.ent].arch, Look::ArchBorrow, Key::dir(d.h, false));
            o.put("direct", at.map(|s| s.entity.map(raw)));
        }
        ch.stats.probes += 1;
    }
    // How often components were cloned and dropped by now.
    o.put("clones", reg::clones());
    o.put("drops", reg::drops());
    o.done(ch);
    health()
}

fn full(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    observe(ch, worlds, true)
}

fn brief(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    observe(ch, worlds, false)
}

/// Histories through the last generations and versions. Only builds with the same overflow behaviour
/// are compared with each other.
fn overflow(ch: &mut Ch, depth: usize) -> R {
    const STARTS: [(u32, u32); 4] = [(u32::MAX, 1), (1, u32::MAX), (u32::MAX - 1, u32::MAX - 2), (u32::MAX - 1, 7)];
    let (slot, arch) = STARTS[ch.choose(STARTS.len())?];
    let a = [0, 1, 2][ch.choose(3)?];
    ch.note(|| format!("archetype {a}, generations start at {slot:#x}, archetype version at {arch:#x}"));
    let mut s: Sys<Hist> = Sys::new_preset(&[2; 3], slot, arch);
    let wrapping = cfg!(feature = "wrapping");
    let mut issued: Vec<(usize, EntityAny)> = Vec::new();
    let mut serial = 0;
    for _ in 0..depth {
        let k = ch.choose(2 + 2 * issued.len())?;
        let mut o = Obs::new(ch);
        if k == 0 {
            serial += 1;
            match s.w.create_e(a, How::World, &raw_vals::<Hist>(a, serial)) {
                Ok(e) => {
                    ch.note(|| format!("create: {e:?}"));
                    ensure!(!issued.iter().any(|i| i.1 == e), "handle {e:?} was issued twice, few generations apart");
                    issued.push((a, e));
                }
                Err(_) => fail!("create was refused"),
            }
        } else if k == 1 {
            ch.note(|| "ecs_iter_destroy!, every other entity".into());
            let mut n = 0;
            let r = panics(|| {
                s.w.iter_destroy_one(a, &mut |_| {
                    n += 1;
                    if n % 2 == 1 { EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }
                })
            });
            ensure!(r.is_some() || !wrapping, "ecs_iter_destroy! panics ({}) although versions wrap", last_panic());
            ch.stats.panics += r.is_none() as u64;
            o.put("panics", r.is_none());
        } else {
            let (e, direct) = (issued[(k - 2) / 2].1, k % 2 == 1);
            ch.note(|| format!("destroy {e:?}{}", if direct { " by direct handle" } else { "" }));
            let key = match s.w.look(a, Look::ArchToDirect, Key::ent(e, true)) {
                Some(seen) if direct => Key::dir(seen.direct.unwrap(), false),
                _ => Key::ent(e, true),
            };
            let w = &mut s.w;
            let r = panics(|| w.destroy_e(a, direct, key));
            ensure!(r.is_some() || !wrapping, "destroy panics ({}) although versions wrap", last_panic());
            ch.stats.panics += r.is_none() as u64;
            o.put("destroy", r.map(|r| r.is_some()));
        }
        ch.step();
        if ch.state() {
            show(&mut s.w, &issued, false, &mut o);
            o.done(ch);
        }
    }
    health()
}

/// Types and constants.
fn constants(ch: &mut Ch) -> R {
    use std::mem::{align_of, size_of};
    ch.choose(1)?;
    let mut o = Obs::new(ch);
    o.put("EntityAny", (size_of::<EntityAny>(), align_of::<EntityAny>(), size_of::<Option<EntityAny>>()));
    o.put("EntityDirectAny", (size_of::<EntityDirectAny>(), align_of::<EntityDirectAny>(), size_of::<Option<EntityDirectAny>>()));
    o.put("Entity", (size_of::<Entity<hist::ArchA>>(), size_of::<Option<Entity<hist::ArchA>>>()));
    o.put("EntityDirect", (size_of::<EntityDirect<hist::ArchA>>(), size_of::<Option<EntityDirect<hist::ArchA>>>()));
    o.put("ids", [hist::ArchA::ARCHETYPE_ID, hist::ArchB::ARCHETYPE_ID, hist::ArchC::ARCHETYPE_ID]);
    for raw in [(0, 1), (7, 1), (u32::MAX, u32::MAX), (2, 0), (0x702, 5)] {
        let e = EntityAny::from_raw(raw);
        o.put("from_raw", e.is_ok());
        if let Ok(e) = e {
            o.put("id", e.archetype_id());
            o.put("debug", format!("{e:?}"));
            o.put("raw", e.raw());
            o.put("select", hist::select(e));
        }
    }
    ch.state();
    ch.step();
    o.done(ch);
    Ok(())
}

mod hist {
    pub use mc::worlds::hist::*;
    use gecs::prelude::*;
    /// Which archetype a dynamically typed handle belongs to.
    pub fn select(e: EntityAny) -> u8 {
        match SelectEntity::try_from(e) {
            Ok(SelectEntity::ArchA(_)) => 0,
            Ok(SelectEntity::ArchB(_)) => 1,
            Ok(SelectEntity::ArchC(_)) => 2,
            Err(_) => 99,
        }
    }
}

// One history on archetypes of different widths: nothing it shows may depend on the width.
type Waa = Nth<0, Tok>;
type Wab = Nth<1, Tok>;
type Wac = Nth<2, Tok>;
type Wad = Nth<3, Tok>;
type Wae = Nth<4, Tok>;
type Waf = Nth<5, Tok>;
type Wag = Nth<6, Tok>;
type Wah = Nth<7, Tok>;
type Wai = Nth<8, Tok>;
type Waj = Nth<9, Tok>;
type Wak = Nth<10, Tok>;
type Wal = Nth<11, Tok>;
type Wam = Nth<12, Tok>;
type Wan = Nth<13, Tok>;
type Wao = Nth<14, Tok>;
type Wap = Nth<15, Tok>;
type Waq = Nth<16, Tok>;
type War = Nth<17, Tok>;
type Was = Nth<18, Tok>;
type Wat = Nth<19, Tok>;
type Wau = Nth<20, Tok>;
type Wav = Nth<21, Tok>;
type Waw = Nth<22, Tok>;
type Wax = Nth<23, Tok>;
type Way = Nth<24, Tok>;
type Waz = Nth<25, Tok>;
type Wba = Nth<26, Tok>;
type Wbb = Nth<27, Tok>;
type Wbc = Nth<28, Tok>;
type Wbd = Nth<29, Tok>;
type Wbe = Nth<30, Tok>;
type Wbf = Nth<31, Tok>;

macro_rules! first {
    ($c:ident $($rest:ident)*) => { $c };
}

macro_rules! wide {
    ($World:ident, $Caps:ident, $n:literal, [$($i:literal $C:ident $c:ident)*]) => {
        type Row = [u32; $n];

        fn row(serial: u32) -> Row {
            [$(serial << 6 | $i),*]
        }

        fn make(serial: u32) -> ($($C,)*) {
            ($($C::make(serial << 6 | $i),)*)
        }

        pub fn run(ch: &mut Ch, depth: usize) -> R {
            let cap = [0, 2][ch.choose(2)?];
            let mut w: $World = World::with_capacity($Caps { arch_w: cap });
            let mut issued: Vec<(Entity<ArchW>, u32, bool)> = Vec::new();
            for serial in 1..=depth as u32 {
                let k = ch.choose(5 + issued.len())?;
                let mut o = Obs::new(ch);
                match k {
                    0 | 1 => {
                        let data = make(serial);
                        let e = if k == 0 {
                            Some(w.create::<ArchW>(data))
                        } else {
                            w.create_within_capacity::<ArchW>(data).ok()
                        };
                        o.put("create", e.map(|e| raw(e.into_any())));
                        if let Some(e) = e {
                            issued.push((e, serial, true));
                        }
                    }
                    2 => {
                        let mut n = 0;
                        let mut gone = Vec::new();
                        ecs_iter_destroy!(w, |e: &Entity<ArchW>, $($c: &mut $C),*| {
                            let vals: Row = [$($c.get()),*];
                            o.put("serial", vals[0] >> 6);
                            n += 1;
                            if n % 2 == 0 {
                                EcsStepDestroy::Continue
                            } else {
                                gone.push(*e);
                                EcsStepDestroy::ContinueDestroy
                            }
                        });
                        issued.iter_mut().for_each(|i| i.2 &= !gone.contains(&i.0));
                    }
                    3 => {
                        let copy = w.clone();
                        w = copy;
                    }
                    4 => {
                        for (_, $($c),*) in w.archetype_mut::<ArchW>().iter_mut() {
                            let serial = first!($($c)*).get() >> 6;
                            $( $c.set(serial << 6 | $i); )*
                        }
                    }
                    k => {
                        let (e, serial, alive) = issued[k - 5];
                        let got = w.destroy(e);
                        ensure!(got.is_some() == alive, "destroy({e:?}) answers {} for an entity alive {alive}", got.is_some());
                        if let Some(data) = got {
                            let vals: Row = [$(<_ as Components>::get::<$C>(&data).get()),*];
                            ensure!(vals == row(serial), "destroy({e:?}) returned {vals:x?} instead of {:x?}", row(serial));
                        }
                        issued[k - 5].2 = false;
                    }
                }
                ch.step();
                if !ch.state() {
                    continue;
                }
                let live = issued.iter().filter(|i| i.2).count();
                let arch = w.archetype_mut::<ArchW>();
                ensure!(arch.len() == live, "len is {} with {live} entities", arch.len());
                o.put("len", arch.len());
                o.put("capacity", arch.capacity());
                let mut wrong = None;
                for (e, $($c),*) in arch.iter() {
                    let vals: Row = [$($c.get()),*];
                    match issued.iter().find(|i| i.0 == *e) {
                        Some(i) if i.2 && vals == row(i.1) => {}
                        other => wrong = Some(format!("iter shows {e:?} with {vals:x?}, known as {other:?}")),
                    }
                    o.put("order", raw(e.into_any()));
                }
                if let Some(wrong) = wrong {
                    fail!("{wrong}");
                }
                for &(e, serial, alive) in &issued {
                    let seen = ecs_find!(w, e, |$($c: &mut $C,)* d: &EntityDirect<ArchW>| ([$($c.get()),*], *d));
                    ensure!(seen.is_some() == alive, "ecs_find!({e:?}) is {} for an entity alive {alive}", seen.is_some());
                    if let Some((vals, d)) = seen {
                        ensure!(vals == row(serial), "ecs_find!({e:?}) shows {vals:x?} instead of {:x?}", row(serial));
                        let again = w.archetype::<ArchW>().borrow(d).map(|b| raw(b.entity().into_any()));
                        o.put("direct", again);
                        let view = w.view(e).map(|v| [$(v.$c.get()),*]);
                        ensure!(view == Some(vals), "view({e:?}) shows {view:x?} instead of {vals:x?}");
                    }
                    o.put("found", seen.is_some());
                }
                ensure!(reg::live().0 == (live * $n) as i64, "{} components are alive with {live} entities of {}", reg::live().0, $n);
                ensure!(reg::drops() % $n == 0 && reg::clones() % $n == 0, "some columns were cloned or dropped oftener than others");
                o.put("drops", reg::drops() / $n);
                o.put("clones", reg::clones() / $n);
                o.done(ch);
                health()?;
            }
            Ok(())
        }
    };
}

mod w1 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide1);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa);
    }
    wide!(Wide1, Wide1Capacity, 1, [0 Waa waa]);
}

mod w2 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide2);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab);
    }
    wide!(Wide2, Wide2Capacity, 2, [0 Waa waa 1 Wab wab]);
}

mod w15 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide15);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao);
    }
    wide!(Wide15, Wide15Capacity, 15, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao]);
}

mod w16 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide16);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap);
    }
    wide!(Wide16, Wide16Capacity, 16, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao 15 Wap wap]);
}

#[cfg(feature = "comp32")]
mod w17 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide17);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq);
    }
    wide!(Wide17, Wide17Capacity, 17, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao 15 Wap wap 16 Waq waq]);
}

#[cfg(feature = "comp32")]
mod w18 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide18);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War);
    }
    wide!(Wide18, Wide18Capacity, 18, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao 15 Wap wap 16 Waq waq 17 War war]);
}

#[cfg(feature = "comp32")]
mod w31 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide31);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe);
    }
    wide!(Wide31, Wide31Capacity, 31, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao 15 Wap wap 16 Waq waq 17 War war 18 Was was 19 Wat wat 20 Wau wau 21 Wav wav 22 Waw waw 23 Wax wax 24 Way way 25 Waz waz 26 Wba wba 27 Wbb wbb 28 Wbc wbc 29 Wbd wbd 30 Wbe wbe]);
}

#[cfg(feature = "comp32")]
mod w32 {
    use super::*;
    ecs_world! {
        ecs_name!(Wide32);
        #[archetype_id(9)]
        ecs_archetype!(ArchW, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf);
    }
    wide!(Wide32, Wide32Capacity, 32, [0 Waa waa 1 Wab wab 2 Wac wac 3 Wad wad 4 Wae wae 5 Waf waf 6 Wag wag 7 Wah wah 8 Wai wai 9 Waj waj 10 Wak wak 11 Wal wal 12 Wam wam 13 Wan wan 14 Wao wao 15 Wap wap 16 Waq waq 17 War war 18 Was was 19 Wat wat 20 Wau wau 21 Wav wav 22 Waw waw 23 Wax wax 24 Way way 25 Waz waz 26 Wba wba 27 Wbb wbb 28 Wbc wbc 29 Wbd wbd 30 Wbe wbe 31 Wbf wbf]);
}

fn wide_scenarios(tier: Tier, out: &mut Vec<Scenario>) {
    let depth = tier.depth(5, 6);
    let mut add = |n: usize, f: fn(&mut Ch, usize) -> R| out.push(Scenario::new(format!("c19-wide-{n}"), format!("digest: histories of an archetype of {n} components"), move |ch| f(ch, depth)).guarded());
    add(1, w1::run);
    add(2, w2::run);
    add(15, w15::run);
    add(16, w16::run);
    #[cfg(feature = "comp32")]
    add(17, w17::run);
    #[cfg(feature = "comp32")]
    add(18, w18::run);
    #[cfg(feature = "comp32")]
    add(31, w31::run);
    #[cfg(feature = "comp32")]
    add(32, w32::run);
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    out.push(Scenario::new("c19-constants", "digest: sizes, ids, conversions", constants));
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(8, 10), &[a], &[&[0, 0, 0], &[2, 2, 2]]);
        out.push(Scenario::new(format!("c19-deep-{a}"), "digest: create/destroy sequences of one archetype", move |ch| history(ch, &cfg, &brief)));
        let cfg = HistCfg::new(tier.depth(5, 7), &[a], &[&[1, 1, 1]]).with(|c| {
            c.iter_destroy = vec![Scope::One(a)];
            c.decisions = vec![0, 1, 2, 3];
            c.worlds = 2;
            c.max_live = 4;
        });
        out.push(Scenario::new(format!("c19-loops-{a}"), "digest: create, destroy, ecs_iter_destroy! with all decision sequences, clone", move |ch| history(ch, &cfg, &brief)));
    }
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 1, 2], &[&[0, 1, 2]]).with(|c| {
        c.hows = vec![How::World, How::ArchWithin];
        c.ways = vec![0, 7];
        c.iter_destroy = vec![Scope::AllWild];
        c.decisions = vec![0, 2];
        c.direct_scans = vec![Scan::EcsIter];
        c.max_directs = 2;
        c.clear_events = true;
        c.worlds = 2;
    });
    out.push(Scenario::new("c19-mixed", "digest: three archetypes, everything shown by every path", move |ch| history(ch, &cfg, &full)));
    // Clearing the events at any point (nothing to do without them) shows nowhere else.
    let cfg = HistCfg::new(7, &[0], &[&[0, 0, 0]]).with(|c| {
        c.clear_events = true;
        c.directs = vec![Look::ArchToDirect];
        c.max_directs = 1;
        c.max_live = 3;
    });
    out.push(Scenario::new("c19-clears", "digest: create, destroy, direct handles and clear_events() interleaved", move |ch| history(ch, &cfg, &brief)));
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 2], &[&[2, 0, 1]]).with(|c| {
        c.presets = boundaries(8);
        c.directs = vec![Look::WorldToDirect];
        c.max_directs = 2;
    });
    out.push(Scenario::new("c19-generations", "digest: create/destroy next to 2^8, 2^16, 2^24, 2^31, 2^32", move |ch| history(ch, &cfg, &brief)));
    let depth = tier.depth(5, 6);
    out.push(Scenario::new("c19-overflow", "digest: histories through the last generations", move |ch| overflow(ch, depth)));
    wide_scenarios(tier, &mut out);
    out
}
