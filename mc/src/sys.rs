//! A real world next to its reference model, the operations on both, and the oracles.

use gecs::prelude::*;

use crate::explore::{Ch, R};
use crate::harness::*;
use crate::{ensure, fail, reg};

/// An entity as the model knows it.
#[derive(Clone, Copy, Debug)]
pub struct Ent {
    pub arch: usize,
    pub any: EntityAny,
    pub alive: bool,
    pub vals: Vals,
    /// Position in `Model::live`.
    pub pos: usize,
}

/// A direct handle as the model knows it.
#[derive(Clone, Copy, Debug)]
pub struct Dir {
    pub ent: usize,
    pub h: EntityDirectAny,
    /// Removals / structural changes of the archetype when the handle was issued.
    pub removals: u64,
    pub changes: u64,
}

/// The reference model: plain lists.
#[derive(Clone, Debug)]
pub struct Model {
    pub ents: Vec<Ent>,
    pub dirs: Vec<Dir>,
    pub live: Vec<Vec<usize>>,
    pub removals: Vec<u64>,
    pub changes: Vec<u64>,
    pub caps: Vec<usize>,
    pub created: Vec<Vec<EntityAny>>,
    pub destroyed: Vec<Vec<EntityAny>>,
    pub serial: u32,
    /// Compare every new handle with all earlier ones.
    pub unique: bool,
}

pub struct Sys<W: HWorld> {
    pub w: W,
    pub m: Model,
}

/// Presets where the generations of the worlds built next start. Without the hook (see check.py) every
/// world starts at 1, and the histories that were to run next to a boundary run there.
pub fn set_version_start(slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) {
    #[cfg(gecs_verif)]
    gecs::version::verif::set_version_start(slot, arch);
    #[cfg(not(gecs_verif))]
    let _ = (slot, arch);
}

pub fn key_of(any: EntityAny, typed: bool) -> Key {
    Key::ent(any, typed)
}

impl<W: HWorld> Sys<W> {
    pub fn new(caps: &[usize]) -> Self {
        Self::new_preset(caps, 1, 1)
    }

    /// A world whose positions start at generation `slot` and whose archetypes start at version `arch`,
    /// as after that many reuses / removals. Growth starts new positions at 1, as always.
    pub fn new_preset(caps: &[usize], slot: u32, arch: u32) -> Self {
        use std::num::NonZeroU32;
        let one = NonZeroU32::MIN;
        set_version_start(NonZeroU32::new(slot).unwrap(), NonZeroU32::new(arch).unwrap());
        let w = std::panic::catch_unwind(|| W::build(caps));
        set_version_start(one, one);
        let w = match w {
            Ok(w) => w,
            Err(e) => std::panic::resume_unwind(e),
        };
        Sys { m: Model::new::<W>(&w), w }
    }

    pub fn wrap(w: W) -> Self {
        Sys { m: Model::new::<W>(&w), w }
    }

    pub fn fork(&self) -> Self {
        Sys { w: self.w.clone(), m: self.m.clone() }
    }

    pub fn fresh_vals(&mut self, a: usize) -> Vals {
        self.m.serial += 1;
        raw_vals::<W>(a, self.m.serial)
    }

    /// Creates an entity. Returns its index in the model, or `None` if it was refused for capacity.
    pub fn create(&mut self, a: usize, how: How) -> R<Option<usize>> {
        let raw = self.fresh_vals(a);
        let want = normed::<W>(a, &raw);
        let (len, cap) = (self.m.live[a].len(), self.w.cap_of(a));
        match self.w.create_e(a, how, &raw) {
            Ok(any) => {
                ensure!(!how.within() || len < cap, "{how:?} succeeded although the archetype was full (len {len}, capacity {cap})");
                ensure!(!how.within() || self.w.cap_of(a) == cap, "{how:?} changed the capacity from {cap} to {}", self.w.cap_of(a));
                Ok(Some(self.record(a, any, want)?))
            }
            Err(back) => {
                ensure!(how.within(), "{how:?} was refused");
                ensure!(len >= cap, "{how:?} was refused although there is room (len {len}, capacity {cap})");
                ensure!(back == want, "{how:?} was refused but returned other components: {back:?} instead of {want:?}");
                ensure!(self.w.cap_of(a) == cap, "refused {how:?} changed the capacity from {cap} to {}", self.w.cap_of(a));
                Ok(None)
            }
        }
    }

    /// Books a successful creation in the model.
    pub fn record(&mut self, a: usize, any: EntityAny, want: Vals) -> R<usize> {
        ensure!(any.archetype_id() == W::info(a).id, "created handle carries archetype id {} instead of {}", any.archetype_id(), W::info(a).id);
        if self.m.unique {
            if let Some(i) = self.m.ents.iter().position(|e| e.any == any) {
                fail!("handle {any:?} was issued twice (first for entity #{i}, now for #{})", self.m.ents.len());
            }
        }
        let i = self.m.ents.len();
        let pos = self.m.live[a].len();
        self.m.ents.push(Ent { arch: a, any, alive: true, vals: want, pos });
        self.m.live[a].push(i);
        self.m.changes[a] += 1;
        if cfg!(feature = "ev") {
            self.m.created[a].push(any);
        }
        Ok(i)
    }

    /// Books a destruction in the model.
    pub fn bury(&mut self, i: usize) {
        let a = self.m.ents[i].arch;
        self.m.ents[i].alive = false;
        let p = self.m.ents[i].pos;
        self.m.live[a].swap_remove(p);
        if let Some(moved) = self.m.live[a].get(p) {
            self.m.ents[*moved].pos = p;
        }
        self.m.removals[a] += 1;
        self.m.changes[a] += 1;
        if cfg!(feature = "ev") {
            let any = self.m.ents[i].any;
            self.m.destroyed[a].push(any);
        }
    }

    /// Destroys entity `i` of the model by one of eight ways (bit 0: dynamic key, bit 1: direct key,
    /// bit 2: archetype level). Dead entities must be refused.
    pub fn destroy(&mut self, i: usize, way: usize) -> R {
        let e = self.m.ents[i];
        let (typed, direct, at_world) = (way & 1 == 0, way & 2 != 0, way & 4 == 0);
        let key = if direct {
            match self.w.look(e.arch, Look::ArchToDirect, Key::ent(e.any, typed)) {
                Some(seen) => Key::dir(seen.direct.unwrap(), typed),
                None if e.alive => fail!("to_direct refused live entity #{i} ({:?})", e.any),
                None => return Ok(()),
            }
        } else {
            Key::ent(e.any, typed)
        };
        self.destroy_key(i, key, at_world)
    }

    pub fn destroy_key(&mut self, i: usize, key: Key, at_world: bool) -> R {
        let e = self.m.ents[i];
        match self.w.destroy_e(e.arch, at_world, key) {
            None => ensure!(!e.alive, "destroy({key:?}) refused live entity #{i} ({:?})", e.any),
            Some(vals) => {
                ensure!(e.alive, "destroy({key:?}) accepted the stale handle of destroyed entity #{i}");
                if let Some(vals) = vals {
                    ensure!(vals == e.vals, "destroy({key:?}) of entity #{i} returned {vals:?} instead of {:?}", e.vals);
                }
                self.bury(i);
            }
        }
        Ok(())
    }

    pub fn write(&mut self, i: usize, path: Write, key: Key, comp: usize) -> R {
        let e = self.m.ents[i];
        self.m.serial += 1;
        let raw = raw_vals::<W>(e.arch, self.m.serial);
        let done = self.w.write(e.arch, path, key, comp, raw.v[comp]);
        ensure!(done, "write through {path:?} with {key:?} did not reach live entity #{i}");
        self.m.ents[i].vals.v[comp] = W::info(e.arch).norm[comp](raw.v[comp]);
        Ok(())
    }

    /// Runs `ecs_iter_destroy!` over archetype `a` (or all), taking each decision from `decide`.
    /// `decide(model, visit number, entity index)` in 0..4: Continue, Break, ContinueDestroy, BreakDestroy.
    pub fn iter_destroy(&mut self, scope: Scope, decide: &mut dyn FnMut(&Model, usize, usize) -> R<u8>) -> R {
        let expected: Vec<usize> = match scope {
            Scope::One(a) => self.m.live[a].clone(),
            Scope::All | Scope::AllWild => self.m.live.iter().flatten().copied().collect(),
        };
        self.iter_destroy_with(
            &expected,
            &mut |w, body| match scope {
                Scope::One(a) => w.iter_destroy_one(a, body),
                Scope::All => w.iter_destroy_all(false, body),
                Scope::AllWild => w.iter_destroy_all(true, body),
            },
            decide,
        )
    }

    /// As `iter_destroy` for any query, given the entities it must visit.
    pub fn iter_destroy_with(
        &mut self,
        expected: &[usize],
        query: &mut dyn FnMut(&mut W, &mut dyn FnMut(Item) -> EcsStepDestroy),
        decide: &mut dyn FnMut(&Model, usize, usize) -> R<u8>,
    ) -> R {
        let finder = Finder::new(&self.m, expected);
        let mut visited: Vec<bool> = vec![false; self.m.ents.len()];
        let mut visits = 0;
        let mut doomed: Vec<usize> = Vec::new();
        let mut stopped = false;
        let mut err: R = Ok(());
        let mut model = self.m.clone();
        let mut body = |item: Item| -> EcsStepDestroy {
            let mut one = || -> R<u8> {
                ensure!(!stopped, "ecs_iter_destroy! went on after Break");
                let Some(i) = finder.find(&model, expected, item.entity) else {
                    fail!("ecs_iter_destroy! presented {:?}, which is not a live matching entity", item.entity)
                };
                ensure!(!visited[i], "ecs_iter_destroy! visited entity #{i} twice");
                check_item::<W>(&model, i, &item, "ecs_iter_destroy!")?;
                if let Some(d) = item.direct {
                    let a = model.ents[i].arch;
                    model.dirs.push(Dir { ent: i, h: d, removals: model.removals[a], changes: model.changes[a] });
                }
                let n = visits;
                visits += 1;
                visited[i] = true;
                let d = decide(&model, n, i)?;
                if d >= 2 {
                    doomed.push(i);
                    let a = model.ents[i].arch;
                    model.removals[a] += 1;
                    model.changes[a] += 1;
                }
                if d == 1 || d == 3 {
                    stopped = true;
                }
                Ok(d)
            };
            match one() {
                Ok(0) => EcsStepDestroy::Continue,
                Ok(1) => EcsStepDestroy::Break,
                Ok(2) => EcsStepDestroy::ContinueDestroy,
                Ok(_) => EcsStepDestroy::BreakDestroy,
                Err(e) => {
                    if err.is_ok() {
                        err = Err(e);
                    }
                    stopped = true;
                    EcsStepDestroy::Break
                }
            }
        };
        query(&mut self.w, &mut body);
        err?;
        ensure!(stopped || visits == expected.len(), "ecs_iter_destroy! visited {visits} of {} entities", expected.len());
        // Removals were counted while the loop ran; `bury` counts them for the model proper.
        self.m.dirs = model.dirs;
        for i in doomed {
            self.bury(i);
        }
        Ok(())
    }

    /// Obtains a direct handle for live entity `i` by `to_direct` and keeps it.
    pub fn issue_direct(&mut self, i: usize, path: Look, key: Key) -> R<usize> {
        let e = self.m.ents[i];
        let Some(seen) = self.w.look(e.arch, path, key) else { fail!("{path:?} refused live entity #{i} with {key:?}") };
        let h = seen.direct.unwrap();
        self.keep_direct(i, h);
        Ok(self.m.dirs.len() - 1)
    }

    pub fn keep_direct(&mut self, i: usize, h: EntityDirectAny) {
        let a = self.m.ents[i].arch;
        self.m.dirs.push(Dir { ent: i, h, removals: self.m.removals[a], changes: self.m.changes[a] });
    }

    // -----------------------------------------------------------------------------------------
    // Oracles

    fn check_seen(&mut self, i: usize, seen: &Seen, path: Look, key: Key) -> R {
        let e = self.m.ents[i];
        if let Some(any) = seen.entity {
            ensure!(any == e.any, "{path:?}({key:?}) found another entity: {any:?}, should be #{i} {:?}", e.any);
        }
        if let Some(vals) = seen.vals {
            ensure!(vals == e.vals, "{path:?}({key:?}) found other component values: {vals:?}, entity #{i} has {:?}", e.vals);
        }
        if let Some(idx) = seen.index {
            ensure!(idx < self.m.live[e.arch].len(), "{path:?}({key:?}) resolved to index {idx} of {}", self.m.live[e.arch].len());
        }
        if let Some(d) = seen.direct {
            ensure!(d.archetype_id() == W::info(e.arch).id, "{path:?}({key:?}) returned a direct handle of archetype {}", d.archetype_id());
            let at_once = self.w.look(e.arch, Look::ArchBorrow, Key::dir(d, false));
            match at_once {
                Some(s) => ensure!(s.entity == Some(e.any) && s.vals == Some(e.vals), "the direct handle {path:?}({key:?}) returned designates {:?}, not #{i} {:?}", s.entity, e.any),
                None => fail!("the direct handle {path:?}({key:?}) returned is not accepted"),
            }
        }
        Ok(())
    }

    /// One lookup of entity `i`: found if and only if alive, and then the right one.
    pub fn probe_look(&mut self, i: usize, path: Look, key: Key) -> R {
        let e = self.m.ents[i];
        match self.w.look(e.arch, path, key) {
            None => ensure!(!e.alive, "{path:?}({key:?}) does not find live entity #{i}"),
            Some(seen) => {
                ensure!(e.alive, "{path:?}({key:?}) accepts the stale handle of destroyed entity #{i}, finding {seen:?}");
                self.check_seen(i, &seen, path, key)?;
            }
        }
        Ok(())
    }

    /// C01: every handle ever issued, through every lookup path, with every key kind.
    pub fn probe_handles(&mut self, ch: &mut Ch) -> R {
        for i in 0..self.m.ents.len() {
            let e = self.m.ents[i];
            for typed in [true, false] {
                let key = Key::ent(e.any, typed);
                for path in Look::ALL.iter().copied().filter(|p| p.takes(typed)) {
                    self.probe_look(i, path, key)?;
                    ch.stats.probes += 1;
                }
                if e.alive {
                    let Some(seen) = self.w.look(e.arch, Look::ArchToDirect, key) else { fail!("to_direct({key:?}) refused live entity #{i}") };
                    let dkey = Key::dir(seen.direct.unwrap(), typed);
                    for path in Look::ALL.iter().copied().filter(|p| p.takes(typed)) {
                        self.probe_look(i, path, dkey)?;
                        ch.stats.probes += 1;
                    }
                } else {
                    for at_world in [true, false] {
                        ensure!(self.w.destroy_e(e.arch, at_world, key).is_none(), "destroy({key:?}) accepts the stale handle of destroyed entity #{i}");
                        ch.stats.probes += 1;
                    }
                }
            }
        }
        self.health()
    }

    /// As `probe_handles`, with one representative path per internal mechanism (for deep trees).
    pub fn probe_handles_fast(&mut self, ch: &mut Ch) -> R {
        for i in 0..self.m.ents.len() {
            let e = self.m.ents[i];
            let key = Key::ent(e.any, i % 2 == 0);
            for path in [Look::ArchBorrow, Look::WorldContains, Look::Find] {
                self.probe_look(i, path, key)?;
                ch.stats.probes += 1;
            }
            if !e.alive {
                ensure!(self.w.destroy_e(e.arch, true, key).is_none(), "destroy({key:?}) accepts the stale handle of destroyed entity #{i}");
            }
        }
        self.health()
    }

    /// The live entity the given handle value is bit-identical to a handle of.
    pub fn identical(&mut self, h: H) -> Option<usize> {
        match h {
            H::E(any) => self.m.ents.iter().position(|e| e.alive && e.any == any),
            H::D(d) => {
                let a = (0..W::N).find(|a| W::info(*a).id == d.archetype_id())?;
                let live = self.m.live[a].clone();
                live.into_iter().find(|i| {
                    let any = self.m.ents[*i].any;
                    self.w.look(a, Look::ArchToDirect, Key::ent(any, true)).and_then(|s| s.direct) == Some(d)
                })
            }
        }
    }

    /// C03: any handle value whatsoever, offered to archetype `a` or the world. It must be absent (or
    /// panic) unless it is bit-identical to a live entity's handle, and then reach that entity.
    pub fn probe_forged(&mut self, a: usize, key: Key, looks: &[Look], ch: &mut Ch) -> R {
        let same = self.identical(key.h);
        for &path in looks.iter().filter(|p| p.takes(key.typed)) {
            ch.stats.probes += 1;
            let Some(found) = crate::explore::panics(|| self.w.look(a, path, key)) else {
                ch.stats.panics += 1;
                continue;
            };
            let Some(seen) = found else { continue };
            let Some(i) = same else { fail!("{path:?} of archetype {} accepts {key:?}, which is not the handle of any live entity; finds {seen:?}", W::info(a).name) };
            let e = self.m.ents[i];
            let typed_other = key.typed && e.arch != a;
            ensure!(!typed_other, "{path:?} accepts {key:?} as a handle of archetype {}, finds {seen:?}", W::info(a).name);
            ensure!(e.arch == a || seen.vals.is_none(), "{path:?} of archetype {} accepts {key:?}, finds {seen:?}", W::info(a).name);
            ensure!(path != Look::ArchResolve || seen.entity.is_some(), "{path:?}({key:?}) resolved to index {:?}, which is out of range", seen.index);
            self.check_seen(i, &seen, path, key)?;
        }
        Ok(())
    }

    /// As `probe_forged`, for the operations that would change something.
    pub fn probe_forged_ops(&mut self, a: usize, key: Key, writes: &[Write], ch: &mut Ch) -> R {
        if self.identical(key.h).is_some_and(|i| self.m.ents[i].arch == a || !key.typed) {
            return Ok(()); // Reaches that entity: decided elsewhere.
        }
        for at_world in [true, false] {
            ch.stats.probes += 1;
            match crate::explore::panics(|| self.w.destroy_e(a, at_world, key)) {
                None => ch.stats.panics += 1,
                Some(None) => {}
                Some(Some(vals)) => fail!("destroy({key:?}) on archetype {} accepts a handle that no live entity of it has; returned {vals:?}", W::info(a).name),
            }
        }
        for &path in writes {
            if !key.typed && matches!(path, Write::WorldView | Write::WorldBorrow) {
                continue;
            }
            ch.stats.probes += 1;
            match crate::explore::panics(|| self.w.write(a, path, key, 0, 0xBAD)) {
                None => ch.stats.panics += 1,
                Some(false) => {}
                Some(true) => fail!("write through {path:?} with {key:?} reached something in archetype {}", W::info(a).name),
            }
        }
        Ok(())
    }

    /// C02: every read path of every live entity shows its latest values.
    pub fn probe_values(&mut self, ch: &mut Ch) -> R {
        for i in 0..self.m.ents.len() {
            if !self.m.ents[i].alive {
                continue;
            }
            let e = self.m.ents[i];
            for typed in [true, false] {
                let key = Key::ent(e.any, typed);
                for path in Look::ALL.iter().copied().filter(|p| p.takes(typed)) {
                    self.probe_look(i, path, key)?;
                    ch.stats.probes += 1;
                }
            }
        }
        for a in 0..W::N {
            for path in Scan::ALL {
                self.probe_scan(a, *path, ch)?;
            }
        }
        self.health()
    }

    /// C06: one complete pass presents every live entity exactly once with its own data.
    pub fn probe_scan(&mut self, a: usize, path: Scan, ch: &mut Ch) -> R {
        let model = &self.m;
        let mut seen = Seens::new(model, &model.live[a]);
        let mut err: R = Ok(());
        self.w.scan(a, path, &mut |item| {
            let r = scan_item::<W>(model, &model.live[a], &mut seen, &item, path.name());
            if r.is_err() && err.is_ok() {
                err = r;
            }
            err.is_ok()
        });
        err?;
        ch.stats.probes += 1;
        let n = self.m.live[a].len();
        ensure!(seen.n == n, "{path:?} over {} presented {} of {n} entities", W::info(a).name, seen.n);
        Ok(())
    }

    pub fn probe_scan_all(&mut self, path: ScanAll, ch: &mut Ch) -> R {
        let model = &self.m;
        let all: Vec<usize> = model.live.iter().flatten().copied().collect();
        let mut seen = Seens::new(model, &all);
        let mut err: R = Ok(());
        self.w.scan_all(path, &mut |item| {
            let r = scan_item::<W>(model, &all, &mut seen, &item, "query over all archetypes");
            if r.is_err() && err.is_ok() {
                err = r;
            }
            err.is_ok()
        });
        err?;
        ch.stats.probes += 1;
        ensure!(seen.n == all.len(), "{path:?} presented {} of {} entities", seen.n, all.len());
        Ok(())
    }

    /// C06: all passes, plus the lengths of everything that has one.
    pub fn probe_iteration(&mut self, ch: &mut Ch) -> R {
        for a in 0..W::N {
            for path in Scan::ALL {
                self.probe_scan(a, *path, ch)?;
            }
            self.probe_lens(a)?;
        }
        for path in ScanAll::ALL {
            self.probe_scan_all(*path, ch)?;
        }
        self.health()
    }

    pub fn probe_lens(&mut self, a: usize) -> R {
        let n = self.m.live[a].len();
        ensure!(self.w.len_of(a) == n, "len() of {} is {} with {n} live entities", W::info(a).name, self.w.len_of(a));
        let mut bad = None;
        self.w.slice_lens(a, &mut |what, len| {
            if len != n && bad.is_none() {
                bad = Some((what, len));
            }
        });
        if let Some((what, len)) = bad {
            fail!("{what} of {} has length {len} with {n} live entities", W::info(a).name);
        }
        let mut handles = Vec::with_capacity(n);
        self.w.entities_of(a, &mut |e| handles.push(e));
        let mut seen = Seens::new(&self.m, &self.m.live[a]);
        for h in handles {
            let item = Item { arch: a, entity: h, direct: None, vals: None };
            scan_item::<W>(&self.m, &self.m.live[a], &mut seen, &item, "entities()")?;
        }
        ensure!(seen.n == n, "entities() of {} lists {} of {n} live entities", W::info(a).name, seen.n);
        Ok(())
    }

    /// C12: counters.
    pub fn probe_counts(&mut self, ch: &mut Ch) -> R {
        for a in 0..W::N {
            let n = self.m.live[a].len();
            let (len, cap) = (self.w.len_of(a), self.w.cap_of(a));
            let name = W::info(a).name;
            ch.stats.probes += 3;
            ensure!(len == n, "len() of {name} is {len} with {n} live entities");
            ensure!(self.w.empty_of(a) == (n == 0), "is_empty() of {name} is {} with {n} live entities", self.w.empty_of(a));
            ensure!(cap >= len, "capacity() of {name} is {cap} with {n} live entities");
            ensure!(cap >= self.m.caps[a], "capacity() of {name} decreased from {} to {cap}", self.m.caps[a]);
            self.m.caps[a] = cap;
        }
        Ok(())
    }

    /// C12: fills the archetype to its capacity and one over, without growth.
    pub fn refill(&mut self, a: usize) -> R {
        let cap = self.w.cap_of(a);
        let room = cap - self.m.live[a].len();
        for k in 0..room {
            if self.create(a, How::WorldWithin)?.is_none() {
                fail!("only {k} of {room} free positions of {} could be used", W::info(a).name);
            }
        }
        ensure!(self.create(a, How::ArchWithin)?.is_none(), "creation within capacity succeeded at len == capacity");
        Ok(())
    }

    /// C09: every direct handle ever kept, through every lookup path; `destroy_too` also offers the
    /// ones that must be refused to destroy.
    pub fn probe_directs(&mut self, ch: &mut Ch, full: bool) -> R {
        for k in 0..self.m.dirs.len() {
            let d = self.m.dirs[k];
            let e = self.m.ents[d.ent];
            let a = e.arch;
            let removed = self.m.removals[a] != d.removals;
            let changed = self.m.changes[a] != d.changes;
            for typed in [true, false] {
                let key = Key::dir(d.h, typed);
                for path in Look::ALL.iter().copied().filter(|p| p.takes(typed)) {
                    if !full && !matches!(path, Look::ArchBorrow | Look::Find | Look::ArchToDirect) {
                        continue;
                    }
                    ch.stats.probes += 1;
                    match self.w.look(a, path, key) {
                        None => ensure!(changed, "{path:?}({key:?}) refuses the direct handle of entity #{} although its archetype did not change", d.ent),
                        Some(seen) => {
                            ensure!(!removed, "{path:?}({key:?}) accepts a direct handle issued (for entity #{}) before a removal; finds {seen:?}", d.ent);
                            self.check_seen(d.ent, &seen, path, key)?;
                        }
                    }
                }
                if removed {
                    for at_world in [true, false] {
                        ensure!(self.w.destroy_e(a, at_world, key).is_none(), "destroy({key:?}) accepts a direct handle issued (for entity #{}) before a removal", d.ent);
                    }
                }
            }
        }
        self.health()
    }

    /// C17 at archetype level (world level is checked by the scenarios, which know the trait).
    #[cfg(feature = "ev")]
    pub fn probe_events(&mut self, ch: &mut Ch) -> R {
        fn same(what: &str, name: &str, got: &[EntityAny], want: &[EntityAny]) -> R {
            ensure!(multiset_eq(got, want), "{what} of {name} is {got:?}, should be {want:?}");
            Ok(())
        }
        for a in 0..W::N {
            let (created, destroyed) = self.w.events_of(a);
            same("created-event list", W::info(a).name, &created, &self.m.created[a])?;
            same("destroyed-event list", W::info(a).name, &destroyed, &self.m.destroyed[a])?;
            ch.stats.probes += 2;
        }
        let (nc, nd) = (self.m.created.iter().map(|v| v.len()).sum::<usize>(), self.m.destroyed.iter().map(|v| v.len()).sum::<usize>());
        for (what, n, want) in [("iter_created", nc, &self.m.created), ("iter_destroyed", nd, &self.m.destroyed)] {
            let all: Vec<EntityAny> = want.iter().flatten().copied().collect();
            let mut got = Vec::new();
            let mut it: Box<dyn Iterator<Item = &EntityAny>> = if what == "iter_created" { Box::new(self.w.iter_created()) } else { Box::new(self.w.iter_destroyed()) };
            for left in (0..=n).rev() {
                ensure!(it.size_hint() == (left, Some(left)), "world {what}: size_hint is {:?} with {left} events left of {n}", it.size_hint());
                match it.next() {
                    Some(e) => {
                        ensure!(left > 0, "world {what}: more than {n} events");
                        got.push(*e);
                    }
                    None => ensure!(left == 0, "world {what}: ended with {left} events left of {n}"),
                }
                ch.stats.probes += 1;
            }
            ensure!(it.next().is_none(), "world {what}: yields events after its end");
            ensure!(it.size_hint() == (0, Some(0)), "world {what}: size_hint is {:?} after the end", it.size_hint());
            drop(it);
            same(&format!("world {what}"), "all archetypes", &got, &all)?;
        }
        Ok(())
    }

    /// Every short script of iterator calls on the world's event iterators answers as on a list.
    #[cfg(feature = "ev")]
    pub fn probe_event_scripts(&mut self, len: usize, ch: &mut Ch) -> R {
        for destroyed in [false, true] {
            let m = if destroyed { &self.m.destroyed } else { &self.m.created };
            let n: usize = m.iter().map(|v| v.len()).sum();
            let what = if destroyed { "iter_destroyed()" } else { "iter_created()" };
            let run = |script: &[It]| if destroyed { run_script(self.w.iter_destroyed(), |e| *e, script) } else { run_script(self.w.iter_created(), |e| *e, script) };
            let Ev::Items(list) = run(&[It::Loop]).remove(0) else { unreachable!() };
            ensure!(list.len() == n, "world {what}: a loop sees {} of {n} events", list.len());
            let mut steps = vec![It::Next, It::Hint, It::Take(2), It::Skip(1), It::Any(1)];
            for k in 0..=n + 1 {
                steps.push(It::Nth(k));
            }
            let ends: Vec<Option<It>> = std::iter::once(None).chain(It::ENDS.into_iter().map(Some)).collect();
            for k in 0..=len {
                for code in 0..steps.len().pow(k as u32) {
                    let mut script: Vec<It> = Vec::new();
                    let mut c = code;
                    for _ in 0..k {
                        script.push(steps[c % steps.len()]);
                        c /= steps.len();
                    }
                    for end in ends.iter().copied() {
                        let mut script = script.clone();
                        script.extend(end);
                        let got = run(&script);
                        let want = run_script(list.iter().copied(), |x| x, &script);
                        ensure!(got == want, "world {what} with {n} events, calls {script:?}: answers {got:?}, should be {want:?}");
                        ch.stats.probes += 1;
                    }
                }
            }
        }
        Ok(())
    }

    #[cfg(not(feature = "ev"))]
    pub fn probe_event_scripts(&mut self, _len: usize, _ch: &mut Ch) -> R {
        Ok(())
    }

    #[cfg(not(feature = "ev"))]
    pub fn probe_events(&mut self, _ch: &mut Ch) -> R {
        Ok(())
    }

    pub fn clear_events(&mut self, scope: Option<usize>) {
        #[cfg(feature = "ev")]
        match scope {
            None => {
                World::clear_events(&mut self.w);
                for a in 0..W::N {
                    self.m.created[a].clear();
                    self.m.destroyed[a].clear();
                }
            }
            Some(a) => {
                self.w.clear_events_of(a);
                self.m.created[a].clear();
                self.m.destroyed[a].clear();
            }
        }
        let _ = scope;
    }

    /// All oracles.
    pub fn probe_all(&mut self, ch: &mut Ch) -> R {
        self.probe_counts(ch)?;
        self.probe_handles(ch)?;
        self.probe_directs(ch, true)?;
        self.probe_iteration(ch)?;
        self.probe_events(ch)
    }

    /// All oracles, representative paths.
    pub fn probe_quick(&mut self, ch: &mut Ch) -> R {
        self.probe_counts(ch)?;
        self.probe_handles_fast(ch)?;
        self.probe_directs(ch, false)?;
        for a in 0..W::N {
            self.probe_lens(a)?;
            self.probe_scan(a, Scan::EcsIter, ch)?;
            self.probe_scan(a, Scan::ArchIterMut, ch)?;
        }
        self.probe_events(ch)
    }

    /// The components the model says this world owns.
    pub fn owned(&self) -> (i64, i64) {
        let mut n = (0, 0);
        for a in 0..W::N {
            let c = W::info(a).counts;
            let k = self.m.live[a].len() as i64;
            n.0 += c.0 * k;
            n.1 += c.1 * k;
        }
        n
    }

    pub fn health(&self) -> R {
        health()
    }
}

pub fn health() -> R {
    if let Some(e) = reg::take_error() {
        fail!("{e}");
    }
    if let Some(e) = crate::guard::take_error() {
        fail!("memory error: {e}");
    }
    Ok(())
}

/// C04: exactly the components the worlds own are alive.
pub fn probe_ownership<W: HWorld>(worlds: &[&Sys<W>]) -> R {
    let mut want = (0, 0);
    for s in worlds {
        let o = s.owned();
        want = (want.0 + o.0, want.1 + o.1);
    }
    let have = reg::live();
    ensure!(have == want, "{} component values and {} zero-sized ones are alive, the live entities own {} and {}", have.0, have.1, want.0, want.1);
    health()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scope {
    One(usize),
    All,
    AllWild,
}

impl Scan {
    pub fn name(self) -> &'static str {
        match self {
            Scan::ArchIter => "Archetype::iter",
            Scan::ArchIterMut => "Archetype::iter_mut",
            Scan::EcsIter => "ecs_iter! (&)",
            Scan::EcsIterMut => "ecs_iter! (&mut)",
            Scan::EcsIterBorrow => "ecs_iter_borrow! (&)",
            Scan::EcsIterBorrowMut => "ecs_iter_borrow! (&mut)",
            Scan::EcsIterDestroy => "ecs_iter_destroy! (Continue)",
            Scan::Slices => "entities()/get_slice",
            Scan::SlicesMut => "entities()/get_slice_mut",
            Scan::BorrowSlices => "entities()/borrow_slice",
            Scan::BorrowSlicesMut => "entities()/borrow_slice_mut",
            Scan::AllSlices => "get_all_slices_mut",
        }
    }
}

fn check_item<W: HWorld>(model: &Model, i: usize, item: &Item, what: &str) -> R {
    let e = &model.ents[i];
    if let Some(vals) = item.vals {
        ensure!(vals == e.vals, "{what} paired {:?} (entity #{i}) with {vals:?}, its values are {:?}", e.any, e.vals);
    }
    if let Some(d) = item.direct {
        ensure!(d.archetype_id() == W::info(e.arch).id, "{what} presented a direct handle of archetype {}", d.archetype_id());
    }
    Ok(())
}

/// Finds live entities by handle: linearly while they are few, else by a map.
pub struct Finder(Option<std::collections::HashMap<u64, usize, Fast>>);

/// A quick hasher for the harness's own maps (gecs's `Hash` is not involved).
#[derive(Clone, Copy, Default)]
pub struct Fast(u64);
impl std::hash::BuildHasher for Fast {
    type Hasher = Fast;
    fn build_hasher(&self) -> Fast {
        Fast(0)
    }
}
impl std::hash::Hasher for Fast {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        let x = (x ^ (x >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = x ^ (x >> 32);
    }
}

pub fn bits(any: EntityAny) -> u64 {
    let (k, v) = any.raw();
    (k as u64) << 32 | v as u64
}

impl Finder {
    pub fn new(model: &Model, expected: &[usize]) -> Self {
        Finder((expected.len() > 48).then(|| expected.iter().map(|i| (bits(model.ents[*i].any), *i)).collect()))
    }
    #[inline]
    pub fn find(&self, model: &Model, expected: &[usize], any: EntityAny) -> Option<usize> {
        match &self.0 {
            None => expected.iter().copied().find(|i| model.ents[*i].any == any),
            Some(map) => map.get(&bits(any)).copied(),
        }
    }
}

/// Exactly-once bookkeeping of a pass.
pub struct Seens {
    finder: Finder,
    seen: Vec<bool>,
    pub n: usize,
}

impl Seens {
    pub fn new(model: &Model, expected: &[usize]) -> Self {
        Seens { finder: Finder::new(model, expected), seen: vec![false; model.ents.len()], n: 0 }
    }
}

pub fn scan_item<W: HWorld>(model: &Model, expected: &[usize], seen: &mut Seens, item: &Item, what: &str) -> R {
    let Some(i) = seen.finder.find(model, expected, item.entity) else {
        fail!("{what} presented {:?}, which is not a live matching entity", item.entity)
    };
    ensure!(!seen.seen[i], "{what} presented entity #{i} twice");
    seen.seen[i] = true;
    seen.n += 1;
    check_item::<W>(model, i, item, what)
}

pub fn multiset_eq(a: &[EntityAny], b: &[EntityAny]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x: Vec<(u32, u32)> = a.iter().map(|e| e.raw()).collect();
    let mut y: Vec<(u32, u32)> = b.iter().map(|e| e.raw()).collect();
    x.sort();
    y.sort();
    x == y
}

/// Unique values for a new entity of archetype `a`.
pub fn raw_vals<W: HWorld>(a: usize, serial: u32) -> Vals {
    let mut v = Vals::empty();
    for i in 0..W::info(a).comps {
        v.push(serial << 6 | i as u32);
    }
    v
}

pub fn normed<W: HWorld>(a: usize, raw: &Vals) -> Vals {
    let mut v = *raw;
    let info = W::info(a);
    for i in 0..info.comps {
        v.v[i] = info.norm[i](raw.v[i]);
    }
    v
}

impl Model {
    fn new<W: HWorld>(w: &W) -> Self {
        Model {
            ents: Vec::new(),
            dirs: Vec::new(),
            live: vec![Vec::new(); W::N],
            removals: vec![0; W::N],
            changes: vec![0; W::N],
            caps: (0..W::N).map(|a| w.cap_of(a)).collect(),
            created: vec![Vec::new(); W::N],
            destroyed: vec![Vec::new(); W::N],
            serial: 0,
            unique: true,
        }
    }
}
