//! Histories: the choice tree of all operation sequences over a configured alphabet, run on real
//! worlds next to their models.

use gecs::prelude::*;

use crate::explore::{Ch, R};
use crate::harness::*;
use crate::sys::*;

#[derive(Clone)]
pub struct HistCfg {
    pub depth: usize,
    /// Archetypes that take part.
    pub arches: Vec<usize>,
    /// Alternatives for the initial capacities (one value per archetype each).
    pub caps: Vec<Vec<usize>>,
    pub hows: Vec<How>,
    /// Creation stops being offered at this many live entities per archetype.
    pub max_live: usize,
    /// Ways of destroying (0..8, see `Sys::destroy`).
    pub ways: Vec<usize>,
    /// Offer `ecs_iter_destroy!` with every decision sequence over these scopes.
    pub iter_destroy: Vec<Scope>,
    /// Decisions offered at each visit (0..4); default all four.
    pub decisions: Vec<u8>,
    /// Number of worlds that may exist (1: no clone).
    pub worlds: usize,
    /// Offer dropping one of several worlds.
    pub drops: bool,
    /// Write paths x (all components) to offer for every live entity, with these key kinds.
    pub writes: Vec<Write>,
    pub write_keys: Vec<usize>,
    /// Offer obtaining direct handles: by these lookup paths.
    pub directs: Vec<Look>,
    /// Only offer `to_direct` while fewer than this many direct handles are kept.
    pub max_directs: usize,
    /// Offer direct handles obtained from query closures.
    pub direct_scans: Vec<Scan>,
    /// Offer destroying through a kept direct handle that is still guaranteed to be valid.
    pub destroy_kept: bool,
    pub clear_events: bool,
    /// Starting generation / archetype version alternatives.
    pub presets: Vec<(u32, u32)>,
    /// Number of (independent) worlds at the start.
    pub start: usize,
}

impl HistCfg {
    pub fn new(depth: usize, arches: &[usize], caps: &[&[usize]]) -> Self {
        HistCfg {
            depth,
            arches: arches.to_vec(),
            caps: caps.iter().map(|c| c.to_vec()).collect(),
            hows: vec![How::World],
            max_live: usize::MAX,
            ways: vec![0],
            iter_destroy: vec![],
            decisions: vec![0, 1, 2, 3],
            worlds: 1,
            drops: false,
            writes: vec![],
            write_keys: vec![0],
            directs: vec![],
            max_directs: usize::MAX,
            direct_scans: vec![],
            destroy_kept: false,
            clear_events: false,
            presets: vec![(1, 1)],
            start: 1,
        }
    }
    pub fn with(mut self, f: impl FnOnce(&mut Self)) -> Self {
        f(&mut self);
        self
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Create(usize, usize, How),
    Destroy(usize, usize, usize),
    IterDestroy(usize, Scope),
    Clone(usize),
    DropWorld(usize),
    Write(usize, usize, Write, usize, usize),
    Direct(usize, usize, Look, bool),
    DirectScan(usize, usize, Scan),
    DestroyKept(usize, usize, usize),
    ClearEvents(usize, Option<usize>),
}

/// The operations possible now.
pub fn menu<W: HWorld>(cfg: &HistCfg, worlds: &[Sys<W>]) -> Vec<Op> {
    let mut ops = Vec::new();
    for (s, sys) in worlds.iter().enumerate() {
        for &a in &cfg.arches {
            if sys.m.live[a].len() < cfg.max_live {
                for &how in &cfg.hows {
                    ops.push(Op::Create(s, a, how));
                }
            }
        }
        for &a in &cfg.arches {
            for &i in &sys.m.live[a] {
                for &way in &cfg.ways {
                    ops.push(Op::Destroy(s, i, way));
                }
            }
        }
        for &scope in &cfg.iter_destroy {
            let any = match scope {
                Scope::One(a) => !sys.m.live[a].is_empty(),
                _ => sys.m.live.iter().any(|l| !l.is_empty()),
            };
            if any {
                ops.push(Op::IterDestroy(s, scope));
            }
        }
        for &a in &cfg.arches {
            for &i in &sys.m.live[a] {
                for &path in &cfg.writes {
                    for comp in 0..W::info(a).comps {
                        for &k in &cfg.write_keys {
                            ops.push(Op::Write(s, i, path, comp, k));
                        }
                    }
                }
                if sys.m.dirs.len() < cfg.max_directs {
                    for &path in &cfg.directs {
                        for typed in [true, false] {
                            ops.push(Op::Direct(s, i, path, typed));
                        }
                    }
                }
            }
            if !sys.m.live[a].is_empty() && sys.m.dirs.len() < cfg.max_directs {
                for &scan in &cfg.direct_scans {
                    ops.push(Op::DirectScan(s, a, scan));
                }
            }
        }
        if cfg.destroy_kept {
            for (k, d) in sys.m.dirs.iter().enumerate() {
                let e = &sys.m.ents[d.ent];
                if e.alive && sys.m.changes[e.arch] == d.changes {
                    for way in 0..4 {
                        ops.push(Op::DestroyKept(s, k, way));
                    }
                }
            }
        }
        if cfg.clear_events {
            ops.push(Op::ClearEvents(s, None));
            for &a in &cfg.arches {
                ops.push(Op::ClearEvents(s, Some(a)));
            }
        }
        if worlds.len() < cfg.worlds {
            ops.push(Op::Clone(s));
        }
        if cfg.drops && worlds.len() > 1 {
            ops.push(Op::DropWorld(s));
        }
    }
    ops
}

pub fn way_key<W: HWorld>(sys: &mut Sys<W>, i: usize, k: usize) -> Key {
    let e = sys.m.ents[i];
    let typed = k & 1 == 0;
    if k & 2 == 0 {
        Key::ent(e.any, typed)
    } else {
        let seen = sys.w.look(e.arch, Look::ArchToDirect, Key::ent(e.any, typed)).expect("to_direct of a live entity");
        Key::dir(seen.direct.unwrap(), typed)
    }
}

pub fn apply<W: HWorld>(cfg: &HistCfg, worlds: &mut Vec<Sys<W>>, op: Op, ch: &mut Ch) -> R {
    ch.note(|| format!("{op:?}"));
    match op {
        Op::Create(s, a, how) => {
            worlds[s].create(a, how)?;
        }
        Op::Destroy(s, i, way) => worlds[s].destroy(i, way)?,
        Op::IterDestroy(s, scope) => {
            let decisions = &cfg.decisions;
            worlds[s].iter_destroy(scope, &mut |_, n, i| {
                let d = decisions[ch.choose(decisions.len())?];
                ch.note(|| format!("  visit {n}: entity #{i} -> {}", ["Continue", "Break", "ContinueDestroy", "BreakDestroy"][d as usize]));
                Ok(d)
            })?;
        }
        Op::Clone(s) => {
            let copy = worlds[s].fork();
            worlds.push(copy);
        }
        Op::DropWorld(s) => drop(worlds.remove(s)),
        Op::Write(s, i, path, comp, k) => {
            let key = way_key(&mut worlds[s], i, k);
            worlds[s].write(i, path, key, comp)?;
        }
        Op::Direct(s, i, path, typed) => {
            let key = Key::ent(worlds[s].m.ents[i].any, typed);
            worlds[s].issue_direct(i, path, key)?;
        }
        Op::DirectScan(s, a, scan) => {
            let sys = &mut worlds[s];
            let mut got = Vec::new();
            sys.w.scan(a, scan, &mut |item| {
                got.push((item.entity, item.direct));
                true
            });
            for (e, d) in got {
                let Some(i) = sys.m.live[a].iter().copied().find(|i| sys.m.ents[*i].any == e) else {
                    crate::fail!("{scan:?} presented {e:?}, which is not alive")
                };
                if let Some(d) = d {
                    sys.keep_direct(i, d);
                }
            }
        }
        Op::DestroyKept(s, k, way) => {
            let d = worlds[s].m.dirs[k];
            worlds[s].destroy_key(d.ent, Key::dir(d.h, way & 1 == 0), way & 2 == 0)?;
        }
        Op::ClearEvents(s, scope) => worlds[s].clear_events(scope),
    }
    Ok(())
}

/// Runs one history, probing after every step.
pub fn history<W: HWorld>(ch: &mut Ch, cfg: &HistCfg, probe: &dyn Fn(&mut Ch, &mut Vec<Sys<W>>) -> R) -> R {
    let caps = &cfg.caps[ch.choose(cfg.caps.len())?];
    let preset = cfg.presets[ch.choose(cfg.presets.len())?];
    ch.note(|| format!("capacities {caps:?}, versions start at {preset:?}"));
    let mut worlds: Vec<Sys<W>> = (0..cfg.start).map(|_| Sys::new_preset(caps, preset.0, preset.1)).collect();
    if ch.state() {
        probe(ch, &mut worlds)?;
    }
    for _ in 0..cfg.depth {
        let ops = menu(cfg, &worlds);
        if ops.is_empty() {
            break;
        }
        let op = ops[ch.choose(ops.len())?];
        apply(cfg, &mut worlds, op, ch)?;
        ch.step();
        if ch.state() {
            probe(ch, &mut worlds)?;
        }
    }
    Ok(())
}

/// Starting (generation, archetype version) pairs next to every power-of-two boundary a packed or
/// truncated counter could have, leaving room for `room` increments before the documented overflow.
pub fn presets(room: u32) -> Vec<(u32, u32)> {
    let mut v = boundaries(room);
    // Where the counters wrap there is no end: a history that crosses the boundary is as good as any
    // (a handle may only match again after 2^32 reuses, which no history here comes near).
    if cfg!(feature = "wrapping") {
        v.push((u32::MAX, 5));
        v.push((5, u32::MAX));
        v.push((u32::MAX - 1, u32::MAX - 1));
    }
    v
}

/// The part of `presets` that does not depend on the build.
pub fn boundaries(room: u32) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    for bits in [8, 16, 24, 31] {
        v.push(((1u32 << bits) - 2, 1));
        v.push((1, (1u32 << bits) - 2));
        v.push(((1u32 << bits) - 1, (1u32 << bits) - 1));
    }
    v.push((u32::MAX - room, 5));
    v.push((5, u32::MAX - room));
    v
}
