//! C03: arbitrary, forged or foreign handles are memory-safe and never match by accident.
use std::sync::Arc;

use gecs::prelude::*;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::sys::*;
use mc::worlds::*;
use mc::{ensure, fail};

/// Direct handles of every archetype id, position and version of interest. There is no raw constructor
/// for them, so they are taken from donor worlds whose archetype versions start where needed.
fn mint(far: bool) -> Vec<EntityDirectAny> {
    let mut out = Vec::new();
    let mut versions: Vec<u32> = (1..=if far { 9 } else { 4 }).collect();
    versions.extend([255, 256, 257, 65536, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX]);
    for v in versions {
        let n = if far && v < 3 { 65538 } else if far { 9 } else { 4 };
        mint_from::<Hist>(v, n, &mut out);
        mint_from::<Foreign>(v, if far { 9 } else { 2 }, &mut out);
    }
    out
}

fn mint_from<W: HWorld>(version: u32, n: usize, out: &mut Vec<EntityDirectAny>) {
    let mut sys: Sys<W> = Sys::new_preset(&vec![0; W::N], 1, version);
    sys.m.unique = false;
    for a in 0..W::N {
        for k in 0..n {
            let vals = sys.fresh_vals(a);
            let any = sys.w.create_e(a, How::World, &vals).unwrap();
            if k < 9 || k == 255 || k == 256 || k + 3 > n {
                out.push(sys.w.look(a, Look::ArchToDirect, Key::ent(any, true)).unwrap().direct.unwrap());
            }
        }
    }
}

fn keys(h: H) -> impl Iterator<Item = (Key, bool)> {
    [(false, false), (true, false), (true, true)].into_iter().map(move |(typed, unchecked)| (Key { h, typed, unchecked }, typed))
}

/// Every forged value against every archetype of the world.
fn offer(sys: &mut Sys<Hist>, h: H, id: u8, looks: &[Look], writes: &[Write], ch: &mut Ch) -> R {
    for a in 0..Hist::N {
        let own = Hist::info(a).id == id;
        for (key, _) in keys(h) {
            // Checked typed conversions of another archetype's handle panic: decided by C14.
            if key.typed && !key.unchecked && !own {
                continue;
            }
            if key.unchecked && own {
                continue; // Same value as by the checked conversion.
            }
            sys.probe_forged(a, key, looks, ch)?;
            sys.probe_forged_ops(a, key, writes, ch)?;
        }
    }
    Ok(())
}

/// Raw handles around everything the state contains, plus extremes.
fn forge(sys: &mut Sys<Hist>, directs: &[EntityDirectAny], looks: &[Look], writes: &[Write], ch: &mut Ch) -> R {
    let before = sys.m.clone();
    let mut slots: Vec<u32> = vec![0xFF_FFFF, 0x80_0000, 256];
    if !cfg!(debug_assertions) {
        slots.extend([0xFF_FFFE, 0x7F_FFFF, 65536]);
    }
    let cap = (0..Hist::N).map(|a| sys.w.cap_of(a)).max().unwrap() as u32;
    slots.extend(0..=cap + 1);
    let mut versions: Vec<u32> = vec![1, 2, u32::MAX, u32::MAX - 1, 1 << 31, 1 << 24];
    for e in &sys.m.ents {
        let v = e.any.raw().1;
        versions.extend([v - (v > 1) as u32, v, v.wrapping_add(1).max(1), v ^ 0x100, v ^ 0x1_0000, v ^ 0x8000_0000]);
    }
    versions.retain(|v| *v != 0);
    slots.sort();
    slots.dedup();
    versions.sort();
    versions.dedup();
    for id in [7u8, 8, 2, 0, 3, 255] {
        for &slot in &slots {
            for &version in &versions {
                let raw = (slot << 8 | id as u32, version);
                let any = match EntityAny::from_raw(raw) {
                    Ok(any) => any,
                    Err(e) => fail!("from_raw({raw:?}) failed: {e:?}"),
                };
                ensure!(any.raw() == raw, "from_raw({raw:?}).raw() is {:?}", any.raw());
                offer(sys, H::E(any), id, looks, writes, ch)?;
            }
        }
    }
    for d in directs {
        offer(sys, H::D(*d), d.archetype_id(), looks, writes, ch)?;
    }
    // Nothing may have changed.
    sys.m = before;
    sys.probe_all(ch)
}

const CORE: &[Look] = &[Look::ArchBorrow, Look::WorldContains, Look::Find, Look::ArchToDirect, Look::ArchResolve, Look::ArchView];

/// All handles of one world offered to another.
fn cross(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in 0..worlds.len() {
        for t in 0..worlds.len() {
            if s == t {
                continue;
            }
            for i in 0..worlds[t].m.ents.len() {
                let e = worlds[t].m.ents[i];
                offer(&mut worlds[s], H::E(e.any), e.any.archetype_id(), Look::ALL, Write::ALL_KEYED, ch)?;
                if e.alive {
                    let d = worlds[t].w.look(e.arch, Look::ArchToDirect, Key::ent(e.any, true)).unwrap().direct.unwrap();
                    offer(&mut worlds[s], H::D(d), d.archetype_id(), Look::ALL, Write::ALL_KEYED, ch)?;
                }
            }
            for k in 0..worlds[t].m.dirs.len() {
                let d = worlds[t].m.dirs[k].h;
                offer(&mut worlds[s], H::D(d), d.archetype_id(), Look::ALL, Write::ALL_KEYED, ch)?;
            }
        }
        worlds[s].probe_quick(ch)?;
    }
    Ok(())
}

/// Every slot index (2^24) x the archetype ids x a few versions in one small world.
fn sweep(ch: &mut Ch, all_ids: bool) -> R {
    let shape = ch.choose(3)?;
    let part = ch.choose(16)? as u32;
    let mut sys: Sys<Hist> = Sys::new(&[0, 3, 1]);
    for k in 0..5 {
        sys.create(k % 3, How::World)?;
        sys.create(0, How::World)?;
    }
    match shape {
        0 => {}
        1 => {
            sys.destroy(0, 0)?;
            sys.destroy(3, 0)?;
        }
        _ => {
            for i in 0..10 {
                sys.destroy(i, 0)?;
            }
            sys.create(0, How::World)?;
        }
    }
    if !ch.state() {
        return Ok(());
    }
    ch.note(|| format!("shape {shape}, slots {part} of 16ths of 2^24"));
    let ids: Vec<u8> = if all_ids { (0..=255).collect() } else { vec![7, 8, 2, 0] };
    let live: Vec<(u32, u32)> = sys.m.ents.iter().filter(|e| e.alive).map(|e| e.any.raw()).collect();
    let world = &sys.w;
    for slot in part << 20..(part + 1) << 20 {
        if slot & 0xFFFF == 0 {
            beat();
        }
        for &id in &ids {
            for version in [1, 2, 3] {
                let raw = (slot << 8 | id as u32, version);
                let any = EntityAny::from_raw(raw).unwrap();
                ch.stats.probes += 1;
                let n = world.archetype::<hist::ArchA>().resolve(any).is_some() as u8
                    + world.archetype::<hist::ArchB>().resolve(any).is_some() as u8
                    + world.archetype::<hist::ArchC>().resolve(any).is_some() as u8;
                ensure!(n == live.contains(&raw) as u8, "{any:?} is accepted by {n} archetypes, the live handles are {live:?}");
            }
        }
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    // Panics are slow, and with debug assertions every value out of range panics.
    let d1 = (cfg!(debug_assertions) && tier != Tier::Thorough) as usize;
    let directs = Arc::new(mint(!tier.mini() && d1 == 0));
    for a in 0..3 {
        let d = directs.clone();
        let (looks, writes) = if tier.micro() { (CORE, &[Write::View][..]) } else { (Look::ALL, Write::ALL_KEYED) };
        let cfg = HistCfg::new(tier.depth(4, 6) - d1, &[a], &[&[0, 0, 0], &[1, 1, 1], &[3, 3, 3]]);
        out.push(
            Scenario::new(
                format!("c03-forge-{a}"),
                "raw and direct values around the state (all slots to capacity+1, all ids, versions +-1 and bit flips) in all create/destroy states",
                move |ch| history(ch, &cfg, &|ch: &mut Ch, w: &mut Vec<Sys<Hist>>| forge(&mut w[0], &d, looks, writes, ch)),
            )
            .guarded(),
        );
    }
    let d = directs.clone();
    let cfg = HistCfg::new(tier.depth(4, 5) - d1, &[0, 1, 2], &[&[0, 0, 0], &[1, 2, 3]]);
    out.push(
        Scenario::new(
            "c03-forge-mixed",
            "as above over three archetypes at once, representative paths",
            move |ch| history(ch, &cfg, &|ch: &mut Ch, w: &mut Vec<Sys<Hist>>| forge(&mut w[0], &d, CORE, &[Write::View], ch)),
        )
        .guarded(),
    );
    let d = directs.clone();
    let cfg = HistCfg::new(tier.depth(3, 4) - d1, &[0, 2], &[&[2, 0, 2]]).with(|c| c.presets = presets(8));
    out.push(
        Scenario::new(
            "c03-forge-generations",
            "as above with generations next to 2^8, 2^16, 2^24, 2^31, 2^32",
            move |ch| history(ch, &cfg, &|ch: &mut Ch, w: &mut Vec<Sys<Hist>>| forge(&mut w[0], &d, CORE, &[Write::Borrow], ch)),
        )
        .guarded(),
    );
    let cfg = HistCfg::new(tier.depth(6, 7) - d1, &[0, 2], &[&[0, 0, 0], &[2, 0, 2]]).with(|c| {
        c.start = 2;
        c.max_live = 3;
    });
    out.push(Scenario::new("c03-cross", "two independent worlds: all handles of each offered to the other", move |ch| history(ch, &cfg, &cross)).guarded());
    let cfg = HistCfg::new(tier.depth(7, 8), &[0], &[&[0, 0, 0], &[2, 0, 0]]).with(|c| c.worlds = 2);
    out.push(Scenario::new("c03-cross-clone", "a world and its clone after diverging: all handles of each offered to the other", move |ch| history(ch, &cfg, &cross)).guarded());
    // With debug assertions out-of-range slots panic (documented), which is slow but the same decision.
    if !tier.mini() && !cfg!(debug_assertions) {
        let all = tier == Tier::Thorough;
        out.push(Scenario::new("c03-sweep", "every slot index below 2^24 x ids x versions 1..3, three population shapes", move |ch| sweep(ch, all)));
    }
    out.extend(mc::full::scenario("c03", mc::full::Focus::Forged, tier));
    out
}
