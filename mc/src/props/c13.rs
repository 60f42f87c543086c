//! C13: a cloned world is observationally identical and thereafter independent.
use gecs::prelude::*;
use mc::ensure;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::*;

type List = Vec<(EntityAny, Option<EntityDirectAny>, Option<Vals>)>;

fn pass(w: &mut Hist, f: &mut dyn FnMut(&mut Hist, &mut dyn FnMut(Item) -> bool)) -> List {
    let mut out = Vec::new();
    f(w, &mut |i| {
        out.push((i.entity, i.direct, i.vals));
        true
    });
    out
}

/// Everything that can be asked, asked of both.
fn compare(a: &mut Sys<Hist>, b: &mut Sys<Hist>, ch: &mut Ch) -> R {
    for x in 0..Hist::N {
        let name = Hist::info(x).name;
        let (la, lb) = (a.w.len_of(x), b.w.len_of(x));
        ensure!(la == lb, "len() of {name}: {la}, of the clone {lb}");
        let (ca, cb) = (a.w.cap_of(x), b.w.cap_of(x));
        ensure!(ca == cb, "capacity() of {name}: {ca}, of the clone {cb}");
        ensure!(a.w.empty_of(x) == b.w.empty_of(x), "is_empty() of {name} differs");
        for scan in Scan::ALL {
            let (pa, pb) = (pass(&mut a.w, &mut |w, f| w.scan(x, *scan, f)), pass(&mut b.w, &mut |w, f| w.scan(x, *scan, f)));
            ensure!(pa == pb, "{scan:?} over {name} presents {pa:?}, in the clone {pb:?}");
            ch.stats.probes += 1;
        }
        #[cfg(feature = "ev")]
        {
            let (ea, eb) = (a.w.events_of(x), b.w.events_of(x));
            ensure!(multiset_eq(&ea.0, &eb.0) && multiset_eq(&ea.1, &eb.1), "pending events of {name}: {ea:?}, of the clone {eb:?}");
        }
    }
    for scan in ScanAll::ALL {
        let (pa, pb) = (pass(&mut a.w, &mut |w, f| w.scan_all(*scan, f)), pass(&mut b.w, &mut |w, f| w.scan_all(*scan, f)));
        ensure!(pa == pb, "{scan:?} presents {pa:?}, in the clone {pb:?}");
    }
    let mut keys: Vec<(usize, H)> = a.m.ents.iter().map(|e| (e.arch, H::E(e.any))).collect();
    keys.extend(a.m.dirs.iter().map(|d| (a.m.ents[d.ent].arch, H::D(d.h))));
    for (x, h) in keys {
        for typed in [true, false] {
            let key = Key { h, typed, unchecked: false };
            for look in Look::ALL.iter().filter(|l| l.takes(typed)) {
                let (sa, sb) = (a.w.look(x, *look, key), b.w.look(x, *look, key));
                let same = match (&sa, &sb) {
                    (None, None) => true,
                    (Some(p), Some(q)) => (p.vals, p.entity, p.direct, p.index) == (q.vals, q.entity, q.direct, q.index),
                    _ => false,
                };
                ensure!(same, "{look:?}({key:?}) answers {sa:?}, in the clone {sb:?}");
                ch.stats.probes += 1;
            }
        }
    }
    health()
}

/// Prefix, clone, comparison, then operations on either side with both sides probed after each.
fn run(ch: &mut Ch, before: &HistCfg, after: &HistCfg, full: bool) -> R {
    let caps = &before.caps[ch.choose(before.caps.len())?];
    let preset = before.presets[ch.choose(before.presets.len())?];
    let n = ch.choose(before.depth + 1)?;
    ch.note(|| format!("capacities {caps:?}, versions {preset:?}, {n} operations, then cloned"));
    let mut worlds: Vec<Sys<Hist>> = vec![Sys::new_preset(caps, preset.0, preset.1)];
    for _ in 0..n {
        let ops = menu(before, &worlds);
        let op = ops[ch.choose(ops.len())?];
        apply(before, &mut worlds, op, ch)?;
        ch.step();
    }
    // Cloned through either trait path; possibly a clone of a clone.
    let twice = n == before.depth && ch.flag()?;
    let mut copy = worlds[0].fork();
    if twice {
        let again = copy.fork();
        copy = again;
    }
    worlds.push(copy);
    if ch.fresh() || n == 0 {
        let (l, r) = worlds.split_at_mut(1);
        compare(&mut l[0], &mut r[0], ch)?;
        ch.stats.states += 1;
    }
    for _ in 0..after.depth {
        let ops = menu(after, &worlds);
        let op = ops[ch.choose(ops.len())?];
        apply(after, &mut worlds, op, ch)?;
        ch.step();
        if ch.state() {
            for s in worlds.iter_mut() {
                if full {
                    s.probe_all(ch)?;
                } else {
                    s.probe_quick(ch)?;
                }
            }
            probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
        }
    }
    // Either side can be refilled to capacity, in either order, and neither notices the other.
    let first = ch.choose(2)?;
    for s in [first, 1 - first] {
        if s >= worlds.len() {
            continue;
        }
        for a in 0..3 {
            if worlds[s].w.cap_of(a) <= 32 {
                worlds[s].refill(a)?;
            }
        }
        for s in worlds.iter_mut() {
            s.probe_quick(ch)?;
        }
    }
    // One is dropped, the other goes on.
    if worlds.len() > 1 {
        drop(worlds.remove(first));
    }
    worlds[0].create(0, How::World)?;
    worlds[0].probe_quick(ch)?;
    probe_ownership(&[&worlds[0]])
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[3, 3, 3]];
    for a in 0..3 {
        let before = HistCfg::new(tier.depth(4, 5), &[a], tier.pick(&[&[0, 0, 0], &[3, 3, 3]], caps)).with(|c| {
            c.direct_scans = vec![Scan::EcsIter];
            c.max_directs = tier.pick(1, 2);
            c.clear_events = cfg!(feature = "ev");
            c.max_live = tier.pick(3, 4);
        });
        let after = HistCfg::new(if tier.micro() { 1 } else { tier.pick(2, 3) }, &[a], caps).with(|c| {
            c.ways = tier.pick(vec![7], vec![0, 7]);
            c.iter_destroy = vec![Scope::One(a)];
            c.decisions = vec![0, 2];
            c.writes = vec![Write::FindBorrow];
            c.clear_events = cfg!(feature = "ev");
        });
        out.push(Scenario::new(format!("c13-one-{a}"), "one archetype: every prefix, clone, compare, diverge, refill, drop", move |ch| run(ch, &before, &after, false)).guarded());
    }
    let before = HistCfg::new(tier.depth(3, 4), &[0, 1, 2], &[&[0, 1, 2], &[2, 0, 0]]).with(|c| {
        c.ways = vec![0, 3];
        c.iter_destroy = vec![Scope::All];
        c.decisions = vec![0, 2];
        c.directs = vec![Look::WorldToDirect];
        c.max_directs = 1;
    });
    let after = HistCfg::new(if tier.micro() { 1 } else { 2 }, &[0, 1, 2], caps).with(|c| {
        c.hows = tier.pick(vec![How::ArchWithin], vec![How::World, How::ArchWithin]);
        c.ways = vec![0, 6];
        c.iter_destroy = vec![Scope::All];
        c.decisions = vec![0, 2];
        c.drops = true;
    });
    out.push(Scenario::new("c13-three", "three archetypes: every prefix, clone, compare, diverge, refill, drop", move |ch| run(ch, &before, &after, true)).guarded());
    let before = HistCfg::new(tier.depth(4, 5), &[0, 2], &[&[2, 0, 1]]).with(|c| {
        c.presets = presets(10);
        c.max_live = 2;
        c.direct_scans = vec![Scan::EcsIter];
        c.max_directs = 1;
    });
    let after = HistCfg::new(if tier.micro() { 1 } else { 2 }, &[0, 2], caps);
    out.push(Scenario::new("c13-generations", "as above with versions next to 2^8, 2^16, 2^24, 2^31, 2^32", move |ch| run(ch, &before, &after, false)).guarded());
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 1..=max {
        let depth = tier.depth(2, 3);
        out.push(Scenario::new(format!("c13-shape-{n}"), format!("archetype of {n} components: clone and continue on the clone"), move |ch| super::shapes::run(n, ch, depth)).guarded());
    }
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c13", tier));
    }
    out.extend(mc::full::scenario("c13", mc::full::Focus::Clone, tier));
    out
}
