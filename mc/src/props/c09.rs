//! C09: a direct handle never designates another entity and dies with any removal.
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::sys::*;
use mc::worlds::*;

fn full(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_directs(ch, true)?;
    }
    Ok(())
}

fn fast(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_directs(ch, false)?;
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[2, 2, 2]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(11, 13), &[a], caps).with(|c| {
            c.direct_scans = vec![Scan::EcsIter];
            c.max_directs = 5;
            c.max_live = 3;
        });
        out.push(Scenario::new(format!("c09-deep-{a}"), "create/destroy/take direct handles of all entities", move |ch| history(ch, &cfg, &fast)));
    }
    for a in 0..2 {
        let cfg = HistCfg::new(tier.depth(6, 7), &[a], caps).with(|c| {
            c.directs = vec![Look::ArchToDirect, Look::WorldToDirect, Look::Find, Look::FindBorrow];
            c.direct_scans = vec![Scan::EcsIter, Scan::EcsIterMut, Scan::EcsIterBorrow, Scan::EcsIterBorrowMut, Scan::EcsIterDestroy];
            c.destroy_kept = true;
            c.max_directs = 3;
            c.max_live = 3;
        });
        out.push(Scenario::new(
            format!("c09-sources-{a}"),
            "direct handles from to_direct, finds and every loop, typed or not; destroyed by entity or kept direct handle",
            move |ch| history(ch, &cfg, &full),
        ));
        let cfg = HistCfg::new(tier.depth(7, 8), &[a], caps).with(|c| {
            c.directs = vec![Look::ArchToDirect];
            c.max_directs = 2;
            c.iter_destroy = vec![Scope::One(a), Scope::AllWild];
            c.decisions = vec![0, 2, 3];
            c.max_live = 3;
        });
        out.push(Scenario::new(format!("c09-loops-{a}"), "direct handles handed out by ecs_iter_destroy! under all decision sequences", move |ch| history(ch, &cfg, &full)));
    }
    let cfg = HistCfg::new(tier.depth(8, 9), &[0, 1, 2], &[&[0, 1, 0]]).with(|c| {
        c.direct_scans = vec![Scan::EcsIterBorrow];
        c.max_directs = 4;
        c.max_live = 2;
    });
    out.push(Scenario::new("c09-across", "three archetypes: changes of one do not invalidate the handles of another", move |ch| history(ch, &cfg, &full)));
    let cfg = HistCfg::new(tier.depth(7, 8), &[0], caps).with(|c| {
        c.directs = vec![Look::WorldToDirect];
        c.max_directs = 3;
        c.max_live = 3;
        c.worlds = 2;
    });
    out.push(Scenario::new("c09-clones", "direct handles across clones", move |ch| history(ch, &cfg, &full)));
    let cfg = HistCfg::new(tier.depth(6, 7), &[0, 2], &[&[2, 0, 3]]).with(|c| {
        c.directs = vec![Look::ArchToDirect];
        c.iter_destroy = vec![Scope::One(0)];
        c.decisions = vec![0, 2];
        c.max_directs = 3;
        c.max_live = 2;
        c.presets = presets(8);
    });
    out.push(Scenario::new("c09-generations", "versions next to 2^8, 2^16, 2^24, 2^31, 2^32", move |ch| history(ch, &cfg, &fast)));
    let cycles = tier.pick(70_000, 1 << 25);
    if !tier.mini() {
        out.push(Scenario::new("c09-wrap", "one direct handle kept through tens of thousands of removals", move |ch| wrap(ch, cycles)));
        out.extend(mc::scale::recycle_scenarios::<Hist>("c09", tier).into_iter().take(1));
    }
    out.extend(mc::full::scenario("c09", mc::full::Focus::Direct, tier));
    out
}

/// A direct handle must stay rejected however many removals follow.
fn wrap(ch: &mut Ch, cycles: u32) -> R {
    let n = 1 + ch.choose(3)?;
    if !ch.state() {
        return Ok(());
    }
    let mut s: Sys<Hist> = Sys::new(&[0, 0, 0]);
    let old: Vec<usize> = (0..n).map(|_| Ok(s.create(2, How::World)?.unwrap())).collect::<R<Vec<_>>>()?;
    let mut kept = Vec::new();
    for i in &old {
        let any = s.m.ents[*i].any;
        kept.push(s.w.look(2, Look::ArchToDirect, Key::ent(any, true)).unwrap().direct.unwrap());
    }
    let mut e = s.m.ents[old[0]].any;
    for k in 0..cycles {
        if k & 0xFFF == 0 {
            beat();
        }
        mc::ensure!(s.w.destroy_e(2, false, Key::ent(e, true)).is_some(), "destroy refuses {e:?}");
        let vals = raw_vals::<Hist>(2, k);
        e = s.w.create_e(2, How::Arch, &vals).unwrap();
        for d in &kept {
            for typed in [true, false] {
                let seen = s.w.look(2, Look::ArchResolve, Key::dir(*d, typed));
                mc::ensure!(seen.is_none(), "after {} removals the direct handle {d:?} is accepted again", k + 1);
            }
        }
        ch.stats.transitions += 2;
        ch.stats.probes += 2 * n as u64;
    }
    Ok(())
}
