//! C02: every access path returns the entity's own, latest component values.
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::*;

fn values(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_values(ch)?;
    }
    Ok(())
}

/// A population with a hole, a write by any path with any key, then everything else that may happen,
/// then a second write: every read path after every step.
fn write_matrix(ch: &mut Ch, second: bool) -> R {
    let mut sys: Sys<Hist> = Sys::new(&[2, 0, 3]);
    let a = ch.choose(3)?;
    let n = 1 + ch.choose(3)?;
    for _ in 0..n {
        sys.create(a, How::World)?;
    }
    sys.create((a + 1) % 3, How::World)?;
    if ch.flag()? {
        sys.create(a, How::World)?;
        sys.destroy(0, 0)?;
    }
    ch.note(|| format!("{n} entities in archetype {a}"));
    let mut worlds = vec![sys];
    for round in 0..1 + second as usize {
        let live = worlds[0].m.live[a].clone();
        let i = live[ch.choose(live.len())?];
        let path = Write::ALL[ch.choose(Write::ALL.len())?];
        let comp = ch.choose(Hist::info(a).comps)?;
        let scan = matches!(path, Write::ArchIterMut | Write::EcsIter | Write::EcsIterBorrow | Write::EcsIterDestroy);
        let k = if scan { 0 } else if matches!(path, Write::WorldView | Write::WorldBorrow) { 2 * ch.choose(2)? } else { ch.choose(4)? };
        let key = way_key(&mut worlds[0], i, k);
        ch.note(|| format!("write {path:?} component {comp} of #{i} with {key:?}"));
        worlds[0].write(i, path, key, comp)?;
        ch.step();
        if ch.state() {
            values(ch, &mut worlds)?;
        }
        if round == 0 {
            let ops = menu(
                &HistCfg::new(1, &[0, 1, 2], &[&[0, 0, 0]]).with(|c| {
                    c.ways = vec![0, 7];
                    c.worlds = 2;
                }),
                &worlds,
            );
            let op = ops[ch.choose(ops.len())?];
            apply(&HistCfg::new(1, &[], &[]), &mut worlds, op, ch)?;
            ch.step();
            if ch.state() {
                values(ch, &mut worlds)?;
            }
            if worlds[0].m.live[a].is_empty() {
                return Ok(());
            }
        }
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let second = tier == Tier::Thorough;
    out.push(Scenario::new(
        "c02-write-matrix",
        "write path x key kind x component x entity x next operation, all read paths after each step",
        move |ch| write_matrix(ch, second),
    ));
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(6, 8), &[a], &[&[0, 0, 0], &[2, 2, 2]]).with(|c| {
            c.writes = vec![Write::FindBorrow];
            c.max_live = 4;
        });
        out.push(Scenario::new(
            format!("c02-history-{a}"),
            "create/destroy/write sequences of one archetype, all read paths after each step",
            move |ch| history(ch, &cfg, &values),
        ));
    }
    let cfg = HistCfg::new(tier.depth(5, 6), &[0, 1, 2], &[&[0, 1, 0], &[2, 0, 1]]).with(|c| {
        c.writes = vec![Write::View];
        c.ways = vec![0, 5];
        c.worlds = 2;
        c.iter_destroy = vec![Scope::One(1)];
        c.decisions = vec![0, 2];
        c.max_live = 3;
    });
    out.push(Scenario::new(
        "c02-mixed",
        "create/destroy/write/iter_destroy/clone over three archetypes, all read paths after each step",
        move |ch| history(ch, &cfg, &values),
    ));
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 1..=max {
        let depth = if n <= 4 { tier.depth(3, 4) } else { tier.depth(2, 3) };
        out.push(Scenario::new(
            format!("c02-shape-{n}"),
            format!("archetype of {n} components of every size class: create/destroy/write/clone sequences"),
            move |ch| super::shapes::run(n, ch, depth),
        ).guarded());
    }
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c02", tier));
    }
    out.extend(mc::full::scenario("c02", mc::full::Focus::Values, tier));
    out
}
