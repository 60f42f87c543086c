//! Event logs of worlds of 1 to 40 archetypes: the world's iterators go through every archetype's log.
use gecs::prelude::World;
use gecs::prelude::EntityAny;
use mc::explore::*;
use mc::harness::*;
use mc::{ensure, fail};

pub trait EventWorld: World {
    const N: usize;
    fn make() -> Self;
    fn create_in(&mut self, a: usize) -> EntityAny;
    fn destroy_any(&mut self, e: EntityAny) -> bool;
    fn of(&self, a: usize) -> (Vec<EntityAny>, Vec<EntityAny>);
    fn clear_of(&mut self, a: usize);
}

macro_rules! event_world {
    ($m:ident, $W:ident, $n:literal, $($(#[$at:meta])* $A:ident $i:literal)*) => {
        pub mod $m {
            use gecs::prelude::*;
            pub struct U(#[allow(dead_code)] pub u32);
            ecs_world! {
                ecs_name!($W);
                $( $(#[$at])* ecs_archetype!($A, U); )*
            }
            impl super::EventWorld for $W {
                const N: usize = $n;
                fn make() -> Self {
                    $W::default()
                }
                fn create_in(&mut self, a: usize) -> EntityAny {
                    match a {
                        $( $i => self.create::<$A>((U($i),)).into_any(), )*
                        _ => unreachable!(),
                    }
                }
                fn destroy_any(&mut self, e: EntityAny) -> bool {
                    self.destroy(e).is_some()
                }
                fn of(&self, a: usize) -> (Vec<EntityAny>, Vec<EntityAny>) {
                    match a {
                        $( $i => (self.archetype::<$A>().iter_created().map(|e| e.into_any()).collect(), self.archetype::<$A>().iter_destroyed().map(|e| e.into_any()).collect()), )*
                        _ => unreachable!(),
                    }
                }
                fn clear_of(&mut self, a: usize) {
                    match a {
                        $( $i => self.archetype_mut::<$A>().clear_events(), )*
                        _ => unreachable!(),
                    }
                }
            }
        }
    };
}

event_world!(w1, E1, 1, Aaa 0);
event_world!(w2, E2, 2, Aaa 0 Aab 1);
event_world!(w2i, E2i, 2, #[archetype_id(200)] Aaa 0 #[archetype_id(3)] Aab 1);
event_world!(w4, E4, 4, Aaa 0 Aab 1 Aac 2 Aad 3);
event_world!(w4i, E4i, 4, #[archetype_id(9)] Aaa 0 #[archetype_id(3)] Aab 1 #[archetype_id(255)] Aac 2 #[archetype_id(0)] Aad 3);
event_world!(w5, E5, 5, Aaa 0 #[archetype_id(77)] Aab 1 Aac 2 Aad 3 Aae 4);
event_world!(w9, E9, 9, Aaa 0 Aab 1 Aac 2 Aad 3 Aae 4 Aaf 5 Aag 6 Aah 7 Aai 8);
event_world!(w40, E40, 40, Aaa 0 Aab 1 Aac 2 Aad 3 Aae 4 Aaf 5 Aag 6 #[archetype_id(128)] Aah 7 Aai 8 Aaj 9 Aak 10 Aal 11 Aam 12 Aan 13 Aao 14 Aap 15 Aaq 16 Aar 17 Aas 18 Aat 19 Aau 20 Aav 21 Aaw 22 Aax 23 Aay 24 Aaz 25 Aba 26 Abb 27 Abc 28 Abd 29 Abe 30 Abf 31 Abg 32 Abh 33 Abi 34 Abj 35 Abk 36 Abl 37 Abm 38 Abn 39);
event_world!(w256, E256, 256, Baa 0 Bab 1 Bac 2 Bad 3 Bae 4 Baf 5 Bag 6 Bah 7 Bai 8 Baj 9 Bak 10 Bal 11 Bam 12 Ban 13 Bao 14 Bap 15 Baq 16 Bar 17 Bas 18 Bat 19 Bau 20 Bav 21 Baw 22 Bax 23 Bay 24 Baz 25 Bba 26 Bbb 27 Bbc 28 Bbd 29 Bbe 30 Bbf 31 Bbg 32 Bbh 33 Bbi 34 Bbj 35 Bbk 36 Bbl 37 Bbm 38 Bbn 39 Bbo 40 Bbp 41 Bbq 42 Bbr 43 Bbs 44 Bbt 45 Bbu 46 Bbv 47 Bbw 48 Bbx 49 Bby 50 Bbz 51 Bca 52 Bcb 53 Bcc 54 Bcd 55 Bce 56 Bcf 57 Bcg 58 Bch 59 Bci 60 Bcj 61 Bck 62 Bcl 63 Bcm 64 Bcn 65 Bco 66 Bcp 67 Bcq 68 Bcr 69 Bcs 70 Bct 71 Bcu 72 Bcv 73 Bcw 74 Bcx 75 Bcy 76 Bcz 77 Bda 78 Bdb 79 Bdc 80 Bdd 81 Bde 82 Bdf 83 Bdg 84 Bdh 85 Bdi 86 Bdj 87 Bdk 88 Bdl 89 Bdm 90 Bdn 91 Bdo 92 Bdp 93 Bdq 94 Bdr 95 Bds 96 Bdt 97 Bdu 98 Bdv 99 Bdw 100 Bdx 101 Bdy 102 Bdz 103 Bea 104 Beb 105 Bec 106 Bed 107 Bee 108 Bef 109 Beg 110 Beh 111 Bei 112 Bej 113 Bek 114 Bel 115 Bem 116 Ben 117 Beo 118 Bep 119 Beq 120 Ber 121 Bes 122 Bet 123 Beu 124 Bev 125 Bew 126 Bex 127 Bey 128 Bez 129 Bfa 130 Bfb 131 Bfc 132 Bfd 133 Bfe 134 Bff 135 Bfg 136 Bfh 137 Bfi 138 Bfj 139 Bfk 140 Bfl 141 Bfm 142 Bfn 143 Bfo 144 Bfp 145 Bfq 146 Bfr 147 Bfs 148 Bft 149 Bfu 150 Bfv 151 Bfw 152 Bfx 153 Bfy 154 Bfz 155 Bga 156 Bgb 157 Bgc 158 Bgd 159 Bge 160 Bgf 161 Bgg 162 Bgh 163 Bgi 164 Bgj 165 Bgk 166 Bgl 167 Bgm 168 Bgn 169 Bgo 170 Bgp 171 Bgq 172 Bgr 173 Bgs 174 Bgt 175 Bgu 176 Bgv 177 Bgw 178 Bgx 179 Bgy 180 Bgz 181 Bha 182 Bhb 183 Bhc 184 Bhd 185 Bhe 186 Bhf 187 Bhg 188 Bhh 189 Bhi 190 Bhj 191 Bhk 192 Bhl 193 Bhm 194 Bhn 195 Bho 196 Bhp 197 Bhq 198 Bhr 199 Bhs 200 Bht 201 Bhu 202 Bhv 203 Bhw 204 Bhx 205 Bhy 206 Bhz 207 Bia 208 Bib 209 Bic 210 Bid 211 Bie 212 Bif 213 Big 214 Bih 215 Bii 216 Bij 217 Bik 218 Bil 219 Bim 220 Bin 221 Bio 222 Bip 223 Biq 224 Bir 225 Bis 226 Bit 227 Biu 228 Biv 229 Biw 230 Bix 231 Biy 232 Biz 233 Bja 234 Bjb 235 Bjc 236 Bjd 237 Bje 238 Bjf 239 Bjg 240 Bjh 241 Bji 242 Bjj 243 Bjk 244 Bjl 245 Bjm 246 Bjn 247 Bjo 248 Bjp 249 Bjq 250 Bjr 251 Bjs 252 Bjt 253 Bju 254 Bjv 255);

/// What should be logged, per archetype.
#[derive(Clone, Default)]
struct Logs {
    created: Vec<EntityAny>,
    destroyed: Vec<EntityAny>,
    live: Vec<EntityAny>,
}

/// What is done to one archetype: c creates, d destroys the oldest, y the youngest, x clears its log.
const PROGRAMS: [&str; 7] = ["", "c", "cd", "ccy", "cxd", "cxc", "ccdd"];

fn run_program<W: EventWorld>(w: &mut W, m: &mut [Logs], a: usize, p: usize, ch: &mut Ch) -> R {
    for op in PROGRAMS[p].bytes() {
        ch.step();
        match op {
            b'c' => {
                let e = w.create_in(a);
                m[a].created.push(e);
                m[a].live.push(e);
            }
            b'x' => {
                w.clear_of(a);
                m[a].created.clear();
                m[a].destroyed.clear();
            }
            _ => {
                let at = if op == b'd' { 0 } else { m[a].live.len() - 1 };
                let e = m[a].live.remove(at);
                ensure!(w.destroy_any(e), "destroy({e:?}) in archetype {a} finds nothing");
                m[a].destroyed.push(e);
            }
        }
    }
    Ok(())
}

fn sorted(v: &[EntityAny]) -> Vec<EntityAny> {
    let mut v = v.to_vec();
    v.sort_by_key(|e| e.raw());
    v
}

fn check<W: EventWorld>(w: &W, m: &[Logs], scripts: bool, ch: &mut Ch) -> R {
    for a in 0..W::N {
        let (c, d) = w.of(a);
        ensure!(sorted(&c) == sorted(&m[a].created), "created-event list of archetype {a} is {c:?}, should be {:?}", m[a].created);
        ensure!(sorted(&d) == sorted(&m[a].destroyed), "destroyed-event list of archetype {a} is {d:?}, should be {:?}", m[a].destroyed);
        ch.stats.probes += 2;
    }
    for destroyed in [false, true] {
        let what = if destroyed { "iter_destroyed" } else { "iter_created" };
        let all: Vec<EntityAny> = m.iter().flat_map(|l| if destroyed { l.destroyed.clone() } else { l.created.clone() }).collect();
        let n = all.len();
        let run = |script: &[It]| if destroyed { run_script(w.iter_destroyed(), |e| *e, script) } else { run_script(w.iter_created(), |e| *e, script) };
        let mut every = vec![It::Hint];
        for _ in 0..n + 2 {
            every.push(It::Next);
            every.push(It::Hint);
        }
        let got = run(&every);
        let mut list = Vec::new();
        for (k, e) in got.into_iter().enumerate() {
            match e {
                Ev::Hint(lo, hi) => {
                    let left = n.saturating_sub(k / 2);
                    ensure!((lo, hi) == (left, Some(left)), "world of {} archetypes, {what}: size_hint is {:?} after {} of {n} events", W::N, (lo, hi), k / 2);
                }
                Ev::Item(Some(x)) => list.push(x),
                Ev::Item(None) => {}
                other => fail!("{what}: {other:?}"),
            }
            ch.stats.probes += 1;
        }
        ensure!(sorted(&list) == sorted(&all), "world of {} archetypes, {what} yields {list:?}, should be {all:?}", W::N);
        if !scripts {
            continue;
        }
        let mut steps = vec![It::Next, It::Hint, It::Take(2), It::Skip(1), It::Any(1)];
        steps.extend((0..=n + 1).map(It::Nth));
        for first in std::iter::once(None).chain(steps.iter().copied().map(Some)) {
            for end in std::iter::once(None).chain(It::ENDS.into_iter().map(Some)) {
                for between in [None, Some(It::Hint)] {
                    let script: Vec<It> = [first, between, end].into_iter().flatten().collect();
                    let got = run(&script);
                    let want = run_script(list.iter().copied(), |x| x, &script);
                    ensure!(got == want, "world of {} archetypes, {what} with {n} events, calls {script:?}: answers {got:?}, should be {want:?}", W::N);
                    ch.stats.probes += 1;
                }
            }
        }
    }
    Ok(())
}

/// Then the logs of the world, or of one archetype, are cleared.
fn clears<W: EventWorld>(w: &mut W, m: &mut [Logs], ch: &mut Ch) -> R {
    let which = if W::N <= 9 { ch.choose(W::N + 1)? } else { [W::N, 0, W::N - 1, 7][ch.choose(4)?] };
    ch.step();
    if which == W::N {
        World::clear_events(w);
        for l in m.iter_mut() {
            l.created.clear();
            l.destroyed.clear();
        }
    } else {
        w.clear_of(which);
        m[which].created.clear();
        m[which].destroyed.clear();
    }
    if ch.state() {
        check(w, m, false, ch)?;
    }
    Ok(())
}

/// Every program in every archetype.
fn product<W: EventWorld>(programs: usize, ch: &mut Ch) -> R {
    let mut w = W::make();
    let mut m = vec![Logs::default(); W::N];
    // The order in which archetypes are used must not matter.
    let back = ch.flag()?;
    for k in 0..W::N {
        let a = if back { W::N - 1 - k } else { k };
        let p = ch.choose(programs)?;
        run_program(&mut w, &mut m, a, p, ch)?;
        if ch.state() {
            check(&w, &m, k + 1 == W::N, ch)?;
        }
    }
    clears(&mut w, &mut m, ch)
}

/// Programs in every pair of archetypes; the others are empty, or all have one event.
fn pairs<W: EventWorld>(ch: &mut Ch) -> R {
    let mut w = W::make();
    let mut m = vec![Logs::default(); W::N];
    let filled = ch.flag()?;
    if filled {
        for a in 0..W::N {
            run_program(&mut w, &mut m, a, 2, ch)?;
        }
    }
    // Positions of archetypes are 8 bits wide, but for how many there are.
    let edges = [0, 1, 127, 128, 254, 255];
    let (a, b) = if W::N < 256 { (ch.choose(W::N)?, ch.choose(W::N)?) } else { (edges[ch.choose(6)?], edges[ch.choose(6)?]) };
    let (p, q) = [(3, 2), (5, 6)][ch.choose(2)?];
    run_program(&mut w, &mut m, a, p, ch)?;
    run_program(&mut w, &mut m, b, q, ch)?;
    if ch.state() {
        check(&w, &m, false, ch)?;
    }
    clears(&mut w, &mut m, ch)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let what = "what is logged in worlds of other numbers of archetypes: every distribution of events over archetypes, exact size hints at every position, clears";
    let all = PROGRAMS.len();
    let four = tier.depth(all, all);
    let five = tier.depth(5, all);
    vec![
        Scenario::new("c17-one-archetype", what, move |ch| product::<w1::E1>(all, ch)),
        Scenario::new("c17-two-archetypes", what, move |ch| product::<w2::E2>(all, ch)),
        Scenario::new("c17-two-archetypes-ids", what, move |ch| product::<w2i::E2i>(all, ch)),
        Scenario::new("c17-four-archetypes", what, move |ch| product::<w4::E4>(four, ch)),
        Scenario::new("c17-four-archetypes-ids", what, move |ch| product::<w4i::E4i>(4, ch)),
        Scenario::new("c17-five-archetypes", what, move |ch| product::<w5::E5>(five, ch)),
        Scenario::new("c17-nine-archetypes", what, move |ch| product::<w9::E9>(2, ch)),
        Scenario::new("c17-nine-archetypes-pairs", what, move |ch| pairs::<w9::E9>(ch)),
        Scenario::new("c17-forty-archetypes-pairs", what, move |ch| pairs::<w40::E40>(ch)),
        Scenario::new("c17-256-archetypes-pairs", what, move |ch| pairs::<w256::E256>(ch)),
    ]
}
