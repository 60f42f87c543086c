"""C16: #[cfg]-disabled archetypes, components and query parameters behave as absent."""
import hashlib
import itertools
import re
import time

import emit
import model as m
from c05 import NAMES, POOL3, subsets
from c05 import world as plain_world
from c15 import chunks
from programs import Batch, Runner, Unit, book
from rust import Toolchain


def canonical(assign):
    """Predicates are interchangeable: keep assignments in which they first appear in order."""
    seen = 0
    for a in assign:
        for p in a:
            if p > seen:
                return False
            if p == seen:
                seen += 1
    return True


def ident(qid, world, plain, cfgd, truth, via):
    """A module: the decorated world must be the stripped one. Absent archetypes leave their name free."""
    ids = m.ids(plain)
    w = world.name
    out = [f"pub mod u{qid} {{ use gecs::prelude::*; use rt::*;"]
    alive = {a.name for a in plain.archs}
    for a in world.archs:
        if a.name not in alive:
            out.append(f"pub struct {a.name}; pub struct {a.name}Components;")
    out.append(emit.decl(world, style=qid))
    for (a, cs), arch in zip(ids, plain.archs):
        out.append(f"const _: () = assert!({arch.name}::ARCHETYPE_ID == {a});")
        for c, comp in zip(cs, arch.comps):
            out.append(f"const _: () = assert!(<{arch.name} as ArchetypeHas<{comp.name}>>::COMPONENT_ID == {c});")
    out.append(emit.build_fn(plain, ids))
    # Every archetype there is, and no other: exhaustive literals and matches.
    out.append(f"pub fn all(w: &{w}) -> {w}Capacity {{ {w}Capacity {{ {', '.join(emit.snake(a.name) + ': w.' + emit.snake(a.name) + '.len()' for a in plain.archs)} }} }}")
    out.append(f"pub fn which(x: SelectArchetype) -> u32 {{ match x {{ {', '.join(f'SelectArchetype::{a.name} => {i}' for i, a in enumerate(plain.archs))} }} }}")
    names = sorted({c.name for a in plain.archs for c in a.comps})
    macs = list(emit.ALL_MACROS)
    fns = []
    for j, c in enumerate(names):
        ps = (m.Param("comp", (c,), (j + via) % 2 == 0), m.Param(("enta", "entw", "dira", "dirw")[(via + j) % 4]))
        fns.append(emit.query_fn(f"q{j}", plain, qid, ps, m.match(plain, ps), (macs[(via + 3 * j) % 7],)))
    ps = (m.Param("enta"),)
    fns.append(emit.query_fn("qall", plain, qid, ps, m.match(plain, ps), (macs[via % 7],)))
    out += fns
    calls = "".join(f" q{j}(&mut w, r);" for j in range(len(names))) + " qall(&mut w, r);"
    lens = "".join(f"r.eq({qid}, \"len of {a.name}\", c.{emit.snake(a.name)} as u64, {emit.POP});" for a in plain.archs)
    sel = "".join(f"r.eq({qid}, \"SelectArchetype of id {a}\", SelectArchetype::try_from({a}u8).map_or(999, |x| which(x)) as u64, {i});" for i, (a, _) in enumerate(ids))
    out.append(f"pub fn check(r: &mut Rec) {{ let mut w = build(r); let c = all(&w); {lens} {sel} {calls} }}")
    out.append("}")
    return "\n".join(out)


def describe(world, truth):
    return f"{' '.join(emit.decl(world).split())} with {', '.join(f'{k}={v}' for k, v in truth.items())}"


class Gen:
    """Decorated worlds under truth assignments given by `--cfg` flags."""

    def __init__(self):
        self.by_flags, self.n, self.groups = {}, 0, {}

    def add(self, group, what, world, flags, truth):
        plain = m.strip(world, truth)
        if not plain.archs or any(not a.comps for a in plain.archs):
            return  # Such a declaration does not compile when written out either.
        self.n += 1
        g = self.groups.setdefault(group, {"what": what, "good": 0, "bad": 0, "states": 0, "sample": describe(world, truth)})
        g["states"] += sum(1 + len(a.comps) for a in world.archs)
        good, bad = self.by_flags.setdefault(flags, ([], []))
        try:
            m.ids(plain)
        except m.Reject:
            g["bad"] += 1
            bad.append(Unit(self.n, describe(world, truth), f"pub mod u{self.n} {{ use gecs::prelude::*; use rt::*;\n{emit.decl(world, style=self.n)}\n}}"))
            return
        g["good"] += 1
        good.append(Unit(self.n, describe(world, truth), ident(self.n, world, plain, {}, truth, self.n), f"u{self.n}::check(&mut r)"))

    def batches(self):
        out = []
        for flags, (good, bad) in self.by_flags.items():
            tag = "worlds-" + tag_of(flags)
            init = "    let mut r = Rec::default();\n"
            out += [Batch(f"{tag}-{i}", emit.HEAD, "", us, init, cfgs=flags) for i, us in enumerate(chunks(good, 25))]
            out += [Batch(f"{tag}-neg-{i}", emit.HEAD, "", us, negative=True, link=False, cfgs=flags) for i, us in enumerate(chunks(bad, 200))]
        return out


def tag_of(flags):
    tag = "-".join(flags) or "none"
    return tag if re.fullmatch("[A-Za-z0-9_-]{1,60}", tag) else hashlib.sha1(tag.encode()).hexdigest()[:16]


def assignments(preds):
    """(flags, truth of each predicate) for every truth assignment to the flags occurring in `preds`."""
    names = sorted({f for p in preds.values() for f in p[0]})
    for bits in itertools.product((False, True), repeat=len(names)):
        on = {n: b for n, b in zip(names, bits)}
        yield tuple(n for n in names if on[n]), {text: fn(on) for text, (_, fn) in preds.items()}


def flag(*names):
    return {n: ((n,), lambda on, n=n: on[n]) for n in names}


def item_world(k, archs, cfgs, ids):
    """Archetypes with these components, decorated item by item in order of appearance."""
    it = iter(cfgs)
    idit = iter(ids)
    out = []
    for i, comps in enumerate(archs):
        acfg, aid = next(it), next(idit)
        out.append(m.Arch(NAMES[(i + k) % 7], tuple(m.Comp(c, next(idit), next(it)) for c in comps), aid, acfg))
    return m.World(f"K{k}", tuple(out))


def query_batches(runner, thorough, groups):
    """Decorated query parameters on fixed worlds."""
    out = []
    p, q = ("p",), ("q",)
    preds = flag("p", "q")
    kinds = [m.Param("comp", ("Pos",)), m.Param("comp", ("PosX",), True), m.Param("oneof", ("XPos", "Pos"), True), m.Param("oneof", ("Pos", "PosX")),
             m.Param("ent", ("Foo",)), m.Param("enta"), m.Param("dir", ("BarFoo",)), m.Param("dirw"), m.Param("comp", ("Missing",)), m.Param("ent", ("Nowhere",)), m.Param("entw"), m.Param("dira")]
    cf = [(), p, q, p + q]
    lists = []
    for a, b in itertools.product(kinds, repeat=2):
        if a == b:
            continue
        for ca, cb in itertools.product(cf, repeat=2):
            if (ca or cb) and (not ca or ca[0] == "p" or cb):
                lists.append((m.replace(a, cfg=ca), m.replace(b, cfg=cb)))
    base3 = kinds[:8] if thorough else kinds[:6]
    for t in itertools.permutations(base3, 3):
        for cs in ([p, (), q], [p, q, p], [q, p, ()], [(), p, q + p]) if thorough else ([p, q, p], [(), q, p]):
            lists.append(tuple(m.replace(a, cfg=c) for a, c in zip(t, cs)))
    # The world itself is decorated too: predicates of the world and of the query are independent.
    base = plain_world("QWorld", subsets(POOL3))
    archs = list(base.archs)
    archs[2] = m.replace(archs[2], cfg=("q",))
    archs[6] = m.replace(archs[6], comps=(m.replace(archs[6].comps[0], cfg=("p",)),) + archs[6].comps[1:])
    deco = m.World("QWorld", tuple(archs))
    macs = list(emit.ALL_MACROS)
    forms = ["ecs_iter!(w, |%s| {});", "ecs_iter_borrow!(w, |%s| {});", "ecs_iter_destroy!(w, |%s| EcsStepDestroy::Continue);",
             "ecs_find!(w, k, |%s| {});", "ecs_find_borrow!(w, k, |%s| {});"]
    for flags, truth in assignments(preds):
        plain = m.strip(deco, truth)
        ids = m.ids(plain)
        shared = emit.decl(deco) + "\n" + emit.build_fn(plain, ids)
        good, bad = [], []
        g = groups.setdefault("query parameters", {"what": "all lists of two parameters (and lists of three) x all decorations with two predicates x all truth values, on a decorated world",
                                                   "good": 0, "bad": 0, "states": 0, "skipped": 0, "sample": ""})
        for k, ps in enumerate(lists):
            on = m.strip_params(ps, truth)
            if not on:
                continue
            live = [m.enabled(x.cfg, truth) for x in ps]
            desc = f"{describe(deco, truth)} / |{emit.params(ps)}|"
            g["states"] += len(plain.archs)
            g["sample"] = desc
            try:
                matched = m.match(plain, on)
            except m.Reject:
                f = k % 5
                bad.append(Unit(f"n{k}", f"{desc} by {forms[f].split('!')[0]}!", f"pub fn n{k}(w: &mut QWorld, k: EntityAny) {{ {forms[f] % emit.params(ps)} }}"))
                g["bad"] += 1
                continue
            if m.aliases(matched):
                g["skipped"] += 1
                continue
            g["good"] += 1
            use = macs if thorough else (macs[(k + len(flags)) % 7],)
            good.append(Unit(k, desc, emit.query_fn(f"q{k}", plain, k, ps, matched, use, live=live), f"q{k}(&mut w, &mut r)"))
        tag = "query-" + ("-".join(flags) or "none")
        init = "    let mut r = Rec::default(); let mut w = build(&mut r);\n"
        out += [Batch(f"{tag}-{i}", emit.HEAD, shared, us, init, cfgs=flags) for i, us in enumerate(chunks(good, 120 if not thorough else 40))]
        out += [Batch(f"{tag}-neg-{i}", emit.HEAD, shared, us, negative=True, link=False, cfgs=flags) for i, us in enumerate(chunks(bad, 400))]
    # Many distinct predicates on the parameters of one query, in every order of first appearance; also inside other predicates.
    five = ["a", "b", "c", "d"]
    preds = flag(*five)
    ps0 = [m.Param("comp", ("Pos",)), m.Param("comp", ("PosX",), True), m.Param("comp", ("XPos",)), m.Param("enta")]
    w7 = plain_world("QMany", subsets(POOL3), 1)
    shared = emit.decl(w7) + "\n" + emit.build_fn(w7, m.ids(w7))
    g = groups.setdefault("query, four predicates", {"what": "four parameters, each with its own predicate, in every order, all 16 truth values", "good": 0, "bad": 0, "states": 0, "sample": ""})
    for flags, truth in assignments(preds):
        units = []
        for k, perm in enumerate(itertools.permutations(five)):
            for rot in range(2 if not thorough else 4):
                ps = tuple(m.replace(x, cfg=(c,)) for x, c in zip(ps0[rot:] + ps0[:rot], perm))
                on = m.strip_params(ps, truth)
                if not on:
                    continue
                live = [m.enabled(x.cfg, truth) for x in ps]
                qid = k * 4 + rot
                desc = f"{describe(w7, truth)} / |{emit.params(ps)}|"
                g["good"] += 1
                g["states"] += len(w7.archs)
                g["sample"] = desc
                units.append(Unit(qid, desc, emit.query_fn(f"q{qid}", w7, qid, ps, m.match(w7, on), (macs[(k + rot) % 7],), live=live), f"q{qid}(&mut w, &mut r)"))
        init = "    let mut r = Rec::default(); let mut w = build(&mut r);\n"
        if units:
            out += [Batch("many-" + ("-".join(flags) or "none"), emit.HEAD, shared, units, init, cfgs=flags)]
    return out


def patterns(names, thorough):
    """Truth of many flags: all, none, each alone on, each alone off, alternating, halves."""
    n = len(names)
    out = [set(range(n)), set(), set(range(0, n, 2)), set(range(1, n, 2)), set(range(n // 2)), set(range(n // 2, n)), set(range(0, n, 3))]
    out += [{i} for i in range(n)][::1 if thorough else 3] + [set(range(n)) - {i} for i in range(n)][::1 if thorough else 2]
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
            on = {x: i in s for i, x in enumerate(names)}
            yield tuple(x for x in names if on[x]), on


def many_predicates(runner, thorough, g):
    """Declarations and queries with many predicates at once, whose names are prefixes and permutations of each other."""
    out = []
    names = ["p", "pp", "p1", "p11", "p1p", "q", "a", "ab", "ba", "b", "p12", "p2", "p10", "z", "aa", "not_p", "p_1"]
    pool = ["Pos", "PosX", "XPos", "XPosX", "Os", "Vel"]
    what = "seventeen predicates on the items of one declaration"
    orders = [names, names[::-1], names[1::2] + names[::2]]
    for o, order in enumerate(orders):
        # Four archetypes with a predicate each; the other predicates on their components, each archetype keeps one component.
        it = iter(order)
        archs = []
        for a in range(4):
            acfg = (next(it),)
            comps = [m.Comp(pool[a])] + [m.Comp(pool[(a + 1 + j) % 6], None, (next(it),)) for j in range(3)]
            archs.append(m.Arch(NAMES[(a + o) % 7], tuple(comps[::-1] if a % 2 else comps), None, acfg if a else ()))
        w = m.World(f"Many{o}", tuple(archs))
        for flags, on in patterns(names, thorough):
            g.add(what, what, w, flags, on)
    what = "seventeen archetypes, each with its own predicate, some negated"
    for o, order in enumerate(orders):
        archs = [m.Arch("Always", (m.Comp("Os"),))]
        archs += [m.Arch(f"Arch{i}", (m.Comp(pool[i % 4], 3 if i % 5 == 1 else None), m.Comp("Vel")), None, (f"not({x})" if (i + o) % 4 == 0 else x,)) for i, x in enumerate(order)]
        w = m.World(f"Row{o}", tuple(archs))
        for flags, on in patterns(names, thorough):
            g.add(what, what, w, flags, {**on, **{f"not({x})": not on[x] for x in names}})
    what = "one archetype of sixteen components, each with its own predicate"
    w = m.World("Sixteen", (m.Arch("Foo", (m.Comp("Pos"),) + tuple(m.Comp(f"C{i}", None, (x,)) for i, x in enumerate(names[:15]))), m.Arch("Bar", (m.Comp("C14"), m.Comp("C3", None, (names[0],))))))
    for flags, on in patterns(names[:15], thorough):
        g.add(what, what, w, flags, on)

    # Queries of eight parameters, each with its own predicate (or the same as another's).
    wq = m.World("Eight", (m.Arch("All", tuple(m.Comp(f"C{i}") for i in range(8))), m.Arch("Rev", tuple(m.Comp(f"C{i}") for i in reversed(range(8)))),
                           m.Arch("Even", tuple(m.Comp(f"C{i}") for i in range(0, 8, 2))), m.Arch("Odd", tuple(m.Comp(f"C{i}") for i in (7, 1, 5, 3))),
                           m.Arch("Low", tuple(m.Comp(f"C{i}") for i in (2, 0, 3, 1)))))
    shared = emit.decl(wq) + "\n" + emit.build_fn(wq, m.ids(wq))
    kinds = [m.Param("comp", ("C0",)), m.Param("comp", ("C1",), True), m.Param("enta"), m.Param("comp", ("C3",)), m.Param("oneof", ("C4", "Pos"), True),
             m.Param("dirw"), m.Param("comp", ("C6",), True), m.Param("ent", ("All",))]
    eight = ["p", "pp", "p1", "p11", "q", "a", "ab", "ba"]
    macs = list(emit.ALL_MACROS)
    group = g.groups.setdefault("query, eight predicates", {"what": "eight parameters, each with its own predicate, and pairs sharing one", "good": 0, "bad": 0, "states": 0, "skipped": 0, "sample": ""})
    for flags, on in patterns(eight, True):
        truth = {**on, **{f"not({x})": not on[x] for x in eight}}
        units = []
        forms = [[(x,) for x in eight], [(x,) for x in reversed(eight)], [(x,) for x in eight[:4] * 2], [(f"not({x})",) if i % 2 else (x,) for i, x in enumerate(eight)],
                 [(), ("p",), (), ("pp", "a"), (), ("not(p)",), ("q",), ("ba",)]]
        for k, cfgs in enumerate(forms):
            for rot in (0, 3):
                ps = tuple(m.replace(x, cfg=c) for x, c in zip(kinds[rot:] + kinds[:rot], cfgs))
                live = m.strip_params(ps, truth)
                if not live:
                    continue
                try:
                    matched = m.match(wq, live)
                except m.Reject:
                    group["skipped"] += 1
                    continue
                qid = k * 8 + rot
                desc = f"{describe(wq, truth)} / |{emit.params(ps)}|"
                group["good"] += 1
                group["states"] += len(wq.archs)
                group["sample"] = desc
                units.append(Unit(qid, desc, emit.query_fn(f"q{qid}", wq, qid, ps, matched, (macs[(k + rot + len(flags)) % 7],), live=[m.enabled(x.cfg, truth) for x in ps]), f"q{qid}(&mut w, &mut r)"))
        if units:
            out.append(Batch("eight-" + ("-".join(flags) or "none"), emit.HEAD, shared, units, "    let mut r = Rec::default(); let mut w = build(&mut r);\n", cfgs=flags))

    # A query within the closure of another, with predicates of its own, of the same kind and of every other; on one and on two worlds.
    base = plain_world("Inner", subsets(POOL3), 2)
    shared = emit.decl(base) + "\n" + emit.build_fn(base, m.ids(base))
    group = g.groups.setdefault("nested queries", {"what": "a query with predicates within the closure of a query with other predicates, all pairs of macros", "good": 0, "bad": 0, "states": 0, "sample": ""})
    P = m.Param
    pairs = [((P("comp", ("Pos",), cfg=("p",)), P("enta")), (P("comp", ("PosX",), cfg=("q",)), P("entw"))),
             ((P("comp", ("Pos",)), P("comp", ("XPos",), cfg=("q",)), P("dirw", cfg=("p",))), (P("comp", ("XPos",), cfg=("p",)), P("comp", ("Pos",), cfg=("not(q)",)), P("enta"))),
             ((P("enta", cfg=("p",)), P("comp", ("PosX",), cfg=("not(p)",)), P("dira")), (P("comp", ("PosX",)), P("oneof", ("Vel", "Pos"), cfg=("p",))))]
    kinds = ("iter", "iter_borrow", "iter_destroy", "find", "find_borrow")
    for flags, on in assignments({**flag("p", "q"), "not(p)": COMPLEX["not(p)"], "not(q)": COMPLEX["not(any(not(q)))"]}):
        truth = {**on, "not(p)": "p" not in flags, "not(q)": "q" not in flags}
        units = []
        for k, ((po, pi), mo, mi) in enumerate(itertools.product(pairs, kinds, kinds)):
            so, si = m.strip_params(po, truth), m.strip_params(pi, truth)
            text = nested(f"q{k}", base, k, po, pi, m.match(base, so), m.match(base, si), mo, mi, truth)
            group["good"] += 1
            group["states"] += len(base.archs) ** 2
            group["sample"] = desc = f"ecs_{mo}!(|{emit.params(po)}| ecs_{mi}!(|{emit.params(pi)}|)) with {truth}"
            units.append(Unit(k, desc, text, f"q{k}(&mut r)"))
        out += [Batch(f"nested-{i}-" + ("-".join(flags) or "none"), emit.HEAD, shared, us, "    let mut r = Rec::default();\n", cfgs=flags) for i, us in enumerate(chunks(units, 25))]
    return out


def rows(ps, matched, live):
    out = []
    for i, b in matched.items():
        row = [i]
        for p, c in zip([p for p, on in zip(ps, live) if on], b):
            row.append(emit.CODES[c] if c else 1000 if p.kind in ("ent", "entw", "enta") else 1001)
        out.append("&[" + ", ".join(map(str, row)) + "]")
    return f"&[{', '.join(out)}]"


def nested(name, world, qid, po, pi, mo, mi, outer, inner, truth):
    """Outer query on one world, inner query on another of the same type; both recorded. Nothing is written or destroyed."""
    lo, li = [m.enabled(p.cfg, truth) for p in po], [m.enabled(p.cfg, truth) for p in pi]

    def call(mac, w, key, ps, body):
        if mac.startswith("find"):
            return f"let x = ecs_{mac}!({w}, {key}, |{emit.params(ps)}| {{ {body} }});"
        step = "; EcsStepDestroy::Continue" if mac == "iter_destroy" else ";"
        return f"ecs_{mac}!({w}, |{emit.params(ps)}| {{ {body}{step} }});"

    # The inner query is complete each time: all of its rows, or for finds all of its keys in turn.
    one = call(inner, "w2", "k2", pi, f"r2.hit(&[{emit.reads(pi)}])")
    if inner.startswith("find"):
        run = f"for (k2, a2, n2) in r2.keys.clone() {{ {one} r2.found(\"inner ecs_{inner}!\", x, a2, n2); }}"
    else:
        run = f'{one} r2.rows("inner ecs_{inner}!");'
    body = f"let h = r.hit(&[{emit.reads(po)}]); {run} h"
    out = [f"pub fn {name}(r: &mut Rec) {{ let mut w1 = build(r); let mut s = Rec::default(); let r2 = &mut s; let mut wb = build(r2); let w2 = &mut wb;",
           f"  r.unit({qid}, {rows(po, mo, lo)}, &[]); r2.unit({qid}, {rows(pi, mi, li)}, &[]);"]
    if outer.startswith("find"):
        one = call(outer, "w1", "k1", po, body)
        out.append(f'  for (k1, a1, n1) in r.keys.clone() {{ {one} r.found("outer ecs_{outer}!", x, a1, n1); }}')
    else:
        out.append(f'  {call(outer, "w1", "", po, body)} r.rows("outer ecs_{outer}!");')
    out.append("  r.take(r2);\n}")
    return "\n".join(out)


COMPLEX = {
    "not(p)": (("p",), lambda on: not on["p"]),
    "all(p, not(q))": (("p", "q"), lambda on: on["p"] and not on["q"]),
    "any(p, q)": (("p", "q"), lambda on: on["p"] or on["q"]),
    "p": (("p",), lambda on: on["p"]),
    "not(any(not(q)))": (("q",), lambda on: on["q"]),
    "all()": ((), lambda on: True),
    "any()": ((), lambda on: False),
    "not(feature = \"no_such\")": ((), lambda on: True),
    "feature = \"no_such\"": ((), lambda on: False),
    "target_pointer_width = \"64\"": ((), lambda on: True),
    "all(unix, not(windows))": ((), lambda on: True),
}


def on(*names):
    """Predicates that hold if that flag was given: written like the flag, with spaces round the `=`."""
    return {n.replace("=", " = "): ((n,), lambda on, n=n: on[n]) for n in names}


def always(value, *texts):
    return {t: ((), lambda on: value) for t in texts}


P, PQ = ("p",), ("p", "q")
LONG = "a_predicate_with_a_rather_long_name_that_differs_in_its_last_letter_only_from_another_one_"
# Predicates that read alike and mean different things, and ones that read differently and mean the same.
ALIKE = {
    "case": on("p", "P", "pP", "Pp"),
    "within strings": on('feature="ab"', 'feature="a b"', 'feature="a  b"', 'feature="AB"'),
    "punctuation in strings": on('feature="a_b"', 'feature="a-b"', 'feature="a.b"', 'feature="a,b"'),
    "strings like code": {**on("p", 'feature="p"', 'feature="not(p)"'), "not(p)": (P, lambda on: not on["p"])},
    "names and values": on("p", 'p="p"', 'p="q"', 'q="p"'),
    "raw strings": {**on('feature="ab"'), 'feature = r"ab"': (('feature="ab"',), lambda on: on['feature="ab"']), 'feature = r#"ab"#': (('feature="ab"',), lambda on: on['feature="ab"']),
                    'not(feature = r"ab")': (('feature="ab"',), lambda on: not on['feature="ab"'])},
    "escapes": {**on('feature="ab"'), 'feature = "\\u{61}b"': (('feature="ab"',), lambda on: on['feature="ab"']), 'feature = "\\x61b"': (('feature="ab"',), lambda on: on['feature="ab"']),
                'feature = "\\\\x61b"': ((), lambda on: False)},
    "order of arguments": {"any(p, q)": (PQ, lambda on: on["p"] or on["q"]), "any(q, p)": (PQ, lambda on: on["p"] or on["q"]), "all(q, p)": (PQ, lambda on: on["p"] and on["q"]), "all(p, q)": (PQ, lambda on: on["p"] and on["q"])},
    "place of the not": {"not(any(p, q))": (PQ, lambda on: not (on["p"] or on["q"])), "any(not(p), q)": (PQ, lambda on: not on["p"] or on["q"]), "any(p, not(q))": (PQ, lambda on: on["p"] or not on["q"]),
                         "any(not(p), not(q))": (PQ, lambda on: not on["p"] or not on["q"])},
    "nesting": {"not(p)": (P, lambda on: not on["p"]), "not(not(p))": (P, lambda on: on["p"]), "not(not(not(p)))": (P, lambda on: not on["p"]), "all(not(not(not(not(p)))))": (P, lambda on: on["p"])},
    "brackets": {"any(all(p, q), p)": (PQ, lambda on: on["p"]), "any(all(p), q, p)": (PQ, lambda on: on["p"] or on["q"]), "all(any(p, q), p)": (PQ, lambda on: on["p"]), "all(any(p), q, p)": (PQ, lambda on: on["p"] and on["q"])},
    "commas": {"any(p)": (P, lambda on: on["p"]), "any(p,)": (P, lambda on: on["p"]), "any(p, p)": (P, lambda on: on["p"]), "all(p,q,)": (PQ, lambda on: on["p"] and on["q"])},
    "empty": {**always(True, "all()", "not(any())", "any(all())"), **always(False, "any()", "not(all())", "all(any())")},
    "literals": {**always(True, "true", "not(false)"), **always(False, "false", "not(true)"), "all(true, p)": (P, lambda on: on["p"])},
    "the last letter": on(LONG + "a", LONG + "b", LONG[:-1] + "a", LONG),
    "digits": on("p1", "p01", "p10", "p1_"),
    "words": on("cfg", "states", "component_id", "macro_rules"),
}


def alike(thorough, g):
    out = []
    macs = list(emit.ALL_MACROS)
    what = "predicates that read alike, on items and on query parameters, in every rotation"
    base = plain_world("Alike", subsets(POOL3), 3)
    shared = emit.decl(base) + "\n" + emit.build_fn(base, m.ids(base))
    ps0 = [m.Param("comp", ("Pos",)), m.Param("comp", ("PosX",), True), m.Param("comp", ("XPos",)), m.Param("enta"), m.Param("dira"), m.Param("entw")]
    group = g.groups.setdefault("query, predicates that read alike", {"what": what, "good": 0, "bad": 0, "states": 0, "sample": ""})
    units = {}
    # All truth values of each set of predicates, several sets to a program where they agree on the flags they share.
    packed, where = [], {}
    for name, preds in ALIKE.items():
        for flags, truth in assignments(preds):
            mine = {f: f in flags for fs, _ in preds.values() for f in fs}
            at = next((x for x in packed if name not in x[1] and all(x[0].get(f, b) == b for f, b in mine.items())), None)
            if at is None:
                packed.append(at := ({}, set()))
            at[0].update(mine)
            at[1].add(name)
            where.setdefault(name, []).append((at[0], truth))
    for k, (name, preds) in enumerate(ALIKE.items()):
        texts = list(preds)
        n = len(texts)
        for rot, back in itertools.product(range(n), (False, True)):
            order = texts[rot:] + texts[:rot]
            order = order[::-1] if back else order
            it = itertools.cycle(order)
            c = [(next(it),) for _ in range(6)]
            w = m.World(f"Alike{k}", (m.Arch("Foo", (m.Comp("Pos"), m.Comp("PosX", None, c[0]), m.Comp("Os", None, c[1]))), m.Arch("Bar", (m.Comp("XPos", None, c[2]), m.Comp("PosX")), None, c[3]),
                                      m.Arch("FooBar", (m.Comp("Pos"),), None, c[4]), m.Arch("Ba", (m.Comp("XPos", None, c[5]), m.Comp("Pos", None, c[0][:]), m.Comp("Os")))))
            for given, truth in where[name]:
                flags = tuple(sorted(f for f, b in given.items() if b))
                g.add("predicates that read alike", what, w, flags, truth)
                ps = tuple(m.replace(x, cfg=(t,)) for x, t in zip(ps0, order))
                live = m.strip_params(ps, truth)
                if not live:
                    continue
                qid = (k * 6 + rot) * 2 + back
                desc = f"{describe(base, truth)} / |{emit.params(ps)}|"
                group["good"] += 1
                group["states"] += len(base.archs)
                group["sample"] = desc
                units.setdefault(flags, []).append(Unit(qid, desc, emit.query_fn(f"q{qid}", base, qid, ps, m.match(base, live), (macs[(qid + len(flags)) % 7],), live=[m.enabled(x.cfg, truth) for x in ps]), f"q{qid}(&mut w, &mut r)"))
    for flags, us in units.items():
        out += [Batch(f"alike-{i}-" + tag_of(flags), emit.HEAD, shared, x, "    let mut r = Rec::default(); let mut w = build(&mut r);\n", cfgs=flags) for i, x in enumerate(chunks(us, 120))]
    return out


def run(res, spec):
    thorough = res.tier == "thorough"
    tc = Toolchain((), "programs-C16").build()
    t0 = time.time()
    g = Gen()
    k = 0
    none = [None] * 12

    # Every decoration of every item of small worlds with two predicates.
    shapes = [[("Pos", "PosX"), ("PosX", "XPos")]]
    if thorough:
        shapes.append([("Pos",), ("Pos", "PosX"), ("XPos", "Pos")])
    else:
        shapes.append([("Pos",), ("PosX", "Pos"), ("XPos",)])
    what = "every decoration of every archetype and component with none or one of two predicates, all truth values"
    for si, shape in enumerate(shapes):
        n = sum(1 + len(c) for c in shape)
        for cfgs in itertools.product([(), (0,), (1,)], repeat=n):
            if not canonical(cfgs) or not any(cfgs):
                continue
            if si == 1 and not thorough and sum(bool(c) for c in cfgs) > 3:
                continue
            k += 1
            cf = [tuple("pq"[x] for x in c) for c in cfgs]
            ids = [None if (k + i) % 3 else (5 * i) % 7 for i in range(n)] if k % 3 == 0 else none
            w = item_world(k, shape, cf, ids)
            for flags, truth in assignments(flag("p", "q")):
                g.add(f"worlds of shape {shape}", what, w, flags, truth)

    # Several predicates on one item, in both orders, next to items with each of them.
    what = "two predicates on one item"
    shape = [("Pos", "PosX"), ("XPos",)]
    for at in range(5):
        for other in range(5):
            if at == other:
                continue
            for both in (("p", "q"), ("q", "p")):
                cf = [()] * 5
                cf[at], cf[other] = both, ("q",)
                k += 1
                w = item_world(k, shape, cf, none)
                for flags, truth in assignments(flag("p", "q")):
                    g.add(what, what, w, flags, truth)

    # Five distinct predicates, one per item, in orders that differ from the alphabetical one.
    what = "five distinct predicates, one per item, all 32 truth values"
    shape = [("Pos", "PosX"), ("XPos",), ("PosX", "Os")]
    names = "abcde"
    perms = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)] if not thorough else list(itertools.permutations(range(5)))[::7]
    for perm in perms:
        places = [1, 2, 3, 6, 7]  # Pos, PosX, second archetype, components of the third
        cf = [()] * 8
        for pl, x in zip(places, perm):
            cf[pl] = (names[x],)
        k += 1
        w = item_world(k, shape, cf, none)
        for flags, truth in assignments(flag(*names)):
            g.add(what, what, w, flags, truth)

    # Predicates of every form, pairwise.
    what = "predicates of every form, pairwise, on archetypes and components"
    forms = list(COMPLEX)
    for i, (a, b) in enumerate(itertools.permutations(forms, 2)):
        if not thorough and i % 2:
            continue
        k += 1
        places = [(0, 4), (1, 3), (3, 1), (4, 0), (1, 2), (2, 4)][i % 6]
        cf = [()] * 6
        cf[places[0]], cf[places[1]] = (a,), (b,)
        w = item_world(k, [("Pos", "PosX"), ("XPos", "Pos")], cf, none)
        for flags, truth in assignments({x: COMPLEX[x] for x in (a, b)}):
            g.add(what, what, w, flags, truth)

    # Disabled items that would be illegal if they were there.
    what = "disabled items that would be illegal if present"
    for j, bad in enumerate([
        (m.Arch("Foo", (m.Comp("Pos"),), 3), m.Arch("Bar", (m.Comp("PosX"),), 3, ("p",)), m.Arch("Ba", (m.Comp("XPos"),))),
        (m.Arch("Foo", (m.Comp("Pos"),), 255), m.Arch("Bar", (m.Comp("PosX"),), None, ("p",)), m.Arch("Ba", (m.Comp("XPos"),), 0)),
        (m.Arch("Foo", (m.Comp("Pos", 1), m.Comp("PosX", 1, ("p",)), m.Comp("XPos"))),),
        (m.Arch("Foo", (m.Comp("Pos", 255), m.Comp("PosX", None, ("p",)))),),
    ]):
        k += 1
        for flags, truth in assignments(flag("p")):
            g.add(what, what, m.World(f"Ill{j}", bad), flags, truth)

    runner = Runner(res, "C16", tc)
    work = query_batches(runner, thorough, g.groups) + many_predicates(runner, thorough, g) + alike(thorough, g) + g.batches()
    work.sort(key=lambda b: -len(b.units) * (1 if b.negative else 8))
    runner.all(work)
    book(res, g.groups, t0)
