"""C05: queries act on exactly the archetypes whose component set satisfies them."""
import itertools
import time

import __main__ as ck
import emit
import forms
import model as m
from programs import Batch, Runner, Unit, book
from rust import Toolchain

NAMES = ["Foo", "FooBar", "Bar", "BarFoo", "Ba", "FooBaz", "Qux", "ArchA", "Arch", "AnArch", "ArchAB", "FooBarBaz", "Oo", "BarBaz", "Quux"]
POOL3 = ("Pos", "PosX", "XPos")
POOL4 = ("Pos", "PosX", "XPos", "Os")


def subsets(pool, lo=1):
    return [s for n in range(lo, len(pool) + 1) for s in itertools.combinations(pool, n)]


def world(name, sets, rot=0, names=NAMES):
    """Archetypes with these component sets; the order of components differs from archetype to archetype."""
    archs = []
    for i, s in enumerate(sets):
        perms = list(itertools.permutations(s))
        archs.append(m.Arch(names[i], tuple(m.Comp(c) for c in perms[(i + rot) % len(perms)])))
    return m.World(name, tuple(archs))


def comp_params(pool, muts=(False, True)):
    return [m.Param("comp", (c,), mut) for c in pool for mut in muts]


def oneof_params(pool, orders, muts=(False, True)):
    out = []
    for s in subsets(pool):
        for o in list(itertools.permutations(s))[:orders]:
            out += [m.Param("oneof", o, mut) for mut in muts]
    return out


def handle_params(names):
    out = [m.Param(k) for k in ("enta", "entw", "dira", "dirw")]
    for n in names:
        out += [m.Param("ent", (n,)), m.Param("dir", (n,))]
    return out


class Sorter:
    """Sorts queries on one world into those that must be accepted and those that must be rejected."""

    def __init__(self, world, lists):
        self.world, self.good, self.bad = world, [], []
        self.skipped = 0
        for ps in lists:
            try:
                matched = m.match(world, ps)
            except m.Reject as e:
                self.bad.append((ps, str(e)))
                continue
            if m.aliases(matched):
                self.skipped += 1
            else:
                self.good.append((ps, matched))


def describe(world, ps):
    return f"{' '.join(emit.decl(world).split())} / |{emit.params(ps)}|"


def batches(tag, sorter, chunk=40, macros=emit.ALL_MACROS, typed=lambda i, matched: (), rotate=None):
    w = sorter.world
    ids = m.ids(w)
    shared = emit.decl(w) + "\n" + emit.build_fn(w, ids)
    init = "    let mut r = Rec::default(); let mut w = build(&mut r); let (w, r) = (&mut w, &mut r);\n".replace("let (w, r) = (&mut w, &mut r);", "")
    out = []
    for at in range(0, len(sorter.good), chunk):
        units = []
        for q, (ps, matched) in list(enumerate(sorter.good))[at:at + chunk]:
            mac = rotate(q) if rotate else macros
            units.append(Unit(q, describe(w, ps), emit.query_fn(f"q{q}", w, q, ps, matched, mac, typed=typed(q, matched)), f"q{q}(&mut w, &mut r)"))
        out.append(Batch(f"{tag}-{at}", emit.HEAD, shared, units, init))
    # Rejected queries, each by one macro (all macros in turn), so that every macro sees every kind.
    forms = ["ecs_iter!(w, |%s| {});", "ecs_iter_borrow!(w, |%s| {});", "ecs_iter_destroy!(w, |%s| EcsStepDestroy::Continue);",
             "ecs_find!(w, k, |%s| {});", "ecs_find_borrow!(w, k, |%s| {});"]
    units = []
    for q, (ps, why) in enumerate(sorter.bad):
        which = range(len(forms)) if len(sorter.bad) < 3000 else [q % len(forms)]
        for f in which:
            text = f"pub fn n{q}_{f}(w: &mut {w.name}, k: EntityAny) {{ {forms[f] % emit.params(ps)} }}"
            units.append(Unit(f"{q}_{f}", f"{describe(w, ps)} by {forms[f].split('!')[0]}!, {why}", text))
    for at in range(0, len(units), 400):
        out.append(Batch(f"{tag}-neg-{at}", emit.HEAD, shared, units[at:at + 400], negative=True, link=False))
    return out


def run(res, spec):
    tier = res.tier
    thorough = tier == "thorough"
    tc = Toolchain((), "programs-C05").build()
    plans = []

    # Every list of one and two parameters over the full alphabet, on the world of all subsets of three components.
    w7 = world("World7", subsets(POOL3))
    alpha = comp_params(POOL3) + oneof_params(POOL3, 2 if not thorough else 6, muts=(False, True)) + handle_params([a.name for a in w7.archs])
    lists = [(p,) for p in alpha] + list(itertools.product(alpha, repeat=2))
    plans.append(("pairs", "all lists of one and two parameters on the world of all 7 component sets", Sorter(w7, lists), {}))

    # Three and four parameters: a smaller alphabet.
    small = [m.Param("comp", ("Pos",)), m.Param("comp", ("PosX",), True), m.Param("comp", ("XPos",)), m.Param("oneof", ("XPos", "Pos"), True),
             m.Param("oneof", ("PosX", "XPos")), m.Param("enta"), m.Param("ent", ("FooBar",)), m.Param("dirw"), m.Param("dir", ("Qux",))]
    lists = [ps for n in ((3, 4) if thorough else (3,)) for ps in itertools.product(small, repeat=n)
             if len({p.kind + str(p.names) for p in ps}) == n]
    plans.append(("triples", "lists of three (thorough: and four) parameters of a reduced alphabet", Sorter(world("World7R", subsets(POOL3), 1), lists), {}))

    # Every world over three components, each with every combination of required components and one OneOf.
    fam = []
    queries = []
    for req in subsets(POOL3, 0):
        base = tuple(m.Param("comp", (c,), i == 1) for i, c in enumerate(reversed(req)))
        queries.append(base + (m.Param("enta"),))
        for o in subsets(POOL3, 2):
            queries.append((m.Param("oneof", o, len(req) == 1),) + base)
            queries.append(base + (m.Param("entw"), m.Param("oneof", tuple(reversed(o)))))
    sets7 = subsets(POOL3)
    families = [f for n in range(1, 8) for f in itertools.combinations(sets7, n)]
    macs = [("iter", "find"), ("iter_borrow", "find_borrow"), ("iter_destroy", "find_direct"), ("iter", "find_borrow_direct")]
    for k, f in enumerate(families):
        order = f if k % 2 == 0 else tuple(reversed(f))
        w = world(f"Fam{k}", order, k, NAMES[k % 5:] + NAMES[:k % 5])
        kw = {} if thorough else {"rotate": lambda q, k=k: macs[(q + k) % 4]}
        fam.append((f"family-{k}", w, queries, kw))

    # Four components, OneOf of any arity.
    w15 = world("World15", subsets(POOL4))
    lists = []
    for req in subsets(POOL4, 0):
        for o in subsets(POOL4):
            lists.append((m.Param("oneof", o, len(o) % 2 == 0),) + tuple(m.Param("comp", (c,), i == 0) for i, c in enumerate(req)))
    for o1 in subsets(POOL4):
        for o2 in subsets(POOL4):
            lists.append((m.Param("oneof", tuple(reversed(o1))), m.Param("dira"), m.Param("oneof", o2, True)))
    plans.append(("oneof4", "required components x OneOf, and pairs of OneOf, over all 15 sets of four components", Sorter(w15, lists),
                  {} if thorough else {"rotate": lambda q: (macs + [("iter_destroy_continue",)])[q % 5]}))

    # Many components per archetype: the first, the last, any one, and all of them.
    wide = m.World("Wide", (m.Arch("All", tuple(m.Comp(f"C{i}") for i in range(16))), m.Arch("Even", tuple(m.Comp(f"C{i}") for i in range(0, 16, 2))),
                            m.Arch("Rev", tuple(m.Comp(f"C{i}") for i in reversed(range(16)))), m.Arch("Odd", tuple(m.Comp(f"C{i}") for i in range(15, 0, -2))),
                            m.Arch("One", (m.Comp("C1"),)), m.Arch("Ten", (m.Comp("C10"), m.Comp("C1")))))
    lists = [(m.Param("comp", (f"C{i}",), i % 2 == 0), m.Param("entw")) for i in range(16)]
    lists += [(m.Param("comp", (f"C{i}",), True), m.Param("comp", (f"C{(i * 7 + 3) % 16}",)), m.Param("dirw")) for i in range(16)]
    lists += [tuple(m.Param("comp", (f"C{i}",), i % 3 == 0) for i in range(n)) for n in (4, 8, 15, 16)]
    lists += [tuple(m.Param("comp", (f"C{i}",), i % 3 == 0) for i in range(15, -1, -1)) + (m.Param("enta"),)]
    plans.append(("wide", "archetypes of up to 16 components", Sorter(wide, lists), {"chunk": 12}))

    # Typed keys: every archetype's own keys against queries that do and do not match it.
    w7t = world("World7T", subsets(POOL3), 2)
    lists = [(m.Param("comp", (c,), mut), m.Param("enta")) for c in POOL3 for mut in (False, True)]
    lists += [(m.Param("oneof", ("Pos", "XPos")),), (m.Param("oneof", ("PosX", "XPos"), True), m.Param("ent", ("Bar",)))]
    lists += [(m.Param("ent", (a.name,)), m.Param("dirw")) for a in w7t.archs]
    lists += [(m.Param("dir", (a.name,)), m.Param("entw")) for a in w7t.archs]
    plans.append(("typed", "typed keys of every archetype against every query", Sorter(w7t, lists),
                  {"macros": (), "typed": lambda q, matched: range(7), "chunk": 3}))

    # Every set over five components; every OneOf over the same components.
    sets31 = subsets([f"C{i}" for i in range(5)])
    w31 = world("World31", sets31, 3, [f"Arch{i}" for i in range(1, 32)])
    lists = []
    for s in sets31:
        lists.append(tuple(m.Param("comp", (c,), i % 2 == 1) for i, c in enumerate(s)) + (m.Param("enta"),))
    for i, o in enumerate(subsets([f"C{i}" for i in range(5)], 2)):
        for req in [()] + [r for r in sets31 if not set(r) & set(o)] + [(o[-1],)]:
            lists.append((m.Param("oneof", o if i % 2 else tuple(reversed(o)), i % 3 == 0),) + tuple(m.Param("comp", (c,)) for c in req))
    turn = macs + [("iter_destroy_continue",), ("find_borrow", "iter"), ("find_direct",)]
    plans.append(("sets of five", "all 31 sets of five components x required components x OneOf", Sorter(w31, lists), {"rotate": lambda q: turn[q % 7]} if not thorough else {}))

    # Many archetypes with one component of their own: OneOf of every arity up to 32, one OneOf next to others.
    w32 = m.World("World32", tuple(m.Arch(f"A{i}", tuple(m.Comp(c) for c in ([f"C{i}", "Pos"] if i % 3 else [f"C{i}"])[::1 if i % 2 else -1])) for i in range(32)))
    lists = [(m.Param("oneof", tuple(f"C{(i * 5 + n) % 32}" for i in range(n)), n % 2 == 0),) for n in range(1, 33)]
    lists += [(m.Param("oneof", tuple(f"C{i}" for i in range(n, -1, -1)), True), m.Param("comp", ("Pos",)), m.Param("dira")) for n in range(1, 32, 5)]
    lists += [(m.Param("oneof", tuple(f"C{i}" for i in range(0, 32, 2))), m.Param("oneof", tuple(f"C{i}" for i in range(31, -1, -1) if i % 2 == 0 or i == n))) for n in (1, 9, 31)]
    lists += [(m.Param("oneof", tuple(f"C{i}" for i in range(32)) + ("Pos",)),)]
    plans.append(("high arity", "OneOf of up to 32 components over 32 archetypes", Sorter(w32, lists), {"rotate": lambda q: turn[q % 7], "chunk": 16}))

    # As many archetypes as there are ids.
    for n, name in ((256, "World256"), (129, "World129")):
        archs = tuple(m.Arch(f"Arch{i}", tuple(m.Comp(f"C{b}") for b in range(8) if i >> b & 1) + (m.Comp("Pos"),) + ((m.Comp("Vel"),) if i in (0, n - 1) else ())) for i in range(n))
        lists = [(m.Param("comp", ("Vel",), True), m.Param("comp", ("Pos",)), m.Param("dirw")), (m.Param("ent", (f"Arch{n - 1}",)), m.Param("comp", ("Pos",), True))]
        lists += [(m.Param("dir", (f"Arch{i}",)), m.Param("comp", ("Pos",))) for i in (0, 127, 128)]
        lists += [(m.Param("comp", (f"C{b}",), True), m.Param("comp", (f"C{(b + 3) % 8}",)), m.Param("enta")) for b in range(8)]
        lists += [(m.Param("comp", ("Pos",), True), m.Param("entw"))] + [tuple(m.Param("comp", (f"C{b}",)) for b in range(8))]
        use = [("iter", "find"), ("iter_borrow", "find_borrow"), ("find_direct", "iter_destroy_continue"), ("find_borrow_direct", "iter")]
        plans.append((f"{n} archetypes", f"{n} archetypes, components by the bits of the id", Sorter(m.World(name, archs), lists),
                      {"rotate": (lambda q, use=use: use[q % 4]) if not thorough else None, "macros": tuple(x for x in emit.ALL_MACROS if x != "iter_destroy"), "chunk": 5}))

    # Names that are no plain camel case, and components named by an alias.
    odd = [n for n in emit.ODD if n != "Vec2d"] + ["Alias", "OtherAlias", "Pos"]
    archs = ["Arch3D", "ABC", "X1", "Foo_Baz", "HTTPThing", "A2B", "AbC"]
    wodd = m.World("MyECSWorld2D", tuple(m.Arch(a, tuple(m.Comp(odd[(i * 5 + k) % 16]) for k in range(16 - 2 * i))) for i, a in enumerate(archs)) + (m.Arch("Other2D", (m.Comp("Vec2d"), m.Comp("T"))),))
    lists = [(m.Param("comp", (c,), i % 2 == 0), m.Param("entw")) for i, c in enumerate(odd)]
    lists += [(m.Param("comp", (c,)), m.Param("comp", (odd[(i * 7 + 3) % 16],), True), m.Param("dirw")) for i, c in enumerate(odd) if i * 7 % 16 + 3 != i]
    lists += [(m.Param("oneof", (c, odd[(i + 7) % 16]), i % 2 == 1), m.Param("enta")) for i, c in enumerate(odd)]
    lists += [(m.Param(k, (a,)), m.Param("comp", (wodd.archs[i].comps[0].name,), True)) for i, a in enumerate(archs) for k in ("ent", "dir")]
    lists += [tuple(m.Param("comp", (c,), i % 3 == 0) for i, c in enumerate(odd)), (m.Param("comp", ("Vec2d",), True),), (m.Param("oneof", ("Vec2D", "Vec2d"), True), m.Param("comp", ("T",)))]
    plans.append(("odd names", "archetypes and components with acronyms, digits, underscores, aliases", Sorter(wodd, lists), {"chunk": 12}))

    t0 = time.time()
    runner = Runner(res, "C05", tc)
    work, decls = [], 0
    total = {}

    def plan(group, what, sorter, tag, **kw):
        nonlocal decls
        work.extend(batches(tag, sorter, **kw))
        decls += 1
        g = total.setdefault(group, {"what": what, "good": 0, "bad": 0, "states": 0, "skipped": 0, "sample": ""})
        g["good"] += len(sorter.good)
        g["bad"] += len(sorter.bad)
        g["skipped"] += sorter.skipped
        g["states"] += (len(sorter.good) + len(sorter.bad)) * len(sorter.world.archs)
        if sorter.good:
            g["sample"] = describe(sorter.world, sorter.good[-1][0])

    for tag, what, sorter, kw in plans:
        plan(tag, what, sorter, tag, **kw)
    for tag, w, qs, kw in fam:
        plan("families", "every non-empty family of component sets over three components x required components x OneOf", Sorter(w, qs), tag, chunk=60, **kw)
    written = forms.batches(("find", "iter", "destroy"))
    total.update(forms.group(("find", "iter", "destroy"), sum(len(b.units) for b in written)))
    work.extend(written)
    work.sort(key=lambda b: -len(b.units) * (1 if b.negative else 8))
    runner.all(work)
    book(res, total, t0)
    res.add("worlds", decls)
