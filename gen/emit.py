"""Emits Rust programs from declarations and queries."""
import re

CODES = {n: i for i, n in enumerate(["Pos", "PosX", "XPos", "XPosX", "Os", "Vel"])}
CODES.update({f"C{i}": 10 + i for i in range(32)})

ODD = ["Vec2D", "HTTPServer", "XYZ", "A1B2", "T", "U8", "X2Y", "TheIO", "SomeABCThing", "Foo_Bar", "Vec2d", "Type1", "Len", "Été"]
CODES.update({n: 50 + i for i, n in enumerate(ODD)})
CODES.update({"Alias": 70, "OtherAlias": 71})


def snake(name):
    # As convert_case does for Pascal -> snake on the names used here.
    s = re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", name)
    s = re.sub(r"(?<=[A-Z])(?=[A-Z][a-z])", "_", s)
    s = re.sub(r"(?<=[A-Za-z])(?=[0-9])", "_", s)
    return s.lower()


def column(name):
    """An archetype of a world: by its field, or by type where the field's name is anyone's guess."""
    return snake(name) if re.fullmatch("([A-Z][a-z]+)+[0-9]*|[A-Z][0-9]*|Arch[A-Z]*", name) else f"archetype_mut::<{name}>()"


def attrs(cfg, spell):
    return "".join(f"#[cfg({spell(c)})] " for c in cfg)


LITERALS = [lambda n: f"{n}", lambda n: f"0x{n:x}", lambda n: f"{n}u8", lambda n: f"0b{n:_b}", lambda n: f"0o{n:o}", lambda n: f"0x{n:02X}", lambda n: f"00{n}", lambda n: f"{n}_u8"]


def decl(world, spell=lambda c: c, style=0):
    """`style`: the same declaration written differently (order of attributes, literals, place of the name, trailing commas)."""
    lit = LITERALS[style % 8]

    def deco(it, what):
        ident = f"#[{what}({lit(it.id)})] " if it.id is not None else ""
        cfg = attrs(it.cfg, spell)
        if style % 3 == 1:
            return ident + cfg
        if style % 3 == 2 and len(it.cfg) > 1:
            return attrs(it.cfg[:1], spell) + ident + attrs(it.cfg[1:], spell)
        return cfg + ident

    lines = []
    for i, a in enumerate(world.archs):
        comps = ", ".join(deco(c, "component_id") + c.name for c in a.comps) + ("," if (style + i) % 4 == 3 else "")
        lines.append(f"  {deco(a, 'archetype_id')}ecs_archetype!({a.name}, {comps});")
    at = 0 if style % 5 < 3 else len(lines) if style % 5 == 3 else len(lines) // 2
    lines.insert(at, f"  ecs_name!({world.name});")
    if style % 7 == 6:
        lines[-1] = lines[-1].rstrip(";")
    return "\n".join(["ecs_world! {"] + lines + ["}"])


def params(ps, spell=lambda c: c):
    return ", ".join(f"{attrs(p.cfg, spell)}p{i}: &{'mut ' if p.mut else ''}{p.type()}" for i, p in enumerate(ps))


def reads(ps, spell=lambda c: c):
    return ", ".join(attrs(p.cfg, spell) + (f"p{i}.bump()" if p.mut else f"p{i}.v()") for i, p in enumerate(ps))


POP = 2


def build_fn(world, ids, pop=POP):
    """`build` and `dump` for a (stripped) world."""
    w = world.name
    out = [f"pub fn build(r: &mut Rec) -> {w} {{", f"  r.reset(); let mut w = {w}::new(); let mut es: Vec<(EntityAny, u32, u32)> = Vec::new();"]
    for i, a in enumerate(world.archs):
        out.append(f"  r.arch({i}, {a.name}::ARCHETYPE_ID, {ids[i][0]});")
    for n in range(pop):
        for i, a in enumerate(world.archs):
            vals = "".join(f"{c.name}::make(initial({i}, {n}, {CODES[c.name]})), " for c in a.comps)
            out.append(f"  es.push((w.create::<{a.name}>(({vals})).into_any(), {i}, {n}));")
    out.append("  for (e, a, n) in es { let d = w.to_direct(e); r.ent(e, d, a, n); }")
    out.append("  w\n}")
    out.append(f"pub fn dump(w: &mut {w}, r: &mut Rec, ran: bool) {{")
    for i, a in enumerate(world.archs):
        f = column(a.name)
        out.append(f"  let es: Vec<EntityAny> = w.{f}.entities().iter().map(|e| e.into_any()).collect();")
        for c in a.comps:
            out.append(f"  for (e, c) in es.iter().zip(w.{f}.get_slice_mut::<{c.name}>()) {{ r.cell(*e, {i}, c, ran); }}")
    out.append("}")
    return "\n".join(out)


ALL_MACROS = ("iter", "iter_borrow", "iter_destroy", "find", "find_direct", "find_borrow", "find_borrow_direct")


def query_fn(name, world, qid, ps, matched, macros=ALL_MACROS, spell=lambda c: c, live=None, typed=()):
    """A function that runs one query by the given macros and compares. `live`: per parameter, whether it is enabled."""
    live = live or [True] * len(ps)
    rows, muts = [], []
    for i, b in matched.items():
        b = list(b)
        row, k = [i], 0
        for p, on in zip(ps, live):
            if not on:
                continue
            c = b[k]
            k += 1
            if c is None:
                row.append(1000 if p.kind in ("ent", "entw", "enta") else 1001)
            else:
                row.append(CODES[c])
                if p.mut:
                    muts.append((i, CODES[c]))
        rows.append("&[" + ", ".join(map(str, row)) + "]")
    pl, vl = params(ps, spell), reads(ps, spell)
    out = [f"pub fn {name}(w: &mut {world.name}, r: &mut Rec) {{"]
    out.append(f"  r.unit({qid}, &[{', '.join(rows)}], &[{', '.join(f'({a}, {c})' for a, c in muts)}]);")
    body = f"r.hit(&[{vl}])"
    for m in macros:
        if m in ("iter", "iter_borrow"):
            out.append(f"  ecs_{m}!(w, |{pl}| {{ {body}; }}); r.rows(\"ecs_{m}!\"); dump(w, r, true);")
        elif m in ("find", "find_borrow"):
            out.append(f"  for (k, a, n) in r.keys.clone() {{ let x = ecs_{m}!(w, k, |{pl}| {body}); r.found(\"ecs_{m}! by EntityAny\", x, a, n); }} dump(w, r, true);")
        elif m in ("find_direct", "find_borrow_direct"):
            b = m[:-7]
            out.append(f"  for (k, a, n) in r.directs.clone() {{ let x = ecs_{b}!(w, k, |{pl}| {body}); r.found(\"ecs_{b}! by EntityDirectAny\", x, a, n); }} dump(w, r, true);")
        elif m == "iter_destroy_continue":
            out.append(f"  ecs_iter_destroy!(w, |{pl}| {{ {body}; EcsStepDestroy::Continue }}); r.rows(\"ecs_iter_destroy!\"); dump(w, r, true);")
        elif m == "iter_destroy":
            out.append(f"  let mut w2 = build(r); r.unit({qid}, &[{', '.join(rows)}], &[]);")
            out.append(f"  r.loose = true; ecs_iter_destroy!(w2, |{pl}| {{ {body}; EcsStepDestroy::ContinueDestroy }}); r.rows(\"ecs_iter_destroy!\"); r.loose = false;")
            for i, a in enumerate(world.archs):
                out.append(f"  r.left(\"ecs_iter_destroy!\", {i}, {POP}, w2.{column(a.name)}.len());")
            out.append(f"  *w = build(r); r.unit({qid}, &[{', '.join(rows)}], &[{', '.join(f'({a}, {c})' for a, c in muts)}]);")
    for i in typed:
        a = world.archs[i].name
        for d, keys, conv in (("", "keys", f"Entity::<{a}>::from_any(k)"), ("", "directs", f"EntityDirect::<{a}>::from_any(k)")):
            for b in ("find", "find_borrow"):
                out.append(f"  for (k, a, n) in r.{keys}.clone() {{ if a == {i} {{ let t = {conv}; let x = ecs_{b}!(w, t, |{pl}| {body}); r.found(\"ecs_{b}! by typed {keys} of {a}\", x, a, n); }} }}")
                out.append(f"  r.only = Some({i}); dump(w, r, true); r.only = None;")
    out.append("}")
    return "\n".join(out)


HEAD = "#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse gecs::prelude::*; use rt::*;\n"
MOD = "  use gecs::prelude::*; use rt::*;\n"
