"""Reference semantics of world declarations and queries, written from the documentation alone."""
from dataclasses import dataclass, field, replace
from dataclasses import replace
from typing import Optional, Tuple


class Reject(Exception):
    """The declaration or query must not compile."""


@dataclass(frozen=True)
class Comp:
    name: str
    id: Optional[int] = None
    cfg: Tuple[str, ...] = ()


@dataclass(frozen=True)
class Arch:
    name: str
    comps: Tuple[Comp, ...]
    id: Optional[int] = None
    cfg: Tuple[str, ...] = ()


@dataclass(frozen=True)
class World:
    name: str
    archs: Tuple[Arch, ...]


@dataclass(frozen=True)
class Param:
    # comp, oneof, ent (Entity<A>), entw (Entity<_>), enta (EntityAny), dir, dirw, dira
    kind: str
    names: Tuple[str, ...] = ()
    mut: bool = False
    cfg: Tuple[str, ...] = ()

    def type(self):
        k = self.kind
        if k == "comp":
            return self.names[0]
        if k == "oneof":
            return f"OneOf<{', '.join(self.names)}>"
        return {"ent": "Entity<%s>", "dir": "EntityDirect<%s>"}.get(k, "") % self.names[0] if k in ("ent", "dir") else {
            "entw": "Entity<_>", "enta": "EntityAny", "dirw": "EntityDirect<_>", "dira": "EntityDirectAny"}[k]


def enabled(cfg, truth):
    return all(truth[c] for c in cfg)


def strip(world, truth):
    """The world without its disabled items."""
    archs = []
    for a in world.archs:
        if enabled(a.cfg, truth):
            comps = tuple(replace(c, cfg=()) for c in a.comps if enabled(c.cfg, truth))
            archs.append(replace(a, comps=comps, cfg=()))
    return replace(world, archs=tuple(archs))


def strip_params(params, truth):
    return tuple(replace(p, cfg=()) for p in params if enabled(p.cfg, truth))


def number(items):
    """Discriminants: explicit, else previous + 1, else 0; distinct and at most 255."""
    out, last, used = [], None, set()
    for it in items:
        n = it.id if it.id is not None else (0 if last is None else last + 1)
        if n > 255 or n in used:
            raise Reject(f"id {n}")
        used.add(n)
        out.append(n)
        last = n
    return out


def ids(world):
    """[(archetype id, [component ids])] or Reject."""
    return list(zip(number(world.archs), [number(a.comps) for a in world.archs]))


def bind(arch, params):
    """Component (or None for handles) bound to each parameter, or None if the archetype does not match."""
    have = [c.name for c in arch.comps]
    out, ok = [], True
    for p in params:
        if p.kind == "comp":
            ok = ok and p.names[0] in have
            out.append(p.names[0])
        elif p.kind == "oneof":
            hits = [n for n in p.names if n in have]
            if len(hits) > 1:
                raise Reject("ambiguous OneOf")
            ok = ok and len(hits) == 1
            out.append(hits[0] if hits else None)
        elif p.kind in ("ent", "dir"):
            ok = ok and p.names[0] == arch.name
            out.append(None)
        else:
            out.append(None)
    return out if ok else None


def match(world, params):
    """{archetype index: bound components}, or Reject."""
    out = {}
    for i, a in enumerate(world.archs):
        b = bind(a, params)
        if b is not None:
            out[i] = b
    if not out:
        raise Reject("no archetype matches")
    return out


def aliases(matched):
    """Whether some matched archetype would bind one component twice (not a well-formed query)."""
    return any(len([c for c in b if c]) != len({c for c in b if c}) for b in matched.values())
