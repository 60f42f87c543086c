"""Batches of generated programs: units that must compile and behave, units that must not compile."""
import os
import threading
import time

import __main__ as ck
from rust import Crate, Toolchain, parallel


class Unit:
    """One query, declaration or client program. `text` defines `fn {call}` unless `call` is None."""

    def __init__(self, qid, desc, text, call=None):
        self.qid, self.desc, self.text, self.call = qid, desc, text, call


class Batch:
    """Units over shared text (usually a world declaration). All positive or all negative."""

    def __init__(self, name, head, shared, units, init="", negative=False, link=True, cfgs=(), extra=(), codes=None):
        self.name, self.head, self.shared, self.units = name, head, shared, units
        self.init, self.negative, self.link, self.cfgs, self.extra = init, negative, link, tuple(cfgs), tuple(extra)
        self.codes = codes

    def source(self, units):
        c = Crate(self.head)
        c.add(self.shared)
        for u in units:
            c.add(u.text, u)
        calls = "".join(f"    {u.call};\n" for u in units if u.call)
        return c, c.text("fn main() {\n" + self.init + calls + ("    r.end();\n" if self.init else "") + "}\n")


class Runner:
    def __init__(self, res, prop, tc):
        self.res, self.prop, self.tc = res, prop, tc
        self.stop = False
        self.lock = threading.Lock()
        self.stats = {}

    def violation(self, batch, unit, what, source, log=""):
        with self.lock:
            if self.stop:
                return
            self.stop = True
        text = [f"property {self.prop}", f"batch {batch.name}  cfgs {list(batch.cfgs)}  gecs features {list(self.tc.features)}",
                f"program: {unit.desc if unit else '(the whole batch)'}", f"violation: {what}", "", "compiler / program output:", log[-4000:], "",
                "source (compile with: rustc --edition 2021 --extern gecs=<gecs rlib> --extern rt=<gen/rt.rs as a library>):", source]
        path = ck.write_replay(self.prop, f"{batch.name}-{unit.qid if unit else 'all'}", "\n".join(text))
        self.res.violations.append((path, f"{unit.desc if unit else batch.name}: {what}"))

    def run(self, batch):
        if self.stop:
            return
        (self.negative if batch.negative else self.positive)(batch)

    def alone(self, batch, unit):
        _, src = batch.source([unit] if unit else [])
        ok, errs, exe = self.tc.compile(f"{batch.name}-alone-{unit.qid if unit else 'none'}", src, batch.link, batch.cfgs, extra=batch.extra)
        return ok, errs, src, exe

    def positive(self, batch):
        crate, src = batch.source(batch.units)
        ok, errs, exe = self.tc.compile(batch.name, src, batch.link, batch.cfgs, extra=batch.extra)
        if not ok:
            suspects = []
            for line, _, _, _ in errs:
                u = crate.unit_at(line)
                if u and u not in suspects:
                    suspects.append(u)
            for u in [None] + (suspects or batch.units):
                good, errs1, src1, _ = self.alone(batch, u)
                if not good:
                    return self.violation(batch, u, "rejected by the compiler but must be accepted", src1, "\n".join(e[3] for e in errs1))
            raise ck.Broken(f"{batch.name} does not compile, but each of its programs does: " + "\n".join(e[3] for e in errs)[:3000])
        self.count("accepted_programs", len(batch.units))
        if batch.link:
            code, out = self.tc.run(exe)
            os.remove(exe)
            bad = None
            for line in out.splitlines():
                if line.startswith("MISMATCH unit="):
                    bad = bad or line
                elif line.startswith("CHECKS "):
                    self.count("checks", int(line.split()[1]))
            if code == 0 and not bad:
                self.count("executed_programs", len(batch.units))
                return
            unit = None
            if bad:
                q = int(bad.split()[1].split("=")[1])
                unit = next((u for u in batch.units if u.qid == q), None)
            src1 = batch.source([unit])[1] if unit else src
            self.violation(batch, unit, bad or f"the program ended with {code}: {out[-500:]}", src1, out)

    def negative(self, batch):
        crate, src = batch.source(batch.units)
        ok, errs, _ = self.tc.compile(batch.name, src, batch.link, batch.cfgs, extra=batch.extra)
        hit = set()
        for line, code, msg, _ in errs:
            u = crate.unit_at(line)
            if u and (batch.codes is None or code in batch.codes):
                hit.add(u)
        for u in batch.units:
            if u not in hit:
                good, errs1, src1, _ = self.alone(batch, u)
                self.count("compiled_alone")
                if good:
                    return self.violation(batch, u, "accepted by the compiler but must be rejected", src1)
        self.count("rejected_programs", len(batch.units))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def all(self, batches):
        parallel([lambda b=b: self.run(b) for b in batches])
        for k, v in self.stats.items():
            self.res.add(k, v)


def book(res, total, t0):
    """Evidence: per group of programs, how many (query, archetype) pairs or declarations the model decided."""
    for name, g in total.items():
        res.scenarios.append({"name": name, "what": g["what"], "build": "rustc", "bin": "generated programs", "executions": g["good"] + g["bad"],
                              "states": g["states"], "transitions": g["good"] + g["bad"], "accepted": g["good"], "rejected": g["bad"],
                              "not_well_formed": g.get("skipped", 0), "probes": 0, "faults": 0, "wall_s": round(time.time() - t0, 2), "sample": g["sample"]})
