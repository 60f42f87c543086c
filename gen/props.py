"""What each property's check consists of."""
import __main__ as ck
import c05
import c15
import c16
import c18
import c19
import forms

DEFAULT = [ck.CHECKED, ck.RELEASE]

COMMON = [
    "rustc, std and the harness (mc/) are trusted",
    "worlds are used from one thread at a time, as the types require",
]

STATELESS = "stateless exhaustive exploration of the real code against a reference model (model checking)"
NOTE = ("Exhaustive within the stated bounds (depths, populations, capacities, generations): every operation sequence is "
        "executed on the real code and compared with a reference model after every step. Trusts rustc and the harness.")


def explorer(bins, bounds, configs=None, **kw):
    d = {"bins": bins, "configs": configs or DEFAULT, "assumptions": COMMON, "technique": STATELESS, "note": NOTE, "bounds": bounds}
    d.update(kw)
    return d


def and_forms(kinds):
    def run(res, spec):
        ck.run_bins(res, spec)
        if not res.violations:
            forms.check(res, res.prop, kinds)
    return run


EVENTFUL = [ck.CHECKED_ALL, ck.RELEASE]
SCEN = "Bounds: see the scenario list (depths, populations, capacities, generations)."

PROGRAMS = "exhaustive enumeration of a bounded program space, each program compiled and run and compared with a reference model (model checking of the macros)"
NOTE_P = ("Exhaustive over the stated program space: every declaration/query in it is compiled against the real macros and, when accepted, run; "
          "acceptance and behaviour are compared with an independent reference model. Trusts rustc and the generator.")
SCEN_P = "Bounds: see the scenario list and gen/*.py (pools, list lengths, archetypes per world)."


def programs(run, bounds, **kw):
    d = {"run": run, "assumptions": ["rustc, std and the generator (gen/) are trusted"], "technique": PROGRAMS, "note": NOTE_P, "bounds": bounds,
         "build_is_verdict": False}
    d.update(kw)
    return d


PROPS = {
    "C01": explorer(["c01"], SCEN),
    "C02": explorer(["c02"], "Bounds: see the scenario list (depths, populations, capacities, archetype widths 1..16/32)."),
    "C03": explorer(["c03"], SCEN),
    "C04": explorer(["c04"], SCEN),
    "C05": programs(c05.run, SCEN_P),
    "C06": explorer(["c06"], SCEN, run=and_forms(("iter",))),
    "C07": explorer(["c07"], SCEN, run=and_forms(("destroy",))),
    "C08": explorer(["c08"], SCEN),
    "C09": explorer(["c09"], SCEN),
    "C10": explorer(["c10"], SCEN),
    "C11": explorer(["c11"], SCEN),
    "C12": explorer(["c12"], SCEN),
    "C13": explorer(["c13"], SCEN, EVENTFUL),
    "C14": explorer(["c14"], SCEN),
    "C15": programs(c15.run, SCEN_P),
    "C16": programs(c16.run, SCEN_P),
    "C18": programs(c18.run, SCEN_P),
    "C17": explorer(["c17"], SCEN, EVENTFUL),
    "C19": explorer([], SCEN, run=c19.run),
}
