#!/usr/bin/env python3
"""Decides one property: `check.py C01` (tier from VERIF_TIER or --tier). See DESIGN.md.

Exit 0: held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>`. Else: broken check.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "gen"))

HOOK_FLAGS = "--cfg gecs_verif --cap-lints allow"
# If /repo does not build with its hook enabled (an edit nearby may have broken it), the harness goes without:
# histories next to counter boundaries then start at 1 instead, everything else is unaffected.
PLAIN_FLAGS = "--cap-lints allow"


class Broken(Exception):
    """The check itself cannot answer."""


class BuildFailed(Exception):
    def __init__(self, config, log):
        super().__init__(f"harness does not build ({config})")
        self.log = log


def cargo_env(target, flags=HOOK_FLAGS):
    env = dict(os.environ)
    env["RUSTFLAGS"] = flags
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    return env


class Config:
    """One build of the harness: profile x features."""

    def __init__(self, profile, features=()):
        self.profile, self.features = profile, tuple(features)
        self.name = "+".join((profile,) + self.features)
        self.flags = HOOK_FLAGS
        self.target = os.path.join(BUILD, self.name)

    def build(self, bins, jobs=None):
        try:
            self.build_with(bins, jobs)
        except BuildFailed as e:
            self.flags = PLAIN_FLAGS
            self.target = os.path.join(BUILD, self.name + "-unhooked")
            try:
                self.build_with(bins, jobs)
            except BuildFailed:
                raise e

    def cargo(self, bins):
        cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "mc", "Cargo.toml"),
               "--profile", self.profile]
        for b in bins:
            cmd += ["--bin", b]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        return cmd

    def build_with(self, bins, jobs):
        cmd = self.cargo(bins)
        if jobs:
            cmd += ["-j", str(jobs)]
        r = subprocess.run(cmd, env=cargo_env(self.target, self.flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
        if r.returncode != 0:
            raise BuildFailed(self.name, r.stdout)

    def exe(self, b):
        return os.path.join(self.target, self.profile, b)


CHECKED = Config("checked")
RELEASE = Config("release", ("ev", "comp32"))
CHECKED_ALL = Config("checked", ("ev", "comp32"))
RELEASE_PLAIN = Config("release")


def build_all(configs, bins):
    """Builds every configuration, in parallel."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as pool:
        futs = [pool.submit(c.build, bins) for c in configs]
        for f in futs:
            f.result()


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.start = time.time()
        self.scenarios = []
        self.violations = []
        self.known = []
        self.notes = []
        self.counts = {}

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n


def write_replay(prop, tag, text):
    os.makedirs(REPLAYS, exist_ok=True)
    tag = re.sub(r"[^A-Za-z0-9_.+-]+", "_", tag)[:80]
    path = os.path.join(REPLAYS, f"{prop}-{tag}.txt")
    with open(path, "w") as f:
        f.write(text)
    return path


def run_bin(res, config, name, tier, extra=(), timeout=None, only=None):
    """Runs one explorer binary and books what it says."""
    cmd = [config.exe(name), "--tier", tier] + list(extra)
    if only:
        cmd += ["--only", only]
    t0 = time.time()
    proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
    try:
        out, _ = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        out, _ = proc.communicate()
        raise Broken(f"{config.name}/{name} ran into its time limit of {timeout} s\n{out[-2000:]}")
    code = proc.returncode
    found, crash = None, None
    for line in out.splitlines():
        if line.startswith("SCENARIO "):
            s = json.loads(line[9:])
            s["build"], s["bin"] = config.name, name
            res.scenarios.append(s)
        elif line.startswith("FOUND "):
            found = json.loads(line[6:])
        elif line.startswith("KNOWN "):
            res.known.append(line[6:].strip())
        elif line.startswith("CRASH kind="):
            crash = line
    if code == 0 and not found and not crash:
        return
    replay_cmd = (f"cd {VERIF} && RUSTFLAGS='{config.flags}' CARGO_TARGET_DIR={config.target} cargo build --offline "
                  f"--manifest-path mc/Cargo.toml --profile {config.profile} --bin {name}"
                  + (f" --features {','.join(config.features)}" if config.features else ""))
    if code == 1 and found and not found["machine"]:
        if not found["reproduced"]:
            # A run that fails once and not when replayed is undefined behaviour or a harness fault; the
            # explorer controls every choice, so say so but still report it with its path.
            res.notes.append(f"{found['scenario']}: not reproduced on replay")
        text = [f"property {res.prop}", f"build {config.name}", f"scenario {found['scenario']}", f"choices {found['path']}",
                f"violation: {found['message']}", f"reproduced on replay: {found['reproduced']}", "history:"]
        text += ["  " + t for t in found["trace"]]
        text += ["", "replay:", "  " + replay_cmd,
                 f"  {config.exe(name)} --tier {tier} --replay '{found['scenario']}' --path '{found['path']}'", ""]
        path = write_replay(res.prop, f"{config.name}-{found['scenario']}", "\n".join(text))
        res.violations.append((path, f"{found['scenario']} [{config.name}]: {found['message']}"))
        return
    if code == 70 and crash:
        m = re.match(r"CRASH kind=(\S+) scenario=(\d+) path=(\S*)", crash)
        text = [f"property {res.prop}", f"build {config.name}", f"the run crashed: {crash}", "", out[-1500:], "", "replay:",
                "  " + replay_cmd,
                f"  {config.exe(name)} --tier {tier} --replay {m.group(2)} --path '{m.group(3)}'", ""]
        path = write_replay(res.prop, f"{config.name}-crash-{m.group(2)}", "\n".join(text))
        res.violations.append((path, f"scenario {m.group(2)} [{config.name}]: {m.group(1)}"))
        return
    raise Broken(f"{config.name}/{name} ended with status {code} after {time.time() - t0:.0f} s\n{out[-3000:]}")


def evidence(res, spec):
    states = sum(s.get("states", 0) for s in res.scenarios)
    transitions = sum(s.get("transitions", 0) for s in res.scenarios)
    execs = sum(s.get("executions", 0) for s in res.scenarios)
    samples = [f"[{s['build']}] {s['name']}: {s['sample'][:600]}" for s in res.scenarios if s.get("sample")][:12]
    coverage = {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": execs,
        "samples": samples or ["(none)"],
        "probes": sum(s.get("probes", 0) for s in res.scenarios),
        "injected_faults": sum(s.get("faults", 0) for s in res.scenarios),
        "scenarios": [{k: v for k, v in s.items() if k != "sample"} for s in res.scenarios],
        "exhaustive": True,
        "explanation": "States are the nodes of the choice trees (not merged) at which the oracle was evaluated; "
                       "transitions are executed operations leading to them; every trace is an execution of the real "
                       "code compiled from /repo, compared step by step with the reference model. "
                       + spec.get("bounds", ""),
    }
    coverage.update(res.counts)
    if res.notes:
        coverage["notes"] = res.notes
    doc = {
        "property": res.prop,
        "tier": res.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - res.start, 2),
        "violations": len(res.violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{res.prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def known_findings():
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def run_bins(res, spec):
    tier = res.tier
    configs = spec.get("configs_" + tier) or spec["configs"]
    bins = spec["bins"]
    build_all(configs, bins)
    for c in configs:
        for b in bins:
            run_bin(res, c, b, tier)
            if res.violations:
                return


def setup():
    """Builds the default configurations once; every check builds again from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    build_all([CHECKED, RELEASE], ["c01"])
    return 0


def main():
    from props import PROPS
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    args = ap.parse_args()
    if args.property == "setup":
        return setup()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[args.property]
    res = Result(args.property, tier)
    os.makedirs(BUILD, exist_ok=True)
    try:
        spec.get("run", run_bins)(res, spec)
    except BuildFailed as e:
        if not spec.get("build_is_verdict"):
            print(e.log[-6000:])
            print(f"ERROR: {e}")
            return 2
        path = write_replay(args.property, "build", f"The harness, which only uses documented API, no longer compiles:\n\n{e.log}")
        res.violations.append((path, str(e)))
    except Broken as e:
        print(f"ERROR: {e}")
        return 2
    known = known_findings()
    for k in sorted(set(res.known)):
        key, _, detail = k.partition(" ")
        if (args.property, key) in known:
            print(f"KNOWN-FINDING: property={args.property} {known[(args.property, key)]}")
        else:
            path = write_replay(args.property, f"finding-{key}", f"property {args.property}\n{key}: {detail}\n")
            res.violations.append((path, f"{key}: {detail}"))
    evidence(res, spec)
    for path, message in res.violations:
        print(f"VIOLATION property={args.property} replay={path}")
        print(f"  {message}"[:2000])
    if res.violations:
        return 1
    execs = sum(s.get("executions", 0) for s in res.scenarios)
    print(f"OK property={args.property} tier={tier}: {len(res.scenarios)} scenarios, {execs} executions, "
          f"{sum(s.get('states', 0) for s in res.scenarios)} states, {time.time() - res.start:.1f} s"
          + "".join(f", {k}={v}" for k, v in res.counts.items() if isinstance(v, int)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
