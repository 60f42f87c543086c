"""Compiles and runs generated programs against gecs built from /repo's working tree."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

import __main__ as ck

JOBS = 8


class Toolchain:
    """gecs (with some features) and the support crate, as libraries for rustc."""

    def __init__(self, features=(), work="programs", channel=None, release=False):
        self.release = release
        self.features = tuple(features)
        self.channel = [f"+{channel}"] if channel else []
        self.dir = os.path.join(ck.BUILD, "gecs" + (f"-{channel}" if channel else "") + "".join("+" + f for f in self.features))
        self.work = os.path.join(ck.BUILD, work)

    def cargo(self):
        cmd = ["cargo"] + self.channel + ["build", "--offline", "--locked", "--manifest-path", os.path.join(ck.VERIF, "gen", "dep", "Cargo.toml"), "--lib",
               "--message-format=json-render-diagnostics"]
        if self.release:
            cmd += ["--release"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        env = ck.cargo_env(self.dir)
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        return cmd, env

    def build(self, rt=True):
        cmd, env = self.cargo()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ck.VERIF)
        if r.returncode != 0:
            raise ck.BuildFailed("gecs", r.stderr)
        self.rlib = None
        dirs = []
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") != "compiler-artifact":
                continue
            dirs += [d for d in map(os.path.dirname, m["filenames"]) if d not in dirs]
            if m["target"]["name"] == "gecs":
                self.rlib = next(f for f in m["filenames"] if f.endswith(".rlib"))
                self.externs = [x for f in m["filenames"] for x in ("--extern", f"gecs={f}")]
        if not self.rlib:
            raise ck.Broken("no gecs library was built")
        self.search = [x for d in dirs for x in ("-L", f"dependency={d}")]
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        if rt:
            self.rt = os.path.join(self.work, "librt.rlib")
            r = subprocess.run(self.rustc() + ["--crate-type", "rlib", "--crate-name", "rt", "-o", self.rt, os.path.join(ck.VERIF, "gen", "rt.rs")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ck.BuildFailed("rt", r.stdout)
        else:
            self.rt = None
        return self

    def rustc(self, rt=False):
        cmd = ["rustc"] + self.channel + ["--edition", "2021", "-Cdebuginfo=0", "-Ccodegen-units=1"] + (["-Copt-level=1"] if self.release else ["-Copt-level=0", "-Cdebug-assertions=on"]) + self.externs + self.search
        if rt and self.rt:
            cmd += ["--extern", f"rt={self.rt}"]
        return cmd

    def compile(self, name, source, link=True, cfgs=(), timeout=400, extra=()):
        """(ok, errors, exe): errors are (line, code, message, rendered) attributed to lines of the source file."""
        path = os.path.join(self.work, f"{name}.rs")
        with open(path, "w") as f:
            f.write(source)
        exe = os.path.join(self.work, f"{name}.bin")
        cmd = self.rustc(rt=True) + ["--crate-type", "bin", "--crate-name", "prog", "--error-format=json", "--emit=" + ("link" if link else "metadata"), "-o", exe, path]
        for c in cfgs:
            cmd += ["--cfg", c]
        cmd += list(extra)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ck.Broken(f"rustc takes over {timeout} s for {name}")
        errors = []
        for line in r.stderr.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("level") != "error":
                continue
            code = (m.get("code") or {}).get("code")
            lines = []
            for s in m.get("spans", []):
                if s.get("is_primary"):
                    n = own_line(s, path)
                    if n:
                        lines.append(n)
            errors.append((lines[0] if lines else None, code, m.get("message", ""), m.get("rendered") or ""))
        if r.returncode != 0 and not errors:
            raise ck.Broken(f"rustc failed without a diagnostic on {name}: {r.stderr[-2000:]}")
        return r.returncode == 0, errors, exe

    def run(self, exe, timeout=120):
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        return r.returncode, r.stdout


def own_line(span, path):
    """The line of the source file a span stems from: the outermost call site of the macro."""
    s, best = span, None
    while s:
        if s.get("file_name") == path:
            best = s["line_start"]
        exp = s.get("expansion")
        s = exp.get("span") if exp else None
    return best


def parallel(jobs):
    """Runs functions in parallel; the first exception wins."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as pool:
        futs = [pool.submit(j) for j in jobs]
        try:
            return [f.result() for f in futs]
        except BaseException:
            for f in futs:
                f.cancel()
            raise


class Crate:
    """A program made of units; remembers which lines belong to which."""

    def __init__(self, head):
        self.head = head
        self.lines = []
        self.spans = []
        self.shared = []

    def add(self, text, unit=None):
        start = len(self.lines) + 1
        self.lines += text.split("\n")
        if unit is not None:
            self.spans.append((start, len(self.lines), unit))

    def text(self, tail=""):
        return "\n".join([self.head.rstrip("\n")] + self.lines + [tail])

    def unit_at(self, line):
        if line is None:
            return None
        line -= len(self.head.rstrip("\n").split("\n"))
        for a, b, u in self.spans:
            if a <= line <= b:
                return u
        return None
