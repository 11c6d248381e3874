"""Runs TLC on the modules in /verif/spec."""

import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = ":".join(
    [
        "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar",
    ]
)
WORKERS = str(min(8, os.cpu_count() or 4))


class MachineryError(Exception):
    """The check itself is broken; this is not a verdict."""


class Result:
    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        first = 0
        if m:
            generated = int(m[-1][0].replace(",", ""))
            self.states = int(m[-1][1].replace(",", ""))
            i = re.findall(r"Finished computing initial states: ([\d,]+)", out)
            first = int(i[-1].replace(",", "")) if i else 0
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            generated = self.states = int(m[-1].replace(",", "")) if m else 0
            i = re.findall(r"([\d,]+) traces generated", out)
            first = int(i[-1].replace(",", "")) if i else 0
        self.transitions = max(0, generated - first)
        self.violated = re.findall(r"Invariant (\w+) is violated", out)

    def _printed(self, mark):
        """Bodies of the tuples <<mark, ...>>, which TLC prints on one or on several lines"""
        found = 0
        for m in re.finditer(rf'^<<\s*"{mark}",\s*(.*?)\s*>>$', self.out, re.M | re.S):
            found += 1
            yield m.group(1)
        if found != len(re.findall(rf'^<<\s*"{mark}",', self.out, re.M)):
            raise MachineryError(f"cannot read the {mark} lines")

    def lines(self, mark):
        """Decode lines printed by PrintT(<<mark, ToJson(x)>>)"""
        for body in self._printed(mark):
            yield json.loads(json.loads(body))

    def raw(self, mark):
        """Lines printed by PrintT(<<mark, ...>>) with simple values"""
        for body in self._printed(mark):
            yield json.loads("[" + body + "]")


def run(
    module,
    constants,
    invariants=(),
    defs="",
    simulate=None,
    depth=400,
    seed=0,
    files=None,
    timeout=240,
    spec="Spec",
    mem="3g",
    constraint=None,
    properties=(),
    workers=None,
):
    """Run `module` with constants given as TLA+ expressions.

    simulate: number of behaviours, or None for an exhaustive run.
    """
    work = tempfile.mkdtemp(prefix="vtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, content in (files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(content)
        mc = [f"---- MODULE MC ----", f"EXTENDS {module}", defs]
        cfg = [f"SPECIFICATION {spec}", "CONSTANTS"]
        for k, v in constants.items():
            mc.append(f"mc_{k} == {v}")
            cfg.append(f"  {k} <- mc_{k}")
        mc.append("====")
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(work, "MC.tla"), "w") as fh:
            fh.write("\n".join(mc))
        with open(os.path.join(work, "MC.cfg"), "w") as fh:
            fh.write("\n".join(cfg) if constants else "\n".join(c for c in cfg if c != "CONSTANTS"))
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss256m", "-cp", CP, "tlc2.TLC"]
        cmd += ["-workers", workers or WORKERS, "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
        cmd += ["-config", "MC.cfg", "MC.tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timed out on {module}") from e
        out = p.stdout + p.stderr
        r = Result(out, time.time() - t)
        r.code = p.returncode
        ok = "Model checking completed. No error" in out or (
            simulate and "Error:" not in out and p.returncode == 0
        )
        if not ok and not r.violated:
            raise MachineryError(f"TLC failed on {module}:\n" + out[-3000:])
        r.ok = ok
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tla(v):
    """A TLA+ expression for a Python value; frozenset -> set"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)
