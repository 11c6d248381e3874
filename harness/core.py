"""Common parts of all checks: tiers, seeds, execution, judgement, evidence."""

import json
import multiprocessing
import os
import random
import signal
import sys
import tempfile
import time
import traceback

import tlc
from tlc import MachineryError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang("no answer in time")


def guarded(fn, *args, seconds=20):
    """Call fn; an exception or a hang of the code under test is an answer too."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return fn(*args), ""
    except Hang as e:
        return None, f"Hang: {e}"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        where = traceback.extract_tb(e.__traceback__)[-1]
        return None, f"{type(e).__name__}: {str(e)[:120]} ({os.path.basename(where.filename)}:{where.lineno})"
    finally:
        signal.alarm(0)


def _worker(fn, cases, start, seed, path):
    with open(path, "w") as out:
        for i, case in enumerate(cases):
            out.write(json.dumps({"start": start + i}) + "\n")
            out.flush()
            rec = fn(case, random.Random(f"{seed}:{start + i}"))
            out.write(json.dumps({"i": start + i, "rec": rec}) + "\n")
            out.flush()


def execute(cases, fn, seed, procs=8):
    """Run fn(case, rng) for all cases in forked processes; returns records.

    A case on which the process dies gives the record {"err": "crashed"}.
    """
    ctx = multiprocessing.get_context("fork")
    n = len(cases)
    if not n:
        return []
    procs = max(1, min(procs, n))
    bounds = [n * k // procs for k in range(procs + 1)]
    tmp = tempfile.mkdtemp(prefix="vexec")
    jobs = []
    for k in range(procs):
        path = os.path.join(tmp, f"{k}.ndjson")
        p = ctx.Process(target=_worker, args=(fn, cases[bounds[k] : bounds[k + 1]], bounds[k], seed, path))
        p.start()
        jobs.append((p, path))
    records = [None] * n
    for p, path in jobs:
        p.join()
        last = None
        with open(path) as fh:
            for line in fh:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "start" in d:
                    last = d["start"]
                else:
                    records[d["i"]] = d["rec"]
                    last = None
        os.unlink(path)
        if p.exitcode != 0:
            if last is None or p.exitcode == 1:
                raise MachineryError(f"executor failed with exit code {p.exitcode} at case {last}")
            records[last] = {"err": f"the interpreter died with signal {-p.exitcode}", "crash": True}
    os.rmdir(tmp)
    return records


class Check:
    level = "model_checking"

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "0"))
        self.rng = random.Random(f"{prop}:{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.bad = []
        self.skipped = 0
        self.known = []
        self.extra = {}
        self.assumptions = []

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def trace(self, *what):
        if os.environ.get("VERIF_TRACE"):
            print(f"{time.time() - self.t0:7.1f}", *what, flush=True)

    # ---- model checking
    def model(self, module, constants, invariants, **kw):
        kw.setdefault("seed", self.rng.randrange(2**31))
        r = tlc.run(module, constants, invariants, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.trace("model", module, r.states, "states")
        if r.violated:
            broken = sorted((json.dumps(b) for b in r.lines("BROKEN")), key=len)
            raise MachineryError(f"the model of {self.prop} violates {r.violated}:\n" + (broken or [r.out[-3000:]])[0])
        return r

    # ---- judgement of records
    def judge(self, module, records, constants=None, inv="Judge", cases=None, label="", files=None, mem="4g", spec="Spec"):
        """Let TLC judge records; remembers the failing ones"""
        self.skipped += sum(r is None for r in records)
        idx = [i for i, r in enumerate(records) if r is not None and not r.get("crash")]
        for i, r in enumerate(records):
            if r is not None and r.get("crash"):
                self.bad.append((label, cases[i] if cases else None, r, r["err"]))
        todo = [records[i] for i in idx]
        self.trace("executed", label, len(todo))
        if not todo:
            return
        size = 6000
        for lo in range(0, len(todo), size):
            part = todo[lo : lo + size]
            text = "\n".join(json.dumps(r) for r in part) + "\n"
            c = {"File": '"records.ndjson"', "Chains": "64"}
            c.update(constants or {})
            fs = {"records.ndjson": text}
            fs.update(files or {})
            r = tlc.run(module, c, [inv], files=fs, mem=mem, spec=spec)
            if r.states != len(part):
                raise MachineryError(f"{module} judged {r.states} of {len(part)} records:\n" + r.out[-2000:])
            self.states += r.states
            self.transitions += r.transitions
            self.validated += len(part)
            self.trace("judged", label, len(part))
            for bad in r.raw("BAD"):
                if bad[1] == "excused":
                    self.extra["outside_domain"] = self.extra.get("outside_domain", 0) + 1
                    continue
                i = idx[lo + bad[0] - 1]
                self.bad.append((label, cases[i] if cases else None, records[i], bad[1]))

    def finding(self, key):
        """A witness of KNOWN_FINDINGS.txt failed as described there"""
        with open(KNOWN) as fh:
            for line in fh:
                if line.startswith(f"known: property={self.prop} [{key}] "):
                    self.known.append(line.split("] ", 1)[1].strip())
                    return
        raise MachineryError(f"{key} is not listed in {KNOWN}")

    # ---- result
    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        if self.skipped:
            cov["skipped"] = self.skipped
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.bad),
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for what in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.bad:
            path = os.path.join(EVIDENCE, f"replay-{self.prop}.json")
            with open(path, "w") as fh:
                json.dump(
                    [{"part": lb, "case": c, "record": r, "verdict": v} for lb, c, r, v in self.bad[:20]], fh, indent=1
                )
            by = {}
            for lb, _, _, v in self.bad:
                by[(lb, v)] = by.get((lb, v), 0) + 1
            for (lb, v), n in sorted(by.items(), key=lambda e: -e[1])[:10]:
                print(f"  {n} x {lb}: {v}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(
            f"{self.prop} held: {self.validated} executions judged, {self.states} states, "
            f"{time.time() - self.t0:.1f} s"
        )
        return 0


def main(prop, body):
    c = Check(prop)
    try:
        body(c)
        code = c.finish()
    except MachineryError as e:
        print(f"ERROR in the check of {prop}: {e}", file=sys.stderr)
        code = 2
    except Exception:  # noqa
        traceback.print_exc()
        code = 3
    return code
