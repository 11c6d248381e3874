"""Calls that run at the same time or inside each other: Interleave.tla, GraphTrace.tla."""

import json
import random
import re
import sys
import threading

import jsonpickle

import graphs
import heap
import vpk
from core import execute
from tlc import tla


LAYOUTS = {
    "default": {}, "one": {"indent": 1}, "four": {"indent": 4}, "tight": {"separators": (",", ":")}, "wide": {"separators": (" , ", " : ")},
    "both": {"indent": 2, "separators": (",", ":")},
}
STRING = re.compile(r'"(?:[^"\\]|\\.)*"')


class Fields(dict):
    """An object of a document, with keys that occur more than once"""

    def __init__(self, pairs):
        super().__init__(pairs)
        self.pairs = pairs

    def items(self):
        return self.pairs


def layouts(text):
    """The layouts that would have given this text"""
    text = STRING.sub('"s"', text)
    tree = json.loads(text, object_pairs_hook=Fields)
    return [name for name, kw in LAYOUTS.items() if json.dumps(tree, **kw) == text]


class Stuck(Exception):
    pass


class Call:
    """One call of encode or decode, and what it returned"""

    def __init__(self, number, graph, rng, shared=None):
        self.number = number
        self.o = graph["o"]
        self.kind = rng.choice(("encode", "decode"))
        self.x = shared if shared is not None else heap.Concretizer(graph, rng).build()
        self.pre, self.proj = heap.project(self.x, want_repr=True)
        ctx = f"c{number}"
        self.kw = dict(graphs.encode_args(self.o), handler_context=ctx, warn=rng.random() < 0.5)
        self.layout = rng.choice(list(LAYOUTS))
        self.kw.update(LAYOUTS[self.layout])
        self.dkw = {"handler_context": ctx, "keys": self.o["keys"]}
        opts = f"{self.o['unp']},{self.o['refs']},{self.o['keys']},{self.kw['warn']}"
        self.ctx = {"want": f"{ctx} {opts}", "wantdec": f"{ctx} {self.o['keys']}", "enc": [], "dec": []}
        self.text = self.y = None
        self.err = ""
        self.done = False

    def attempt(self, what, fn, into):
        saved, vpk.SEEN.log = vpk.SEEN.log, []
        try:
            return fn()
        except Exception as e:  # noqa
            self.err = f"{what} {type(e).__name__}: {str(e)[:100]}"
        finally:
            self.ctx[into] = [f"{e[2]} {e[1]}" for e in vpk.SEEN.log]
            vpk.SEEN.log = saved

    def encode(self):
        self.text = self.attempt("encode", lambda: jsonpickle.encode(self.x, **self.kw), "enc")

    def decode(self):
        self.y = self.attempt("decode", lambda: jsonpickle.decode(self.text, **self.dkw), "dec")

    def before(self):
        if self.kind == "decode":
            self.encode()

    def run(self):
        if not self.err:
            self.encode() if self.kind == "encode" else self.decode()
        self.done = True

    def record(self):
        if self.kind == "encode" and not self.err:
            self.decode()
        rec = {"o": self.o, "h": self.pre["h"], "r": self.pre["r"], "w": [], "b": {"h": [], "r": []}, "err": self.err, "ctx": self.ctx}
        if not self.err:
            rec["w"] = heap.pack(heap.wire(heap.parse(self.text), keys=self.o["keys"], reprs=self.proj.reprs))
            rec["b"] = heap.project(self.y)[0]
            rec["layout"], rec["layouts"] = self.layout, layouts(self.text)
        return rec


class Lockstep:
    """Runs calls in threads, one at a time, as a schedule says"""

    def __init__(self, calls):
        self.calls = calls
        self.go = [threading.Semaphore(0) for _ in calls]
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.nested = [None] * len(calls)

    def body(self, i):
        self.local.me = i
        self.local.inside = False
        self.go[i].acquire()
        try:
            if not self.calls[i].done:
                self.calls[i].run()
        finally:
            self.back.release()

    def point(self):
        i = getattr(self.local, "me", None)
        if i is None or self.local.inside:
            return
        self.back.release()
        self.go[i].acquire()
        q = self.nested[i]
        if q is not None:
            self.nested[i] = None
            self.local.inside = True
            try:
                self.calls[q].run()
            finally:
                self.local.inside = False

    def resume(self, i):
        self.go[i].release()
        if not self.back.acquire(timeout=20):
            raise Stuck

    def run(self, schedule):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in threads:
            t.start()
        vpk.POINT = self.point
        started = set()
        try:
            for p, q in schedule:
                p, q = p - 1, q - 1
                if self.calls[p].done:
                    continue
                if q >= 0:
                    # only a call that has stopped at a point can make another
                    if p not in started or q in started:
                        continue
                    started.add(q)
                    self.nested[p] = q
                started.add(p)
                self.resume(p)
            for i in range(len(self.calls)):
                while threads[i].is_alive() and not self.calls[i].done:
                    self.resume(i)
        finally:
            vpk.POINT = None
            for i, t in enumerate(threads):
                if t.is_alive():
                    self.go[i].release()
        for t in threads:
            t.join(5)


def freely(calls):
    """All calls at once, switching as often as possible"""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    barrier = threading.Barrier(len(calls))

    def body(call):
        barrier.wait()
        call.run()

    threads = [threading.Thread(target=body, args=(c,), daemon=True) for c in calls]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(30)
            if t.is_alive():
                raise Stuck
    finally:
        sys.setswitchinterval(old)


def record(case, rng):
    vpk.clear()
    vpk.register()
    try:
        return {"many": run_case(case, rng)}
    finally:
        vpk.unregister()


def run_case(case, rng):
    calls = []
    for number, graph in enumerate(case["graphs"]):
        shared = None
        # several calls may write the same objects
        if calls and case.get("share") and graph["heap"] == case["graphs"][0]["heap"]:
            shared = calls[0].x
        calls.append(Call(number, graph, rng, shared))
    if any(heap.ambiguous(c.pre) for c in calls):
        return []
    for c in calls:
        c.before()
    try:
        if case["schedule"] is None:
            freely(calls)
        else:
            Lockstep(calls).run(case["schedule"])
    except Stuck:
        for c in calls:
            if not c.done:
                c.err = c.err or "no answer in time"
    return [c.record() for c in calls]


def schedules(c, scripts, nest, simulate=None, limit=None):
    k = {"Scripts": tla(scripts), "NestOn": tla(nest), "EmitOn": "TRUE", "Random": tla(bool(simulate))}
    r = c.model("Interleave", k, ["Laws"], simulate=simulate, depth=60)
    out = sorted(r.lines("CASE"), key=json.dumps)
    c.extra["schedules_generated"] = c.extra.get("schedules_generated", 0) + len(out)
    random.Random(c.seed).shuffle(out)
    return out[:limit]


def run(c, pool, handled):
    busy = [g for g in pool if sum(n["k"] not in ("list", "dict", "tuple", "set", "obj") for n in g["heap"]) >= 2]
    handled = [g for g in handled if sum(n["k"] == "handler" for n in g["heap"]) >= 2]
    ab = ("a", "b", "a", "c", "b", "d")
    parts = [
        ("two calls", schedules(c, (ab[:4], ab[1:5]), False), 2, c.pick(12, 60)),
        ("two calls, nested", schedules(c, (ab[:4], ab[:3]), True), 2, c.pick(8, 60)),
        ("three calls, nested", schedules(c, (ab[:3], ab[1:3], ab[:2]), True, limit=c.pick(600, 6000)), 3, c.pick(1, 4)),
        ("long schedules", schedules(c, (ab * 2, ab * 2, ab * 2), True, simulate=c.pick(60, 800), limit=c.pick(400, 5000)), 3, 1),
        ("free running", [None] * c.pick(300, 5000), 4, 1),
    ]
    for what, scheds, n, times in parts:
        cases = []
        for s in scheds:
            for _ in range(times):
                gs = [c.rng.choice(busy if c.rng.random() < 0.5 else handled) for _ in range(n)]
                share = c.rng.random() < 0.3
                if share:
                    gs = [dict(gs[0], o=g["o"]) for g in gs]
                cases.append({"schedule": s, "graphs": gs, "share": share})
        c.sample(scheds[0])
        c.extra["interleavings_run"] = c.extra.get("interleavings_run", 0) + len(cases)
        records, owners = [], []
        for case, rec in zip(cases, execute(cases, record, c.seed)):
            for r in [rec] if rec.get("crash") else rec["many"]:
                records.append(r)
                owners.append(case)
        c.judge("GraphTrace", records, {"Clauses": tla(frozenset(("wire", "iso", "ctx", "layout")))}, cases=owners, label=what)
