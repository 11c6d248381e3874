"""Checks on object graphs: generation with Graphs.tla, judgement with GraphTrace.tla."""

import json
import warnings

import jsonpickle

import heap
import vpk
from core import guarded
from tlc import tla

OPT = {"unp": True, "refs": True, "keys": False, "depth": -1, "b85": False, "iter": -1}


def opt(**kw):
    o = dict(OPT)
    o.update(kw)
    return o


INVS = ["Laws"]


def shapes(**kw):
    return kw


def generate(
    c,
    shapes=(),
    atoms=(("pool", "any"),),
    hash_atoms=(("pool", "prim"),),
    keys=(("str", "k"), ("str", "l")),
    node_keys=(),
    nodes=3,
    opts=(OPT,),
    simulate=None,
    limit=None,
    refs=True,
    family=None,
):
    """Graphs of the model: all of them, randomly built ones, or the large families"""
    consts = {
        "Shapes": tla(frozenset(tuple(s) for s in shapes)),
        "Atoms": tla(frozenset(atoms)),
        "HashAtoms": tla(frozenset(hash_atoms)),
        "KeyAtoms": tla(frozenset(keys)),
        "NodeKeys": tla(frozenset(node_keys)),
        "MaxNodes": str(nodes),
        "Opts": "{" + ", ".join(tla(o) for o in opts) + "}",
        "RefsOn": tla(refs),
        "EmitOn": "TRUE",
    }
    if family:
        consts.update({k: tla(frozenset(v)) for k, v in family.items()})
        r = c.model("Families", consts, INVS, spec="FSpec", mem="4g")
    else:
        r = c.model("Graphs", consts, INVS, simulate=simulate, depth=40 * nodes)
    cases = {}
    for x in r.lines("CASE"):
        cases[json.dumps(x, sort_keys=True)] = x
    out = [cases[k] for k in sorted(cases)]
    c.extra["graphs_generated"] = c.extra.get("graphs_generated", 0) + len(out)
    if limit and len(out) > limit:
        out = c.rng.sample(out, limit)
    return out


def encode_args(o):
    kw = {}
    if not o["unp"]:
        kw["unpicklable"] = False
    if not o["refs"]:
        kw["make_refs"] = False
    if o["keys"]:
        kw["keys"] = True
    if o["depth"] >= 0:
        kw["max_depth"] = o["depth"]
    if o["iter"] >= 0:
        kw["max_iter"] = o["iter"]
    if o["b85"]:
        kw["use_base85"] = True
    return kw


def recorder(decode=True, want_repr=False, plain=False, concretizer=heap.Concretizer, opaque=None, named=None, clauses=(), **extra):
    """Returns the function that executes one case"""

    def record(case, rng):
        vpk.clear()
        vpk.register()
        try:
            return run(case, rng)
        finally:
            vpk.unregister()

    def run(case, rng):
        def project(x, **kw):
            return heap.project(x, opaque=opaque, named=named, **kw)

        o = case["o"]
        conc = concretizer(case, rng, plain_values=plain, **extra.get("values", {}))
        x = conc.build()
        vpk.CALLS.clear()
        pre, proj = project(x, want_repr=want_repr)
        if heap.ambiguous(pre) and "strict" not in clauses:
            return None
        rec = {"o": o, "h": pre["h"], "r": pre["r"], "a": {"h": [], "r": [], "ids": []}, "w": [], "b": {"h": [], "r": []}, "err": ""}
        kw = encode_args(o)
        kw.update(extra.get("encode", {}))
        dkw = {"keys": True} if o["keys"] else {}
        dkw.update(extra.get("decode_args", {}))
        if "ctx" in clauses:
            ctx = rng.choice(["c1", "c2", None, ""])
            if ctx is not None:
                kw["handler_context"] = dkw["handler_context"] = ctx
            kw["warn"] = rng.random() < 0.5
            opts = f"{o['unp']},{o['refs']},{o['keys']},{kw['warn']}"
            rec["ctx"] = {"want": f"{ctx} {opts}", "wantdec": f"{ctx} {o['keys']}", "enc": [], "dec": []}
        if "warn" in clauses:
            rec["warn"] = kw["warn"] = rng.random() < 0.6
        if "fails" in clauses:
            rec["fails"] = []
            value = conc.atom(o["fs"])

            def fail_safe(e):
                rec["fails"].append(proj.memo.get(id(getattr(e, "owner", None)), 0))
                return value

            kw["fail_safe"] = fail_safe
        del vpk.SEEN.log[:]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            text, rec["err"] = guarded(lambda: interruptible(lambda: jsonpickle.encode(x, **kw)))
        if "warn" in clauses:
            rec["warned"] = sum("cannot pickle" in str(w.message) for w in caught)
        if "drawn" in clauses:
            rec["drawn"] = [
                [i, vpk.get_args(proj.keep[i - 1])["drawn"]] for i, n in enumerate(pre["h"], 1) if n["k"] == "iter"
            ]
        if "ctx" in clauses:
            rec["ctx"]["enc"] = [f"{e[2]} {e[1]}" for e in vpk.SEEN.log]
        after, proj2 = project(x, want_repr=want_repr)
        rec["a"] = dict(after, ids=[proj.memo.get(id(y), 0) for y in proj2.keep])
        if rec["err"]:
            rec["err"] = "interrupted" if rec["err"].startswith("Interrupted") else "encode " + rec["err"]
            return rec
        if WIRE & set(clauses):
            rec["w"] = heap.pack(heap.wire(heap.parse(text), keys=o["keys"], reprs=proj.reprs))
        # a document that was cut off need not be readable
        if decode and o["depth"] < 0:
            del vpk.SEEN.log[:]
            y, rec["err"] = guarded(lambda: jsonpickle.decode(text, **dkw))
            if rec["err"]:
                rec["err"] = "decode " + rec["err"]
                return rec
            if "ctx" in clauses:
                rec["ctx"]["dec"] = [f"{e[2]} {e[1]}" for e in vpk.SEEN.log]
            rec["b"] = project(y)[0]
        if "again" in clauses:
            again(rec, text, rng, dkw, opaque, named)
        if "variants" in clauses:
            variants(rec, x, rng, kw, dkw, proj, project)
        return rec

    return record


WIRE = {"wire", "notags", "norefs", "reader", "variants"}


class Interrupted(Exception):
    pass


def interruptible(fn):
    """Interrupts raised on purpose, as ordinary exceptions"""
    try:
        return fn()
    except (KeyboardInterrupt, SystemExit) as e:
        if str(e) != "on purpose":
            raise
        raise Interrupted() from None


BACKENDS = {}


def backends():
    for name in ("json", "simplejson", "ujson"):
        if name not in BACKENDS:
            b = jsonpickle.backend.JSONBackend(fallthrough=False)
            b.set_preferred_backend(name)
            BACKENDS[name] = b
    return BACKENDS


LAYOUTS = [
    {}, {"indent": 0}, {"indent": 1}, {"indent": 4}, {"separators": (",", ":")}, {"separators": (" , ", " : ")},
    {"indent": 2, "separators": (",", ": ")},
]


def variants(rec, x, rng, kw, dkw, proj, project):
    """The same graph with other layouts and backends"""
    rec["ws"], rec["bs"] = [], []
    names = list(backends())
    for _ in range(3):
        writer, reader = rng.choice(names), rng.choice(names)
        layout = rng.choice(LAYOUTS)
        what = f"{writer} {layout} {reader}"
        text, err = guarded(lambda: jsonpickle.encode(x, backend=BACKENDS[writer], **layout, **kw))
        if err:
            rec["err"] = f"encode {what}: {err}"
            return
        rec["ws"].append(heap.pack(heap.wire(heap.parse(text), keys=kw.get("keys", False), reprs=proj.reprs)))
        if rec["o"]["depth"] >= 0:
            continue
        z, err = guarded(lambda: jsonpickle.decode(text, backend=BACKENDS[reader], **dkw))
        if err:
            rec["err"] = f"decode {what}: {err}"
            return
        rec["bs"].append(project(z)[0])


def again(rec, text, rng, dkw, opaque, named):
    """The parsed document restored several times"""
    data = json.loads(text)
    before, p0 = heap.project(data)
    results = []
    shared = jsonpickle.unpickler.Unpickler(**dkw)
    for _ in range(rng.randrange(2, 5)):
        u = shared if rng.random() < 0.5 else jsonpickle.unpickler.Unpickler(**dkw)
        y, rec["err"] = guarded(lambda: u.restore(data))
        if rec["err"]:
            return
        results.append(y)
    after, p1 = heap.project(data)
    p = heap.Projector(opaque=opaque, named=named)
    rec["again"] = {
        "before": [before, [1 for _ in p0.keep]],
        "after": [after, [int(any(x is y for y in p0.keep[i : i + 1])) for i, x in enumerate(p1.keep)]],
        "rs": [p.ref(x) for x in [data, *results]],
    }
    rec["again"]["h"] = p.nodes


def check(c, cases, clauses, label="", **kw):
    from core import execute

    records = execute(cases, recorder(clauses=clauses, **kw), c.seed)
    for case in cases[:1]:
        c.sample(case)
    c.judge("GraphTrace", records, {"Clauses": tla(frozenset(clauses))}, cases=cases, label=label)
    return records


def known(c, key, clauses, case, **kw):
    """The witness of a known finding: reported as such as long as it fails.

    It has no part in the result of the check otherwise.
    """
    from core import execute

    before = list(c.bad)
    clauses = [*clauses, "strict"]
    records = execute([case], recorder(clauses=clauses, **kw), c.seed)
    c.judge("GraphTrace", records, {"Clauses": tla(frozenset(clauses))}, cases=[case], label=key)
    if c.bad[len(before) :]:
        c.bad = before
        c.finding(key)
