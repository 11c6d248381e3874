"""Contexts used again and again: Session.tla, SessionTrace.tla."""

import json
import random

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

import graphs
import heap
import vpk
from core import execute, guarded
from tlc import tla

GIVEN = {}
for _name in ("Given1", "Given2"):
    GIVEN[_name] = type(_name, (), {"__module__": "vsession"})  # cannot be imported
    vpk.KIND[GIVEN[_name]] = "obj"


def reach(h, r, seen=None):
    seen = set() if seen is None else seen
    todo = [r]
    while todo:
        r = todo.pop()
        if r[0] != "n" or r[1] in seen:
            continue
        seen.add(r[1])
        n = h[r[1] - 1]
        todo += n["seq"] + n["ext"] + [x for it in n["items"] for x in it[:2]] + [x for _, x in n["attrs"]]
    return seen


# ------------------------------------------------------------------- writing
def write_record(case, rng):
    vpk.clear()
    vpk.register()
    try:
        return writing(case, rng)
    finally:
        vpk.unregister()


def writing(case, rng):
    graph, o = case["graph"], case["graph"]["o"]
    conc = heap.Concretizer(graph, rng)
    x = conc.build()
    pre, proj = heap.project(x, want_repr=True)
    fails = {i for i, n in enumerate(pre["h"], 1) if n["k"] == "fail"}
    bad = [i for i in range(1, len(pre["h"]) + 1) if reach(pre["h"], ["n", i]) & fails]
    good = [i for i in range(1, len(pre["h"]) + 1) if i not in bad and pre["h"][i - 1]["k"] != "iter"]
    roots = {}
    for d in sorted({e["d"] for e in case["ops"]}):
        roots[d, "ok"] = rng.choice(good or bad)
        roots[d, "raise"] = rng.choice(bad or good)
    context = Pickler(**{k: v for k, v in context_args(o).items()})
    rec = {"side": "write", "o": o, "h": pre["h"], "ops": []}
    for e in case["ops"]:
        i = roots[e["d"], e["fate"]]
        value = proj.keep[i - 1]
        if e["how"] == "encode":
            text, err = guarded(lambda: graphs.interruptible(lambda: jsonpickle.encode(value, context=context)))
            doc = None if err else heap.parse(text)
        else:
            data, err = guarded(lambda: graphs.interruptible(lambda: context.flatten(value)))
            doc = None if err else heap.pairs(data)
        w = [] if err else heap.pack(heap.wire(doc, keys=o["keys"], reprs=proj.reprs))
        rec["ops"].append({"r": ["n", i], "w": w, "err": err})
    return rec


def context_args(o):
    return {
        "unpicklable": o["unp"],
        "make_refs": o["refs"],
        "keys": o["keys"],
        "max_depth": o["depth"] if o["depth"] >= 0 else None,
        "use_base85": o["b85"],
    }


# ------------------------------------------------------------------- reading
def document(graph, rng, o, fate, keep, give, table):
    """The text of a document that has the graph and parts of its own"""
    x = heap.Concretizer(graph, rng).build()
    pre, _ = heap.project(x)
    table.update((n["c"], n["k"]) for n in pre["h"])
    data = json.loads(jsonpickle.encode([x, 0], keys=o["keys"]))
    data.pop()
    many = len(pre["h"]) + 4
    for _ in range(rng.randrange(1, 5)):
        kind = rng.choice(("id", "given", "given", "list"))
        if kind == "id":
            data.append({"py/id": rng.randrange(3 if keep else many)})
        elif kind == "list":
            data.append([{"k": {"py/id": rng.randrange(3 if keep else many)}}])
        else:
            name = rng.choice(list(GIVEN))
            data.append({"py/object": f"vsession.{name}", "a": rng.randrange(9), "b": [rng.randrange(9)]})
    if fate == "raise":
        part = {"py/object": "vpk." + rng.choice(("Explode", "ExplodeNew", "ExplodeHard")), "py/state": [{"py/id": 0}]}
        for _ in range(rng.randrange(3)):
            part = rng.choice(([part], {"k": part}, {"py/tuple": [1, part]}))
        data.insert(rng.randrange(len(data) + 1), part)
    return json.dumps(data)


def forms(names, rng):
    """The ways to supply classes"""
    classes = [GIVEN[n] for n in names]
    if not classes:
        return rng.choice((None, [], {}))
    way = rng.randrange(5)
    if way == 0 and len(classes) == 1:
        return classes[0]
    if way == 1:
        return tuple(classes)
    if way == 2:
        return {f"vsession.{c.__name__}": c for c in classes}
    if way == 3:
        return {c: c for c in classes}
    return classes


def read_record(case, rng):
    vpk.clear()
    vpk.register()
    try:
        return reading(case, rng)
    finally:
        vpk.unregister()


def reading(case, rng):
    o = case["o"]
    context = Unpickler(keys=o["keys"])
    rec = {"side": "read", "o": o, "ct": [], "ops": [], "h": [], "rs": []}
    table, docs, results = {}, {}, []
    for e in case["ops"]:
        key = (e["d"], e["keep"], e["fate"])
        if key not in docs or rng.random() < 0.3:
            graph = case["simple"][e["d"]] if e["keep"] else case["rich"][e["d"]]
            docs[key] = document(graph, rng, o, e["fate"], e["keep"], e["give"], table)
        text = docs[key]
        classes = forms(e["give"], rng)
        if e["how"] == "decode":
            y, err = guarded(
                lambda: graphs.interruptible(
                    lambda: jsonpickle.decode(text, context=context, reset=not e["keep"], classes=classes)
                )
            )
        else:
            data = json.loads(text)
            y, err = guarded(
                lambda: graphs.interruptible(lambda: context.restore(data, reset=not e["keep"], classes=classes))
            )
        results.append(None if err else y)
        w = heap.pack(heap.wire(heap.parse(text), keys=o["keys"]))
        give = [f"vsession.{n}" for n in e["give"]]
        rec["ops"].append({"w": w, "keep": e["keep"], "give": give, "fate": e["fate"], "err": err})
    p = heap.Projector()
    rec["rs"] = [p.ref(x) for x in results]
    rec["h"] = p.nodes
    rec["ct"] = [[c, k] for c, k in sorted(table.items())]
    if heap.ambiguous(rec):
        return None
    return rec


# --------------------------------------------------------------------- check
def skeletons(c, side, operands, hows, ops, simulate=None, limit=None):
    k = {
        "Side": tla(side),
        "Operands": tla(frozenset(operands)),
        "Given": tla(frozenset(GIVEN if side == "read" else ())),
        "Hows": tla(frozenset(hows)),
        "MaxOps": str(ops),
        "EmitAt": str(ops),
        "Random": tla(bool(simulate)),
    }
    r = c.model("Session", k, ["Laws"], simulate=simulate, depth=ops + 2)
    out = sorted(r.lines("CASE"), key=json.dumps)
    random.Random(c.seed).shuffle(out)
    return out[:limit]


def run(c, write_graphs, rich, simple):
    # most values should be large enough to hold something that fails
    write_graphs = [g for g in write_graphs if len(g["heap"]) > 1]
    failing = [g for g in write_graphs if any(n["k"] in ("fail", "faillate") for n in g["heap"][1:])]
    ways = ("flatten", "encode"), ("restore", "decode")
    for side in ("write", "read"):
        short = skeletons(c, side, "ab", ways[side == "read"], c.pick(3, 3), limit=c.pick(2500, 30000))
        long = skeletons(c, side, "abc", ways[side == "read"], c.pick(9, 20), simulate=c.pick(150, 2000), limit=c.pick(1200, 15000))
        for what, sessions in (("short", short), ("long", long)):
            cases = []
            for ops in sessions:
                if side == "write":
                    cases.append({"ops": ops, "graph": c.rng.choice(failing if c.rng.random() < 0.8 else write_graphs)})
                else:
                    pools = {
                        "rich": {d: c.rng.choice(rich) for d in "abc"},
                        "simple": {d: c.rng.choice(simple) for d in "abc"},
                    }
                    cases.append({"ops": ops, "o": graphs.opt(keys=c.rng.random() < 0.3), **pools})
            c.sample(sessions[0])
            records = execute(cases, write_record if side == "write" else read_record, c.seed)
            c.judge("SessionTrace", records, cases=cases, label=f"{what} {side} sessions")
