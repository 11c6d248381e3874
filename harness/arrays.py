"""numpy arrays, views, scalars and dtypes: Arrays.tla, ArraysTrace.tla."""

import bz2
import datetime
import itertools
import json
import warnings
import zlib

import jsonpickle
import jsonpickle.ext.numpy as jn
import numpy as np

from core import execute, guarded
from tlc import tla

STRUCT = np.dtype([("a", "<i2"), ("b", ">i4")])
PADDED = np.dtype({"names": ["x", "y"], "formats": ["u1", "<f8"], "offsets": [1, 4], "itemsize": 13})
NESTED = np.dtype([("p", "<i2", (2,)), ("q", "S3")])
SPECIAL = {"struct": STRUCT, "padded": PADDED, "nested": NESTED}


def both(kind, item, swap=True):
    return [("<" + kind, item, ">" + kind if swap else "", []), (">" + kind, item, "<" + kind if swap else "", [])]


PLAIN = [("?", 1, "", []), ("i1", 1, "", []), ("u1", 1, "", [])]
NUMBERS = both("i2", 2) + both("i4", 4) + both("i8", 8) + both("u4", 4) + both("f2", 2) + both("f4", 4) + both("f8", 8)
MORE = both("c8", 8) + both("c16", 16) + both("M8[s]", 8) + both("M8[ns]", 8) + both("m8[D]", 8) + both("M8[D]", 8)
TEXTS = both("U2", 8, False) + [("S3", 3, "", []), ("V5", 5, "", [])]
FIELDS = [
    ("struct", 6, "", [["a", 0, "<i2"], ["b", 2, ">i4"]]),
    ("padded", 13, "", [["x", 1, "u1"], ["y", 4, "<f8"]]),
    ("nested", 7, "", [["q", 4, "S3"]]),
]
OBJECT = [("O", 8, "", [])]
ALL = PLAIN + NUMBERS + MORE + TEXTS + FIELDS + OBJECT
FEW = [("u1", 1, "", [])] + both("i2", 2) + both("i4", 4) + [("S3", 3, "", []), ("struct", 6, "", [["a", 0, "<i2"], ["b", 2, ">i4"]])]


def dtype(name):
    return SPECIAL[name] if name in SPECIAL else np.dtype(name)


def some(d, rng):
    """A value of the given type"""
    k = d.kind
    if d.subdtype:
        return [some(d.subdtype[0], rng) for _ in range(d.subdtype[1][0])]
    if d.names:
        return tuple(some(d.fields[n][0], rng) for n in d.names)
    if k == "b":
        return rng.random() < 0.5
    if k in "iu":
        info = np.iinfo(d)
        return rng.choice([0, 1, info.max, info.min, rng.randint(info.min, info.max)])
    if k == "f":
        return rng.choice([0.0, -0.0, 1.5, float("inf"), float("nan"), rng.uniform(-100, 100), 1e-5])
    if k == "c":
        return complex(rng.choice([0.0, -1.5, rng.random()]), rng.choice([0.0, 2.0, rng.random()]))
    if k == "U":
        return rng.choice(["", "a", "éx", "\U0001f600", "zz"])
    if k == "S":
        return rng.choice([b"", b"a", b"\xff\x01", b"abc", b"\x00b"])
    if k == "V":
        return rng.randbytes(d.itemsize)
    if k == "O":
        lists = [[1, 2], [], (3, "x"), ("y",)]
        return rng.choice([None, True, 1, 2.5, "text", "", 10**20, datetime.date(2020, 1, 2), b"b", 1j, *lists])
    return rng.choice([0, 1, -1, rng.randint(-(10**5), 10**5), "NaT"])


def fill(shape, name, order, rng):
    d = dtype(name)
    a = np.zeros(shape, d, order=order)
    for i in np.ndindex(*shape):
        v = some(d, rng)
        if d.kind == "O" and not shape and isinstance(v, (list, tuple)):
            v = None  # cannot be assigned
        a[i] = np.array(v, d) if d.kind in "mM" else v
    return a


def view(a, how):
    op = how[0]
    if op == "transpose":
        return a.transpose()
    if op == "axis":
        return np.expand_dims(a, how[1] - 1)
    if op == "repeat":
        x = np.expand_dims(a, how[1] - 1)
        return np.broadcast_to(x, x.shape[: how[1] - 1] + (how[2],) + x.shape[how[1] :])
    if op == "flat":
        return a.reshape(-1)
    if op == "as":
        return a.view(how[1])
    if op == "field":
        return a[how[1]]
    where = [slice(None)] * a.ndim
    if op == "index":
        where[how[1] - 1] = how[2]
        return a[(*where, ...)]
    _, ax, start, step, k = how
    stop = start + k * step
    where[ax - 1] = slice(start, stop if stop >= 0 else None, step) if k else slice(start, start, step)
    return a[tuple(where)]


def rename(xs):
    seen = {}
    return [seen.setdefault(x, len(seen) + 1) for x in xs]


def addresses(a):
    first = a.__array_interface__["data"][0]
    out = []
    for i in itertools.product(*map(range, a.shape)):
        at = first + sum(x * y for x, y in zip(i, a.strides))
        out.extend(range(at, at + a.itemsize))
    return out


def name(d):
    return f"{d.str} {d}" if d.names else d.str


def seen(x):
    kind = type(x).__name__
    if isinstance(x, np.dtype):
        return {"kind": "dtype", "dtype": name(x), "shape": [], "w": True, "values": ""}
    if isinstance(x, np.ndarray):
        return {"kind": kind, "dtype": name(x.dtype), "shape": list(x.shape), "w": bool(x.flags.writeable), "values": content(x)}
    if isinstance(x, np.generic):
        return {"kind": kind, "dtype": name(x.dtype), "shape": [], "w": True, "values": content(np.array(x, x.dtype))}
    return {"kind": kind, "dtype": "", "shape": [], "w": True, "values": repr(x)[:80]}


def content(a):
    if a.dtype.hasobject:
        return repr(a.tolist())
    if a.dtype.names:
        return [content(np.ascontiguousarray(a[n])) for n in a.dtype.names]
    return a.tobytes().hex()


def record(case, rng):
    rec = {"heap": case["heap"], "graph": case["graph"], "want": [], "got": [], "bytes": [], "ids": [], "tail": True, "err": ""}
    heap = []
    for a in case["heap"]:
        how = a["how"]
        if how[0] == "new":
            x = fill(tuple(a["sh"]), a["t"], how[1], rng)
        else:
            x = view(heap[how[1] - 1], how[2:])
        if not a["w"]:
            x.flags.writeable = False
        if x.flags.writeable != a["w"] or list(x.shape) != list(a["sh"]) or x.dtype != dtype(a["t"]):
            raise AssertionError(f"{how}: {x.shape} {x.dtype}, expected {a['sh']} {a['t']}")
        heap.append(x)
    members = []
    for g in case["graph"]:
        if g[0] == "array":
            members.append(heap[g[1] - 1])
        elif g[0] == "dtype":
            members.append(dtype(g[1]))
        else:
            members.append(fill((1,), g[1], "C", rng)[0])
    rec["want"] = [seen(x) for x in members]
    wrap = case["wrap"]

    def run():
        warnings.simplefilter("ignore")
        jn.register_handlers(
            ndarray_mode=case["mode"], ndarray_size_threshold=case["threshold"],
            ndarray_compression={"zlib": zlib, "bz2": bz2, "": None}[case["compression"]],
        )
        try:
            shared = ["shared"]
            inner = {"list": members, "tuple": tuple(members), "dict": {f"k{i}": m for i, m in enumerate(members)}}[wrap]
            back = jsonpickle.decode(jsonpickle.encode([inner, shared, {"x": shared}]))
        finally:
            jn.unregister_handlers()
        rec["tail"] = back[1] == ["shared"] and back[2]["x"] is back[1]
        got = list(back[0].values()) if wrap == "dict" else list(back[0])
        rec["got"] = [seen(x) for x in got]
        arrays = [x for x in got if isinstance(x, np.ndarray)]
        rec["bytes"] = rename(sum((addresses(x) for x in arrays), []))
        rec["ids"] = rename([id(x) if isinstance(x, np.ndarray) else -i - 1 for i, x in enumerate(got)])

    _, rec["err"] = guarded(run)
    return rec


def consts(types, shapes=((),), arrays=1, axes=1, size=1, members=1, random=False, lone=False, locks=(False,)):
    return {
        "Types": "{" + ", ".join("<<" + ", ".join([tla(n), str(i), tla(s), tla(f)]) + ">>" for n, i, s, f in types) + "}",
        "Shapes": "{" + ", ".join(tla(list(s)) for s in shapes) + "}",
        "MaxArrays": str(arrays), "MaxAxes": str(axes), "MaxSize": str(size), "MaxMembers": str(members),
        "Random": tla(random), "Lone": tla(lone), "Locks": tla(frozenset(locks)),
    }


def generate(c, types, shapes, arrays, axes=3, size=60, members=1, lone=False, simulate=None, limit=None, depth=30, locks=(False,)):
    r = c.model(
        "Arrays", consts(types, shapes, arrays, axes, size, members, bool(simulate), lone, locks), ["Laws"],
        spec="ASpec", simulate=simulate, depth=depth,
    )
    cases = {}
    for x in r.lines("CASE"):
        cases[json.dumps(x, sort_keys=True)] = x
    out = [cases[k] for k in sorted(cases)]
    c.extra["graphs_generated"] = c.extra.get("graphs_generated", 0) + len(out)
    if limit and len(out) > limit:
        out = c.rng.sample(out, limit)
    rng = c.rng
    return [
        dict(
            x, mode=rng.choice(["warn", "raise", "ignore"]), threshold=rng.choice([16, 16, 0, None, 3]),
            compression=rng.choice(["zlib", "zlib", "bz2", ""]), wrap=rng.choice(["list", "list", "tuple", "dict"]),
        )
        for x in out
    ]


def check(c, cases, types, label):
    records = execute(cases, record, c.seed)
    c.sample(cases[len(cases) // 2])
    c.judge("ArraysTrace", records, consts(types), cases=cases, label=label, spec="TSpec")
