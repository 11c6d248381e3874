"""pandas frames, series and indexes: Frames.tla, FramesTrace.tla."""

import datetime
import json
import warnings

import jsonpickle
import jsonpickle.ext.pandas as jp
import numpy as np
import pandas as pd

from core import execute, guarded
from tlc import tla

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float16", "float32", "float64"]
COMPLEX = ["complex64", "complex128"]
TIMES = [f"datetime64[{u}]" for u in ("s", "ms", "us", "ns")]
ZONED = ["datetime64[us, UTC]", "datetime64[ns, US/Eastern]", "datetime64[us, Asia/Kolkata]"]
SPANS = [f"timedelta64[{u}]" for u in ("s", "ms", "us", "ns")]
NULLABLE = ["Int8", "Int32", "Int64", "UInt8", "UInt64", "Float32", "Float64"]
OTHERS = ["period[M]", "period[D]", "interval[int64, right]", "interval[float64, left]"]
OBJECTS = ["mixed", "containers", "texts", "dates"]


def types():
    """name, dtype, may values be missing, number of different labels"""
    many = 12
    out = [(t, t, False, many) for t in INTS] + [(t, t, True, many) for t in FLOATS + COMPLEX]
    out += [(t, t, t != "interval[int64, right]", many) for t in TIMES + ZONED + SPANS + NULLABLE + OTHERS]
    out += [("bool", "bool", False, 2), ("boolean", "boolean", True, 2), ("str", "str", True, many), ("string", "string", True, many)]
    out += [("category", "category", True, 3), ("open category", "category", True, 3)]
    return out + [(t, "object", True, many) for t in OBJECTS]


ALL = types()
NAMES = [t[0] for t in ALL]
COLUMNS = [n for n in NAMES if n != "open category"]
NO_LABEL = {"containers", "float16", "open category"}
ROWS = [n for n in NAMES if n not in NO_LABEL]
LABELS = [n for n in ROWS if n not in ("category",)]
LEVELS = ["int64", "float64", "str", "datetime64[us]"]
FLAT = ("int64", "str", "datetime64[us]")


def pool(t, n, rng):
    """n different values of a type"""
    if t in INTS or t in NULLABLE and "nt" in t:
        info = np.iinfo(t.lower())
        first = [0, 1, info.max, info.min, 2, 3]
        return distinct(first, lambda: rng.randint(info.min, info.max), n, rng)
    if t in FLOATS or t in NULLABLE:
        kind = np.dtype(t.lower()).type
        return distinct([0.0, 1.5, float("inf"), -2.0], lambda: float(kind(rng.uniform(-100, 100))), n, rng)
    if t in COMPLEX:
        kind = np.dtype(t).type
        return distinct([0j, 1j, 1 + 2j], lambda: complex(kind(complex(rng.random(), rng.random()))), n, rng)
    if t.startswith("datetime64"):
        unit = t[11:].split(",")[0].rstrip("]")
        step = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[unit]
        base = distinct([0, 1577836800 * step], lambda: rng.randrange(0, 2 * 10**9) * step + rng.randrange(step), n, rng)
        zone = t.split(", ")[1][:-1] if ", " in t else None
        return [pd.Timestamp(np.datetime64(x, unit), tz=None).tz_localize("UTC").tz_convert(zone) if zone else pd.Timestamp(np.datetime64(x, unit)) for x in base]
    if t.startswith("timedelta64"):
        unit = t[12:-1]
        base = distinct([0, 1, -1], lambda: rng.randrange(-(10**9), 10**9), n, rng)
        return [pd.Timedelta(np.timedelta64(x, unit)) for x in base]
    if t.startswith("period"):
        base = distinct([0], lambda: rng.randrange(-100, 1000), n, rng)
        return [pd.Period(ordinal=x, freq=t[7:-1]) for x in base]
    if t.startswith("interval"):
        kind, closed = t[9:-1].split(", ")
        base = distinct([0], lambda: rng.randrange(-100, 100), n, rng)
        return [pd.Interval(*((x, x + 2) if kind == "int64" else (x + 0.5, x + 2.5)), closed=closed) for x in base]
    if t in ("bool", "boolean"):
        return rng.sample([True, False], 2)
    texts = distinct(
        ["", "a", "b", "é", "py/object", "json://1", "1", "None", "nan", "\U0001f600", "x\ny", '"q"'],
        lambda: "".join(rng.choice("abc/ \\é") for _ in range(rng.randint(1, 6))), n, rng,
    )
    if t in ("str", "string", "texts"):
        return texts
    if t in ("category", "open category"):
        return sorted(texts)
    if t == "dates":
        base = distinct([0], lambda: rng.randrange(1, 20000), n, rng)
        return [datetime.date.fromordinal(700000 + x) if x % 2 else datetime.datetime(2000, 1, 1) + datetime.timedelta(minutes=x) for x in base]
    if t == "containers":
        return rng.sample([[1, "a"], {"k": 1}, (1, 2), {3}, [], "text", 5, [[1], [2]], {"a": [1, (2, 3)]}, 2.5, "[1]", (None,)], n)
    return rng.sample([1, "a", 2.5, "", "1", 10**20, False, pd.Timestamp(2020, 1, 1), "nan", -7, "py/id", 3.25], n)


def distinct(first, more, n, rng):
    out = []
    first = rng.sample(first, len(first))
    while len(out) < n:
        x = first.pop() if first and rng.random() < 0.7 else more()
        if x not in out:
            out.append(x)
    return out


def gone(t, rng):
    if t in FLOATS:
        return float("nan")
    if t in COMPLEX:
        return complex("nan")
    if t.startswith(("datetime", "timedelta", "period")):
        return pd.NaT
    if t in ("mixed", "texts", "dates", "containers"):
        return rng.choice([None, None, float("nan")])
    if t in NULLABLE or t in ("boolean", "string"):
        return pd.NA
    return None


def array(col, rng, size=None):
    t, tokens = col["t"], col["cells"]
    dtype = next(x[1] for x in ALL if x[0] == t)
    top = max([*tokens, 1])
    values = pool(t, top if t not in ("bool", "boolean") else 2, rng)
    lost = gone(t, rng)
    cells = [lost if k == 0 else values[k - 1] for k in tokens]
    if t == "open category":
        return pd.Categorical(cells, categories=[*reversed(values), "unused"], ordered=True)
    if dtype == "object":
        out = np.empty(len(cells), object)
        for i, x in enumerate(cells):
            out[i] = x
        return out
    return pd.array(cells, dtype=dtype) if dtype in ("str", "string", "category") or not isinstance(pd.api.types.pandas_dtype(dtype), np.dtype) else pd.Series(cells, dtype=dtype).array


def label(name):
    return {
        "none": None, "text": "abc", "letter": "x", "empty": "", "number": 5, "zero": 0, "float": 1.5, "true": True, "pair": ("a", 1),
        "deep": ("a", ("b", None)), "time": pd.Timestamp(2020, 1, 1),
    }[name]


def labels(spec, rng):
    if len(spec["levels"]) == 1:
        a = array(spec["levels"][0], rng)
        dtype = "object" if isinstance(a, np.ndarray) else a.dtype
        return pd.Index(a, dtype=dtype, name=label(spec["names"][0]))
    cols = [array(x, rng) for x in spec["levels"]]
    if not len(cols[0]):
        return pd.MultiIndex.from_tuples([], names=[label(n) for n in spec["names"]])
    return pd.MultiIndex.from_arrays(cols, names=[label(n) for n in spec["names"]])


def build(o, rng):
    index = labels(o["index"], rng)
    if o["kind"] == "index":
        return index
    arrays = [array(x, rng) for x in o["cols"]]
    made = [pd.Series(a, index=index, dtype="object" if isinstance(a, np.ndarray) else a.dtype) for a in arrays]
    if o["kind"] == "series":
        made[0].name = label(o["name"])
        return made[0]
    columns = labels(o["columns"], rng)
    df = pd.concat(made, axis=1) if made and rng.random() < 0.5 else pd.DataFrame(dict(enumerate(made)), index=index)
    if made:
        df.columns = columns
    else:
        df = pd.DataFrame(index=index, columns=columns)
    df.index = index
    return df


def text(x):
    if x is None or x is pd.NA or x is pd.NaT:
        return [True, repr(x)]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (float, complex)) and x != x:
        return [True, "nan"]
    if isinstance(x, pd.Timestamp):
        return [False, f"{x.isoformat()} {x.tzinfo} {x.value}"]
    if isinstance(x, (list, tuple)):
        return [False, type(x).__name__ + repr([text(v)[1] for v in x])]
    if isinstance(x, dict):
        return [False, "dict" + repr([(text(k)[1], text(v)[1]) for k, v in x.items()])]
    return [False, f"{type(x).__name__} {x!r}"]


def seen_array(a):
    """A column: its dtype, the parameters of the dtype, and the cells"""
    more = ""
    if isinstance(a.dtype, pd.CategoricalDtype):
        more = repr((a.dtype.categories.tolist(), a.dtype.ordered, str(a.dtype.categories.dtype) if len(a.dtype.categories) else ""))
    if isinstance(a.dtype, pd.StringDtype):
        more = repr(a.dtype)
    return {"dtype": str(a.dtype), "more": more, "cells": [text(x) for x in a]}


def seen_labels(i):
    if isinstance(i, pd.MultiIndex):
        levels = [i._get_level_values(k) for k in range(i.nlevels)]
    else:
        levels = [i]
    return {"levels": [seen_array(x.array) for x in levels], "names": [repr(n) for n in i.names]}


NONE = {"levels": [], "names": []}


def seen(x):
    if isinstance(x, pd.Index):
        return {"kind": "index", "index": seen_labels(x), "columns": NONE, "cols": [], "name": ""}
    if isinstance(x, pd.Series):
        return {"kind": "series", "index": seen_labels(x.index), "columns": NONE, "cols": [seen_array(x.array)], "name": repr(x.name)}
    if isinstance(x, pd.DataFrame):
        cols = [seen_array(x.iloc[:, j].array) for j in range(x.shape[1])]
        return {"kind": "frame", "index": seen_labels(x.index), "columns": seen_labels(x.columns), "cols": cols, "name": ""}
    return {"kind": type(x).__name__, "index": NONE, "columns": NONE, "cols": [], "name": repr(x)[:60]}


def rename(xs):
    seen = {}
    return [seen.setdefault(x, len(seen) + 1) for x in xs]


def record(case, rng):
    rec = {"objs": case["objs"], "graph": case["graph"], "want": [], "got": [], "ids": [], "tail": True, "err": ""}
    warnings.simplefilter("ignore")
    objs = [build(o, rng) for o in case["objs"]]
    members = [objs[i - 1] for i in case["graph"]]
    rec["want"] = [seen(x) for x in members]

    def run():
        jp.register_handlers()
        try:
            shared = ["shared"]
            back = jsonpickle.decode(jsonpickle.encode([*members, shared, {"x": shared}]))
        finally:
            jp.unregister_handlers()
        got = back[:-2]
        rec["tail"] = back[-2] == ["shared"] and back[-1]["x"] is back[-2]
        rec["got"] = [seen(x) for x in got]
        rec["ids"] = rename([id(x) for x in got])

    _, rec["err"] = guarded(run)
    return rec


def setof(xs):
    return "{" + ", ".join(tla(x) for x in xs) + "}"


def consts(
    kinds=("frame",), rows=(1,), cols=("int64",), index=("int64",), labels=("str",), levels=("int64",), names=("none",),
    tokens=(0, 1, 2), width=3, stretches=(1,), objs=1, columns=1, tall=1, members=1, random=False,
):
    return {
        "Types": "{" + ", ".join("<<" + ", ".join(tla(x) for x in t) + ">>" for t in ALL) + "}",
        "Kinds": setof(kinds), "Rows": setof(rows), "ColTypes": setof(cols), "RowTypes": setof(index),
        "LabelTypes": setof(labels), "LevelTypes": setof(levels), "Names": setof(names), "Tokens": setof(tokens),
        "Width": str(width), "Stretches": setof(stretches), "MaxObjs": str(objs), "MaxCols": str(columns),
        "MaxLevels": str(tall), "MaxMembers": str(members), "Random": tla(random),
    }


def generate(c, limit=None, simulate=None, depth=30, **kw):
    r = c.model("Frames", consts(random=bool(simulate), **kw), ["Laws"], spec="FSpec", simulate=simulate, depth=depth)
    cases = {}
    for x in r.lines("CASE"):
        cases[json.dumps(x, sort_keys=True)] = x
    out = [cases[k] for k in sorted(cases)]
    c.extra["tables_generated"] = c.extra.get("tables_generated", 0) + len(out)
    if limit and len(out) > limit:
        out = c.rng.sample(out, limit)
    return out


def check(c, cases, label):
    records = execute(cases, record, c.seed)
    c.sample(cases[len(cases) // 2])
    c.judge("FramesTrace", records, consts(), cases=cases, label=label, spec="TSpec")


def known(c, key, case):
    """The witness of a known finding; reported while it fails"""
    before = list(c.bad)
    check(c, [case], key)
    if c.bad[len(before) :]:
        c.bad = before
        c.finding(key)
