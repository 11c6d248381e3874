"""Generated classes and their instances: Classes.tla, ClassesTrace.tla."""

import dataclasses
import functools
import json
import sys
import types
from typing import Any

import jsonpickle

from core import execute, guarded
from tlc import tla

NONE = ["none"]
PRIVATE = "__q"
EXCLUDE = "_jsonpickle_exclude"
MODULE = "vp_classes"
INITS = []
BUILTIN = {"object": object, "list": list, "set": set, "tuple": tuple, "dict": dict}
CONTENT = ["item", "and another"]


def mangled(cls_name, name):
    return "_" + cls_name.lstrip("_") + name


class Hierarchy:
    """The classes of a case.  Names, forms of __slots__ and the like are drawn from rng."""

    def __init__(self, h, rng, init=True):
        self.h = h
        self.init = init
        self.module = types.ModuleType(MODULE)
        sys.modules[MODULE] = self.module
        self.classes = []
        self.names = [f"{rng.choice(['', '', '_', '__'])}{rng.choice(['C', 'K', 'ab', 'Z_'])}{i}" for i in range(1, len(h["cs"]) + 1)]
        for i, c in enumerate(h["cs"]):
            self.classes.append(self.make(i, c, rng))
        self.leaf = self.classes[-1]

    def make(self, i, c, rng):
        n = len(self.h["cs"])
        ns = {"__module__": MODULE, "__qualname__": self.names[i], "helper": lambda self: 1}
        if c["sl"] != NONE:
            sl = list(c["sl"])
            rng.shuffle(sl)
            forms = [tuple, list, lambda s: dict.fromkeys(s, "doc"), lambda s: (s[0] if len(s) == 1 else tuple(s))]
            if n == 1 and sl and self.h["base"] == "object" and not any(s.startswith("__") for s in sl):
                forms.append(iter)
            ns["__slots__"] = rng.choice(forms)(sl)
        for a in c["at"]:
            ns[a] = rng.choice([None, 0, "class level", ["shared"], [], 2.5]) if self.h["form"] == "plain" else rng.choice([None, 0, ""])
            if self.h["form"] == "plain" and a != "default_factory" and rng.random() < 0.3:
                ns[a] = functools.cached_property(lambda self: ["computed"])
                ns[a].__set_name__(None, a)
        for a in c["pr"]:
            ns[a] = property(lambda self: ["property"])
        if c["ex"] != NONE:
            ns[EXCLUDE] = rng.choice([list, tuple, set, frozenset])(c["ex"])
        if self.h["form"] == "plain":
            if self.init and rng.random() < 0.7:
                ns["__init__"] = rng.choice([lambda self: INITS.append(1), lambda self, x, y: INITS.append(1)])
        else:
            ns["__annotations__"] = {a: Any for a in list(c["at"]) + [s for s in c["sl"] if c["sl"] != NONE and not s.startswith("__")]}
            ns["__post_init__"] = lambda self: INITS.append(1)
        if self.h["wide"] and i < n - 1 or i == 0:
            bases = () if self.h["base"] == "object" else (BUILTIN[self.h["base"]],)
        elif self.h["wide"]:
            bases = tuple(reversed(self.classes))
        else:
            bases = (self.classes[-1],)
        cls = type(self.names[i], bases, ns)
        if self.h["form"] != "plain":
            cls = dataclasses.dataclass(frozen=self.h["form"] == "frozen", kw_only=True, eq=rng.random() < 0.5)(cls)
        setattr(self.module, self.names[i], cls)
        return cls

    def instance(self):
        base = self.h["base"]
        if base == "tuple":
            return self.leaf.__new__(self.leaf, CONTENT)
        inst = self.leaf.__new__(self.leaf)
        if base != "object":
            {"list": list.extend, "set": set.update, "dict": dict.update}[base](inst, dict.fromkeys(CONTENT, 1) if base == "dict" else CONTENT)
        return inst

    def content(self, obj):
        base = self.h["base"]
        return [] if base == "object" else [str(v) for v in (sorted(obj) if base == "set" else obj)]

    def slot(self, level, name):
        cls = self.classes[level - 1]
        return cls.__dict__[mangled(cls.__name__, name) if name == PRIVATE else name]

    def put(self, obj, place, value):
        where, level, name = place
        if where == "s":
            self.slot(level, name).__set__(obj, value)
        else:
            obj.__dict__[mangled(self.names[level - 1], name) if level else name] = value

    def places(self, obj):
        """All filled places and their values, as they are stored"""
        out = []
        if hasattr(obj, "__dict__"):
            private = {mangled(n, PRIVATE): i + 1 for i, n in enumerate(self.names)}
            for k, v in obj.__dict__.items():
                out.append((["d", private[k], PRIVATE] if k in private else ["d", 0, k], v))
        for i, c in enumerate(self.h["cs"], 1):
            if c["sl"] == NONE:
                continue
            for s in c["sl"]:
                if s == "__dict__":
                    continue
                try:
                    out.append((["s", i, s], self.slot(i, s).__get__(obj)))
                except AttributeError:
                    pass
        return out

    def named(self, text):
        """The name a key of the document stands for"""
        for i, n in enumerate(self.names, 1):
            if text == mangled(n, PRIVATE):
                return [i, PRIVATE]
        return [0, text]


def record(case, rng):
    h, x = case["h"], case["x"]
    rec = {"h": h, "x": x, "keys": [], "odd": [], "back": [], "kind": True, "inits": 0, "held": [], "wrote": [], "found": [], "shared": True, "same": True, "read": False, "err": ""}
    try:
        hier = Hierarchy(h, rng, case.get("init", True))
    except TypeError as e:
        if "layout" in str(e) or "MRO" in str(e) or "__dict__ slot disallowed" in str(e):
            return None
        raise
    unp, keys = case["unp"], case["keys"]
    order = list(x["at"]) + ([] if x["ex"] == NONE else [["d", 0, EXCLUDE]])
    rng.shuffle(order)
    inst = hier.instance()
    rec["held"] = hier.content(inst)
    values = []
    for p in order:
        v = list(x["ex"]) if p[2] == EXCLUDE else [json.dumps(p)]
        values.append(v)
        hier.put(inst, p, v)
    before = [(p, id(v)) for p, v in hier.places(inst)]

    def came_from(v):
        for p, w in zip(order, values):
            if type(v) is list and v == w:
                return p
        return None

    def run():
        del INITS[:]
        around = case["around"]
        graph = {"bare": inst, "list": [inst, values, inst], "late": [values, inst]}[around]
        doc = jsonpickle.encode(graph, unpicklable=unp, keys=keys, warn=case["warn"])
        data = json.loads(doc)
        if around == "late" and unp:
            # the values are references here; write the instance once more alone
            data = [None, json.loads(jsonpickle.encode(inst, unpicklable=unp, keys=keys))]
        obj = data if around == "bare" else data[0] if around == "list" else data[1]
        if type(obj) is not dict:
            raise ValueError("the instance was not written as an object")
        if h["base"] == "dict":
            rec["wrote"] = [k for k in obj if k not in ("py/object", "__dict__")]
            obj = obj.get("__dict__", {})
        elif h["base"] != "object":
            rec["wrote"] = obj["py/seq"] if h["base"] != "set" else sorted(obj["py/seq"])
        for k, v in obj.items():
            if unp and (k == "py/object" or k == "py/seq" or k == "py/newargs" and h["base"] == "tuple"):
                continue
            p = came_from(v)
            (rec["odd"].append(k) if p is None else rec["keys"].append([hier.named(k), p]))
        rec["same"] = [(p, id(v)) for p, v in hier.places(inst)] == before
        if not unp:
            return
        rec["read"] = True
        back = jsonpickle.decode(doc, keys=keys)
        got = back if around == "bare" else back[0] if around == "list" else back[1]
        rec["kind"] = type(got) is hier.leaf
        if not rec["kind"]:
            return
        for p, v in hier.places(got):
            q = came_from(v)
            rec["back"].append([p, q or ["?", 0, repr(v)[:40]]])
            if around != "bare" and q is not None:
                shared = (back[1] if around == "list" else back[0])[order.index(q)]
                rec["shared"] = rec["shared"] and shared is v
        if around == "list":
            rec["shared"] = rec["shared"] and back[2] is got
            rec["shared"] = rec["shared"] and back[1] == values
        rec["inits"] = len(INITS)
        rec["found"] = hier.content(got)

    _, rec["err"] = guarded(run)
    return rec


def consts(names, classes, slots, random, forms=("plain", "data", "frozen"), bases=("object",)):
    return {
        "Names": tla(frozenset(names)), "MaxClasses": str(classes), "Random": tla(random),
        "SlotSets": slots, "Forms": tla(frozenset(forms)), "Bases": tla(frozenset(bases)),
    }


def generate(c, names, classes, slots, forms=("plain", "data", "frozen"), simulate=None, limit=None, around=("bare", "list", "late"), bases=("object",)):
    r = c.model("Classes", consts(names, classes, slots, bool(simulate), forms, bases), ["Laws"], spec="CSpec", simulate=simulate, depth=20)
    cases = {}
    for x in r.lines("CASE"):
        cases[json.dumps(x, sort_keys=True)] = x
    out = [cases[k] for k in sorted(cases)]
    c.extra["instances_generated"] = c.extra.get("instances_generated", 0) + len(out)
    if limit and len(out) > limit:
        out = c.rng.sample(out, limit)
    return [
        dict(x, unp=c.rng.random() < 0.75 or x["h"]["base"] != "object", keys=c.rng.random() < 0.3, around=c.rng.choice(around), warn=c.rng.random() < 0.2)
        for x in out
    ]


def check(c, cases, label):
    records = execute(cases, record, c.seed)
    c.sample(cases[len(cases) // 2])
    c.judge("ClassesTrace", records, consts(["a"], 1, "{{}}", False), cases=cases, label=label, spec="TSpec")


def known(c, key, case):
    """The witness of a known finding; reported while it fails"""
    before = list(c.bad)
    check(c, [case], key)
    if c.bad[len(before) :]:
        c.bad = before
        c.finding(key)
