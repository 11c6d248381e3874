"""Documents on their own: Docs.tla, DocTrace.tla."""

import base64
import json
import sys
import warnings

import jsonpickle

import heap
import vpcanary
import vpk
from core import execute, guarded
from tlc import tla

STRINGS = heap.STRINGS
OPT = {"keys": False, "safe": True, "v1": False}
KINDS = [
    ("vpk.Plain", "obj"), ("vpk.Falsy", "obj"), ("vpk.Slotted", "obj"), ("vpk.DSub", "dictsub"), ("vpk.LSub", "listsub"),
    ("vpk.SSub", "setsub"), ("vpk.NewArgs", "newargs"), ("vpk.NewArgsEx", "newargsex"), ("vpk.State", "state"),
    ("vpk.StateDict", "stated"), ("vpk.Handled", "handler"), ("vpk.Reduce", "reduce"), ("collections.defaultdict", "ddict"),
    ("sup.Local", "obj"), ("sup.Shadow", "obj"), ("sup.Nested", "obj"), ("sup.Other", "obj"),
]
GONE = ["vplocal.Local", "vplocal.Outer.Inner", "gone.Thing", "other.Thing", "Thing", "gone.Outer.Inner", "dotted", "slashed"]


def opt(**kw):
    return dict(OPT, **kw)


def names(forms="{<<\"none\">>}", law=True):
    return f"[ct |-> {tla(KINDS)}, gone |-> {tla(GONE)}, forms |-> {forms}, law |-> {tla(law)}]"


# documents that start with a container
ROOTS = "{Arr(<<V, V, V>>), Obj(<<KV(\"k\", V), KV(\"l\", V)>>), Arr(<<V, V, V, V, V>>), TupleJ(<<V, V>>), ObjJ(\"vpk.Plain\", <<KV(\"a\", V), KV(\"b\", V)>>)}"
PLAIN_ROOTS = "{Arr(<<V, V, V>>), Obj(<<KV(\"k\", V), KV(\"l\", V)>>), Arr(<<V, V, V, V, V>>), Obj(<<KV(\"b\", V), KV(\"a\", V), KV(\"c\", V)>>)}"


def generate(c, groups, inner, opts=(OPT,), seeds="{V}", simulate=None, limit=None, forms='{<<"none">>}', law=True):
    consts = {
        "Seeds": seeds, "Groups": "<<" + ", ".join(groups) + ">>", "MaxInner": str(inner),
        "Opts": "{" + ", ".join(tla(o) for o in opts) + "}", "Names": names(forms, law), "Random": tla(bool(simulate)),
    }
    r = c.model("Docs", consts, ["Laws"], spec="DSpec", simulate=simulate, depth=200)
    cases = {}
    for x in r.lines("CASE"):
        cases[json.dumps(x, sort_keys=True)] = x
    out = [cases[k] for k in sorted(cases)]
    c.extra["documents_generated"] = c.extra.get("documents_generated", 0) + len(out)
    if limit and len(out) > limit:
        out = c.rng.sample(out, limit)
    return out


# ------------------------------------------------------------------ documents
class Writer:
    """The text of a document; every free choice is drawn from rng."""

    def __init__(self, rng, texts=None, layout=False, portable=False, keys=None):
        self.rng = rng
        self.texts = texts or {}
        self.layout = layout
        self.portable = portable  # values that all backends read alike
        self.keys = keys  # texts to use instead of plain keys
        self.used = set()

    def pool(self, t):
        rng = self.rng
        c = rng.choice({"any": "sssiifz", "str": "s", "num": "if"}[t])
        if c == "s":
            s = rng.choice(STRINGS)
            return "a" if self.portable and "\ud800" in s else s
        if c == "i":
            i = rng.choice(heap.INTS) if rng.random() < 0.7 else rng.randrange(-(10**9), 10**9)
            return 5 if self.portable and abs(i) >= 2**53 else i
        if c == "f":
            f = rng.choice(heap.FLOATS) if rng.random() < 0.7 else rng.uniform(-1e6, 1e6)
            return 0.5 if self.portable and (f - f != 0 or abs(f) > 1e15 or 0 < abs(f) < 1e-6) else f
        return rng.choice([None, True, False])

    def lit(self, cls, t, tag=None):
        if cls == "pool":
            return self.pool(t)
        if cls == "text":
            s = self.texts[t](self.rng)
            self.used.add(s)
            return s
        if cls == "bytes":
            enc = base64.b85encode if tag == "py/b85" else base64.b64encode
            return enc(bytes.fromhex(t)).decode()
        return {"NoneType": lambda t: None, "bool": lambda t: t == "True", "int": int, "float": float, "str": str}[cls](t)

    def value(self, j, tag=None):
        """The document as parsed data, objects as lists of pairs"""
        if j[0] == "lit":
            return self.lit(j[1], j[2], tag)
        if j[0] == "arr":
            return [self.value(x) for x in j[1]]
        out = heap._Pairs()
        names = self.rng.sample(self.keys, len(j[1])) if self.keys and self.rng.random() < 0.7 else None
        for i, (k, v) in enumerate(j[1]):
            if k[0] == "s":
                out.append((names[i] if names else k[1], self.value(v, k[1])))
            else:
                out.append(("json://" + self.text(self.value(k[1])), self.value(v)))
        return out

    # ---- text
    def space(self):
        return self.rng.choice(["", "", "", " ", "\n", "\t ", "\r\n  "]) if self.layout else self.rng.choice(["", " "])

    def string(self, s):
        if not self.layout:
            return json.dumps(s)
        out = []
        for ch in s:
            o = ord(ch)
            if self.rng.random() < 0.1 and o < 0x10000:
                out.append(f"\\u{o:04{self.rng.choice('xX')}}")
            elif ch in '"\\' or o < 32:
                out.append(json.dumps(ch)[1:-1])
            elif ch == "/" and self.rng.random() < 0.3:
                out.append("\\/")
            elif 0xD800 <= o < 0xE000:
                out.append(f"\\u{o:04x}")
            else:
                out.append(ch if self.rng.random() < 0.7 else json.dumps(ch)[1:-1])
        return '"' + "".join(out) + '"'

    def number(self, x):
        t = json.dumps(x)
        if self.layout and isinstance(x, float) and x - x == 0 and self.rng.random() < 0.5:
            t = self.rng.choice([f"{x:.17e}", f"{x:.17E}", repr(x)])
        return t

    def text(self, v):
        sp = self.space
        if isinstance(v, heap._Pairs):
            body = ",".join(f"{sp()}{self.string(k)}{sp()}:{sp()}{self.text(x)}{sp()}" for k, x in v)
            return "{" + (body or sp()) + "}"
        if isinstance(v, list):
            return "[" + (",".join(f"{sp()}{self.text(x)}{sp()}" for x in v) or sp()) + "]"
        if isinstance(v, str):
            return self.string(v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return self.number(v)
        return json.dumps(v)


def fresh(case):
    return {
        "w": [], "o": case["o"], "ct": KINDS, "gone": list(GONE), "form": case["form"], "b": {"h": [], "r": []}, "err": "",
    }


def decode_args(o):
    kw = {}
    if o["keys"]:
        kw["keys"] = True
    if not o["safe"]:
        kw["safe"] = False
    if o["v1"]:
        kw["v1_decode"] = True
    return kw


def wired(text, o):
    return heap.pack(heap.wire(heap.pairs(json.loads(text)), keys=o["keys"]))


def read(case, rng):
    """Any document of the format, well formed or not"""
    rec = fresh(case)
    w = Writer(rng)
    text = w.text(w.value(case["j"]))
    rec["w"] = wired(text, case["o"])
    vpk.clear()
    vpk.register()
    try:
        y, rec["err"] = guarded(lambda: jsonpickle.decode(text, **decode_args(case["o"])))
        if not rec["err"]:
            rec["b"] = heap.project(y)[0]
    finally:
        vpk.unregister()
    return rec


# ------------------------------------------------------------ plain documents
PLAIN_KEYS = heap.KEYSTRS + [
    "see json://x", " json://1", "Json://1", "json:/x", "json:", "py/", "py/objects", "xpy/object", "py/object ", " py/tuple", "PY/SET", "py\\id",
    "__dict__", "default_factory", "null", "None", "0", "-1", "1.5", "true", "k.l", "py", "json", "id", "object", "b64", "__reduce__", "values", "a" * 50,
    "\U0001f600", "\x00", "key with \"quotes\"", "</x>", "__class__", "__init__", "self", "_jsonpickle_exclude",
]


def plain(case, rng):
    """Documents without tags, in many spellings, in both directions"""
    import graphs

    rec = fresh(case)
    backend = rng.choice([None, None, None, *graphs.backends()])
    kw = {"backend": graphs.BACKENDS[backend]} if backend else {}
    portable = backend in ("simplejson", "ujson")
    w = Writer(rng, layout=True, portable=portable, keys=[k for k in PLAIN_KEYS if not portable or "\ud800" not in k])
    v = w.value(case["j"])
    if rng.random() < 0.1 and isinstance(v, heap._Pairs) and v:  # a key that is given twice
        v.append((v[0][0], rng.choice([None, "again", 0])))
    text = w.text(v)
    rec["w"] = wired(text, case["o"])

    # none of the options has a meaning for plain documents
    dkw, ekw = dict(kw), dict(kw)
    for name, values in {"keys": [True], "safe": [True, False], "v1_decode": [True], "on_missing": ["error", "warn"], "handle_readonly": [True]}.items():
        if rng.random() < 0.2:
            dkw[name] = rng.choice(values)
    if '["s", "json://' in json.dumps(case["j"]):
        # this is a tag for those who ask for keys
        dkw.pop("keys", None)
    for name, values in {"keys": [True], "unpicklable": [False], "make_refs": [False], "warn": [True], "use_base85": [True], "indent": [1, 4], "max_iter": [0]}.items():
        if rng.random() < 0.2:
            ekw[name] = rng.choice(values)
    if "keys" not in dkw:
        ekw.pop("keys", None)

    def run():
        y = jsonpickle.decode(text, **dkw)
        rec["b"] = heap.project(y)[0]
        tree = json.loads(text)
        rec["wt"] = wired(jsonpickle.encode(tree, **ekw), case["o"])

    _, rec["err"] = guarded(run)
    return rec


# ---------------------------------------------------------------------- texts
DOTTED = [
    "vpcanary.fire()", "vpcanary.fire().x", "vpcanary.box()", "vpcanary.Box[1]", "vpcanary.Box['x']", "vpcanary.Box.fire()",
    "vpcanary.fire('vpcanary.fire()')", "__import__('vpcanary').fire()", "(vpcanary.fire())", "[vpcanary.fire()]", "vpcanary.fire() or 1",
    "vpcanary.fire ()", " vpcanary.fire()", "vpcanary.fire;vpcanary.fire()", "exec('import vpcanary; vpcanary.fire()')", "vpcanary.Nothing",
    "(lambda: __import__('vpcanary').fire())()", "vpcanary.box.__call__()", "f'{vpcanary.fire()}'", "vpcanary.fire()\n", "1 if vpcanary.fire() else 2",
    "builtins.eval('vpcanary.fire()')", "vpcanary.fire(1)(2)", "{vpcanary.fire()}", "vpcanary.fire()#", "eval('__import__(\"vpcanary\").fire()').x",
]
CALLS = ["vpcanary.fire()", "__import__('vpcanary').fire()", "vpcanary.Box[1]"]
AROUND = [
    "{p}.{e}", "{p}.[{e}][0]", "{p}.list[{e}]", "{p}[{e}]", "{p}({e})", "{p}.x({e})", "{p}.{e} if 1 else 2", "{p}.({e})", "{p}.{e} + 1", "{p}.x[{e}].y",
    "{p}.x, {e}", "{p}.x={e}", "{p}.{e}.__class__", "{p}.lambda: {e}", "{p}:{e}", "{p}.<{e}>", "{p}.x{{{e}}}", "{e}.{p}",
]
PLACES = ["builtins", "vpk", "vpk.Plain", "vpcanary", "collections", "__main__", "typing.List", "datetime", "__builtin__", "nowhere", "exceptions"]
DOTTED += [a.format(p=p, e=e) for a in AROUND for p in PLACES for e in CALLS]
SLASHED = [
    "vpcanary/vpcanary.fire()", "vpcanary/vpcanary.Box[1]", "vpcanary/vpcanary.box()", "vpcanary/fire()", "vpcanary/__import__('vpcanary').fire()",
    "vpcanary/[vpcanary.fire()]", "vpcanary/(vpcanary.fire())", "vpcanary/vpcanary.fire(1)", "vpcanary/vpcanary.Box.fire()",
    "vpcanary/vpcanary.box.__call__()", "vpcanary/vpcanary.fire() or vpcanary", "vpcanary/ vpcanary.fire()",
]
SLASHED += [f"{p}/{a.format(p=p, e=e)}" for a in AROUND for p in PLACES for e in CALLS]
NOWHERE = frozenset(DOTTED + SLASHED)
# what safe=False evaluates, with exactly one call of fire
EVALUATED = [
    "vpcanary/vpcanary.fire()", "vpcanary/vpcanary.Box[1]", "vpcanary/vpcanary.box()", "vpcanary/__import__('vpcanary').fire()",
    "vpcanary/(vpcanary.fire())", "vpcanary/vpcanary.fire(1)", "vpcanary/vpcanary.Box.fire()", "vpcanary/vpcanary.box.__call__()",
]
TRIED = []
_hooked = []


def _audit(event, args):
    if event == "compile" and _hooked and _hooked[0]:
        source = args[0]
        if isinstance(source, bytes):
            source = source.decode("utf-8", "replace")
        if isinstance(source, str) and "vpcanary" in source:
            TRIED.append(1)


def texts(case, rng):
    """Documents that name things by hostile texts"""
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked.append(False)
    o = case["o"]
    rec = fresh(case)
    rec["fired"] = rec["tried"] = 0
    w = Writer(
        rng,
        {
            "dotted": lambda r: r.choice(DOTTED),
            "slashed": lambda r: r.choice(SLASHED if o["safe"] else EVALUATED),
            "good": lambda r: "vpcanary/vpcanary.fire" if o["safe"] else r.choice(EVALUATED),
            "goodfn": lambda r: "vpcanary.fire",
        },
    )
    text = w.text(w.value(case["j"]))
    rec["w"] = wired(text, o)
    rec["gone"] += [heap.tok(t) for t in sorted(w.used & NOWHERE)]
    del vpcanary.FIRED[:], TRIED[:]
    vpk.clear()
    vpk.register()
    _hooked[0] = True
    kw = decode_args(o)
    if o["safe"] and rng.random() < 0.5:
        kw["safe"] = True
    try:
        if rng.random() < 0.5:
            y, rec["err"] = guarded(lambda: jsonpickle.decode(text, **kw))
        else:
            kw.pop("v1_decode", None)
            y, rec["err"] = guarded(lambda: jsonpickle.unpickler.Unpickler(**kw).restore(json.loads(text)))
    finally:
        _hooked[0] = False
        vpk.unregister()
    rec["fired"], rec["tried"] = len(vpcanary.FIRED), len(TRIED)
    if not rec["err"]:
        rec["b"] = heap.project(y)[0]
    return rec


# -------------------------------------------------------------------- classes
class Supplied:
    """Classes that only exist here"""

    def __init__(self):
        def make(name, module, qualname):
            cls = type(name, (), {"__module__": module, "__qualname__": qualname})
            return cls

        self.cls = {
            "Local": make("Local", "vplocal", "Local"),
            "Shadow": make("Plain", "vpk", "Plain"),
            "Nested": make("Inner", "vplocal", "Outer.Inner"),
            "Other": make("Falsy", "vpk", "Falsy"),
        }
        self.names = {cls: "sup." + k for k, cls in self.cls.items()}

    def argument(self, form):
        if form[0] == "none":
            return None
        if form[0] == "cls":
            return self.cls[form[1]]
        if form[0] == "seq":
            return {"list": list, "tuple": tuple, "set": set}[form[1]](self.argument(f) for f in form[2])
        return {vpk.Plain if how == "class" else name: self.cls[c] for (how, name), c in form[1]}


def show(self, x, n):
    n["k"], n["c"] = "obj", self.typenames[type(x)]
    n["attrs"] = self.attrs(x)


POLICIES = ["ignore", "warn", "error", "call", "call", "invalid"]


def classes(case, rng):
    """Documents with supplied, importable and missing classes"""
    rec = fresh(case)
    w = Writer(rng)
    text = w.text(w.value(case["j"]))
    rec["w"] = wired(text, case["o"])
    sup = Supplied()
    rec["policy"] = "ignore" if "strict" in case["o"] else rng.choice(POLICIES)
    rec["called"], rec["warned"] = [], 0
    kw = decode_args(case["o"])
    arg = sup.argument(case["form"])
    if arg is not None:
        kw["classes"] = arg
    how = {
        "ignore": rng.choice(["ignore", "Ignore"]), "warn": rng.choice(["warn", "WARN"]), "error": rng.choice(["error", "Error"]),
        "call": lambda name: rec["called"].append(name), "invalid": 7,
    }[rec["policy"]]
    if rec["policy"] != "ignore" or rng.random() < 0.5:
        kw["on_missing"] = how

    def run():
        try:
            return jsonpickle.decode(text, **kw)
        except jsonpickle.errors.ClassNotFoundError as e:
            found = [n for n in GONE if n in str(e)]
            rec["err"] = "missing " + max(found, key=len) if found else "missing ?"

    vpk.clear()
    vpk.register()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            y, err = guarded(run)
        finally:
            vpk.unregister()
    rec["err"] = rec["err"] or err
    rec["warned"] = sum(any(n in str(x.message) for n in GONE) for x in caught)
    if not rec["err"]:
        rec["b"] = heap.project(y, opaque=dict.fromkeys(sup.names, show), typenames=sup.names)[0]
    return rec


def known(c, key, fn, clauses, case):
    """The witness of a known finding, see graphs.known"""
    before = list(c.bad)
    check(c, [case], fn, clauses, key)
    if c.bad[len(before) :]:
        c.bad = before
        c.finding(key)


CONSTS = {
    "Seeds": "{}", "Groups": "<<>>", "MaxInner": "0", "Opts": "{}", "Random": "FALSE",
}


def check(c, cases, fn, clauses=(), label=""):
    records = execute(cases, fn, c.seed)
    for case in cases[:1]:
        c.sample(case)
    consts = dict(CONSTS, Names=names(), Clauses=tla(frozenset(clauses)))
    c.judge("DocTrace", records, consts, cases=cases, label=label, spec="TSpec")
    return records
