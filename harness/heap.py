"""Between the vocabulary of the model and real objects.

concretize: a graph of the model -> Python objects
project:    Python objects -> a heap of the model
wire:       JSON text -> a JSON value of the model
"""

import base64
import collections
import hashlib
import json
import types

import library
import vpk

PRIM = {str: "str", int: "int", float: "float", bool: "bool", type(None): "NoneType"}


def tok(s):
    if (
        len(s) <= 80
        and all(" " <= c <= "~" for c in s)
        and not s.startswith(("#", "json://", "R:"))
    ):
        return s
    h = hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:20]
    return ("json://#" if s.startswith("json://") else "#") + h


def btok(b):
    b = bytes(b)
    return b.hex() if len(b) <= 32 else "#" + hashlib.sha256(b).hexdigest()[:20]


def typename(t):
    return f"{t.__module__}.{t.__qualname__}"


# ------------------------------------------------------------------ projection
class Projector:
    def __init__(self, opaque=None, named=None, typenames=None):
        self.nodes = []
        self.memo = {}
        self.keep = []
        self.reprs = {}
        self.opaque = opaque or {}
        self.named = named or {}
        self.typenames = typenames or {}
        self.want_repr = False

    def atom(self, x):
        t = type(x)
        if t is str:
            return ["a", "str", tok(x)]
        if t in PRIM:
            return ["a", PRIM[t], repr(x)]
        if t is bytes:
            return ["a", "bytes", btok(x)]
        if t is bytearray:
            return ["a", "bytearray", btok(x)]
        if isinstance(x, type):
            name = self.typenames.get(x) or typename(x)
            self.reprs[repr(x)] = "R:" + name
            return ["a", "type", name]
        if t is types.FunctionType and x.__name__ == "<lambda>":
            self.reprs[repr(x)] = "R:lambda"
            return ["a", "lambda", "lambda"]
        if t in (types.FunctionType, types.BuiltinFunctionType) and x.__module__:
            name = f"{x.__module__}.{x.__qualname__}"
            self.reprs[repr(x)] = "R:" + name
            return ["a", "func", name]
        return None

    def ref(self, x):
        if id(x) in self.named:
            return ["a", "named", self.named[id(x)]]
        a = self.atom(x)
        if a is not None:
            return a
        i = self.memo.get(id(x))
        if i is None:
            i = self.node(x)
        return ["n", i]

    def refs(self, xs):
        return [self.ref(x) for x in xs]

    def node(self, x):
        t = type(x)
        n = {"k": "", "c": typename(t), "r": "~", "seq": [], "ext": [], "items": [], "attrs": [], "calls": []}
        self.nodes.append(n)
        i = len(self.nodes)
        self.memo[id(x)] = i
        self.keep.append(x)
        if self.want_repr:
            n["r"] = tok(repr(x))
        if t in (list, tuple, set):
            n["k"] = n["c"] = t.__name__
            n["seq"] = self.refs(x)
            return i
        if t is dict:
            n["k"] = n["c"] = "dict"
            n["items"] = self.items(x)
            return i
        k = vpk.KIND.get(t)
        fn = self.opaque.get(t)
        if fn is not None:
            fn(self, x, n)
            return i
        if t is collections.deque:
            n["k"], n["c"] = "libseq", f"{n['c']}/{x.maxlen}"
            n["seq"] = self.refs(x)
            return i
        if t is collections.OrderedDict:
            n["k"] = "libdict"
            n["items"] = self.items(x)
            return i
        if t is slice:
            n["k"] = "slice"
            n["seq"] = self.refs([x.start, x.stop, x.step])
            return i
        text = library.text(x)
        if text is not None:
            n["k"] = "lib"
            n["c"] = tok(f"{n['c']} {text}")
            return i
        if k is None:
            if isinstance(x, types.ModuleType):
                n["k"], n["c"] = "module", x.__name__
                n["r"] = tok(str(x))
                return i
            n["k"] = "opaque"
            n["r"] = tok(repr(x))
            return i
        n["k"] = k
        if k in ("obj", "stated", "ns"):
            n["attrs"] = self.attrs(x)
        elif k == "dictsub":
            n["items"] = self.items(x)
            n["attrs"] = self.attrs(x)
        elif k == "ddict":
            n["seq"] = [self.ref(x.default_factory)]
            n["items"] = self.items(x)
        elif k in ("listsub", "setsub"):
            n["attrs"] = self.attrs(x)
            n["seq"] = self.refs(x)
        elif k == "tupsub":
            n["seq"] = self.refs(x)
            n["attrs"] = self.attrs(x)
        elif k in ("ntuple", "fset"):
            n["seq"] = self.refs(x)
        elif k == "state":
            n["seq"] = [self.ref(vpk.get_args(x, None))]
        elif k == "enum":
            n["seq"] = [self.ref(x.value)]
        elif k in ("newargs", "newargsex", "argstate", "initargs"):
            if t in vpk.SCALARSUB:
                n["seq"] = [self.ref(vpk.SCALARSUB[t](x))]
            else:
                a = vpk.get_args(x, None)
                if a is None:
                    n["k"] = "broken"
                    return i
                n["seq"] = self.refs(a[0])
                n["items"] = self.items(a[1])
            n["attrs"] = self.attrs(x)
        elif k in ("reduce", "reducefn", "reducesix", "reducenew"):
            a = vpk.get_args(x, None)
            if a is None:
                n["k"] = "broken"
                return i
            n["seq"] = self.refs(a[0])
            n["attrs"] = self.attrs(x)
            n["ext"] = self.refs(a[1])
            n["items"] = self.items(dict(a[2])) if len(dict(a[2])) == len(a[2]) else self.pairs(a[2])
        elif k == "handler":
            n["seq"] = [self.ref(x.__dict__.get("v"))]
        elif k == "iter":
            st = vpk.get_args(x, None)
            if st is None:  # a decoded one
                n["c"] = "iterator"
                n["seq"] = self.refs(list(x))
            else:
                if n["c"] == "builtins.generator":
                    n["c"] = "types.GeneratorType"
                n["seq"] = self.refs(st["items"])
        elif k == "fail":
            a = vpk.get_args(x, None)
            n["seq"] = [self.ref(a["v"])] if a else []
        elif k in ("null", "hplain", "hnone"):
            pass
        else:
            fn = getattr(self, "k_" + k)
            fn(x, n)
        n["calls"] = vpk.calls(x)
        return i

    def keytext(self, k):
        a = self.atom(k)
        if a is not None and a[1] == "str":
            return "~"
        return tok(repr(k))

    def items(self, d):
        return [[self.ref(k), self.ref(v), self.keytext(k)] for k, v in list(d.items())]

    def pairs(self, d):
        return [[self.ref(k), self.ref(v), self.keytext(k)] for k, v in d]

    def attrs(self, x):
        out = []
        seen = set()
        for name, v in getattr(x, "__dict__", {}).items():
            out.append([tok(name) if isinstance(name, str) else "?" + tok(repr(name)), self.ref(v)])
            seen.add(name)
        for cls in type(x).__mro__:
            slots = cls.__dict__.get("__slots__", ())
            for name in (slots,) if isinstance(slots, str) else slots:
                if name in ("__dict__", "__weakref__") or name in seen:
                    continue
                seen.add(name)
                try:
                    out.append([tok(name), self.ref(getattr(x, name))])
                except AttributeError:
                    pass
        return out


def project(x, want_repr=False, **kw):
    p = Projector(**kw)
    p.want_repr = want_repr
    r = p.ref(x)
    return {"h": p.nodes, "r": r}, p


def ambiguous(pre):
    """Whether an unordered collection has members that look alike

    Such members cannot be told apart when the decoded graph is compared, so
    graphs that contain them are left out.
    """
    h = pre["h"]

    def sig(r, d):
        if r[0] == "a":
            return tuple(r)
        if d == 0:
            return "..."
        n = h[r[1] - 1]
        seq = [sig(x, d - 1) for x in n["seq"]]
        if n["k"] in ("set", "setsub", "fset"):
            seq.sort(key=repr)
        return (
            n["k"], n["c"], tuple(seq), tuple(sig(x, d - 1) for x in n["ext"]), len(n["items"]),
            tuple(sorted((a, repr(sig(x, d - 1))) for a, x in n["attrs"])),
        )

    for n in h:
        if n["k"] in ("set", "setsub", "fset"):
            members = [x for x in n["seq"] if x[0] == "n"]
        elif n["items"]:
            members = [it[0] for it in n["items"] if it[0][0] == "n"]
        else:
            continue
        if len(members) > 1:
            sigs = [sig(m, 2) for m in members]
            if len(set(sigs)) < len(sigs):
                return True
    return False


# ------------------------------------------------------------------------ wire
class _Pairs(list):
    pass


def parse(text):
    return json.loads(text, object_pairs_hook=_Pairs)


def pairs(data):
    """Already parsed data in the form parse() returns"""
    if isinstance(data, dict):
        return _Pairs((k, pairs(v)) for k, v in data.items())
    if isinstance(data, (list, tuple)) and not isinstance(data, _Pairs):
        return [pairs(v) for v in data]
    return data


def wire(j, keys=False, reprs=None):
    reprs = reprs or {}

    def conv(j):
        if isinstance(j, _Pairs):
            out = []
            for k, v in j:
                if k in ("py/b64", "py/b85") and isinstance(v, str):
                    dec = {"py/b64": base64.b64decode, "py/b85": base64.b85decode}[k]
                    try:
                        v = ["lit", "bytes", btok(dec(v.encode()))]
                    except ValueError:
                        v = conv(v)
                else:
                    v = conv(v)
                out.append([key(k), v])
            return ["obj", out]
        if isinstance(j, list):
            return ["arr", [conv(x) for x in j]]
        if isinstance(j, str):
            return ["lit", "str", reprs.get(j) or tok(j)]
        return ["lit", PRIM.get(type(j), type(j).__name__), repr(j)]

    def key(k):
        if not isinstance(k, str):
            return ["s", "?" + tok(repr(k))]
        if keys and k.startswith("json://"):
            try:
                return ["j", conv(parse(k[7:]))]
            except ValueError:
                pass
        return ["s", tok(k)]

    return conv(j)


def pack(w):
    """A JSON value of the model as a flat table: members are named by position"""
    table = []

    def put(w):
        if w[0] == "lit":
            e = w
        elif w[0] == "arr":
            e = ["arr", [put(x) for x in w[1]]]
        else:
            e = ["obj", [[[k[0], put(k[1]) if k[0] == "j" else k[1]], put(v)] for k, v in w[1]]]
        table.append(e)
        return len(table)

    put(w)
    return table


# -------------------------------------------------------------- concretization
STRINGS = [
    "", " ", "a", "py/id", "py/object", "json://", "json://1", 'json://"x"', "null", "None", "é中",
    "\U0001f600", "\ud800", "\x00", "line\nbreak", '"quoted"', "\\", "x" * 300, "1", "true", "__dict__", " ",
    "default_factory", "/", "</script>", "#hash", "R:x", "a.b", "py/repr",
]
INTS = [0, 1, -1, 7, 2**31, -(2**31) - 1, 2**53, 2**53 + 1, 2**63, -(2**63), 2**64, 10**30, 255, 256]
FLOATS = [0.0, -0.0, 1.0, 0.1, -1.5, 1e300, 5e-324, 1e-7, 123456789.123456789, float("inf"), float("-inf"), float("nan"), 2.0**53, 1e16, 3.0]
BYTES = [b"", b"a", b"ab", b"abc", b"abcd", b"abcde", bytes(range(256)), b"\xff\xfe", b"\x00", b"\x00" * 7]
KEYSTRS = ["k", "", "a b", "é", "1", "null", "py/idx", "__dict__x", "x" * 100, "py", "\n", "a.b", "seq", "\ud800", "json:/", "value", "__class__x"]


class Concretizer:
    """Builds real objects for a graph; every free choice is drawn from rng."""

    def __init__(self, case, rng, plain_values=False, finite=False, interrupts=False, uniform=False, more=None):
        self.h = case["heap"]
        self.root = case["root"]
        self.keys = case["o"]["keys"]
        self.rng = rng
        self.obj = {}
        self.cls = {}
        self.plain = plain_values
        self.finite = finite
        self.interrupts = interrupts
        self.uniform = uniform  # one class for all nodes of a kind
        self.more = more or {}  # further classes by kind
        self.chosen = {}
        self.avalue = {}
        self.opts = case.get("o")

    # ---- choice of classes
    def hash_nodes(self):
        out = set()
        todo = []

        def mark(r):
            if r[0] == "n" and r[1] not in out:
                out.add(r[1])
                todo.append(r[1])

        for n in self.h:
            if n["k"] in ("set", "setsub", "fset"):
                for r in n["seq"]:
                    mark(r)
            for it in n["items"]:
                mark(it[0])
        while todo:
            n = self.h[todo.pop() - 1]
            if n["k"] in ("tuple", "ntuple", "tupsub"):
                for r in n["seq"]:
                    mark(r)
        return out

    def atom(self, r, hashed=False):
        cls, t = r[1], r[2]
        if cls == "int":
            return int(t)
        if cls == "str":
            return t
        if cls == "NoneType":
            return None
        if cls == "bool":
            return t == "True"
        if cls == "float":
            return float(t)
        if cls == "bytes":
            return bytes.fromhex(t)
        if cls == "bytearray":
            return bytearray.fromhex(t)
        if cls == "lambda":
            return lambda: 0
        if cls == "func":
            return vpk.function_one
        if cls == "type":
            return {"builtins.list": list, "builtins.int": int, "builtins.dict": dict}.get(t, vpk.Plain)
        if cls == "pool":
            return self.pool(t, hashed)
        if cls == "named":
            return self.rng.choice(library.NAMED)
        raise ValueError(r)

    def pool(self, t, hashed):
        rng = self.rng
        kinds = {
            "any": "sssiiffbzzn" if not hashed else "sssiiffbz",
            "prim": "sssiiffz",
            "str": "s",
            "int": "i",
            "float": "f",
            "bytes": "b",
            "bytearray": "n",
        }[t]
        c = rng.choice(kinds)
        if c == "s":
            if rng.random() < 0.7:
                s = rng.choice(STRINGS)
            else:
                s = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 0x3000)])) for _ in range(rng.randrange(12)))
            return s
        if c == "i":
            return rng.choice(INTS) if rng.random() < 0.7 else rng.randrange(-(10**9), 10**9)
        if c == "f":
            f = rng.choice(FLOATS) if rng.random() < 0.7 else rng.uniform(-1e6, 1e6)
            return 0.5 if self.finite and f - f != 0 else f
        if c == "z":
            return rng.choice([None, True, False])
        b = rng.choice(BYTES) if rng.random() < 0.7 else rng.randbytes(rng.randrange(20))
        if c == "b":
            return b
        return bytearray(b)

    def choose(self, i):
        if self.uniform:
            k = self.h[i - 1]["k"], len(self.h[i - 1]["attrs"]), i in self.hashed
            if k not in self.chosen:
                self.chosen[k] = self.pick(i)
            return self.chosen[k]
        return self.pick(i)

    def pick(self, i):
        n = self.h[i - 1]
        k = n["k"]
        cand = vpk.VARIANTS.get(k, []) + self.more.get(k, [])
        if n["c"].startswith("vpk."):  # a fixed choice
            return getattr(vpk, n["c"][4:])
        if i in self.hashed:
            cand = [c for c in cand if c not in vpk.NOHASH]
        if k == "fail" and self.interrupts and self.rng.random() < 0.2:
            return self.rng.choice(vpk.INTERRUPTS)
        if k == "obj":
            cand = [c for c in cand if c not in vpk.FIXED or len(vpk.FIXED[c]) >= len(n["attrs"])]
        if k == "newargs" and i not in self.hashed and len(n["seq"]) == 1 and n["seq"][0][0] == "a" and self.rng.random() < 0.4:
            return self.rng.choice([vpk.IntSub, vpk.StrSub, vpk.FloatSub])
        if not cand:
            return None
        return self.rng.choice(cand)

    ATTRS = ["a", "b", "c", "d", "e", "f"]
    MORE = ["name", "x1", "_private", "_Plain__mangled", "über", "value", "py", "key", "id", "type", "size", "state", "args"]

    def names(self, i, n, cls):
        want = len(n["attrs"])
        if n["c"].startswith("vpk."):
            return [a[0] for a in n["attrs"]]
        if cls in vpk.FIXED:
            return list(vpk.FIXED[cls][:want]) if self.rng.random() < 0.5 else self.rng.sample(list(vpk.FIXED[cls]), want)
        if self.uniform:
            return self.ATTRS[:want]
        pool = self.ATTRS if self.plain or self.rng.random() < 0.5 else self.ATTRS + self.MORE
        return self.rng.sample(pool, want)

    # ---- construction
    MUTABLE = {"list", "dict", "set", "obj", "dictsub", "ddict", "listsub", "setsub", "state", "stated", "handler",
               "reduce", "reducefn", "reducesix", "reducenew", "newargs", "newargsex", "argstate", "initargs", "iter",
               "fail", "hplain", "hnone", "libseq", "libdict", "ns"}

    def build(self):
        self.hashed = self.hash_nodes()
        for i, n in enumerate(self.h, 1):
            k = n["k"]
            cls = self.cls[i] = self.choose(i)
            if k not in self.MUTABLE or cls in vpk.SCALARSUB:
                continue
            if k in ("list", "dict", "set"):
                self.obj[i] = {"list": list, "dict": dict, "set": set}[k]()
            elif k == "ddict":
                self.obj[i] = collections.defaultdict(self.atom(n["seq"][0]))
            elif k.startswith("reduce"):
                self.obj[i] = cls()
            elif k == "iter":
                self.obj[i] = vpk.new_iter(self.rng)
            elif k == "libseq":
                self.obj[i] = collections.deque(maxlen=self.rng.choice([None, 5]))
            elif k == "libdict":
                self.obj[i] = collections.OrderedDict()
            else:
                self.obj[i] = cls.__new__(cls)
        for i in range(1, len(self.h) + 1):
            self.immutable(i)
        order = list(range(1, len(self.h) + 1))
        # containers that hash their members come last
        for i in sorted(order, key=lambda i: self.h[i - 1]["k"] in ("set", "setsub", "dict", "dictsub", "ddict")):
            self.fill(i)
        vpk.CALLS.clear()
        return self.get(self.root)

    def get(self, r, hashed=False):
        if r[0] == "a":
            if r[1] == "hole":
                return None
            return self.atom(r, hashed)
        return self.immutable(r[1])

    def immutable(self, i):
        if i in self.obj:
            return self.obj[i]
        n = self.h[i - 1]
        k = n["k"]
        cls = self.cls[i]
        if k == "tuple":
            v = tuple([self.get(r, i in self.hashed) for r in n["seq"]])
        elif k == "fset":
            v = frozenset([self.get(r, True) for r in n["seq"]])
            if not v:
                v = frozenset()
        elif k == "tupsub":
            v = cls(tuple([self.get(r, i in self.hashed) for r in n["seq"]]))
        elif k == "ntuple":
            v = vpk.NTUPLES[len(n["seq"])](*[self.get(r, i in self.hashed) for r in n["seq"]])
        elif k == "enum":
            v = cls(int(n["seq"][0][2]))
        elif k == "null":
            v = vpk.new_null()
        elif k == "module":
            import os.path

            v = self.rng.choice([json, os, os.path, collections])
        elif k == "newargs":
            base = vpk.SCALARSUB[cls]
            name = {int: "int", str: "str", float: "float"}[base]
            v = cls(self.pool(name, False))
        elif k == "lib":
            v = library.value(self.rng, keys=self.keys)
        elif k == "slice":
            v = slice(*[self.get(r) for r in n["seq"]])
        else:
            v = self.make(i, n)
        self.obj[i] = v
        return v

    def fill(self, i):
        n = self.h[i - 1]
        k = n["k"]
        x = self.obj[i]
        cls = self.cls[i]
        get = self.get
        if k in ("list", "listsub"):
            for r in n["seq"]:
                list.append(x, get(r))
        elif k == "iter":
            vpk.get_args(x)["items"].extend(get(r) for r in n["seq"])
        elif k in ("set", "setsub"):
            for r in n["seq"]:
                set.add(x, get(r, True))
        elif k in ("dict", "dictsub", "ddict"):
            for key, v, _ in n["items"]:
                dict.__setitem__(x, self.key(key), get(v))
        elif k in ("state", ):
            vpk.put_args(x, get(n["seq"][0]))
        elif k == "handler":
            x.v = get(n["seq"][0])
        elif k == "fail":
            vpk.put_args(x, {"v": get(n["seq"][0]), "error": self.rng.randrange(len(vpk.ERRORS))})
        elif k == "libseq":
            x.extend(get(r) for r in n["seq"])
        elif k == "libdict":
            for key, v, _ in n["items"]:
                x[self.key(key)] = get(v)
        elif k in ("newargs", "newargsex", "argstate", "initargs") and cls not in vpk.SCALARSUB:
            vpk.put_args(x, ([get(r) for r in n["seq"]], {a: get(v) for (a, v) in self.kwargs(n)}))
        elif k.startswith("reduce"):
            vpk.put_args(
                x,
                ([get(r) for r in n["seq"]], [get(r) for r in n["ext"]], [(self.key(a), get(v)) for a, v, _ in n["items"]]),
            )
        if n["attrs"]:
            for name, (_, r) in zip(self.names(i, n, cls), n["attrs"]):
                v = get(r)
                if cls is vpk.Frozen:
                    object.__setattr__(x, name, v)
                else:
                    setattr(x, name, v)

    def kwargs(self, n):
        return [(f"kw{j}", v) for j, (_, v, _) in enumerate(n["items"])]

    def key(self, r):
        if r[0] == "a" and r[1] == "str" and len(r[2]) == 1 and r[2] in "kl" and not self.plain:
            j = "kl".index(r[2])
            half = len(KEYSTRS) // 2
            return self.rng.choice(KEYSTRS[:half] if j == 0 else KEYSTRS[half:])
        return self.get(r, True)

