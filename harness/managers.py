"""Histories of the handler registry and of backend managers."""

import json as stdlib_json
import sys
import types

import jsonpickle
import jsonpickle.backend
import jsonpickle.handlers

from core import execute, guarded
from tlc import tla

# ---------------------------------------------------------------------------
# handler registry: Registry.tla, RegistryTrace.tla

HIERARCHY = {
    "A": (),
    "B": ("A",),
    "C": ("B",),
    "X": (),
    "M": ("X", "B"),
    "L": ("A",),  # cannot be imported
}
LOCALS = ("L",)
HOME = types.ModuleType("vregistry")
sys.modules["vregistry"] = HOME


def ancestors(c):
    out = set()
    for b in HIERARCHY[c]:
        out |= {b} | ancestors(b)
    return out


def registry_constants(names, handlers, hows, ops, emit, sim=False):
    bases = " @@ ".join(f"({tla(n)} :> {tla(frozenset(ancestors(n) & set(names)))})" for n in sorted(names))
    return {
        "Classes": tla(frozenset(names)),
        "Bases": bases,
        "Handlers": tla(frozenset(handlers)),
        "Hows": tla(frozenset(hows)),
        "MaxOps": str(ops),
        "EmitAt": str(emit),
        "Random": tla(sim),
    }


def make_handler(name, rng):
    """A handler that leaves its name in the document and in what it restores"""

    class Handler(jsonpickle.handlers.BaseHandler):
        def flatten(self, obj, data):
            data["by"] = name
            return data

        def restore(self, data):
            return ("restored", name)

    Handler.vname = name
    return Handler(None) if rng.random() < 0.3 else Handler


class Home:
    """Fresh classes, so that one history cannot touch another"""

    count = 0

    def __init__(self, names, rng):
        Home.count += 1
        self.classes = {}
        self.local = {}
        for n in HIERARCHY:
            if n not in names:
                continue
            bases = tuple(self.classes[b] for b in HIERARCHY[n] if b in self.classes) or (object,)
            name = f"{n}{Home.count}"
            ns = {"__module__": "vregistry", "__qualname__": name}
            if n in LOCALS:
                ns["__qualname__"] = f"maker.<locals>.{name}"
            cls = type(name, bases, ns)
            self.classes[n] = cls
            if n not in LOCALS:
                setattr(HOME, name, cls)

    def close(self):
        for n, cls in self.classes.items():
            jsonpickle.handlers.unregister(cls)
            if n not in LOCALS:
                delattr(HOME, cls.__name__)


def label(h):
    return "none" if h is None else h if isinstance(h, str) else getattr(h, "vname", "?")


def look(home, n):
    cls = home.classes[n]
    name = f"{cls.__module__}.{cls.__qualname__}"
    get = jsonpickle.handlers.get
    seen = {"c": n, "get": label(get(cls)), "default": label(get(cls, "default")), "name": label(get(name))}
    x = cls()
    x.attr = 1
    text = jsonpickle.encode([x])
    data = stdlib_json.loads(text)[0]
    seen["enc"] = data.get("by", "plain" if data == {"py/object": name, "attr": 1} else "?")
    plain = stdlib_json.dumps([{"py/object": name, "attr": 1}])
    y = jsonpickle.decode(plain)[0]
    if isinstance(y, tuple):
        seen["dec"] = y[1]
    elif type(y) is cls:
        seen["dec"] = "plain" if vars(y) == {"attr": 1} else "?"
    else:
        seen["dec"] = "missing" if type(y) is dict else "?"
    return seen


NO_CLASSES = ("vregistry.A", 7, None, [], lambda: None)


def run_history(case, rng):
    names = case["classes"]
    home = Home(names, rng)
    handlers = {h: make_handler(h, rng) for h in case["handlers"]}
    reg = jsonpickle.handlers
    seen = [{"err": "", "classes": [look(home, n) for n in names]}]

    def call(e):
        cls, h = home.classes[e["c"]], handlers.get(e["h"])
        if e["op"] == "unregister":
            reg.unregister(cls)
        elif e["op"] == "refused":
            reg.register(rng.choice(NO_CLASSES), h)
        elif e["how"] == "decorator":
            assert reg.register(cls, base=e["base"])(h) is h
        elif e["how"] == "handles":
            kind = h if isinstance(h, type) else None
            if kind is None:
                reg.register(cls, h)
            else:
                assert kind.handles(cls) is cls
        elif e["base"] or rng.random() < 0.5:
            reg.register(cls, h, base=e["base"])
        else:
            reg.register(cls, h)

    try:
        for e in case["ops"]:
            err = ""
            try:
                call(e)
            except Exception as x:  # noqa
                err = type(x).__name__
            seen.append({"err": err, "classes": [look(home, n) for n in names]})
    finally:
        home.close()
    return seen


def registry_record(case, rng):
    seen, err = guarded(run_history, case, rng)
    if err:
        seen = [{"err": err, "classes": [{"c": case["classes"][0], "get": err, "default": "", "name": "", "enc": "", "dec": ""}]}]
    return {"ops": case["ops"], "seen": seen}


def registry(c):
    import random

    parts = []
    for names, handlers, hows, n in (
        ("AB", ("h1", "h2"), ("call",), 4),
        ("ABXM", ("h1", "h2"), ("call",), c.pick(3, 4)),
        ("ABCL", ("h1", "h2"), ("call",), 3),
        ("AL", ("h1",), ("call", "decorator", "handles"), 3),
    ):
        k = registry_constants(names, handlers, hows, n, n)
        r = c.model("Registry", k, ["Laws"], workers="4")
        parts.append((names, handlers, hows, list(r.lines("CASE")), c.pick(5000, 40000), f"all histories of {n} calls on {names}"))
    names, handlers, hows = "".join(HIERARCHY), ("h1", "h2", "h3"), ("call", "decorator", "handles")
    n = c.pick(16, 30)
    k = registry_constants(names, handlers, hows, n, n, True)
    r = c.model("Registry", k, ["Laws"], simulate=c.pick(250, 2500), depth=n + 2)
    parts.append((names, handlers, hows, list(r.lines("CASE")), c.pick(1500, 15000), "long histories"))
    for names, handlers, hows, cases, limit, what in parts:
        cases.sort(key=stdlib_json.dumps)
        random.Random(c.seed).shuffle(cases)
        cases = [{"ops": x, "classes": list(names), "handlers": handlers} for x in cases[:limit]]
        c.sample(cases[0]["ops"])
        records = execute(cases, registry_record, c.seed)
        k = registry_constants(names, handlers, hows, 0, -1)
        k["Locals"] = tla(frozenset(set(names) & set(LOCALS)))
        c.judge("RegistryTrace", records, k, cases=cases, label=what, spec="TSpec")


# ---------------------------------------------------------------------------
# backend managers: Backends.tla, BackendsTrace.tla

BUILTIN = ("simplejson", "json", "ujson")
REAL = {"vfsub": "vfpkg.sub"}  # names in the model -> names of the modules
DEFAULTS = {
    "simplejson": ((), {"sort_keys": False}),
    "json": ((), {"sort_keys": False}),
    "ujson": ((), {"sort_keys": False, "escape_forward_slashes": False}),
}
OPTIONS = {
    "o1": ((), {"tag": 1}),
    "o2": ((), {"indent": 9, "sort_keys": True}),
    "o3": (("positional", 2), {"separators": ("x", "y")}),
}
EXTRAS = {
    "": {},
    "indent": {"indent": 3},
    "zero": {"indent": 0},
    "separators": {"separators": (", ", ": ")},
    "both": {"indent": 5, "separators": ("a", "b")},
}


class Other(Exception):
    pass


class Fakes:
    """Modules with the names of backends that record how they are called"""

    def __init__(self, modules):
        self.calls = []
        self.fails = {}
        self.modules = {}
        self.errors = {}
        for n, what in modules.items():
            name = REAL.get(n, n)
            top, _, sub = name.partition(".")
            if what == "absent":
                self.modules[top] = None  # importing it raises ImportError
                continue
            m = types.ModuleType(name)
            own = type("Own", (ValueError,), {})
            self.errors[n] = own
            for fn, suffix in (("main", "s"), ("alt", "_other")):
                setattr(m, "dump" + suffix, self.function(n, fn, "encode"))
                setattr(m, "load" + suffix, self.function(n, fn, "decode"))
            if what != "noexc":
                m.Own = own
            if sub:
                pkg = types.ModuleType(top)
                pkg.__path__ = []
                if what != "broken":
                    setattr(pkg, sub, m)
                self.modules[top] = pkg
                self.modules[name] = m
            else:
                self.modules[name] = m

    def function(self, n, fn, kind):
        def call(x, *args, **kwargs):
            self.calls.append([n, fn, kind, x, args, kwargs])
            f = self.fails.get(n, "")
            if f:
                raise {"value": ValueError, "own": self.errors[n], "other": Other, "exit": KeyboardInterrupt}[f](n)
            return f"answer of {n}"

        return call

    def __enter__(self):
        self.saved = {k: sys.modules.get(k, self) for k in self.modules}
        sys.modules.update(self.modules)
        return self

    def __exit__(self, *exc):
        for k, v in self.saved.items():
            if v is self:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def token(n, kind, args, kwargs):
    """The name of the options a backend was called with"""
    known = {**OPTIONS, "empty": ((), {})}
    if kind == "encode" and n in DEFAULTS:
        known["default:" + n] = DEFAULTS[n]
    for name, (a, k) in known.items():
        for extra, more in EXTRAS.items():
            if args == a and kwargs == {**k, **more}:
                return name + ("+" + extra if extra else "")
    return repr((args, kwargs))


def outcome(fn, fakes):
    """What an operation returned or raised"""
    try:
        r = fn()
    except AssertionError:
        return "AssertionError"
    except KeyboardInterrupt:
        return "exit"
    except Other:
        return "other"
    except ValueError as e:
        return "own" if type(e) in fakes.errors.values() else "value"
    except Exception as e:  # noqa
        return type(e).__name__
    if isinstance(r, str) and r.startswith("answer of "):
        return r[10:]
    return str(r)


def run_manager(case, rng):
    ops, seen = [], []
    value = [1, {"a": None}]
    with Fakes(case["modules"]) as fakes:
        manager = jsonpickle.backend.JSONBackend()

        def do(e):
            n, v = REAL.get(e["n"], e["n"]), e["v"]
            if e["op"] == "load":
                kw = {}
                if e["f"] == "alt":
                    kw = {"dumps": "dump_other", "loads": "load_other"}
                elif e["f"] == "nodumps":
                    kw = {"dumps": "nothing"}
                elif e["f"] == "noloads":
                    kw = {"loads": "nothing"}
                if v == "own":
                    kw["loads_exc"] = "Own"
                elif v == "wide":
                    kw["loads_exc"] = Exception
                return manager.load_backend(n, **kw)
            if e["op"] == "remove":
                return manager.remove_backend(n)
            if e["op"] == "prefer":
                return manager.set_preferred_backend(n)
            if e["op"] == "fallthrough":
                return manager.enable_fallthrough(v == "on")
            if e["op"] in ("encopts", "decopts"):
                args, kwargs = OPTIONS[v]
                set_ = manager.set_encoder_options if e["op"] == "encopts" else manager.set_decoder_options
                return set_(n, *args, **kwargs)
            fakes.fails = e["fails"]
            if e["op"] == "encode":
                if rng.random() < 0.5:
                    return manager.dumps(value, **EXTRAS[v])
                return manager.encode(value, **EXTRAS[v])
            if rng.random() < 0.5:
                return manager.loads("text")
            return manager.decode("text")

        def step(e):
            fakes.calls.clear()
            r = outcome(lambda: do(e), fakes)
            calls = []
            for n, fn, kind, x, args, kwargs in fakes.calls:
                if kind != e["op"] or x is not (value if kind == "encode" else "text"):
                    n = "?"
                calls.append([n, fn, token(n, kind, args, kwargs)])
            ops.append(e)
            seen.append({"r": r, "calls": calls})

        def probe():
            for kind in ("encode", "decode"):
                dead = rng.choice((0, 0.5, 0.9, 1))
                kinds = rng.choice((("value",), ("own",), ("value", "own", "other", "exit"), ("value", "own")))
                fails = {n: rng.choice(kinds) if rng.random() < dead else "" for n in case["modules"]}
                extra = rng.choice(list(EXTRAS)) if kind == "encode" and rng.random() < 0.4 else ""
                step({"op": kind, "n": "", "v": extra, "f": "", "fails": fails})

        probe()
        for e in case["ops"]:
            step({**e, "fails": {"json": ""}})
            for _ in range(1 + (rng.random() < 0.5)):
                probe()
    return {"ops": ops, "seen": seen}


def manager_record(case, rng):
    rec, err = guarded(run_manager, case, rng)
    if err:
        rec = {"ops": [{"op": "fallthrough", "n": "", "v": "on", "f": "", "fails": {"json": ""}}], "seen": [{"r": err, "calls": []}]}
    return rec


def config_ops(names, funcs, excs, opts):
    out = []
    for n in names:
        out += [{"op": "load", "n": n, "v": v, "f": f} for v in excs for f in funcs]
        out += [{"op": k, "n": n, "v": "", "f": ""} for k in ("remove", "prefer")]
        out += [{"op": k, "n": n, "v": v, "f": ""} for k in ("encopts", "decopts") for v in opts]
    return out + [{"op": "fallthrough", "n": "", "v": v, "f": ""} for v in ("on", "off")]


def backends(c):
    import itertools
    import random

    kinds = ("", "value", "other")
    short = (("main", "alt", "nodumps", "noloads"), ("value", "own"), ("o1",))
    full = (("main", "alt", "nodumps", "noloads"), ("value", "own", "wide"), tuple(OPTIONS))
    parts = []
    for what, modules, names, (funcs, excs, opts), n, simulate in (
        ("all histories, all builtins", dict(json="ok", simplejson="ok", ujson="ok"), ("json", "ujson"), short, c.pick(2, 3), None),
        ("all histories, no builtin", dict(json="absent", simplejson="absent", ujson="absent", vfa="ok", vfb="noexc"), ("vfa", "vfb"), short, 3, None),
        ("all histories, submodules", dict(json="ok", simplejson="absent", ujson="absent", vfa="absent", vfsub="ok"), ("json", "vfa", "vfsub"), (("main",), ("value",), ("o1",)), 3, None),
        ("long histories", dict(json="ok", simplejson="ok", ujson="ok", vfa="ok", vfsub="ok", vfc="noexc"), None, full, c.pick(14, 30), c.pick(300, 3000)),
        ("long histories, few builtins", dict(json="absent", simplejson="ok", ujson="absent", vfa="ok", vfsub="broken", vfc="ok"), None, full, c.pick(14, 30), c.pick(200, 2000)),
    ):
        names = names or tuple(modules)
        ops = config_ops(names, funcs, excs, opts)
        probes = [
            {"op": k, "n": "", "v": "", "f": "", "fails": dict(zip(modules, f))}
            for k in ("encode", "decode")
            for f in itertools.islice(itertools.product(kinds, repeat=len(modules)), 0, None, 1 if len(modules) < 4 else 17)
        ]
        k = {
            "Names": tla(frozenset(modules)),
            "Modules": tla(modules),
            "Builtin": tla(BUILTIN),
            "MaxOps": str(n),
            "EmitAt": str(n),
            "Random": tla(bool(simulate)),
            "OpSet": "{" + ", ".join(map(tla, ops)) + "}",
            "Probes": "{" + ", ".join(map(tla, probes)) + "}",
        }
        r = c.model("Backends", k, ["Laws"], simulate=simulate, depth=n + 2)
        cases = sorted(r.lines("CASE"), key=stdlib_json.dumps)
        random.Random(c.seed).shuffle(cases)
        cases = [{"ops": x, "modules": modules} for x in cases[: c.pick(4000, 40000)]]
        c.sample(cases[0]["ops"])
        records = execute(cases, manager_record, c.seed)
        c.judge("BackendsTrace", records, {**k, "MaxOps": "0", "EmitAt": "-1"}, cases=cases, label=what, spec="TSpec")
