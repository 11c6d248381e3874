"""What each check explores.  One function per property."""

import classes
import docs
import graphs
from graphs import opt

# shapes: kind, #elements/arguments, #appended items, #entries, #attributes
BASIC = [
    ("list", 2, 0, 0, 0),
    ("dict", 0, 0, 2, 0),
    ("tuple", 2, 0, 0, 0),
    ("set", 1, 0, 0, 0),
    ("obj", 0, 0, 0, 2),
]
CONTAINERS = [
    ("dictsub", 0, 0, 1, 1),
    ("listsub", 1, 0, 0, 1),
    ("setsub", 1, 0, 0, 1),
    ("tupsub", 1, 0, 0, 1),
    ("ntuple", 2, 0, 0, 0),
    ("fset", 1, 0, 0, 0),
    ("ddict", 0, 0, 1, 0),
]
PROTOCOLS = [
    ("state", 1, 0, 0, 0),
    ("stated", 0, 0, 0, 1),
    ("reduce", 1, 1, 1, 1),
    ("reducefn", 1, 0, 0, 1),
    ("reducesix", 1, 1, 0, 1),
    ("reducenew", 1, 0, 1, 1),
    ("newargs", 1, 0, 0, 1),
    ("newargsex", 1, 0, 1, 1),
    ("newargsex", 1, 0, 0, 0),
    ("initargs", 1, 0, 0, 1),
    ("argstate", 1, 0, 0, 1),
]


def cross(kind, seq=(0,), ext=(0,), items=(0,), attrs=(0,)):
    return [(kind, a, b, c, d) for a in seq for b in ext for c in items for d in attrs]


# members in every section or in none
SPREAD = (
    cross("list", seq=(0, 1, 3))
    + cross("dict", items=(0, 1, 2))
    + cross("tuple", seq=(0, 1, 3))
    + cross("set", seq=(0, 1, 2))
    + cross("obj", attrs=(0, 1, 3))
    + cross("dictsub", items=(0, 1, 2), attrs=(0, 1, 2))
    + cross("listsub", seq=(0, 1, 2), attrs=(0, 1, 2))
    + cross("setsub", seq=(0, 1, 2), attrs=(0, 1, 2))
    + cross("tupsub", seq=(0, 1, 2), attrs=(0, 1, 2))
    + cross("ntuple", seq=(0, 1, 2, 3))
    + cross("fset", seq=(0, 1, 2))
    + cross("ddict", items=(0, 1, 2))
)
PROTOCOL_SPREAD = (
    cross("state", seq=(1,))
    + cross("stated", attrs=(1, 2))
    + cross("reduce", seq=(0, 1), ext=(0, 1), items=(0, 1), attrs=(0, 1))
    + cross("reducefn", seq=(0, 2), ext=(0, 1), items=(0, 1), attrs=(0, 1))
    + cross("reducesix", seq=(0, 1), ext=(0, 1), items=(0, 1), attrs=(0, 1))
    + cross("reducenew", seq=(0, 1), ext=(0, 2), items=(0, 2), attrs=(0, 2))
    + cross("newargs", seq=(0, 1, 2), attrs=(0, 1, 2))
    + cross("newargsex", seq=(0, 1, 2), items=(0, 1), attrs=(0, 1))
    + cross("argstate", seq=(0, 1, 2), items=(0, 1), attrs=(1, 2))
    + cross("initargs", seq=(0, 1, 2), attrs=(0, 1))
)
LEAVES = [("enum1", 0, 0, 0, 0), ("enum2", 0, 0, 0, 0)]
HANDLED = [("handler", 1, 0, 0, 0)]
NULLS = [("null", 0, 0, 0, 0)]
EMPTY = [
    ("list", 0, 0, 0, 0),
    ("dict", 0, 0, 0, 0),
    ("tuple", 0, 0, 0, 0),
    ("set", 0, 0, 0, 0),
    ("obj", 0, 0, 0, 0),
    ("dictsub", 0, 0, 0, 0),
    ("listsub", 0, 0, 0, 0),
    ("setsub", 0, 0, 0, 0),
    ("tupsub", 0, 0, 0, 0),
    ("ntuple", 0, 0, 0, 0),
    ("fset", 0, 0, 0, 0),
    ("ddict", 0, 0, 0, 0),
]
WIDER = [
    ("list", 4, 0, 0, 0),
    ("tuple", 3, 0, 0, 0),
    ("set", 3, 0, 0, 0),
    ("obj", 0, 0, 0, 4),
    ("dict", 0, 0, 2, 0),
    ("listsub", 3, 0, 0, 2),
    ("setsub", 2, 0, 0, 2),
    ("tupsub", 2, 0, 0, 0),
    ("ntuple", 3, 0, 0, 0),
    ("fset", 2, 0, 0, 0),
    ("dictsub", 0, 0, 2, 2),
]
VALUES = BASIC + CONTAINERS + LEAVES
ALL = VALUES + PROTOCOLS + HANDLED
THREE = [
    ("list", 2, 0, 0, 0),
    ("obj", 0, 0, 0, 2),
    ("tuple", 1, 0, 0, 0),
    ("set", 1, 0, 0, 0),
    ("dict", 0, 0, 1, 0),
    ("listsub", 1, 0, 0, 1),
]
MEMBERS = ["list", "dict", "tuple", "set", "obj", "dictsub", "listsub", "setsub", "ntuple", "tupsub", "fset", "state", "reduce", "newargs", "handler", "stated"]


TREE_MEMBERS = [m for m in MEMBERS if m not in ("state", "reduce", "newargs", "handler", "stated")]


def families(c, clauses, members, label="families", opts=(graphs.OPT,), sizes=(3, 40), big=True, **kw):
    """large graphs: all members at moderate size, a few at large size"""
    fam = graphs.generate(c, family={"Sizes": sizes, "Depths": [3, 30], "Members": members}, opts=opts)
    fam = c.rng.sample(fam, min(len(fam), c.pick(150, 10**6)))
    big = c.rng.sample(members, min(len(members), c.pick(1, 6))) if big else []
    fam += [] if not big else graphs.generate(c, family={"Sizes": [280], "Depths": [50], "Members": big}, opts=opts)
    graphs.check(c, fam, clauses, label, **kw)


def c01(c):
    """trees of all value kinds with values from the pools"""
    pairs = graphs.generate(c, SPREAD + LEAVES, refs=False, nodes=2, limit=c.pick(3000, None))
    graphs.check(c, pairs, ["iso"], "pairs")
    trees = graphs.generate(c, VALUES, refs=False, nodes=3, limit=c.pick(4000, 60000))
    graphs.check(c, trees, ["iso"], "trees")
    big = graphs.generate(
        c, SPREAD + LEAVES + WIDER + [("newargs", 1, 0, 0, 1)], refs=False, nodes=40,
        simulate=c.pick(150, 2500), limit=c.pick(1200, 20000),
    )
    graphs.check(c, big, ["iso"], "large trees")
    families(c, ["iso"], TREE_MEMBERS)


def c02(c):
    """graphs with sharing and cycles of all kinds"""
    small = graphs.generate(c, ALL, nodes=2, limit=c.pick(5000, None))
    graphs.check(c, small, ["iso"], "small graphs")
    three = graphs.generate(c, THREE, nodes=3, limit=c.pick(4000, 40000))
    graphs.check(c, three, ["iso"], "three nodes")
    big = graphs.generate(c, ALL + WIDER, nodes=25, simulate=c.pick(150, 3000), limit=c.pick(1200, 20000))
    graphs.check(c, big, ["iso"], "large graphs")
    spread = graphs.generate(c, SPREAD + PROTOCOL_SPREAD + HANDLED, nodes=16, simulate=c.pick(200, 4000), limit=c.pick(1600, 30000))
    graphs.check(c, spread, ["iso"], "spread graphs")
    many = graphs.generate(c, MANY, nodes=7, simulate=c.pick(60, 1500), limit=c.pick(500, 12000))
    graphs.check(c, many, ["iso"], "many of one kind")
    families(c, ["iso"], MEMBERS)


# short lived objects in a row: their addresses are used again
MANY = [("list", 3, 0, 0, 0), ("argstate", 0, 0, 0, 1), ("newargsex", 0, 0, 0, 1), ("stated", 0, 0, 0, 1), ("fset", 0, 0, 0, 0)]

KEYS = (
    ("str", "k"), ("str", "py/id"), ("str", "json://1"), ("int", "1"), ("NoneType", "None"),
    ("bytes", "6162"), ("float", "1.5"), ("bool", "True"),
)
KEYED = [
    ("dict", 0, 0, 2, 0), ("dictsub", 0, 0, 1, 1), ("ddict", 0, 0, 1, 0), ("obj", 0, 0, 0, 1),
    ("tuple", 1, 0, 0, 0), ("list", 1, 0, 0, 0), ("enum1", 0, 0, 0, 0), ("fset", 1, 0, 0, 0), ("ntuple", 1, 0, 0, 0),
]
NODE_KEYS = ("obj", "tuple", "enum", "fset", "ntuple")
ALIKE = [("dict", 0, 0, 1, 0), ("obj", 0, 0, 0, 0), ("obj", 0, 0, 0, 1), ("list", 3, 0, 0, 0), ("tuple", 1, 0, 0, 0), ("fset", 1, 0, 0, 0)]
MORE_KEYED = [("dict", 0, 0, 4, 0), ("dictsub", 0, 0, 3, 1), ("list", 3, 0, 0, 0), ("obj", 0, 0, 0, 3), ("tuple", 2, 0, 0, 0)]


def c03(c):
    """dictionaries with keys of all types, keys=True"""
    kw = dict(keys=KEYS, node_keys=NODE_KEYS, opts=[opt(keys=True)])
    small = graphs.generate(c, KEYED, nodes=2, limit=c.pick(6000, 60000), **kw)
    graphs.check(c, small, ["iso"], "small graphs")
    big = graphs.generate(c, KEYED + MORE_KEYED + WIDER, nodes=14, simulate=c.pick(200, 4000), limit=c.pick(1500, 30000), **kw)
    graphs.check(c, big, ["iso"], "large graphs")
    rest = graphs.generate(c, ALL, nodes=12, simulate=c.pick(100, 2000), limit=c.pick(800, 15000), **kw)
    graphs.check(c, rest, ["iso"], "all kinds")
    kw["keys"] = KEYS[:1]
    alike = graphs.generate(c, ALIKE, nodes=9, simulate=c.pick(250, 6000), limit=c.pick(1500, 30000), atoms=(("NoneType", "None"),), hash_atoms=(("int", "1"),), **kw)
    graphs.check(c, alike, ["iso"], "keys alike", values={"uniform": True})
    fam = graphs.generate(c, family={"Sizes": [2, 3], "Depths": [], "Members": ["obj", "tuple", "fset", "ntuple"]}, atoms=(("NoneType", "None"),), **kw)
    graphs.check(c, fam * c.pick(3, 10), ["iso"], "rows of keys", values={"uniform": True})
    one = ["a", "NoneType", "None"]
    graphs.known(
        c, "C03-equal-keys", ["iso"],
        {"heap": [N("dict", items=[[["n", 2], one, "~"], [["n", 3], one, "~"]]), N("obj", "vpk.Plain", attrs=[["a", one]]), N("obj", "vpk.Plain", attrs=[["a", one]])],
         "root": ["n", 1], "o": opt(keys=True)},
    )


def c04(c):
    """the same dictionaries without keys=True"""
    kw = dict(keys=KEYS, node_keys=NODE_KEYS)
    small = graphs.generate(c, KEYED, nodes=2, limit=c.pick(6000, 60000), **kw)
    graphs.check(c, small, ["wire", "iso"], "small graphs")
    big = graphs.generate(c, KEYED + MORE_KEYED + WIDER, nodes=14, simulate=c.pick(200, 4000), limit=c.pick(1500, 30000), **kw)
    graphs.check(c, big, ["wire", "iso"], "large graphs")
    rest = graphs.generate(c, ALL, nodes=12, simulate=c.pick(100, 2000), limit=c.pick(800, 15000), **kw)
    graphs.check(c, rest, ["wire", "iso"], "all kinds")
    graphs.known(
        c, "C04-collision", ["wire", "iso"],
        {"heap": [N("list", seq=[["n", 2], ["n", 4], ["n", 4]]),
                  N("dict", items=[[["a", "int", "1"], ["n", 3], "1"], [["a", "str", "1"], ["a", "NoneType", "None"], "~"]]),
                  N("list"), N("list")],
         "root": ["n", 1], "o": opt()},
    )


def N(k, cls=None, seq=(), ext=(), items=(), attrs=()):
    return {"k": k, "c": cls or k, "r": "~", "seq": list(seq), "ext": list(ext), "items": list(items), "attrs": list(attrs)}


PROTOCOL_MIX = PROTOCOLS + [("reduce", 2, 2, 2, 2), ("reduce", 0, 0, 0, 0), ("reduce", 1, 0, 1, 0), ("reducefn", 2, 1, 1, 0),
                            ("reducesix", 0, 2, 1, 2), ("reducenew", 2, 1, 0, 0), ("newargs", 2, 0, 0, 0), ("newargsex", 2, 0, 2, 1),
                            ("initargs", 2, 0, 0, 0), ("stated", 0, 0, 0, 3), ("ntuple", 2, 0, 0, 0), ("fset", 1, 0, 0, 0)]


def c05(c):
    """reconstruction protocols"""
    one = graphs.generate(c, PROTOCOL_MIX + PROTOCOL_SPREAD, nodes=1, limit=c.pick(1500, None))
    graphs.check(c, one * c.pick(2, 5), ["iso", "steps"], "single objects")
    small = graphs.generate(c, PROTOCOLS + [("list", 2, 0, 0, 0), ("obj", 0, 0, 0, 2), ("dict", 0, 0, 1, 0), ("tuple", 1, 0, 0, 0)], nodes=2, limit=c.pick(6000, 80000))
    graphs.check(c, small, ["iso", "steps"], "pairs")
    big = graphs.generate(c, PROTOCOL_MIX + PROTOCOL_SPREAD + BASIC, nodes=14, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000))
    graphs.check(c, big, ["iso", "steps"], "large graphs")
    import vpk

    parts = graphs.generate(c, cross("reduce", seq=(0, 1), ext=(0, 1), items=(0, 1), attrs=(0, 1, 2, 3)) + BASIC, refs=False, nodes=5, simulate=c.pick(120, 2500), limit=c.pick(1000, 20000))
    graphs.check(c, parts, ["iso", "steps"], "preset attributes and slots", values={"more": vpk.OTHER_STATES})


PLAIN_VIEW = BASIC + [
    ("dictsub", 0, 0, 1, 1), ("listsub", 1, 0, 0, 1), ("setsub", 1, 0, 0, 1), ("tupsub", 1, 0, 0, 1),
    ("ntuple", 2, 0, 0, 0), ("state", 1, 0, 0, 0), ("stated", 0, 0, 0, 1), ("ddict", 0, 0, 1, 0), ("handler", 1, 0, 0, 0),
]
PLAIN_MEMBERS = ["list", "dict", "tuple", "set", "obj", "dictsub", "listsub", "setsub", "tupsub", "state", "stated", "handler"]


def c06(c):
    """the plain view of all graphs"""
    o = [opt(unp=False)]
    small = graphs.generate(c, PLAIN_VIEW, nodes=2, opts=o + [opt(unp=False, refs=False)], limit=c.pick(5000, None))
    graphs.check(c, small, ["wire", "notags"], "small graphs", decode=False, want_repr=True)
    three = graphs.generate(c, THREE, nodes=3, opts=o, limit=c.pick(3000, 40000))
    graphs.check(c, three, ["wire", "notags"], "three nodes", decode=False, want_repr=True)
    big = graphs.generate(c, PLAIN_VIEW + [x for x in WIDER if x[0] != "fset"], nodes=12, simulate=c.pick(200, 4000), opts=o, limit=c.pick(1500, 30000))
    graphs.check(c, big, ["wire", "notags"], "large graphs", decode=False, want_repr=True)
    families(c, ["wire", "notags"], PLAIN_MEMBERS, opts=o, sizes=[3, 20], big=False, decode=False, want_repr=True)


def c07(c):
    """graphs without references"""
    o = [opt(refs=False)]
    cl = ["wire", "norefs", "tree"]
    small = graphs.generate(c, ALL, nodes=2, opts=o, limit=c.pick(5000, None))
    graphs.check(c, small, cl, "small graphs", want_repr=True)
    three = graphs.generate(c, THREE, nodes=3, opts=o, limit=c.pick(3000, 40000))
    graphs.check(c, three, cl, "three nodes", want_repr=True)
    big = graphs.generate(c, ALL + WIDER, nodes=10, simulate=c.pick(200, 4000), opts=o, limit=c.pick(1500, 30000))
    graphs.check(c, big, cl, "large graphs", want_repr=True)


CUT = BASIC + [("dictsub", 0, 0, 1, 1), ("listsub", 1, 0, 0, 1), ("setsub", 1, 0, 0, 1), ("ddict", 0, 0, 1, 0)]


def c08(c):
    """depth limits"""
    every = [opt(depth=d, unp=u, refs=r, keys=k) for d in (0, 1, 2, 3) for u in (True, False) for r in (True, False) for k in (True, False)]
    kw = dict(decode=False, want_repr=True)
    trees = graphs.generate(c, CUT, nodes=3, refs=False, opts=every, limit=c.pick(6000, 60000))
    graphs.check(c, trees, ["wire"], "trees", **kw)
    some = graphs.generate(c, CUT, nodes=2, opts=[opt(depth=d) for d in (0, 1, 2, 3)], limit=c.pick(4000, None))
    graphs.check(c, some, ["wire"], "graphs", **kw)
    deep = [opt(depth=d, unp=u, refs=r) for d in (1, 2, 4, 5, 7) for u in (True, False) for r in (True, False)]
    big = graphs.generate(c, CUT + [("list", 3, 0, 0, 0), ("obj", 0, 0, 0, 3)], nodes=16, refs=False, simulate=c.pick(100, 2000), opts=deep, limit=c.pick(800, 12000))
    graphs.check(c, big, ["wire"], "large trees", **kw)
    gbig = graphs.generate(c, CUT + [("list", 3, 0, 0, 0), ("obj", 0, 0, 0, 3)], nodes=12, simulate=c.pick(100, 2000), opts=[opt(depth=d) for d in (1, 2, 4, 6)], limit=c.pick(800, 12000))
    graphs.check(c, gbig, ["wire"], "large graphs", **kw)


def c11(c):
    """documents as the format describes them"""
    small = graphs.generate(c, ALL, nodes=2, opts=[opt(), opt(keys=True)], keys=(("str", "k"), ("int", "1")), limit=c.pick(6000, 80000))
    graphs.check(c, small, ["wire", "reader"], "small graphs")
    one = graphs.generate(c, ALL + SPREAD + PROTOCOL_MIX + PROTOCOL_SPREAD, nodes=1, opts=[opt(b85=b) for b in (True, False)], limit=c.pick(2500, None))
    graphs.check(c, one, ["wire", "reader"], "single objects")
    big = graphs.generate(c, ALL + WIDER + EMPTY, nodes=25, simulate=c.pick(120, 2500), limit=c.pick(900, 20000))
    graphs.check(c, big, ["wire", "reader"], "large graphs")
    spread = graphs.generate(c, SPREAD + PROTOCOL_SPREAD + HANDLED, nodes=14, simulate=c.pick(160, 3000), limit=c.pick(1200, 24000))
    graphs.check(c, spread, ["wire", "reader"], "spread graphs")
    families(c, ["wire", "reader"], MEMBERS)
    written = docs.generate(
        c, ["BasicPieces", "ObjectPieces", "CtorPieces", "EscapedPieces", "Ids(9)", "Ids(9)", "Literals", "BytesPieces"], 9, seeds=docs.ROOTS,
        opts=[docs.opt(), docs.opt(keys=True), docs.opt(v1=True)], simulate=c.pick(450, 8000), limit=c.pick(3000, 50000),
    )
    docs.check(c, written, docs.read, [], "independent documents")


RETURNING = [("hplain", 0, 0, 0, 0), ("hnone", 0, 0, 0, 0)]


def c17(c):
    """handled objects and the graph around them"""
    shapes = HANDLED + BASIC + [("state", 1, 0, 0, 0), ("reduce", 1, 1, 1, 1), ("listsub", 1, 0, 0, 1), ("iter", 1, 0, 0, 0)] + RETURNING
    opts = [opt(), opt(keys=True)]
    small = graphs.generate(c, shapes, nodes=2, opts=opts, limit=c.pick(3000, None))
    graphs.check(c, small, ["iso", "ctx"], "small graphs")
    three = graphs.generate(c, HANDLED + [("list", 2, 0, 0, 0), ("obj", 0, 0, 0, 2), ("dict", 0, 0, 1, 0), ("tuple", 1, 0, 0, 0)], nodes=3, limit=c.pick(4000, 60000))
    graphs.check(c, three, ["iso", "ctx"], "three nodes")
    big = graphs.generate(c, shapes + HANDLED, nodes=16, opts=opts, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000))
    graphs.check(c, big, ["iso", "ctx"], "large graphs")
    families(c, ["iso", "ctx"], ["handler"])


ITERS = [("iter", 2, 0, 0, 0), ("iter", 0, 0, 0, 0)]
ITER_OPTS = [opt(iter=m) for m in (-1, 0, 1, 3)]


def c23(c):
    """iterators and limits"""
    cl = ["iso", "drawn"]
    small = graphs.generate(c, ITERS + BASIC + [("dictsub", 0, 0, 1, 1)], nodes=2, opts=ITER_OPTS, limit=c.pick(5000, None))
    graphs.check(c, small, cl, "small graphs")
    three = graphs.generate(c, ITERS[:1] + [("list", 2, 0, 0, 0), ("obj", 0, 0, 0, 2)], nodes=3, opts=[opt(iter=m) for m in (-1, 1)], limit=c.pick(4000, 50000))
    graphs.check(c, three, cl, "three nodes")
    big = graphs.generate(c, ITERS + [("iter", 5, 0, 0, 0)] * 1 + ALL, nodes=14, opts=ITER_OPTS, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000))
    graphs.check(c, big, cl, "large graphs")


LAMBDAS = dict(atoms=(("pool", "any"), ("lambda", "lambda")), hash_atoms=(("pool", "prim"), ("lambda", "lambda")))


def c24(c):
    """unsupported members in all places"""
    cl = ["iso", "warn"]
    shapes = NULLS + BASIC + CONTAINERS + PROTOCOLS + HANDLED
    one = graphs.generate(c, shapes + PROTOCOL_MIX, nodes=1, limit=c.pick(3000, None), **LAMBDAS)
    graphs.check(c, one, cl, "single objects")
    keyed = graphs.generate(c, [("null", 0, 0, 0, 0), ("dict", 0, 0, 2, 0), ("dictsub", 0, 0, 1, 1), ("obj", 0, 0, 0, 2)], nodes=2, opts=[opt(keys=True)], limit=c.pick(2500, None), **LAMBDAS)
    graphs.check(c, keyed, cl, "with keys")
    small = graphs.generate(c, NULLS + BASIC + [("dictsub", 0, 0, 1, 1), ("listsub", 1, 0, 0, 1), ("state", 1, 0, 0, 0), ("reduce", 1, 1, 1, 1)], nodes=2, limit=c.pick(5000, None), **LAMBDAS)
    graphs.check(c, small, cl, "small graphs")
    big = graphs.generate(c, shapes + NULLS, nodes=14, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000), **LAMBDAS)
    graphs.check(c, big, cl, "large graphs")


FAILS = [("fail", 1, 0, 0, 0), ("faillate", 1, 0, 0, 0)]
FAIL_OPTS = [opt(fs=["a", "str", "FS"]), opt(fs=["a", "NoneType", "None"]), opt(fs=["a", "int", "7"])]


def c18(c):
    """failing objects in all places"""
    cl = ["iso", "fails"]
    shapes = FAILS + BASIC + CONTAINERS + PROTOCOLS + HANDLED
    small = graphs.generate(c, FAILS + BASIC + [("dictsub", 0, 0, 1, 1), ("listsub", 1, 0, 0, 1), ("state", 1, 0, 0, 0), ("reduce", 1, 1, 1, 1), ("handler", 1, 0, 0, 0), ("newargs", 1, 0, 0, 1)], nodes=2, opts=FAIL_OPTS, limit=c.pick(5000, None))
    graphs.check(c, small, cl, "small graphs")
    three = graphs.generate(c, FAILS + [("list", 2, 0, 0, 0), ("obj", 0, 0, 0, 2), ("tuple", 2, 0, 0, 0)], nodes=3, opts=FAIL_OPTS[:1], limit=c.pick(4000, 60000))
    graphs.check(c, three, cl, "three nodes")
    big = graphs.generate(c, shapes, nodes=16, opts=FAIL_OPTS, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000))
    graphs.check(c, big, cl, "large graphs")
    stop = graphs.generate(c, FAILS + BASIC, nodes=6, opts=FAIL_OPTS, simulate=c.pick(60, 1000), limit=c.pick(600, 10000))
    graphs.check(c, stop, cl, "interrupts", values={"interrupts": True})


LIBRARY = [("lib", 0, 0, 0, 0), ("libseq", 2, 0, 0, 0), ("libdict", 0, 0, 2, 0), ("slice", 3, 0, 0, 0), ("ns", 0, 0, 0, 2), ("ddict", 0, 0, 1, 0)]


def c20(c):
    """library values in all places"""
    lib = LIBRARY + [("libseq", 0, 0, 0, 0), ("libdict", 0, 0, 0, 0)]
    one = graphs.generate(c, [("lib", 0, 0, 0, 0), ("list", 2, 0, 0, 0)], nodes=2)
    graphs.check(c, one * c.pick(150, 2000), ["iso"], "values")
    small = graphs.generate(c, lib + BASIC + [("state", 1, 0, 0, 0), ("reduce", 1, 1, 1, 1), ("handler", 1, 0, 0, 0), ("dictsub", 0, 0, 1, 1)], nodes=2, limit=c.pick(5000, None))
    graphs.check(c, small, ["iso"], "small graphs")
    big = graphs.generate(c, lib + ALL + WIDER, nodes=16, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000))
    graphs.check(c, big, ["iso"], "large graphs")
    kw = dict(opts=[opt(keys=True)], keys=KEYS, node_keys=NODE_KEYS)
    keyed = graphs.generate(c, [("lib", 0, 0, 0, 0), ("libdict", 0, 0, 2, 0), ("ddict", 0, 0, 2, 0), ("dict", 0, 0, 1, 0), ("list", 3, 0, 0, 0)], nodes=7, simulate=c.pick(150, 3000), limit=c.pick(1200, 20000), **kw)
    graphs.check(c, keyed, ["iso"], "with keys")


def named_table():
    import library

    return {id(x): str(i) for i, x in enumerate(library.NAMED)}


def c26(c):
    """named objects in all places"""
    kw = dict(atoms=(("named", "any"), ("pool", "any")))
    run = dict(named=named_table())
    one = graphs.generate(c, [("list", 1, 0, 0, 0), ("obj", 0, 0, 0, 1), ("dict", 0, 0, 1, 0)], atoms=(("named", "any"),), nodes=1)
    graphs.check(c, one * c.pick(300, 3000), ["iso"], "single", **run)
    small = graphs.generate(c, BASIC + CONTAINERS + PROTOCOLS + HANDLED, nodes=3, simulate=c.pick(700, 8000), limit=c.pick(5000, 60000), **kw)
    graphs.check(c, small, ["iso"], "small graphs", **run)
    big = graphs.generate(c, ALL + WIDER, nodes=16, simulate=c.pick(250, 5000), limit=c.pick(2000, 40000), **kw)
    graphs.check(c, big, ["iso"], "large graphs", **run)
    keyed = graphs.generate(c, KEYED, keys=(("named", "any"), ("str", "k")), nodes=3, opts=[opt(keys=True)], simulate=c.pick(60, 1000), limit=c.pick(800, 10000), **kw)
    graphs.check(c, keyed, ["iso"], "keys", **run)


FORMATS = [opt(), opt(keys=True), opt(unp=False), opt(refs=False), opt(depth=2)]


def c29(c):
    """layouts and backends"""
    cl = ["variants"]
    kw = dict(opts=FORMATS)
    run = dict(values={"finite": True})
    small = graphs.generate(c, BASIC + CONTAINERS + HANDLED + EMPTY, nodes=2, limit=c.pick(3500, 50000), **kw)
    graphs.check(c, small, cl, "small graphs", **run)
    big = graphs.generate(c, BASIC + CONTAINERS + WIDER + HANDLED, nodes=14, simulate=c.pick(150, 3000), limit=c.pick(1200, 20000), **kw)
    graphs.check(c, big, cl, "large graphs", **run)
    families(c, cl, ["list", "dict", "obj", "tuple"], big=False, **run)


PURE = [opt(unp=u, refs=r, keys=k, depth=d, fs=["a", "int", "7"]) for u in (True, False) for r in (True, False) for k in (True, False) for d in (-1, 2)]
AGAIN = [opt(keys=k, fs=["a", "int", "7"]) for k in (True, False)]


def c09(c):
    """arguments and parsed data before and after"""
    shapes = ALL + NULLS + FAILS + LIBRARY + ITERS
    small = graphs.generate(c, shapes, nodes=3, opts=PURE, simulate=c.pick(600, 8000), limit=c.pick(4000, 60000), atoms=LAMBDAS["atoms"])
    graphs.check(c, small, ["pure"], "encode, small graphs", decode=False)
    big = graphs.generate(c, shapes, nodes=16, opts=PURE, simulate=c.pick(100, 2000), limit=c.pick(800, 12000), atoms=LAMBDAS["atoms"])
    graphs.check(c, big, ["pure"], "encode, large graphs", decode=False)
    import vpk

    left = graphs.generate(c, [("stated", 0, 0, 0, 2), ("obj", 0, 0, 0, 3), ("list", 2, 0, 0, 0), ("dict", 0, 0, 2, 0)], nodes=4, opts=PURE, simulate=c.pick(60, 1000), limit=c.pick(500, 8000))
    graphs.check(c, left, ["pure"], "left out attributes", decode=False, values={"more": vpk.LEAVING_OUT})
    keyed = graphs.generate(c, KEYED, keys=KEYS, node_keys=NODE_KEYS, nodes=3, opts=AGAIN, simulate=c.pick(250, 4000), limit=c.pick(1500, 30000))
    graphs.check(c, keyed, ["pure", "again"], "keys")
    data = graphs.generate(c, ALL + LIBRARY + ITERS, nodes=3, opts=AGAIN, simulate=c.pick(500, 8000), limit=c.pick(3000, 60000))
    graphs.check(c, data, ["pure", "again"], "restore, small graphs")
    dbig = graphs.generate(c, ALL + WIDER + LIBRARY + ITERS, nodes=16, opts=AGAIN, simulate=c.pick(150, 3000), limit=c.pick(1200, 20000))
    graphs.check(c, dbig, ["pure", "again"], "restore, large graphs")


def c27(c):
    """byte strings: the text forms, then bytes in all places of a graph"""
    import bytecheck

    bytecheck.run(c)
    atoms = (("pool", "bytes"), ("pool", "bytearray"))
    kw = dict(atoms=atoms, hash_atoms=(("pool", "bytes"),), keys=(("str", "k"), ("pool", "bytes")))
    opts = [opt(b85=b, keys=True) for b in (True, False)]
    cl = ["wire", "iso"]
    small = graphs.generate(c, BASIC + CONTAINERS + HANDLED, nodes=2, opts=opts, limit=c.pick(4000, 60000), **kw)
    graphs.check(c, small, cl, "small graphs")
    big = graphs.generate(c, ALL + WIDER, nodes=14, opts=opts, simulate=c.pick(150, 3000), limit=c.pick(1200, 20000), **kw)
    graphs.check(c, big, cl, "large graphs")


def c16(c):
    """histories of the handler registry"""
    import managers

    managers.registry(c)


def c19(c):
    """histories of backend managers"""
    import managers

    managers.backends(c)


def c10(c):
    """sequences of operations of one context"""
    import sessions

    none = ["a", "int", "7"]
    opts = [opt(fs=none, **kw) for kw in ({}, {"keys": True}, {"refs": False}, {"unp": False}, {"depth": 2}, {"depth": 1, "keys": True}, {"depth": 4, "refs": False})]
    kinds = [s for s in CUT if s[0] != "ddict"] + FAILS[:1]
    write = graphs.generate(c, kinds, nodes=6, opts=opts, simulate=c.pick(150, 1500), limit=c.pick(2500, 20000))
    deep = [x for x in BASIC + CONTAINERS + PROTOCOLS + HANDLED + FAILS if x[0] != "ntuple"]
    write += graphs.generate(c, deep, nodes=8, opts=opts[:2], simulate=c.pick(100, 1000), limit=c.pick(1500, 20000))
    rich = graphs.generate(c, BASIC + CONTAINERS + PROTOCOLS + HANDLED, nodes=7, simulate=c.pick(100, 1000))
    simple = graphs.generate(c, [BASIC[0], BASIC[1], BASIC[2], BASIC[4]], nodes=4, simulate=c.pick(50, 500))
    sessions.run(c, write, rich, simple)


def c25(c):
    """calls that run at the same time"""
    import concurrent_calls

    opts = [opt(), opt(keys=True)]
    shapes = PROTOCOLS + HANDLED * 2 + BASIC + CONTAINERS
    pool = graphs.generate(c, shapes, nodes=8, opts=opts, simulate=c.pick(200, 2000))
    called = [("state", 1, 0, 0, 0), ("handler", 1, 0, 0, 0), ("reduce", 1, 1, 0, 1), ("list", 2, 0, 0, 0)]
    handled = graphs.generate(c, called, nodes=6, opts=opts, simulate=c.pick(80, 800))
    concurrent_calls.run(c, pool, handled)


def c12(c):
    """plain JSON in both directions"""
    small = docs.generate(c, ["PlainPieces", "Literals", "TagTexts"], 1)
    docs.check(c, small, docs.plain, ["plain"], "small documents")
    big = docs.generate(
        c, ["PlainPieces", "PlainPieces", "Literals", "TagTexts"], 12, seeds=docs.PLAIN_ROOTS, simulate=c.pick(600, 6000), limit=c.pick(4500, 45000)
    )
    docs.check(c, big, docs.plain, ["plain"], "large documents")
    seeds = "{Tower(n, t) : n \\in {30, 50}, t \\in {1, 2, 3}} \\cup {Tower(100, t) : t \\in {1, 2}}"
    towers = docs.generate(c, ["PlainPieces", "Literals"], 2, seeds=seeds, simulate=c.pick(40, 200), limit=c.pick(300, 1500))
    docs.check(c, towers, docs.plain, ["plain"], "deep documents")


def c13(c):
    """malformed parts at any place"""
    opts = [docs.opt(), docs.opt(keys=True)]
    single = docs.generate(c, ["Malformed"], 0, opts=opts)
    docs.check(c, single, docs.read, [], "single parts")
    small = docs.generate(c, ["Malformed", "Ids(4)"], 0, seeds="ThenId", opts=[docs.opt(keys=True)], limit=c.pick(6000, None))
    docs.check(c, small, docs.read, [], "one container")
    big = docs.generate(
        c, ["BasicPieces", "ObjectPieces", "EscapedPieces", "Malformed", "Malformed", "Ids(7)", "Literals", "BytesPieces"], 9,
        seeds=docs.ROOTS, opts=opts, simulate=c.pick(700, 8000), limit=c.pick(5000, 60000),
    )
    docs.check(c, big, docs.read, [], "large documents")


def c14(c):
    """texts that name things"""
    opts = [docs.opt(), docs.opt(keys=True), docs.opt(safe=False), docs.opt(safe=False, keys=True)]
    single = docs.generate(c, ["TellingPieces", "Literals"], 1, opts=opts, law=False)
    docs.check(c, single * c.pick(12, 60), docs.texts, ["texts"], "single texts")
    small = docs.generate(c, ["TellingPieces", "EscapedPieces", "BasicPieces", "ObjectPieces", "CtorPieces"], 1, opts=opts, law=False, limit=c.pick(4000, 40000))
    docs.check(c, small, docs.texts, ["texts"], "one container")
    big = docs.generate(
        c, ["TellingPieces", "TellingPieces", "BasicPieces", "ObjectPieces", "EscapedPieces", "CtorPieces", "Literals"], 8,
        seeds=docs.ROOTS, opts=opts, law=False, simulate=c.pick(500, 8000), limit=c.pick(4000, 50000),
    )
    docs.check(c, big, docs.texts, ["texts"], "large documents")


def c15(c):
    """classes by name"""
    opts = [docs.opt(), docs.opt(keys=True)]
    single = docs.generate(c, ["ClassPieces", "Literals"], 0, opts=[docs.opt()], forms="Forms", law=False)
    docs.check(c, single * c.pick(1, 10), docs.classes, ["classes"], "single classes")
    big = docs.generate(
        c, ["ClassPieces", "ClassPieces", "ClassHolders", "BasicPieces", "Ids(6)", "Literals", "EscapedPieces"], 8,
        seeds=docs.ROOTS, opts=opts, forms="Forms", law=False, simulate=c.pick(800, 8000), limit=c.pick(6000, 50000),
    )
    docs.check(c, big, docs.classes, ["classes"], "large documents")
    lost = {
        "j": ["arr", [
            ["obj", [[["s", "py/object"], ["lit", "str", "gone.Thing"]], [["s", "a"], ["arr", []]]]],
            ["obj", []],
            ["obj", [[["s", "py/id"], ["lit", "int", "3"]]]],
        ]],
        "form": ["none"],
        "o": docs.opt(strict=True),
    }
    docs.known(c, "C15-members", docs.classes, ["classes"], lost)


def c28(c):
    """attributes and slots of all kinds of classes"""
    one = classes.generate(c, ["a", "b", "__q"], 1, 'SUBSET {"a", "b", "__q", "__dict__"}', limit=c.pick(4000, None))
    classes.check(c, one, "one class")
    two = classes.generate(c, ["a"], 2, 'SUBSET {"a", "__q"}', limit=c.pick(3000, None))
    classes.check(c, two, "two classes")
    big = classes.generate(
        c, ["a", "b", "_c", "__q"], 4, 'SUBSET {"a", "b", "_c", "__q", "__dict__"}',
        simulate=c.pick(6000, 60000), limit=c.pick(12000, 200000),
    )
    classes.check(c, big, "hierarchies")
    named = classes.generate(
        c, ["a", "default_factory"], 3, 'SUBSET {"a", "default_factory", "__dict__"}',
        simulate=c.pick(1500, 15000), limit=c.pick(2500, 40000), around=["bare", "list"],
    )
    classes.check(c, named, "names with a meaning")
    builtin = classes.generate(
        c, ["a", "b", "__q"], 3, 'SUBSET {"a", "b", "__q", "__dict__"}', forms=["plain"], bases=["list", "set", "tuple", "dict"],
        simulate=c.pick(3000, 30000), limit=c.pick(5000, 100000),
    )
    classes.check(c, builtin, "subclasses of builtin types")
    lost = {
        "h": {"cs": [{"sl": ["none"], "at": [], "pr": [], "ex": ["none"]}], "wide": False, "form": "plain", "base": "object"},
        "x": {"at": [["d", 0, "default_factory"]], "ex": ["none"]},
        "unp": True, "keys": False, "around": "late", "warn": False, "init": False,
    }
    classes.known(c, "C28-default-factory", lost)
    lost = {
        "h": {"cs": [{"sl": ["a"], "at": [], "pr": [], "ex": ["none"]}], "wide": False, "form": "plain", "base": "dict"},
        "x": {"at": [["s", 1, "a"]], "ex": ["none"]},
        "unp": True, "keys": False, "around": "bare", "warn": False, "init": False,
    }
    classes.known(c, "C28-dict-slots", lost)


def c21(c):
    """arrays, views, scalars and dtypes"""
    import arrays

    shapes = [(), (0,), (1,), (3,), (2, 2), (2, 0), (17,), (3, 6), (2, 1, 3)]
    single = arrays.generate(c, arrays.ALL, shapes, 1, locks=(True, False))
    arrays.check(c, single * c.pick(2, 20), arrays.ALL, "single arrays")
    lone = arrays.generate(c, arrays.ALL, [(1,)], 1, members=1, lone=True, limit=c.pick(1500, None))
    arrays.check(c, lone, arrays.ALL, "scalars and dtypes")
    views = arrays.generate(c, arrays.FEW, [(3,), (2, 3), (4, 5), ()], 2, limit=c.pick(4000, None), locks=(True, False))
    arrays.check(c, views, arrays.FEW, "one view")
    some = arrays.ALL[: len(arrays.ALL) - 1]
    big = arrays.generate(
        c, some, [(6,), (20,), (3, 4), (2, 3, 4), (1, 5), (2, 2, 2), ()], 7, members=8, lone=True, axes=4,
        simulate=c.pick(400, 8000), limit=c.pick(2000, 40000), locks=(True, False),
    )
    arrays.check(c, big, some, "many views")


def c22(c):
    """frames, series and indexes"""
    import frames

    names = ["none", "text", "letter", "empty", "number", "zero", "float", "true", "pair", "deep"]
    one = frames.generate(c, kinds=["frame", "series"], rows=[0, 1, 3], cols=frames.COLUMNS, limit=c.pick(2500, None))
    frames.check(c, one, "one column")
    runs = frames.generate(c, rows=[1], cols=["int64", "str", "float32"], columns=5, width=1, tokens=[1], limit=None)
    frames.check(c, runs, "runs of types")
    index = frames.generate(c, kinds=["frame", "series", "index"], rows=[0, 1, 3], index=frames.ROWS, limit=c.pick(2000, None))
    frames.check(c, index, "row labels")
    index = frames.generate(c, rows=[0, 2], labels=frames.LABELS, names=names[:2], columns=3, width=1, tokens=[1])
    frames.check(c, index, "column labels")
    named = frames.generate(
        c, kinds=["frame", "series", "index"], rows=[2], index=frames.FLAT, labels=["str"], names=names, levels=["int64", "str"], tall=2,
        width=1, tokens=[1], limit=c.pick(1500, 20000),
    )
    frames.check(c, named, "names")
    big = frames.generate(
        c, kinds=["frame", "series", "index"], rows=[0, 1, 2, 5, 40], cols=frames.COLUMNS, index=frames.ROWS, labels=frames.LABELS,
        levels=frames.LEVELS, names=names, tokens=[0, 1, 2, 3], width=4, stretches=[1, 3], objs=4, columns=9, tall=2, members=6,
        simulate=c.pick(250, 6000), limit=c.pick(1500, 30000),
    )
    frames.check(c, big, "many objects")

    def table(kind="frame", row=("int64", [1, 2]), rows=None, labels=("str", [1]), name="none", cols=(("int64", [1, 2]),)):
        def column(t, cells):
            return {"t": t, "cells": list(cells)}

        index = {"levels": [column(*x) for x in (rows or [row])], "names": ["none" for _ in rows or [row]]}
        columns = {"levels": [column(*labels)] if kind == "frame" else [], "names": ["none"] if kind == "frame" else []}
        cols = [column(*x) for x in cols] if kind != "index" else []
        return {"objs": [{"kind": kind, "index": index, "columns": columns, "cols": cols, "name": name}], "graph": [1]}

    two = (("int64", [1, 2]), ("int64", [2, 1]))
    frames.known(c, "C22-duplicate-columns", table(labels=("str", [1, 1]), cols=two))
    frames.known(c, "C22-missing-column-label", table(labels=("float64", [1, 0]), cols=two))
    frames.known(c, "C22-categories", table(cols=[("open category", [1, 2])]))
    frames.known(c, "C22-categories", table("index", row=("open category", [1, 2])))
    frames.known(c, "C22-empty-levels", table("index", rows=[("str", []), ("str", [])]))
    frames.known(c, "C22-level-dtypes", table("index", rows=[("int8", [1, 2]), ("str", [1, 1])]))
    frames.known(c, "C22-names", table("series", name="time"))
