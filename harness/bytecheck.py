"""Byte strings and their two text forms: Bytes.tla, BytesTrace.tla."""

import json

import jsonpickle

from core import execute, guarded
from tlc import tla


def text(codes):
    return "".join(map(chr, codes))


def documents(raw, b64, b85):
    """Documents with the byte string in both forms, and where it is in the result"""
    f64, f85 = {"py/b64": b64}, {"py/b85": b85}
    k64, k85 = "json://" + json.dumps(f64), "json://" + json.dumps(f85)
    first = lambda x: next(iter(x))  # noqa: E731
    return [
        (f64, [lambda y: y]),
        (f85, [lambda y: y]),
        ({"py/bytea": f64}, [("array", lambda y: y)]),
        ({"py/bytea": f85}, [("array", lambda y: y)]),
        ([f64, f85, {"py/bytea": f85}, f64], [lambda y: y[0], lambda y: y[1], ("array", lambda y: y[2]), lambda y: y[3]]),
        ({"py/tuple": [f85, {"py/set": [f64]}]}, [lambda y: y[0], lambda y: first(y[1])]),
        ({k64: f85}, [first, lambda y: y[first(y)]]),
        ({k85: f64}, [first, lambda y: y[first(y)]]),
        ({"a": f64, k85: [f64]}, [lambda y: y["a"], lambda y: list(y)[1], lambda y: list(y.values())[1][0]]),
    ]


def record(case, rng):
    raw = bytes(case["raw"])
    rec = {"raw": case["raw"], "t64": [], "t85": [], "back": [], "err": ""}

    def seen(x, want):
        got = list(x) if isinstance(x, (bytes, bytearray)) else [-1]
        rec["back"].append({"got": got, "type": type(x).__name__, "want": want})

    def run():
        written = {}
        for b85, name in ((False, "b64"), (True, "b85")):
            for value, want in ((raw, "bytes"), (bytearray(raw), "bytearray")):
                doc = jsonpickle.encode(value, use_base85=b85)
                seen(jsonpickle.decode(doc), want)
                data = json.loads(doc)
                data = data["py/bytea"] if want == "bytearray" else data
                t = [ord(ch) for ch in data["py/" + name]]
                if written.setdefault(name, t) != t:
                    seen(None, want)
            doc = jsonpickle.encode({raw: [raw, bytearray(raw)]}, keys=True, use_base85=b85)
            y = jsonpickle.decode(doc, keys=True)
            (k,) = y
            seen(k, "bytes")
            seen(y[k][0], "bytes")
            seen(y[k][1], "bytearray")
        rec["t64"], rec["t85"] = written["b64"], written["b85"]
        if "b64" in case:
            for doc, where in documents(raw, text(case["b64"]), text(case["b85"])):
                y = jsonpickle.decode(json.dumps(doc), keys=True)
                for w in where:
                    array = isinstance(w, tuple)
                    seen(w[1](y) if array else w(y), "bytearray" if array else "bytes")

    _, rec["err"] = guarded(run)
    return rec


def run(c):
    cases = []
    for alphabet, length in (
        (range(256), 1),
        ([0, 255], 9),
        ([0, 1, 127, 128, 255], 4),
        ([33, 62, 63, 84, 85, 250], 3),
    ):
        r = c.model("Bytes", {"Alphabet": tla(frozenset(alphabet)), "MaxLen": str(length)}, ["Laws"], spec="BSpec")
        cases += sorted(r.lines("CASE"), key=lambda x: (len(x["raw"]), x["raw"]))
    pairs = [{"raw": [x, y]} for x in range(256) for y in range(256)]
    cases += pairs if c.thorough() else c.rng.sample(pairs, 1500)
    for n in list(range(70)) * c.pick(8, 60) + [255, 256, 257, 1000]:
        cases.append({"raw": list(c.rng.randbytes(n))})
    records = execute(cases, record, c.seed)
    c.sample(cases[3])
    c.judge("BytesTrace", records, {"Alphabet": "{0}", "MaxLen": "0"}, cases=cases, label="texts")
