"""Values of library types and named objects."""

import array
import collections
import collections.abc
import datetime
import decimal
import email.message
import fractions
import functools
import ipaddress
import itertools
import json
import json.decoder
import math
import operator
import os
import os.path
import pathlib
import re
import types
import typing
import uuid
import zoneinfo
from datetime import date, time, timedelta, timezone

import vpk

ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Pacific/Chatham"]


def _tz(rng):
    return rng.choice(
        [
            None,
            timezone.utc,
            timezone(timedelta(hours=5, minutes=30)),
            timezone(-timedelta(hours=23, minutes=59), "far west"),
            timezone(timedelta(seconds=1, microseconds=1)),
            zoneinfo.ZoneInfo(rng.choice(ZONES)),
        ]
    )


def _time(rng):
    t = rng.choice([time(0, 0), time(23, 59, 59, 999999), time(1, 2, 3, 4), time(12, 0, 0, 1)])
    return t.replace(fold=rng.randrange(2))


def _decimal(rng):
    return decimal.Decimal(
        rng.choice(["0", "-0", "0.1", "1E+400", "-1E-400", "NaN", "-sNaN12", "Infinity", "-Infinity", "1.000", "9" * 40, "1_0", "0E-10"])
    )


def _array(rng):
    code = rng.choice("bBhHiIlLqQfdu")
    if code == "u":
        return array.array("u", rng.choice(["", "a", "h\u00e9\u4e2d", "\U0001f600x"]))
    n = rng.randrange(6)
    if code in "fd":
        return array.array(code, [rng.choice([0.0, -0.0, 1.5, -2.25, float("inf"), 2.0**-20]) for _ in range(n)])
    a = array.array(code)
    bits = 8 * a.itemsize
    lo, hi = (0, 2**bits - 1) if code.isupper() else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    return array.array(code, [rng.choice([lo, hi, 0, 1, rng.randint(lo, hi)]) for _ in range(n)])


FLAGS = [0, re.I, re.M | re.S, re.X, re.I | re.A, re.U]


def _regex(rng):
    if rng.random() < 0.3:
        return re.compile(rng.choice([rb"", rb"a(b)*\xff", rb"[^\x00]+", rb"(?P<n>\d+)"]), rng.choice([0, re.I, re.M]))
    return re.compile(rng.choice(["", "a(b)*", r"\d+\s", "(?P<name>x)|y", "\u00e9\u4e2d", "[\"'/]", "a # b", "(?i)Z", "line\nbreak"]), rng.choice(FLAGS))


def _ip(rng):
    v4 = rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)])
    v6 = rng.choice([0, 1, 2**128 - 1, rng.randrange(2**128)])
    return rng.choice(
        [
            lambda: ipaddress.IPv4Address(v4),
            lambda: ipaddress.IPv6Address(v6),
            lambda: ipaddress.IPv4Network((v4, rng.randrange(33)), strict=False),
            lambda: ipaddress.IPv6Network((v6, rng.randrange(129)), strict=False),
            lambda: ipaddress.IPv4Interface((v4, rng.randrange(33))),
            lambda: ipaddress.IPv6Interface((v6, rng.randrange(129))),
            lambda: ipaddress.IPv6Address("fe80::1%eth0"),
        ]
    )()


def _path(rng):
    text = rng.choice(["", ".", "/", "a", "/a/b.c", "a/../b", "..", "//x/y", "C:\\x", "\u00e9 \u4e2d", "a b"])
    return rng.choice([pathlib.PurePosixPath, pathlib.PureWindowsPath, pathlib.PosixPath, pathlib.PurePath])(text)


def _float(rng):
    return rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("nan"), rng.uniform(-1e9, 1e9)])


MAKERS = {
    "datetime": lambda r: datetime.datetime.combine(
        r.choice([date.min, date.max, date(2020, 2, 29), date(2021, 10, 31), date(1970, 1, 1)]), _time(r), _tz(r)
    ),
    "date": lambda r: r.choice([date.min, date.max, date(2020, 2, 29), date.fromordinal(r.randrange(1, 3652059))]),
    "time": lambda r: _time(r).replace(tzinfo=r.choice([None, timezone.utc, timezone(timedelta(hours=-3))])),
    "timedelta": lambda r: r.choice(
        [timedelta(), timedelta.min, timedelta.max, timedelta.resolution, -timedelta.resolution, timedelta(days=r.randrange(-999, 999), seconds=r.randrange(86400), microseconds=r.randrange(10**6))]
    ),
    "timezone": lambda r: _tz(r) or timezone.utc,
    "decimal": _decimal,
    "fraction": lambda r: fractions.Fraction(r.choice([0, 1, -1, 10**30, r.randrange(-99, 99)]), r.choice([1, 3, 10**20 + 1, r.randrange(1, 99)])),
    "complex": lambda r: complex(_float(r), _float(r)),
    "uuid": lambda r: uuid.UUID(int=r.choice([0, 1, 2**128 - 1, r.randrange(2**128)])),
    "regex": _regex,
    "array": _array,
    "range": lambda r: range(r.choice([0, -5, 3, 2**70]), r.choice([0, 1, 10, -10, 2**80]), r.choice([1, -1, 3, 2**65])),
    "path": _path,
    "ip": _ip,
    "counter": lambda r: collections.Counter({k: r.choice([1, 0, -3, 10**20]) for k in r.sample(["a", "b", "", "\u00e9", "k k"], r.randrange(5))}),
    "slice": lambda r: slice(r.choice([None, 0, -1]), r.choice([None, 5, 2**70]), r.choice([None, 1, -2])),
}


COUNTED = ["a", "", "1", "json://1", 1, -5, None, 2.5, b"ab", (1, "x"), (), frozenset({3}), date(2020, 2, 29), decimal.Decimal("1.5"), vpk.Color(1)]


def value(rng, keys=False):
    """keys: whether dictionary keys of all types are kept"""
    kind = rng.choice(sorted(MAKERS))
    if kind == "counter" and keys:
        return collections.Counter({k: rng.choice([1, 0, -3, 10**20]) for k in rng.sample(COUNTED, rng.randrange(6))})
    return MAKERS[kind](rng)


def _counter(x):
    items = [f"{k!r}: {v!r}" for k, v in x.items()]
    return repr(items if all(type(k) is str for k in x) else sorted(items))


def _dt(x):
    tz = x.tzinfo
    return f"{x!r} fold={x.fold} tz={text(tz) if tz is not None else None}"


TEXT = {
    datetime.datetime: _dt,
    time: _dt,
    date: repr,
    timedelta: repr,
    timezone: repr,
    zoneinfo.ZoneInfo: lambda x: x.key,
    decimal.Decimal: repr,
    fractions.Fraction: repr,
    complex: repr,
    uuid.UUID: lambda x: str(x.int),
    re.Pattern: lambda x: f"{type(x.pattern).__name__} {x.pattern!r} {x.flags}",
    array.array: lambda x: f"{x.typecode} {x.tobytes().hex()}",
    range: repr,
    collections.Counter: _counter,
    ipaddress.IPv6Address: lambda x: f"{int(x)} {x.scope_id}",
}
for _c in (
    pathlib.PurePosixPath, pathlib.PureWindowsPath, pathlib.PosixPath,
    ipaddress.IPv4Address, ipaddress.IPv4Network, ipaddress.IPv6Network,
    ipaddress.IPv4Interface, ipaddress.IPv6Interface,
):
    TEXT[_c] = repr


def text(x):
    """The content of a library value, None for everything else"""
    fn = TEXT.get(type(x))
    return None if fn is None else fn(x)


# ---------------------------------------------------------------- named objects
NAMED = [
    # classes, nested classes, classes with the same simple name
    vpk.Plain, vpk.Outer, vpk.Outer.Inner, vpk.Outer.Inner.Deepest, vpk.Other.Inner, vpk.Inner, vpk.WithMeta, vpk.Meta, vpk.DSub, vpk.TSub, vpk.Frozen,
    # enumerations and their members
    vpk.Color, vpk.Level, vpk.Perm, vpk.Color(1), vpk.Color(2), vpk.Level(1), vpk.Level(2), vpk.Perm(1),
    # module-level functions, also under other names and from other modules
    vpk.function_one, vpk.function_two, vpk.alias_of_two, os.path.join, json.dumps, functools.reduce, operator.add, math.sqrt, itertools.chain, functools.partial,
    os.getcwd, re.compile, email.message.Message, collections.abc.Mapping, os.fspath, json.JSONDecodeError, vpk.decorated,
    # built-in functions and types
    len, sorted, print, abs, isinstance, open, int, str, list, dict, tuple, set, frozenset, object, type, bool, float, bytes, bytearray, complex,
    range, slice, property, Exception, ValueError, KeyError, type(None), type(...), type(NotImplemented), types.FunctionType, types.ModuleType, types.SimpleNamespace,
    typing.Any, collections.OrderedDict, collections.deque, collections.Counter, datetime.datetime, decimal.Decimal, uuid.UUID,
    # modules
    os, os.path, json, json.decoder, collections, collections.abc, re, math, vpk, email.message,
    # singletons
    Ellipsis, NotImplemented,
]
