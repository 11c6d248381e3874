"""Classes for the object graphs that are fed to the library.

KIND maps each class to the kind of node it stands for in the model.  Values
that must not show up as attributes (constructor arguments, appended items)
are kept outside of the instances, in ARGS.
"""

import collections
import copyreg
import dataclasses
import enum
import functools
import io
import threading
import types

import jsonpickle.handlers

KIND = {}
VARIANTS = collections.defaultdict(list)
NOHASH = set()  # classes that cannot be set members or keys
FIXED = {}  # classes with a fixed list of attribute names
ARGS = {}  # id -> (weak reference or object, value)


def kind(k, hashable=True, names=None, weight=1):
    def deco(cls):
        KIND[cls] = k
        VARIANTS[k].extend([cls] * weight)
        if not hashable:
            NOHASH.add(cls)
        if names:
            FIXED[cls] = names
        return cls

    return deco


POINT = None  # called wherever the library calls back


def point():
    if POINT is not None:
        POINT()


def put_args(obj, value):
    point()
    ARGS[id(obj)] = (obj, value)


def get_args(obj, default=()):
    point()
    e = ARGS.get(id(obj))
    return e[1] if e is not None and e[0] is obj else default


def clear():
    ARGS.clear()
    CALLS.clear()


CALLS = {}  # id -> (object, list of protocol steps)


def called(obj, step):
    e = CALLS.get(id(obj))
    if e is None or e[0] is not obj:
        e = CALLS[id(obj)] = (obj, [])
    e[1].append(step)


def calls(obj):
    e = CALLS.get(id(obj))
    return list(e[1]) if e is not None and e[0] is obj else []


# --------------------------------------------------------------------- objects
@kind("obj", weight=3)
class Plain:
    pass


@kind("obj", hashable=False)
@dataclasses.dataclass(repr=False)
class Data:
    a: object = None
    b: object = None

    def __init__(self):
        pass


@kind("obj")
@dataclasses.dataclass(frozen=True, eq=False, repr=False)
class Frozen:
    a: object
    b: object = None


@kind("obj", names=("a", "b", "c", "d", "e", "f"))
class Slotted:
    __slots__ = ("a", "b", "c", "d", "e", "f")


class SlotBase:
    __slots__ = ("a", "b", "c")


@kind("obj", names=("d", "e", "f", "a", "b", "c"))
class SlotChild(SlotBase):
    __slots__ = ("d", "e", "f")


@kind("obj")
class SlotDict(SlotBase):
    pass


@kind("obj", names=("only",))
class SlotOne:
    __slots__ = "only"


class Outer:
    @kind("obj")
    class Inner:
        class_level = 5

        class Deepest:
            pass


class Other:
    class Inner:
        pass


class Inner:
    pass


@kind("obj", hashable=False)
class ValEq:
    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__.keys() == other.__dict__.keys()

    __hash__ = None


@kind("obj", hashable=False)
class AlwaysEq:
    """Equal to everything, so identity and equality get confused easily"""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Meta(type):
    def __call__(cls, *args, **kwargs):
        return super().__call__(*args, **kwargs)


@kind("obj")
class WithMeta(metaclass=Meta):
    pass


@kind("obj")
class NeedsInit:
    def __init__(self, required, also):
        raise AssertionError("decoding must not call __init__")


@kind("obj")
class Falsy:
    def __bool__(self):
        return False


@kind("obj")
class Sized:
    def __len__(self):
        return 0


@kind("obj")
class Iterable:
    def __iter__(self):
        return iter(())


@kind("obj")
class Callable:
    def __call__(self):
        return None


@kind("obj")
class GetAttr:
    def __getattr__(self, name):
        raise AttributeError(name)


@kind("obj")
class WithProperty:
    shared = [1, 2]

    @property
    def computed(self):
        raise AssertionError("property must not be evaluated")


class ABase:
    kept = 1

    def method(self):
        return 0


@kind("obj")
class Child(ABase):
    pass


# ------------------------------------------------------------------ containers
@kind("dictsub", hashable=False)
class DSub(dict):
    pass


@kind("dictsub")
class DSubHash(dict):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


@kind("listsub", hashable=False)
class LSub(list):
    pass


@kind("listsub")
class LSubHash(list):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


@kind("setsub", hashable=False)
class SSub(set):
    pass


@kind("tupsub")
class TSub(tuple):
    pass


Point = collections.namedtuple("Point", "x y")
One = collections.namedtuple("One", "only")
Zero = collections.namedtuple("Zero", "")
Three = collections.namedtuple("Three", "a b c")
NTUPLES = {0: Zero, 1: One, 2: Point, 3: Three}
for _c in NTUPLES.values():
    KIND[_c] = "ntuple"
KIND[collections.defaultdict] = "ddict"
KIND[frozenset] = "fset"


KIND[types.SimpleNamespace] = "ns"
VARIANTS["ns"].append(types.SimpleNamespace)


# ----------------------------------------------------------------------- enums
@kind("enum")
class Color(enum.Enum):
    RED = 1
    BLUE = 2


@kind("enum")
class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


@kind("enum")
class Perm(enum.Flag):
    R = 1
    W = 2


# ------------------------------------------------------------------- protocols
class _Args:
    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls)
        put_args(self, (list(args), dict(kwargs)))
        called(self, "new")
        return self


@kind("newargs")
class NewArgs(_Args):
    def __getnewargs__(self):
        return tuple(get_args(self)[0])


@kind("newargsex")
class NewArgsEx(_Args):
    def __getnewargs_ex__(self):
        a = get_args(self)
        return (tuple(a[0]), {**a[1]})


@kind("newargsex")
class NewArgsBoth(_Args):
    def __getnewargs_ex__(self):
        a = get_args(self)
        return (tuple(a[0]), {**a[1]})

    def __getnewargs__(self):
        raise AssertionError("__getnewargs_ex__ takes precedence")


@kind("argstate")
class ArgState(_Args):
    """new arguments and a state, both made on the fly"""

    def __getnewargs_ex__(self):
        a = get_args(self)
        return (tuple(a[0]), {**a[1]})

    def __getstate__(self):
        return {**self.__dict__}  # a display, whose memory is used again early


@kind("argstate")
class ArgStateSet(ArgState):
    def __setstate__(self, state):
        called(self, "state")
        self.__dict__ = state


@kind("initargs")
class InitArgs(_Args):
    def __getinitargs__(self):
        return tuple(get_args(self)[0])


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


SCALARSUB = {IntSub: int, StrSub: str, FloatSub: float}
for _c in SCALARSUB:
    KIND[_c] = "newargs"


@kind("state")
class State:
    def __getstate__(self):
        return ("st", get_args(self))

    def __setstate__(self, state):
        called(self, "state")
        tag, value = state
        put_args(self, value)


@kind("state")
class SlotState:
    __slots__ = ("unused", "__weakref__")

    def __getstate__(self):
        return ("st", get_args(self))

    def __setstate__(self, state):
        called(self, "state")
        tag, value = state
        put_args(self, value)


@kind("stated")
class StateDict:
    def __getstate__(self):
        return {**self.__dict__}  # a display, whose memory is used again early


@kind("stated")
class StateDictSet:
    def __getstate__(self):
        return {**self.__dict__}  # a display, whose memory is used again early

    def __setstate__(self, state):
        called(self, "state")
        # keep the dictionary itself, as pickle's default does for attributes
        self.__dict__ = state


class StateSelf:
    """gives its own attribute dictionary away"""

    _jsonpickle_exclude = ("a", "value", "state")

    def __getstate__(self):
        return self.__dict__


class Excluding:
    _jsonpickle_exclude = ["b", "name", "x1", "missing"]


class ExcludingState(Excluding):
    def __getstate__(self):
        return {**self.__dict__}  # a display, whose memory is used again early

    def __setstate__(self, state):
        self.__dict__.update(state)


KIND[StateSelf] = KIND[ExcludingState] = "stated"
KIND[Excluding] = "obj"
# what these classes write is not part of the model of their kinds
LEAVING_OUT = {"stated": [StateSelf, StateSelf, ExcludingState], "obj": [Excluding] * 6}


class _Red:
    def __new__(cls, *args):
        self = super().__new__(cls)
        put_args(self, (list(args), [], []))
        called(self, "new")
        return self

    def extend(self, items):
        called(self, "ext")
        get_args(self)[1].extend(items)

    def __setitem__(self, k, v):
        c = calls(self)
        if not c or c[-1] != "items":
            called(self, "items")
        get_args(self)[2].append((k, v))

    def _parts(self):
        args, ext, items = get_args(self)
        return (
            tuple(args),
            {**self.__dict__} or None,
            iter(list(ext)) if ext else None,
            iter(list(items)) if items else None,
        )


@kind("reduce")
class Reduce(_Red):
    def __reduce__(self):
        return (type(self),) + self._parts()


@kind("reduce")
class ReduceEx(_Red):
    def __reduce_ex__(self, protocol):
        return (type(self),) + self._parts()

    def __reduce__(self):
        raise AssertionError("__reduce_ex__ takes precedence")


@kind("reduce")
class ReduceSet(_Red):
    """applies its state itself"""

    def __setstate__(self, state):
        called(self, "state")
        self.__dict__ = state

    def __reduce__(self):
        return (type(self),) + self._parts()


class ReducePreset(_Red):
    """has an attribute from the start"""

    def __new__(cls, *args):
        self = super().__new__(cls, *args)
        self.a = "preset"
        return self

    def __reduce__(self):
        return (type(self),) + self._parts()


class ReduceSlots(_Red):
    """state of two parts, attributes and slots"""

    __slots__ = ("a", "b", "name")

    def __reduce__(self):
        p = self._parts()
        slots = {n: getattr(self, n) for n in ReduceSlots.__slots__ if hasattr(self, n)}
        return (type(self), p[0], (p[1], slots) if slots else p[1]) + p[2:]


class ReduceSlotsPreset(ReduceSlots):
    """the same with an attribute from the start"""

    def __new__(cls, *args):
        self = super().__new__(cls, *args)
        self.x1 = "preset"
        return self


KIND[ReducePreset] = KIND[ReduceSlots] = KIND[ReduceSlotsPreset] = "reduce"
# what these classes write or keep is not part of the model of their kind
OTHER_STATES = {"reduce": [ReducePreset, ReduceSlots, ReduceSlotsPreset] * 4}


def make_reduced(*args):
    return ReduceFn(*args)


class ReduceFn(_Red):
    def __reduce__(self):
        return (make_reduced,) + self._parts()


KIND[ReduceFn] = "reducefn"
VARIANTS["reducefn"].append(ReduceFn)


def set_state(obj, state):
    called(obj, "setter")
    obj.__dict__ = state


class ReduceSix(_Red):
    """six elements: the last one is the function that applies the state"""

    def __reduce__(self):
        return (type(self),) + self._parts() + (set_state,)

    def __setstate__(self, state):
        raise AssertionError("the state setter takes precedence")


KIND[ReduceSix] = "reducesix"
VARIANTS["reducesix"].append(ReduceSix)


class ReduceNew(_Red):
    def __reduce__(self):
        p = self._parts()
        return (copyreg.__newobj__, (type(self),) + p[0]) + p[1:]


KIND[ReduceNew] = "reducenew"
VARIANTS["reducenew"].append(ReduceNew)


# -------------------------------------------------------------------- handlers
@kind("handler")
class Handled:
    v = None


class SeenContexts(threading.local):
    def __init__(self):
        self.log = []


SEEN = SeenContexts()


class HandledHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        point()
        c = self.context
        SEEN.log.append(("flatten", f"{c.unpicklable},{c.make_refs},{c.keys},{c.warn}", handler_context))
        point()
        data["v"] = self.context.flatten(obj.__dict__["v"], reset=False)
        return data

    def restore(self, data, handler_context=None):
        point()
        SEEN.log.append(("restore", f"{self.context.keys}", handler_context))
        obj = Handled()
        point()
        obj.v = self.context.restore(data["v"], reset=False)
        return obj


@kind("handler")
class HandledBase:
    v = None


class HandledSub(HandledBase):
    pass


KIND[HandledSub] = "handler"
VARIANTS["handler"].append(HandledSub)


class HandledBaseHandler(jsonpickle.handlers.BaseHandler):
    """Creates the instance of the class named in the data"""

    def flatten(self, obj, data):
        point()
        data["v"] = self.context.flatten(obj.__dict__["v"], reset=False)
        point()
        return data

    def restore(self, data):
        point()
        cls = {"vpk.HandledBase": HandledBase, "vpk.HandledSub": HandledSub}[data["py/object"]]
        obj = cls()
        point()
        obj.v = self.context.restore(data["v"], reset=False)
        return obj


class HandledPlain:
    """its handler writes a plain string"""

    v = None


class HandledNone(HandledPlain):
    """its handler writes nothing"""


KIND[HandledPlain] = "hplain"
KIND[HandledNone] = "hnone"
VARIANTS["hplain"].append(HandledPlain)
VARIANTS["hnone"].append(HandledNone)


class PlainHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        return "plain"


class NoneHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        return None


# --------------------------------------------------------------------- failures
class Failure(Exception):
    pass


ERRORS = [ValueError, RuntimeError, KeyError, OSError, AssertionError, Failure, AttributeError, IndexError]


def fail(obj):
    e = ERRORS[get_args(obj)["error"]]("failed on purpose")
    e.owner = obj
    raise e


class FailState:
    def __getstate__(self):
        fail(self)

    def __setstate__(self, state):
        pass


class FailReduce:
    def __reduce__(self):
        fail(self)


class FailReduceEx:
    def __reduce_ex__(self, protocol):
        fail(self)


class FailArgs:
    def __getnewargs__(self):
        fail(self)


class FailItems(dict):
    def items(self):
        fail(self)

    __hash__ = object.__hash__
    __eq__ = object.__eq__


class FailNext:
    def __iter__(self):
        return self

    def __next__(self):
        fail(self)


class FailLate:
    """its handler raises after it has written the member"""


class FailLateHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        data["v"] = self.context.flatten(get_args(obj)["v"], reset=False)
        fail(obj)


class FailInterrupt:
    def __getstate__(self):
        raise KeyboardInterrupt("on purpose")


class FailExit:
    def __reduce__(self):
        raise SystemExit("on purpose")


for _c in (FailState, FailReduce, FailReduceEx, FailArgs, FailItems, FailNext, FailLate, FailInterrupt, FailExit):
    KIND[_c] = "fail"
VARIANTS["fail"] = [FailState, FailReduce, FailReduceEx, FailArgs, FailItems, FailNext]
INTERRUPTS = [FailInterrupt, FailExit]


class Explode:
    """cannot be decoded"""

    def __setstate__(self, state):
        raise ValueError("failed on purpose")


class ExplodeNew:
    def __new__(cls):
        raise RuntimeError("failed on purpose")


class ExplodeHard:
    def __setstate__(self, state):
        raise KeyboardInterrupt("on purpose")


def register():
    jsonpickle.handlers.register(FailLate, FailLateHandler)
    jsonpickle.handlers.register(HandledPlain, PlainHandler)
    jsonpickle.handlers.register(HandledNone, NoneHandler)
    jsonpickle.handlers.register(Handled, HandledHandler)
    jsonpickle.handlers.register(HandledBase, HandledBaseHandler, base=True)


def unregister():
    for c in (FailLate, HandledPlain, HandledNone):
        jsonpickle.handlers.unregister(c)
    jsonpickle.handlers.unregister(Handled)
    jsonpickle.handlers.unregister(HandledBase)


KIND[io.TextIOWrapper] = "null"


def new_null():
    return io.TextIOWrapper(io.BytesIO())


# ------------------------------------------------------------------- iterators
def _generate(st):
    for v in st["items"]:
        st["drawn"] += 1
        yield v


class Stepper:
    """an iterator that is not a generator"""

    def __init__(self, st):
        put_args(self, st)

    def __iter__(self):
        return self

    def __next__(self):
        st = get_args(self)
        if st["drawn"] >= len(st["items"]):
            raise StopIteration
        st["drawn"] += 1
        return st["items"][st["drawn"] - 1]


class StepperNoIter(Stepper):
    extra = "class attribute"


def new_iter(rng):
    st = {"items": [], "drawn": 0}
    if rng.random() < 0.6:
        x = _generate(st)
        put_args(x, st)
        return x
    return rng.choice([Stepper, StepperNoIter])(st)


for _c in (type(_generate({})), Stepper, StepperNoIter, type(iter([]))):
    KIND[_c] = "iter"


# ------------------------------------------------------------------- functions
def function_one():
    return 1


def function_two(x):
    return x


alias_of_two = function_two


def _decorate(fn):
    @functools.wraps(fn)
    def wrapper(*args):
        return fn(*args)

    return wrapper


@_decorate
def decorated(x):
    return x


class Holder:
    def method(self):
        return 0

    @staticmethod
    def static():
        return 0
