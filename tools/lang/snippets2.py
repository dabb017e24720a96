"""Snippets of ordinary Python: classes, the data model and the rest of the library."""
import collections.abc
import contextlib
import copy
import functools
import inspect
import io
import json
import logging
import math
import numbers
import os
import os.path
import pathlib
import pickle
import re
import shutil
import string
import sys
import tempfile
import textwrap
import types
import typing
import uuid
import warnings
import weakref
from abc import ABC, ABCMeta, abstractmethod
from collections.abc import Iterable, Mapping, MutableMapping, MutableSequence, Sequence
from contextlib import ExitStack, closing, contextmanager, nullcontext, suppress
from typing import (Any, Callable, ClassVar, Dict, Generic, List, Literal, NamedTuple, Optional,
                    Protocol, Tuple, Type, TypedDict, TypeVar, Union, cast, overload)

T = TypeVar("T")


def t_property():
    class A:
        def __init__(self):
            self._x = 1

        @property
        def x(self):
            "doc"
            return self._x

        @x.setter
        def x(self, v):
            self._x = v * 2

        @x.deleter
        def x(self):
            del self._x

        y = property(lambda self: 5)
        z = property(fget=lambda self: self._z, fset=lambda self, v: setattr(self, "_z", v))
    a = A()
    a.x = 3
    assert a.x == 6 and a.y == 5
    del a.x
    assert not hasattr(a, "x")
    a.z = 9
    assert a.z == 9
    try:
        a.y = 1
    except AttributeError:
        pass
    else:
        assert False
    assert isinstance(A.x, property) and A.x.fget is not None and A.x.__doc__ == "doc"
    assert A.__dict__["x"].fset(a, 4) is None and a._x == 8

    class B(A):
        @A.x.getter
        def x(self):
            return "b"
    assert B().x == "b"
    b = B()
    b.x = 3
    assert b._x == 6

    class C(A):
        @property
        def x(self):
            return super().x + 1

        @x.setter
        def x(self, v):
            A.x.fset(self, v)
            super(C, type(self)).x.fset(self, v)
    c = C()
    c.x = 4
    assert c.x == 9


def t_descriptor():
    class D:
        def __set_name__(self, owner, name):
            self.name = "_" + name

        def __get__(self, o, t=None):
            if o is None:
                return self
            return getattr(o, self.name, None)

        def __set__(self, o, v):
            setattr(o, self.name, v + 1)

        def __delete__(self, o):
            delattr(o, self.name)

    class A:
        v = D()
        w = D()
    a = A()
    a.v = 1
    assert a.v == 2 and a.__dict__ == {"_v": 2} and a.w is None and isinstance(A.v, D)
    del a.v
    assert a.v is None


def t_nondata_descriptor():
    class D:
        def __init__(self, f):
            self.f = f

        def __get__(self, o, t):
            v = self.f(o)
            o.__dict__[self.f.__name__] = v
            return v

    class A:
        n = 0

        @D
        def lazy(self):
            A.n += 1
            return A.n
    a = A()
    assert a.lazy == 1 and a.lazy == 1


def t_super_mro():
    class A:
        def f(self):
            return ["A"]

    class B(A):
        def f(self):
            return ["B"] + super().f()

    class C(A):
        def f(self):
            return ["C"] + super().f()

    class D(B, C):
        def f(self):
            return ["D"] + super(D, self).f()
    assert D().f() == ["D", "B", "C", "A"]
    assert [c.__name__ for c in D.__mro__][:4] == ["D", "B", "C", "A"]
    assert D.__bases__ == (B, C) and issubclass(D, A) and D.mro()[0] is D
    assert A.__subclasses__() == [B, C]


def t_classmethods():
    class A:
        reg = {}

        def __init__(self, x=0):
            self.x = x

        @classmethod
        def make(cls, x):
            return cls(x)

        @staticmethod
        def add(a, b):
            return a + b

        def __init_subclass__(cls, tag=None, **kw):
            super().__init_subclass__(**kw)
            A.reg[tag] = cls

    class B(A, tag="b"):
        pass
    assert type(B.make(3)) is B and B.make(3).x == 3 and A.add(1, 2) == 3 and A().add(1, 2) == 3
    assert A.reg == {"b": B}
    m = B.make
    assert m(1).x == 1 and m.__self__ is B and B.make.__func__ is A.make.__func__


def t_metaclass():
    class M(type):
        def __new__(mcs, name, bases, ns, **kw):
            ns["tag"] = name.lower()
            return super().__new__(mcs, name, bases, ns)

        def __call__(cls, *a, **k):
            o = super().__call__(*a, **k)
            o.made = True
            return o

        @property
        def up(cls):
            return cls.__name__.upper()

    class A(metaclass=M):
        pass
    assert A.tag == "a" and A().made and A.up == "A" and type(A) is M
    X = type("X", (A,), {"q": 1})
    assert X.q == 1 and X.tag == "x" and isinstance(X(), A)


def t_abc():
    class A(ABC):
        @abstractmethod
        def f(self):
            pass

        @property
        @abstractmethod
        def p(self):
            pass

    class B(A):
        def f(self):
            return 1
        p = 2
    try:
        A()
    except TypeError:
        pass
    else:
        assert False
    assert B().f() == 1 and inspect.isabstract(A)

    class S(ABC):
        pass
    S.register(int)
    assert isinstance(1, S)


def t_dunders():
    class V:
        def __init__(self, *xs):
            self.xs = list(xs)

        def __len__(self):
            return len(self.xs)

        def __getitem__(self, i):
            return self.xs[i]

        def __setitem__(self, i, v):
            self.xs[i] = v

        def __delitem__(self, i):
            del self.xs[i]

        def __contains__(self, x):
            return x in self.xs

        def __iter__(self):
            yield from self.xs

        def __reversed__(self):
            return reversed(self.xs)

        def __add__(self, o):
            return V(*self.xs, *o)

        __radd__ = __add__

        def __iadd__(self, o):
            self.xs.extend(o)
            return self

        def __eq__(self, o):
            if not isinstance(o, V):
                return NotImplemented
            return self.xs == o.xs

        def __hash__(self):
            return hash(tuple(self.xs))

        def __bool__(self):
            return bool(self.xs)

        def __call__(self, k):
            return k * len(self)

        def __repr__(self):
            return f"V{tuple(self.xs)}"

        def __str__(self):
            return "v"

        def __lt__(self, o):
            return len(self) < len(o)

        def __neg__(self):
            return V(*[-x for x in self.xs])

        def __or__(self, o):
            return "or"

        def __format__(self, spec):
            return "fmt" + spec

        def __enter__(self):
            return self

        def __exit__(self, t, v, tb):
            return t is ValueError

        def __matmul__(self, o):
            return 1

        def __index__(self):
            return 2

        def __float__(self):
            return 2.5
    v = V(1, 2)
    assert len(v) == 2 and v[0] == 1 and v[-1] == 2 and v[0:1] == [1] and 2 in v and list(v) == [1, 2]
    v[0] = 5
    del v[1]
    v += [7]
    assert v.xs == [5, 7] and (v + [1]).xs == [5, 7, 1] and ([1] + v).xs == [5, 7, 1]
    assert v == V(5, 7) and v != V() and not (v == 3) and v != 3 and {v: 1}[V(5, 7)] == 1
    assert not V() and v(3) == 6 and repr(v) == "V(5, 7)" and str(v) == "v" and f"{v:x}" == "fmtx"
    assert V() < v and v > V() and (-v).xs == [-5, -7] and v | 1 == "or" and list(reversed(v)) == [7, 5]
    with v as w:
        assert w is v
        raise ValueError
    assert f"{v!r}" == "V(5, 7)" and [0, 1, 9][v] == 9 and float(v) == 2.5 and v @ 1 == 1
    a, b = v
    assert (a, b) == (5, 7) and max(V(), v, key=len) is v and sum(v) == 12


def t_getattr_hooks():
    class A:
        def __init__(self):
            object.__setattr__(self, "d", {})

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return self.d.get(n, n + "?")

        def __setattr__(self, n, v):
            self.d[n] = v

        def __delattr__(self, n):
            del self.d[n]
    a = A()
    a.x = 1
    assert a.x == 1 and a.y == "y?"
    del a.x
    assert a.x == "x?"

    class B:
        x = 1

        def __getattribute__(self, n):
            if n == "q":
                return 42
            return super().__getattribute__(n)
    assert B().q == 42 and B().x == 1


def t_slots():
    class A:
        __slots__ = ("x",)

        def __init__(self):
            self.x = 1
    a = A()
    assert a.x == 1
    try:
        a.y = 2
    except AttributeError:
        pass
    else:
        assert False


def t_new():
    class A:
        made = 0

        def __new__(cls, *a):
            cls.made += 1
            return super().__new__(cls)

        def __init__(self, v):
            self.v = v
    assert A(1).v == 1 and A.made == 1

    class S(str):
        def __new__(cls, v):
            return super().__new__(cls, v.upper())

        def twice(self):
            return self + self
    s = S("a")
    assert s == "A" and s.twice() == "AA" and isinstance(s, str)

    class L(list):
        def append(self, x):
            super().append(x)
            super().append(x)
    x = L([1])
    x.append(2)
    assert x == [1, 2, 2] and len(x) == 3

    class D(dict):
        def __missing__(self, k):
            return k * 2
    assert D()["a"] == "aa" and D(a=1)["a"] == 1


def t_class_body():
    class A:
        x = [i * 2 for i in range(3)]
        if True:
            y = 1
        for k in ("a", "b"):
            locals()[k] = k
        del k

        class Inner:
            z = 5
    assert A.x == [0, 2, 4] and A.y == 1 and A.Inner.z == 5
    assert A.Inner.__qualname__.endswith("A.Inner") and A.__name__ == "A"
    A.new = 3
    assert A().new == 3
    setattr(A, "f", lambda self: 7)
    assert A().f() == 7
    assert "x" in vars(A) and "x" in A.__dict__


def t_bound():
    class A:
        def f(self, x):
            return x
    a = A()
    m = a.f
    assert m(1) == 1 and m.__self__ is a and m.__func__ is A.f and A.f(a, 2) == 2
    assert a.f == a.f and a.f.__name__ == "f"
    f = types.MethodType(lambda self, y: (self, y), a)
    assert f(1) == (a, 1)
    g = A.f.__get__(a)
    assert g(4) == 4


def t_typing():
    assert cast(int, "a") == "a"
    def f(x: Optional[int] = None, *y: str, **z: Any) -> List[int]:
        return [x]
    assert typing.get_type_hints(f)["x"] == Optional[int]
    assert typing.get_origin(List[int]) is list and typing.get_args(Dict[str, int]) == (str, int)
    assert typing.get_origin(Union[int, str]) is Union and typing.get_args(Union[int, str]) == (int, str)

    class G(Generic[T]):
        def __init__(self, v: T):
            self.v = v

    class H(G[int]):
        pass
    assert G[int](3).v == 3 and H(2).v == 2 and issubclass(H, G)

    class TD(TypedDict):
        a: int
    assert TD(a=1) == {"a": 1}

    @typing.runtime_checkable
    class P(Protocol):
        def f(self): ...

    class Q:
        def f(self):
            pass
    assert isinstance(Q(), P) and not isinstance(1, P)

    @overload
    def g(x: int) -> int: ...

    @overload
    def g(x: str) -> str: ...

    def g(x):
        return x
    assert g(1) == 1
    assert f.__annotations__["x"] == Optional[int]
    x: int = 5
    y: "list[int]" = []
    assert x == 5 and y == [] and list[int]([1]) == [1]
    A = Literal["a", "b"]
    assert typing.get_args(A) == ("a", "b")
    N = typing.NewType("N", int)
    assert N(3) == 3


def t_contextlib():
    log = []

    @contextmanager
    def cm(x):
        log.append("in")
        try:
            yield x
        except KeyError:
            log.append("key")
        finally:
            log.append("out")
    with cm(3) as v:
        assert v == 3
    with cm(1):
        raise KeyError
    assert log == ["in", "out", "in", "key", "out"]
    with suppress(ValueError, KeyError):
        raise ValueError
    with nullcontext(5) as n:
        assert n == 5
    with ExitStack() as st:
        assert st.enter_context(cm(7)) == 7
        st.callback(log.append, "cb")
    assert log[-2:] == ["cb", "out"]

    class C:
        def close(self):
            log.append("close")
    with closing(C()):
        pass
    assert log[-1] == "close"

    @cm(1)
    def f():
        return 9
    assert f() == 9
    with cm(1) as a, cm(2) as b:
        assert (a, b) == (1, 2)
    with (cm(1) as a, cm(2)):
        pass
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        print("hi")
    assert buf.getvalue() == "hi\n"


def t_copy():
    x = {"a": [1, {2}]}
    y = copy.deepcopy(x)
    z = copy.copy(x)
    assert y == x and y["a"] is not x["a"] and z["a"] is x["a"]

    class A:
        def __init__(self, v):
            self.v = v

        def __deepcopy__(self, memo):
            return A(copy.deepcopy(self.v, memo))

        def __copy__(self):
            return A("copy")
    assert copy.deepcopy(A([1])).v == [1] and copy.copy(A(1)).v == "copy"

    class B:
        def __init__(self):
            self.me = self
    b = copy.deepcopy(B())
    assert b.me is b


def t_pickle():
    assert pickle.loads(pickle.dumps({"a": (1, [2])})) == {"a": (1, [2])}


def t_json():
    assert json.loads(json.dumps({"a": [1, None, True, 1.5, "x"]})) == {"a": [1, None, True, 1.5, "x"]}
    assert json.dumps({"b": 1, "a": 2}, sort_keys=True) == '{"a": 2, "b": 1}'

    class E(json.JSONEncoder):
        def default(self, o):
            if isinstance(o, set):
                return sorted(o)
            return super().default(o)
    assert json.loads(json.dumps({"s": {2, 1}}, cls=E)) == {"s": [1, 2]}
    assert json.loads('{"a": 1}', object_hook=lambda d: list(d)) == ["a"]
    assert json.loads('{"a": 1}', object_pairs_hook=list) == [("a", 1)]
    try:
        json.dumps(object())
    except TypeError:
        pass
    else:
        assert False
    try:
        json.loads("{")
    except json.JSONDecodeError as e:
        assert isinstance(e, ValueError)
    else:
        assert False
    b = io.StringIO()
    json.dump([1], b)
    b.seek(0)
    assert json.load(b) == [1]


def t_re():
    m = re.match(r"(\w+)-(?P<n>\d+)", "ab-12")
    assert m.group(1) == "ab" and m.group("n") == "12" and m.groups() == ("ab", "12")
    assert m["n"] == "12" and m.groupdict() == {"n": "12"} and m.span() == (0, 5)
    assert re.sub(r"\d", lambda k: str(int(k.group()) + 1), "a1") == "a2"
    assert re.findall(r"\d+", "1 22") == ["1", "22"] and re.split(r",\s*", "a, b") == ["a", "b"]
    assert re.fullmatch("a+", "aaa") and not re.search("z", "abc") and re.compile("a", re.I).match("A")
    assert [x.group() for x in re.finditer("a|b", "ab")] == ["a", "b"] and re.escape(".") == r"\."


def t_math():
    assert math.isclose(0.1 + 0.2, 0.3) and math.floor(1.5) == 1 and math.ceil(1.2) == 2
    assert math.isnan(float("nan")) and math.isinf(math.inf) and math.sqrt(4) == 2 and math.isfinite(1)
    assert math.fsum([0.1] * 10) == 1.0 and math.prod([2, 3]) == 6 and math.copysign(1, -2) == -1
    assert math.log10(100) == 2 and math.hypot(3, 4) == 5 and math.gcd(4, 6) == 2 and math.trunc(2.7) == 2
    assert math.pi > 3 and math.nan != math.nan and math.comb(4, 2) == 6


def t_numbers():
    assert isinstance(1, numbers.Number) and isinstance(1.0, numbers.Real)
    assert isinstance(True, numbers.Integral) and not isinstance("a", numbers.Number)
    assert isinstance(1j, numbers.Complex) and not isinstance(1.0, numbers.Rational)


def t_collections_abc():
    assert isinstance([], Sequence) and isinstance({}, Mapping) and not isinstance("", MutableSequence)
    assert isinstance("", Sequence) and isinstance((), Iterable) and isinstance({}.keys(), collections.abc.Set)
    assert isinstance(len, collections.abc.Callable) and isinstance(iter([]), collections.abc.Iterator)
    assert isinstance((x for x in []), collections.abc.Generator) and isinstance([], collections.abc.Sized)
    assert isinstance(1, collections.abc.Hashable) and not isinstance([], collections.abc.Hashable)

    class M(MutableMapping):
        def __init__(self):
            self.d = {}

        def __getitem__(self, k):
            return self.d[k.lower()]

        def __setitem__(self, k, v):
            self.d[k.lower()] = v

        def __delitem__(self, k):
            del self.d[k.lower()]

        def __iter__(self):
            return iter(self.d)

        def __len__(self):
            return len(self.d)
    m = M()
    m["A"] = 1
    m.update(B=2)
    assert m["a"] == 1 and "b" in m and "B" in m and m.get("q") is None and m.pop("A") == 1
    assert dict(m) == {"b": 2} and list(m.items()) == [("b", 2)] and m.setdefault("c", 3) == 3
    assert m == {"b": 2, "c": 3} and list(m.values()) == [2, 3]
    m.clear()
    assert len(m) == 0

    class L(MutableSequence):
        def __init__(self, xs):
            self.xs = list(xs)

        def __getitem__(self, i):
            return self.xs[i]

        def __setitem__(self, i, v):
            self.xs[i] = v

        def __delitem__(self, i):
            del self.xs[i]

        def __len__(self):
            return len(self.xs)

        def insert(self, i, v):
            self.xs.insert(i, v)
    q = L([1, 2])
    q.append(3)
    q.extend([4])
    q.remove(2)
    q.reverse()
    assert list(q) == [4, 3, 1] and q.pop() == 1 and q.index(3) == 1 and 4 in q and q.count(4) == 1
    q += [9]
    assert q.xs == [4, 3, 9]


def t_uuid():
    u = uuid.uuid4()
    assert isinstance(str(u), str) and uuid.uuid4() != u
    assert uuid.UUID("12345678123456781234567812345678").hex == "12345678123456781234567812345678"
    assert uuid.uuid5(uuid.NAMESPACE_DNS, "a") == uuid.uuid5(uuid.NAMESPACE_DNS, "a")


def t_inspect():
    def f(a, b=1, *c, d, e=2, **g):
        pass
    sig = inspect.signature(f)
    assert list(sig.parameters) == ["a", "b", "c", "d", "e", "g"]
    assert sig.parameters["b"].default == 1 and sig.parameters["a"].default is inspect.Parameter.empty
    assert sig.parameters["d"].kind is inspect.Parameter.KEYWORD_ONLY
    ba = sig.bind(1, d=3)
    assert ba.arguments["d"] == 3
    ba.apply_defaults()
    assert ba.arguments["b"] == 1
    assert inspect.getfullargspec(f).args == ["a", "b"] and inspect.isclass(int) and inspect.isfunction(f)

    class A:
        def __init__(self, x, *, y=1):
            pass
    assert list(inspect.signature(A.__init__).parameters) == ["self", "x", "y"]
    assert list(inspect.signature(A).parameters) == ["x", "y"]
    assert dict(inspect.getmembers(A))["__init__"] is A.__init__


def t_types():
    ns = types.SimpleNamespace(a=1, b=2)
    ns.c = 3
    assert ns.a == 1 and ns == types.SimpleNamespace(a=1, b=2, c=3)
    m = types.MappingProxyType({"a": 1})
    assert m["a"] == 1 and "a" in m and dict(m) == {"a": 1}
    try:
        m["b"] = 1
    except TypeError:
        pass
    else:
        assert False
    assert isinstance(lambda: 1, types.FunctionType) and isinstance((i for i in []), types.GeneratorType)
    C = types.new_class("C", (), {}, lambda n: n.update(x=1))
    assert C.x == 1


def t_warnings():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        warnings.warn("hi", DeprecationWarning)
        warnings.warn("there", stacklevel=2)
    assert len(w) == 2 and issubclass(w[0].category, DeprecationWarning) and "hi" in str(w[0].message)


def t_logging():
    lg = logging.getLogger("x.y")
    lg.debug("a %s", 1)
    assert lg.name == "x.y" and logging.WARNING == 30


def t_weakref():
    class A:
        pass
    a = A()
    r = weakref.ref(a)
    assert r() is a
    d = weakref.WeakKeyDictionary()
    d[a] = 1
    assert d[a] == 1
    v = weakref.WeakValueDictionary()
    v["k"] = a
    assert v["k"] is a
    s = weakref.WeakSet([a])
    assert a in s


def t_string():
    assert string.Template("$a-${b}").substitute(a=1, b=2) == "1-2" and "a" in string.ascii_letters
    assert textwrap.dedent("  a\n  b") == "a\nb" and string.capwords("a b") == "A B"


def t_files():
    with tempfile.TemporaryDirectory() as d:
        p = pathlib.Path(d) / "x.txt"
        p.write_text("abc")
        assert p.read_text() == "abc" and p.exists() and p.name == "x.txt" and p.stem == "x"
        assert p.suffix == ".txt" and p.parent == pathlib.Path(d) and p.with_suffix(".md").name == "x.md"
        with open(p) as f:
            assert f.read() == "abc"
        with p.open("a") as f:
            f.write("d")
        assert p.read_text() == "abcd"
        shutil.copy(p, os.path.join(d, "y.txt"))
        assert os.path.exists(os.path.join(d, "y.txt"))
        assert str(p).endswith("x.txt") and os.path.basename(str(p)) == "x.txt"
        assert pathlib.Path(d, "a", "b").parts[-1] == "b"
        here = os.getcwd()
        os.chdir(d)
        try:
            assert pathlib.Path.cwd().name == pathlib.Path(d).name
        finally:
            os.chdir(here)
        assert os.getcwd() == here


def t_numeric():
    assert 7 // 2 == 3 and -7 // 2 == -4 and -7 % 3 == 2 and 2 ** -1 == 0.5 and 7 / 2 == 3.5
    assert 1 == 1.0 == True and (1).bit_length() == 1 and (2.5).is_integer() is False
    assert int(2.9) == 2 and round(2.5) == 2 and float("inf") > 1e308 and 0.1 + 0.2 != 0.3
    assert 5 & 3 == 1 and 5 | 3 == 7 and 5 ^ 3 == 6 and ~5 == -6 and 1 << 3 == 8
    assert (1.5).as_integer_ratio() == (3, 2) and float("1.5") == 1.5 and int("ff", 16) == 255
    assert not 0 and not 0.0 and not "" and not () and bool("0")
    assert (True + True) == 2 and sum([True, False, True]) == 2
    x = 5
    x **= 2
    x //= 3
    x %= 5
    assert x == 3
    assert (1, 2) < (1, 3) and (1,) + (2,) == (1, 2) and (1, 2) * 2 == (1, 2, 1, 2)
    assert (1, 2, 1).count(1) == 2 and (1, 2).index(2) == 1 and 1_000 == 1000
    assert 1 if x else 2 and (x or 5) == 3 and (0 or "a") == "a" and (1 and 0) == 0
    assert x.real == 3 and x.numerator == 3


def t_object():
    s = object()
    t = object()
    assert s != t and s == s and s is not t and isinstance(s, object)
    MISSING = object()
    def f(x=MISSING):
        return x is MISSING
    assert f() and not f(1)

    class A:
        pass
    a = A()
    a.__dict__["z"] = 1
    assert a.z == 1 and vars(a) == {"z": 1}
    a.__dict__.update(q=2)
    assert a.q == 2 and sorted(a.__dict__) == ["q", "z"]
    a.__class__ = type("B", (A,), {})
    assert isinstance(a, A) and type(a).__name__ == "B"
    assert A.__module__ == __name__ and A.__doc__ is None
    o = object.__new__(A)
    assert isinstance(o, A)
    assert not hasattr(A, "nope") and callable(A)
    assert id(a) == id(a) and hash(a) == hash(a)


def t_eval_order():
    log = []
    def f(x):
        log.append(x)
        return x
    f(1) + f(2) * f(3)
    assert log == [1, 2, 3]
    log.clear()
    d = {f("k"): f("v")}
    assert log == ["k", "v"]
    log.clear()
    f(0) and f(1)
    f(1) or f(2)
    assert log == [0, 1]
    log.clear()
    f(1) if f(0) else f(2)
    assert log == [0, 2]


def t_nested_functions():
    def outer(xs, *, key=None, default=None):
        def inner(x):
            return key(x) if key else x
        return [inner(x) for x in xs] or default
    assert outer([1], key=str) == ["1"] and outer([], default=3) == 3

    def rec(n):
        return 1 if n <= 1 else n * rec(n - 1)
    assert rec(5) == 120

    def deco(arg):
        def wrap(f):
            def inner(*a, **k):
                return arg + f(*a, **k)
            return inner
        return wrap

    @deco(10)
    def g(x):
        return x
    assert g(1) == 11
    f = g
    f.attr = 5
    assert f.attr == 5
    assert (lambda: (yield))() is not None


def t_hash_collections():
    d = {(1, "a"): 1, None: 2, 1.0: 3}
    assert d[(1, "a")] == 1 and d[None] == 2 and d[1] == 3 and d[True] == 3
    assert len({1, 1.0, True}) == 1 and frozenset([1, 2]) == frozenset([2, 1])
    try:
        {[]: 1}
    except TypeError:
        pass
    else:
        assert False
    try:
        {{}}
    except TypeError:
        pass
    else:
        assert False


def t_iter_protocol():
    class It:
        def __init__(self, n):
            self.n = n

        def __iter__(self):
            return self

        def __next__(self):
            if self.n == 0:
                raise StopIteration
            self.n -= 1
            return self.n
    assert list(It(3)) == [2, 1, 0] and sum(It(3)) == 3

    class Old:
        def __getitem__(self, i):
            if i > 2:
                raise IndexError
            return i
    assert list(Old()) == [0, 1, 2] and 2 in Old()
    it = iter([1, 2, 3])
    assert next(it) == 1 and list(it) == [2, 3] and list(it) == []
    d = {"a": 1}
    try:
        for k in d:
            d["b"] = 2
    except RuntimeError:
        pass
    else:
        assert False


def t_async_free():
    x = {"a": 1}
    match x:
        case {"a": int(v)}:
            assert v == 1
    match ("go", 3):
        case ("go" | "run", n) if n > 2:
            assert n == 3
        case _:
            assert False
    match 5:
        case x if x < 3:
            assert False
        case _:
            pass

    class P:
        __match_args__ = ("a", "b")

        def __init__(self, a, b):
            self.a, self.b = a, b
    match P(1, 2):
        case P(1, b):
            assert b == 2
        case _:
            assert False
    match P(1, 2):
        case P(a=2):
            assert False
        case P(a=a):
            assert a == 1


def t_type_alias():
    type X = int | str
    def f[U](x: U) -> U:
        return x

    class C[V]:
        def __init__(self, v: V):
            self.v = v
    assert f(1) == 1 and C(2).v == 2
