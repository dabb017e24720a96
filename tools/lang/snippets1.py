"""Snippets of ordinary Python; each must pass in CPython and in the analyser's model."""
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import inspect
import io
import itertools
import json
import math
import numbers
import operator
import os
import re
import string
import sys
import types
import typing
import uuid
import warnings
import weakref
from abc import ABC, abstractmethod
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple
from collections.abc import Iterable, Mapping, MutableSequence, Sequence, Set
from typing import (Any, Callable, ClassVar, Dict, Generic, List, NamedTuple, Optional, Tuple,
                    TypeVar, Union, cast, overload)


def t_dataclass():
    @dataclasses.dataclass
    class P:
        x: int
        y: int = 3
        z: list = dataclasses.field(default_factory=list)

        def total(self):
            return self.x + self.y
    p = P(1)
    assert p.x == 1 and p.y == 3 and p.z == []
    assert P(1) == P(1) and P(1) != P(2)
    assert p.total() == 4
    q = dataclasses.replace(p, x=9)
    assert q.x == 9 and p.x == 1
    assert [f.name for f in dataclasses.fields(P)] == ["x", "y", "z"]
    assert dataclasses.asdict(p) == {"x": 1, "y": 3, "z": []}


def t_dataclass_frozen():
    @dataclasses.dataclass(frozen=True)
    class P:
        x: int
        y: str = "a"

        def __post_init__(self):
            if self.x < 0:
                raise ValueError("neg")
    p = P(x=1)
    assert hash(p) == hash(P(1))
    assert {p: 1}[P(1, "a")] == 1
    try:
        p.x = 2
    except dataclasses.FrozenInstanceError:
        pass
    else:
        assert False
    try:
        P(-1)
    except ValueError as e:
        assert str(e) == "neg"
    else:
        assert False


def t_dataclass_order():
    @dataclasses.dataclass(order=True)
    class P:
        x: int
        y: int = 0
    assert P(1) < P(2) and sorted([P(3), P(1)])[0].x == 1


def t_namedtuple():
    P = namedtuple("P", ["x", "y"])
    p = P(1, y=2)
    assert p.x == 1 and p[1] == 2
    a, b = p
    assert (a, b) == (1, 2) and p == (1, 2)
    assert p._replace(x=5).x == 5
    assert P._fields == ("x", "y")
    assert p._asdict() == {"x": 1, "y": 2}
    Q = namedtuple("Q", "a b c", defaults=(7,))
    assert Q(1, 2).c == 7


class NT(NamedTuple):
    a: int
    b: str = "z"

    def both(self):
        return self.b * self.a


def t_typed_namedtuple():
    n = NT(2)
    assert n.a == 2 and n.b == "z" and n.both() == "zz"
    assert isinstance(n, tuple) and len(n) == 2
    for x, y in [NT(1, "q")]:
        assert (x, y) == (1, "q")


def t_reduce():
    assert functools.reduce(lambda a, b: a + b, [1, 2, 3]) == 6
    assert functools.reduce(operator.add, [[1], [2]], []) == [1, 2]
    assert functools.reduce(lambda a, b: a and b, [], True) is True


def t_partial():
    f = functools.partial(int, base=2)
    assert f("101") == 5
    g = functools.partial(max, 3)
    assert g(1, 2) == 3


def t_partialmethod():
    class A:
        def f(self, x, y):
            return x * y
        double = functools.partialmethod(f, 2)
    assert A().double(4) == 8


def t_singledispatch():
    @functools.singledispatch
    def f(x):
        return "other"

    @f.register
    def _(x: int):
        return "int"

    @f.register(list)
    @f.register(tuple)
    def _(x):
        return "seq"

    @f.register(str)
    def f_str(x):
        return "str"
    assert f(1) == "int" and f([]) == "seq" and f(()) == "seq" and f("") == "str" and \
        f(1.0) == "other"
    assert f(True) == "int"
    assert f.dispatch(int)(3) == "int"


def t_singledispatchmethod():
    class A:
        @functools.singledispatchmethod
        def f(self, x):
            return "other"

        @f.register
        def _(self, x: int):
            return "int"
    assert A().f(1) == "int" and A().f("") == "other"


def t_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def v(self):
            type(self).n += 1
            return 5
    a = A()
    assert a.v == 5 and a.v == 5 and A.n == 1
    assert "v" in a.__dict__


def t_total_ordering():
    @functools.total_ordering
    class A:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return self.v == o.v

        def __lt__(self, o):
            return self.v < o.v
    assert A(1) <= A(1) and A(2) > A(1) and A(2) >= A(1) and max([A(1), A(3)]).v == 3


def t_wraps():
    def deco(f):
        @functools.wraps(f)
        def inner(*args, **kwargs):
            return f(*args, **kwargs) + 1
        return inner

    @deco
    def g(x, *, y=2):
        "doc"
        return x + y
    assert g(1) == 4 and g.__name__ == "g" and g.__doc__ == "doc" and g.__wrapped__(1) == 3


def t_lru():
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x * 2
    assert f(2) == 4 and f(2) == 4 and calls == [2]
    f.cache_clear()
    f(2)
    assert calls == [2, 2]

    @functools.cache
    def g():
        calls.append("g")
        return 1
    g(), g()
    assert calls.count("g") == 1


def t_cmp_to_key():
    assert sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a)) == [3, 2, 1]


def t_itertools():
    assert list(itertools.chain([1], (2,), "a")) == [1, 2, "a"]
    assert list(itertools.chain.from_iterable([[1], [2, 3]])) == [1, 2, 3]
    assert list(itertools.product([1, 2], "ab")) == [(1, "a"), (1, "b"), (2, "a"), (2, "b")]
    assert list(itertools.product([0, 1], repeat=2)) == [(0, 0), (0, 1), (1, 0), (1, 1)]
    assert list(itertools.zip_longest([1, 2], [3])) == [(1, 3), (2, None)]
    assert list(itertools.islice(range(10), 2, 5)) == [2, 3, 4]
    assert list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])) == [1, 2]
    assert list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])) == [3, 1]
    assert list(itertools.starmap(pow, [(2, 3), (3, 2)])) == [8, 9]
    assert list(itertools.islice(itertools.count(5), 2)) == [5, 6]
    assert list(itertools.repeat("x", 2)) == ["x", "x"]
    assert list(itertools.accumulate([1, 2, 3])) == [1, 3, 6]
    a, b = itertools.tee([1, 2])
    assert list(a) == list(b) == [1, 2]
    assert list(itertools.filterfalse(lambda x: x % 2, [1, 2, 3])) == [2]
    assert list(itertools.pairwise([1, 2, 3])) == [(1, 2), (2, 3)]
    assert list(itertools.compress("abc", [1, 0, 1])) == ["a", "c"]
    assert list(itertools.combinations([1, 2, 3], 2)) == [(1, 2), (1, 3), (2, 3)]
    assert list(itertools.permutations([1, 2])) == [(1, 2), (2, 1)]
    assert [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])] == [(1, [1, 1]), (2, [2])]
    assert list(itertools.islice(itertools.cycle([1, 2]), 3)) == [1, 2, 1]


def t_deque():
    d = deque([1, 2])
    d.append(3)
    d.appendleft(0)
    assert d.popleft() == 0 and d.pop() == 3
    d.extend([5, 6])
    d.extendleft([9])
    assert list(d) == [9, 1, 2, 5, 6] and len(d) == 5 and d[0] == 9 and bool(d)
    d.rotate(1)
    assert d[0] == 6
    d.clear()
    assert not d
    e = deque(maxlen=2)
    e.extend([1, 2, 3])
    assert list(e) == [2, 3]


def t_ordereddict():
    d = OrderedDict([("a", 1), ("b", 2)])
    d["c"] = 3
    d.move_to_end("a")
    assert list(d) == ["b", "c", "a"]
    assert d.popitem(last=False) == ("b", 2)
    assert d == {"c": 3, "a": 1}
    assert isinstance(d, dict)


def t_defaultdict():
    d = defaultdict(list)
    d["a"].append(1)
    d["a"].append(2)
    assert d == {"a": [1, 2]} and "b" not in d
    e = defaultdict(lambda: 5)
    assert e["x"] == 5 and e.get("y") is None
    n = defaultdict(int)
    for c in "aab":
        n[c] += 1
    assert dict(n) == {"a": 2, "b": 1}


def t_counter():
    c = Counter("aabc")
    assert c["a"] == 2 and c["z"] == 0
    assert c.most_common(1) == [("a", 2)]
    c.update("a")
    assert c["a"] == 3
    assert sum(c.values()) == 5
    assert Counter([1, 2]) == Counter([2, 1])
    assert Counter("aab") - Counter("a") == Counter("ab")
    assert sorted(Counter(a=2).elements()) == ["a", "a"]


def t_chainmap():
    m = ChainMap({"a": 1}, {"a": 2, "b": 3})
    assert m["a"] == 1 and m["b"] == 3 and len(m) == 2 and "b" in m
    assert dict(m) == {"a": 1, "b": 3}


def t_userdict():
    class D(collections.UserDict):
        def __setitem__(self, k, v):
            super().__setitem__(k.lower(), v)
    d = D({"A": 1})
    d["B"] = 2
    assert d.data == {"a": 1, "b": 2} and "a" in d and len(d) == 2


def t_userlist():
    class L(collections.UserList):
        def append(self, x):
            super().append(x * 2)
    x = L([1])
    x.append(2)
    assert x.data == [1, 4] and x == [1, 4] and list(x) == [1, 4]


def t_operator():
    assert operator.itemgetter(1)([5, 6]) == 6
    assert operator.itemgetter("a", "b")({"a": 1, "b": 2}) == (1, 2)
    assert operator.attrgetter("real")(3) == 3
    assert operator.methodcaller("upper")("a") == "A"
    assert operator.not_(0) and operator.contains([1], 1)
    assert operator.is_(None, None) and operator.is_not(1, None)
    assert operator.or_(1, 2) == 3 and operator.neg(1) == -1
    assert operator.concat([1], [2]) == [1, 2]
    x = {}
    operator.setitem(x, 1, 2)
    assert x == {1: 2}
    operator.delitem(x, 1)
    assert x == {}
    assert operator.countOf([1, 1], 1) == 2 and operator.index(3) == 3


def t_enum():
    class E(enum.Enum):
        A = 1
        B = "b"

        @property
        def low(self):
            return self.name.lower()

        @classmethod
        def find(cls, v):
            for m in cls:
                if m.value == v:
                    return m
            return None
    assert E.A.value == 1 and E("b") is E.B and E["A"] is E.A
    assert [e.name for e in E] == ["A", "B"] and len(E) == 2
    assert E.A.low == "a" and E.find("b") is E.B and E.find(9) is None
    assert E.A in E and E.A != E.B and isinstance(E.A, E)
    assert set(E.__members__) == {"A", "B"}
    try:
        E("zz")
    except ValueError:
        pass
    else:
        assert False
    try:
        E["zz"]
    except KeyError:
        pass
    else:
        assert False


def t_enum_str():
    class S(str, enum.Enum):
        X = "x"
        Y = "y"
    assert S.X == "x" and S.X.upper() == "X" and S("y") is S.Y
    assert "x" == S.X and {S.X: 1}["x"] == 1


def t_intenum():
    class L(enum.IntEnum):
        A = 1
        B = 2
    assert L.A < L.B and L.B == 2 and L.A + 1 == 2 and max(L) is L.B

    class M(enum.IntEnum):
        P = enum.auto()
        Q = enum.auto()
    assert M.Q == 2


def t_match():
    def f(x):
        match x:
            case None:
                return "none"
            case True | False:
                return "bool"
            case int(n) if n > 5:
                return f"big {n}"
            case int() | float():
                return "num"
            case str() as s:
                return s
            case [a, b]:
                return (a, b)
            case [a, *rest]:
                return (a, rest)
            case {"k": v, **other}:
                return (v, other)
            case NT(a=q):
                return q
            case _:
                return "?"
    assert f(None) == "none" and f(True) == "bool" and f(7) == "big 7" and f(2.0) == "num"
    assert f("s") == "s" and f([1, 2]) == (1, 2) and f([1, 2, 3]) == (1, [2, 3])
    assert f({"k": 1, "z": 2}) == (1, {"z": 2}) and f(object()) == "?"


def t_walrus():
    xs = [1, 2, 3]
    if (n := len(xs)) > 2:
        assert n == 3
    assert [y for x in xs if (y := x * 2) > 2] == [4, 6]
    it = iter(xs)
    out = []
    while (v := next(it, None)) is not None:
        out.append(v)
    assert out == xs


def t_star():
    a, *b = [1, 2, 3]
    assert a == 1 and b == [2, 3]
    *a, b = (1, 2)
    assert a == [1] and b == 2
    (a, b), c = (1, 2), 3
    assert [*[1], *(2,)] == [1, 2] and {**{"a": 1}, "b": 2} == {"a": 1, "b": 2}
    assert {*[1], 2} == {1, 2} and (*[1], 2) == (1, 2)

    def f(*args, k=1, **kw):
        return args, k, kw
    assert f(*[1, 2], k=3, **{"z": 4}) == ((1, 2), 3, {"z": 4})


def t_posonly():
    def f(a, b, /, c, *, d):
        return a, b, c, d
    assert f(1, 2, c=3, d=4) == (1, 2, 3, 4)
    try:
        f(a=1, b=2, c=3, d=4)
    except TypeError:
        pass
    else:
        assert False


def t_fstring():
    x, w = 3.14159, 8
    assert f"{x:.2f}" == "3.14" and f"{x:{w}.2f}" == "    3.14" and f"{'a'!r:>5}" == "  'a'"
    assert f"{x=}" == "x=3.14159" and f"{{}}" == "{}" and f"{[1, 2]}" == "[1, 2]"
    assert "{} {name} {0}".format(1, name="n") if False else True
    assert "{0} {name}".format(1, name="n") == "1 n"
    assert "%s=%d %r" % ("a", 2, "b") == "a=2 'b'"
    assert "{a[0]} {b.real}".format(a=[5], b=6) == "5 6"


def t_str():
    s = "Hello World"
    assert s.lower().split() == ["hello", "world"] and s.partition(" ") == ("Hello", " ", "World")
    assert s.rpartition("o")[2] == "rld" and s.startswith(("He", "x")) and s.endswith("ld")
    assert s.replace("l", "L", 1) == "HeLlo World" and s.find("W") == 6 and s.count("l") == 3
    assert "-".join(["a", "b"]) == "a-b" and " x ".strip() == "x" and "a".zfill(3) == "00a"
    assert s.casefold() == "hello world" and s.title() == s and s.swapcase()[0] == "h"
    assert "abc"[::-1] == "cba" and "abc"[-1] == "c" and "b" in "abc"
    assert "abc".isalpha() and "12".isdigit() and "a_b".isidentifier() and " ".isspace()
    assert "a,b,,c".split(",") == ["a", "b", "", "c"] and "a\nb".splitlines() == ["a", "b"]
    assert "x".center(3, "*") == "*x*" and "x".ljust(2) + "|" == "x |"
    assert "abc".translate(str.maketrans({"a": "z", "b": None})) == "zc"
    assert "prefix_x".removeprefix("prefix_") == "x" and "x.py".removesuffix(".py") == "x"
    assert "a".encode() == b"a" and b"a".decode("utf-8") == "a"
    assert "{a}".format_map({"a": 1}) == "1" and "Abc".upper() == "ABC" and "abc".capitalize() == "Abc"
    assert "a-b".rsplit("-", 1) == ["a", "b"] and "a\tb".expandtabs(2) == "a b"
    assert sorted("ba") == ["a", "b"] and max("ab") == "b" and "a" * 3 == "aaa" and "a" < "b"
    assert len("é".encode("utf8")) == 2 and ord("a") == 97 and chr(98) == "b"


def t_dict():
    d = {"a": 1, "b": 2}
    assert d | {"c": 3} == {"a": 1, "b": 2, "c": 3}
    d |= {"z": 0}
    assert d.pop("z") == 0 and d.pop("q", None) is None
    assert d.setdefault("c", []) == [] and d.pop("c") == []
    assert list(d.items()) == [("a", 1), ("b", 2)] and d.get("q", 5) == 5
    assert dict(a=1) == {"a": 1} and dict([("a", 1)]) == {"a": 1} and dict(zip("ab", [1, 2])) == d
    assert dict.fromkeys("ab", 0) == {"a": 0, "b": 0}
    assert d.keys() & {"a"} == {"a"} and d.keys() - {"a"} == {"b"} and ("a", 1) in d.items()
    assert {v: k for k, v in d.items()} == {1: "a", 2: "b"}
    assert d.keys() == {"a", "b"} and d.keys() <= {"a", "b", "c"}
    e = d.copy()
    e.update(b=5)
    assert d["b"] == 2 and e["b"] == 5
    e.update([("q", 1)])
    assert "q" in e and list(reversed(d)) == ["b", "a"]
    assert d.popitem() == ("b", 2)
    d.clear()
    assert not d
    try:
        d["a"]
    except KeyError as ex:
        assert ex.args == ("a",)
    else:
        assert False
    assert sorted({"b": 1, "a": 2}) == ["a", "b"] and max({"a": 3, "b": 1}, key={"a": 3, "b": 1}.get) == "a"


def t_set():
    s = {1, 2}
    assert s | {3} == {1, 2, 3} and s & {2} == {2} and s - {2} == {1} and s ^ {2, 3} == {1, 3}
    assert s <= {1, 2, 3} and s < {1, 2, 3} and s >= {1} and not s.isdisjoint({1})
    s.add(5)
    s.discard(9)
    s.remove(5)
    s.update([7], (8,))
    assert s == {1, 2, 7, 8} and s.issuperset({7}) and {1}.issubset(s)
    s -= {7}
    s |= {9}
    s &= {1, 9}
    s ^= {1}
    assert s == {9}
    assert s.union([1], [2]) == {1, 2, 9} and s.difference([9]) == set()
    assert frozenset([1]) == {1} and hash(frozenset([1])) == hash(frozenset([1]))
    assert {frozenset({1}): 2}[frozenset({1})] == 2
    assert s.pop() == 9 and not s and set("aa") == {"a"} and {x % 2 for x in range(4)} == {0, 1}
    assert s.symmetric_difference([1]) == {1} and {1, 2}.intersection([2], [2, 3]) == {2}
    t = {1}
    t.intersection_update({1, 2})
    t.difference_update({3})
    t.symmetric_difference_update({4})
    assert t == {1, 4} and t.copy() == t


def t_list():
    x = [3, 1, 2]
    x.sort()
    assert x == [1, 2, 3]
    x.sort(key=lambda v: -v)
    assert x == [3, 2, 1] and sorted(x, reverse=True) == [3, 2, 1]
    x.insert(0, 9)
    x.extend([7])
    x += (8,)
    assert x == [9, 3, 2, 1, 7, 8] and x.index(2) == 2 and x.pop() == 8 and x.pop(0) == 9
    del x[0]
    del x[1:]
    assert x == [2]
    x[:] = [1, 2, 3]
    x[1:2] = ["a", "b"]
    assert x == [1, "a", "b", 3]
    x[0], x[-1] = x[-1], x[0]
    assert x == [3, "a", "b", 1] and x.count(1) == 1
    x.remove("a")
    x.reverse()
    assert x == [1, "b", 3] and x * 2 == [1, "b", 3] * 2 and [1, 2] < [1, 3]
    assert x[::2] == [1, 3] and x[-2:] == ["b", 3] and [0] * 3 == [0, 0, 0]
    y = x.copy()
    y.clear()
    assert x and not y and list(reversed(x)) == [3, "b", 1]
    assert [a + b for a in [1, 2] for b in [10, 20] if a != 2] == [11, 21]
    assert [[j for j in range(i)] for i in range(3)] == [[], [0], [0, 1]]
    try:
        [].pop()
    except IndexError:
        pass
    try:
        [1].index(5)
    except ValueError:
        pass
    try:
        [1].remove(5)
    except ValueError:
        pass


def t_builtin_fns():
    assert any(x > 2 for x in [1, 3]) and all([]) and not any([])
    assert sum([1, 2], 3) == 6 and sum((x for x in [1, 2])) == 3
    assert min([3, 1]) == 1 and max(1, 2) == 2 and max([], default=None) is None
    assert min(["bb", "a"], key=len) == "a"
    assert list(zip([1, 2], "ab")) == [(1, "a"), (2, "b")] and list(enumerate("ab", 1)) == [(1, "a"), (2, "b")]
    assert list(map(lambda a, b: a + b, [1, 2], [3, 4])) == [4, 6]
    assert list(filter(None, [0, 1, ""])) == [1] and list(filter(lambda x: x > 1, [1, 2])) == [2]
    assert divmod(7, 2) == (3, 1) and round(2.567, 2) == 2.57 and abs(-1) == 1 and pow(2, 3) == 8
    assert int("5") == 5 and float("1e3") == 1000.0 and str(1) == "1" and bool([]) is False
    assert repr("a") == "'a'" and repr([1, "a"]) == "[1, 'a']" and ascii("a") == "'a'"
    assert next(iter([]), 5) == 5 and list(iter([1, 2].pop, 1)) == [2]
    assert isinstance(1, (int, str)) and isinstance(1, int | str) and issubclass(bool, int)
    assert callable(len) and not callable(1) and type(1) is int and type(1) == int
    assert getattr(1, "zz", None) is None and hasattr("", "join")
    assert list(range(5, 0, -2)) == [5, 3, 1] and len(range(3)) == 3 and 2 in range(3)
    assert hash("a") == hash("a") and id(None) == id(None)
    assert slice(1, 2).start == 1 and "abc"[slice(0, 2)] == "ab"
    assert tuple([1]) == (1,) and list("ab") == ["a", "b"] and bytes([97]) == b"a"
    assert format(3.14159, ".1f") == "3.1" and bin(5) == "0b101" and hex(255) == "0xff"
    assert vars(types.SimpleNamespace(a=1)) == {"a": 1}
    assert sorted([(1, "b"), (1, "a")]) == [(1, "a"), (1, "b")]
    try:
        list(zip([1], [1, 2], strict=True))
    except ValueError:
        pass
    else:
        assert False
    assert complex(1, 2).imag == 2


def t_exceptions():
    class E(ValueError):
        def __init__(self, a, b=2):
            super().__init__(f"{a}-{b}")
            self.a = a
    try:
        raise E(1)
    except (KeyError, ValueError) as e:
        assert e.a == 1 and str(e) == "1-2" and e.args == ("1-2",)
    try:
        try:
            raise KeyError("x")
        except KeyError as k:
            raise RuntimeError("y") from k
    except RuntimeError as e:
        assert isinstance(e.__cause__, KeyError) and e.__context__ is e.__cause__
    try:
        try:
            1 / 0
        except ZeroDivisionError:
            raise TypeError("t")
    except TypeError as e:
        assert isinstance(e.__context__, ZeroDivisionError) and e.__cause__ is None
    out = []
    for i in range(3):
        try:
            if i == 1:
                continue
            out.append(i)
        finally:
            out.append("f")
    assert out == [0, "f", "f", 2, "f"]

    def f():
        try:
            return 1
        finally:
            out.append("end")
    assert f() == 1 and out[-1] == "end"

    def g():
        try:
            raise ValueError
        except ValueError:
            return "exc"
        else:
            return "else"
        finally:
            out.append("z")
    assert g() == "exc"
    try:
        raise ValueError("a", 1)
    except Exception as e:
        assert e.args == ("a", 1) and type(e).__name__ == "ValueError" and repr(e) == "ValueError('a', 1)"
    e = KeyError("q")
    assert str(e) == "'q'" and isinstance(e, LookupError)
    try:
        assert False, "msg"
    except AssertionError as e:
        assert str(e) == "msg"
    try:
        raise ExceptionGroup("g", [ValueError(1)])
    except ExceptionGroup as e:
        assert len(e.exceptions) == 1
    try:
        x = ValueError("n")
        x.add_note("note")
        raise x
    except ValueError as e:
        assert e.__notes__ == ["note"]
    try:
        raise e.with_traceback(None)
    except NameError:
        pass


def t_reraise():
    def f():
        try:
            raise ValueError("a")
        except ValueError:
            raise
    try:
        f()
    except ValueError as e:
        assert str(e) == "a"
    try:
        try:
            raise KeyError(1)
        finally:
            pass
    except KeyError:
        pass
    else:
        assert False


def t_generators():
    def g():
        x = yield 1
        y = yield x
        return y
    i = g()
    assert next(i) == 1 and i.send(5) == 5
    try:
        i.send(6)
    except StopIteration as e:
        assert e.value == 6

    def h():
        r = yield from g()
        yield r
    i = h()
    assert next(i) == 1 and i.send(2) == 2 and i.send(3) == 3

    def k():
        try:
            yield 1
        except ValueError:
            yield "caught"
        finally:
            log.append("closed")
    log = []
    i = k()
    next(i)
    assert i.throw(ValueError()) == "caught"
    i.close()
    assert log == ["closed"]
    assert sum(x * x for x in range(4) if x) == 14
    a, b = (x for x in [1, 2])
    assert (a, b) == (1, 2)
    def inf():
        n = 0
        while True:
            yield n
            n += 1
    for v in inf():
        if v > 2:
            break
    assert v == 3


def t_closures():
    def counter():
        n = 0

        def inc(by=1):
            nonlocal n
            n += by
            return n
        return inc
    c = counter()
    assert c() == 1 and c(2) == 3
    fs = [lambda i=i: i for i in range(3)]
    assert [f() for f in fs] == [0, 1, 2]
    f = lambda *a, **k: (a, k)
    assert f(1, b=2) == ((1,), {"b": 2})
    gs = [lambda: i for i in range(3)]
    assert [g() for g in gs] == [2, 2, 2]


G = 0


def t_global():
    global G
    G = 5
    assert globals()["G"] == 5
    def f():
        global G
        G += 1
    f()
    assert G == 6


def t_loops():
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i == 3:
            break
        out.append(i)
    else:
        out.append("else")
    assert out == [0, 2]
    for i in []:
        pass
    else:
        out.append("else")
    assert out[-1] == "else"
    n = 3
    while n:
        n -= 1
        if n == 5:
            break
    else:
        out.append("w")
    assert out[-1] == "w"
    for k, (a, b) in {"x": (1, 2)}.items():
        assert (k, a, b) == ("x", 1, 2)
    i = j = 0
    assert i == j == 0
    assert 1 < 2 < 3 and not (1 < 3 < 2)


def t_del():
    x = 1
    del x
    try:
        x
    except UnboundLocalError:
        pass
    else:
        assert False
    d = {"a": {"b": 1}}
    del d["a"]["b"]
    assert d == {"a": {}}
    ns = types.SimpleNamespace(a=1)
    del ns.a
    assert not hasattr(ns, "a")
