"""Snippets of ordinary Python: more of the standard library."""
import bisect
import contextvars
import graphlib
import heapq
import json
import os.path
import threading
from contextvars import ContextVar
from graphlib import TopologicalSorter
from heapq import heappop, heappush
from json import JSONDecoder
from threading import RLock


def t_contextvars():
    v = ContextVar("v", default=3)
    assert v.get() == 3
    t = v.set(5)
    assert v.get() == 5
    t2 = v.set(6)
    v.reset(t2)
    assert v.get() == 5
    v.reset(t)
    assert v.get() == 3 and v.get(9) == 9
    w = contextvars.ContextVar("w")
    try:
        w.get()
        assert False
    except LookupError:
        pass
    try:
        v.reset(t)
        assert False
    except RuntimeError:
        pass


def t_threading():
    lock = threading.Lock()
    with lock:
        assert lock.locked()
        assert not lock.acquire(blocking=False)
    assert not lock.locked()
    r = RLock()
    with r:
        with r:
            pass

    class L(threading.local):
        x = 3

        def __init__(self):
            self.y = 4
    a = L()
    a.x = 5
    assert (a.x, a.y, L.x) == (5, 4, 3)
    b = threading.local()
    b.k = 1
    assert getattr(b, "k") == 1 and not hasattr(b, "z")
    assert threading.get_ident() == threading.get_ident()


def t_heapq():
    h = []
    for x in [5, 1, 4, 2, 3]:
        heappush(h, (x, str(x)))
    assert [heappop(h)[0] for _ in range(5)] == [1, 2, 3, 4, 5]
    k = [3, 1, 2]
    heapq.heapify(k)
    assert k[0] == 1 and heapq.heappushpop(k, 0) == 0 and heapq.heapreplace(k, 9) == 1
    assert heapq.nsmallest(2, [3, 1, 2], key=lambda x: -x) == [3, 2]
    assert list(heapq.merge([1, 4], [2, 3])) == [1, 2, 3, 4]


def t_bisect():
    a = [1, 2, 2, 3]
    assert bisect.bisect_left(a, 2) == 1 and bisect.bisect(a, 2) == 3
    bisect.insort(a, 2.5)
    assert a == [1, 2, 2, 2.5, 3]
    assert bisect.bisect_right([(1,), (2,)], 1, key=lambda x: x[0]) == 1


def t_graphlib():
    ts = TopologicalSorter({"d": {"b", "c"}, "b": {"a"}, "c": {"a"}})
    order = list(ts.static_order())
    assert order[0] == "a" and order[-1] == "d" and sorted(order) == list("abcd")
    g = TopologicalSorter()
    g.add(1, 2)
    g.add(2, 1)
    try:
        g.prepare()
        assert False
    except graphlib.CycleError:
        pass


def t_decoder():
    d = JSONDecoder(object_hook=lambda x: list(x.items()))
    assert d.decode('{"a": {"b": 1}}') == [("a", [("b", 1)])]
    assert json.JSONDecoder().decode("[1]") == [1]
    try:
        json.JSONDecoder().decode("x")
        assert False
    except ValueError:
        pass


def t_paths():
    assert os.path.splitext("a/b.txt") == ("a/b", ".txt")
    assert os.path.normpath("a/../b") == "b"


def t_match_class():
    class P:
        __match_args__ = ("x", "y")

        def __init__(self, x, y):
            self.x, self.y = x, y

    def f(v):
        match v:
            case P(0, y):
                return "zero", y
            case P(x=x, y=(int() | float()) as y) if x < y:
                return "lt", x, y
            case P():
                return "p"
            case [first, *rest] if rest:
                return first, rest
            case {"type": t, **kw}:
                return t, kw
            case str(s) | bytes(s):
                return s
            case None | True | False:
                return "c"
            case _:
                return None
    assert f(P(0, 2)) == ("zero", 2)
    assert f(P(1, 2.5)) == ("lt", 1, 2.5)
    assert f(P(3, 2)) == "p"
    assert f([1, 2, 3]) == (1, [2, 3])
    assert f([1]) is None
    assert f({"type": 1, "z": 2}) == (1, {"z": 2})
    assert f("s") == "s" and f(True) == "c" and f(None) == "c" and f(3) is None


def t_generators():
    def walk(tree):
        yield tree[0]
        for t in tree[1:]:
            got = yield from walk(t)
            assert got == "done"
        return "done"
    assert list(walk((1, (2, (3,)), (4,)))) == [1, 2, 3, 4]

    def co():
        total = 0
        while True:
            x = yield total
            if x is None:
                return total
            total += x
    c = co()
    next(c)
    assert c.send(3) == 3 and c.send(4) == 7
    try:
        c.send(None)
        assert False
    except StopIteration as e:
        assert e.value == 7
    g = (x for x in [1, 2])
    g.close()
    assert list(g) == []

    def fin(log):
        try:
            yield 1
        finally:
            log.append("f")
    log = []
    h = fin(log)
    next(h)
    h.close()
    assert log == ["f"]
    i = fin(log)
    next(i)
    try:
        i.throw(KeyError("x"))
        assert False
    except KeyError:
        pass
    assert log == ["f", "f"]


def t_star():
    def f(*a, k=1, **kw):
        return a, k, kw
    assert f(*[1], *(2, 3), k=2, **{"z": 1}, **{"y": 2}) == ((1, 2, 3), 2, {"z": 1, "y": 2})
    a, *b, (c, *d) = [1, 2, 3, (4, 5)]
    assert (a, b, c, d) == (1, [2, 3], 4, [5])
    assert [*range(2), *"ab"] == [0, 1, "a", "b"] and {**{"a": 1}, "a": 2} == {"a": 2}

    def g(a, /, b, *, c):
        return a, b, c
    assert g(1, b=2, c=3) == (1, 2, 3)
    try:
        g(a=1, b=2, c=3)
        assert False
    except TypeError:
        pass


def t_exceptions():
    def f():
        try:
            raise KeyError("a")
        except (ValueError, KeyError) as e:
            raise RuntimeError("b") from e
        finally:
            pass
    try:
        f()
    except RuntimeError as e:
        assert isinstance(e.__cause__, KeyError) and e.args == ("b",)
    try:
        raise ValueError("x")
    except ValueError as e:
        e.add_note("n")
        assert e.__notes__ == ["n"]
    try:
        try:
            raise KeyError("a")
        except KeyError:
            raise ValueError("v") from None
    except ValueError as e:
        assert e.__cause__ is None and e.__suppress_context__

    def g():
        for i in range(3):
            try:
                if i == 1:
                    continue
                if i == 2:
                    return "r"
            finally:
                out.append(i)
        else:
            out.append("else")
    out = []
    assert g() == "r" and out == [0, 1, 2]
    with_else = []
    try:
        with_else.append(1)
    except ValueError:
        with_else.append(2)
    else:
        with_else.append(3)
    finally:
        with_else.append(4)
    assert with_else == [1, 3, 4]


def t_exception_group():
    try:
        raise ExceptionGroup("g", [ValueError(1), TypeError(2)])
    except* ValueError as e:
        assert len(e.exceptions) == 1
    except* TypeError:
        pass


def t_type_params():
    def first[T](x: list[T]) -> T:
        return x[0]

    class Box[T]:
        def __init__(self, v: T):
            self.v = v
    type Alias = int | str
    assert first([3]) == 3 and Box(2).v == 2


def t_descriptors():
    class Typed:
        def __init__(self, kind, default=None):
            self.kind, self.default = kind, default

        def __set_name__(self, owner, name):
            self.name = "_" + name

        def __get__(self, obj, owner=None):
            if obj is None:
                return self
            return getattr(obj, self.name, self.default)

        def __set__(self, obj, value):
            if value is not None and not isinstance(value, self.kind):
                raise TypeError(self.name)
            setattr(obj, self.name, value)

    class A:
        x = Typed(int)
        y = Typed(str, "d")
    a = A()
    a.x = 3
    assert a.x == 3 and a.y == "d" and A.x.kind is int and vars(a) == {"_x": 3}
    try:
        a.y = 3
        assert False
    except TypeError:
        pass
    assert getattr(type(a), "x").__class__.__name__ == "Typed"


def t_properties_made():
    def make(name, kind):
        attr = "_" + name

        def getter(self):
            return getattr(self, attr)

        def setter(self, v):
            if not isinstance(v, kind):
                raise TypeError(name)
            setattr(self, attr, v)
        return property(getter, setter, doc=name)

    class B:
        p = make("p", int)
        for _n in ("q", "r"):
            locals()[_n] = make(_n, str)
        del _n
    b = B()
    b.p = 1
    b.q = "x"
    assert (b.p, b.q) == (1, "x") and B.p.fset is not None and B.p.__doc__ == "p"


def t_metaclass():
    class M(type):
        reg = {}

        def __new__(mcs, name, bases, ns, tag=None, **kw):
            c = super().__new__(mcs, name, bases, ns, **kw)
            if tag:
                mcs.reg[tag] = c
            return c

        def __init__(cls, name, bases, ns, tag=None, **kw):
            super().__init__(name, bases, ns)
            cls.tag = tag

        def __call__(cls, *a, **k):
            o = super().__call__(*a, **k)
            o.made = True
            return o

        def __iter__(cls):
            return iter(cls.reg)

        def __contains__(cls, x):
            return x in cls.reg

        @property
        def size(cls):
            return len(cls.reg)

    class A(metaclass=M, tag="a"):
        def __init_subclass__(cls, **kw):
            super().__init_subclass__(**kw)
            cls.sub = cls.__name__

    class B(A, tag="b"):
        pass
    assert M.reg["b"] is B and B.sub == "B" and B().made and list(A) == ["a", "b"]
    assert "b" in A and A.size == 2 and B.tag == "b"
