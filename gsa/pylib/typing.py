from collections import namedtuple


class _NamedTupleMeta(type):
    def __new__(mcs, name, bases, ns):
        if name == "NamedTuple":
            return super().__new__(mcs, name, bases, ns)
        types = ns.get("__annotations__", {})
        fields = list(types)
        defaults = [ns[f] for f in fields if f in ns]
        nt = namedtuple(name, fields, defaults=defaults)
        nt.__annotations__ = types
        for k, v in ns.items():
            if k not in fields and k not in ("__new__", "__annotations__", "__qualname__"):
                setattr(nt, k, v)
        return nt


class NamedTuple(metaclass=_NamedTupleMeta):
    pass


class _TypedDictMeta(type):
    def __new__(mcs, name, bases, ns, total=True):
        if name == "TypedDict":
            return super().__new__(mcs, name, bases, ns)
        return type(name, (dict,), dict(ns))


class TypedDict(metaclass=_TypedDictMeta):
    pass
