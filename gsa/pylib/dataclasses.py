class FrozenInstanceError(AttributeError):
    pass


class _Missing:
    pass


MISSING = _Missing()
KW_ONLY = _Missing()


class Field:
    def __init__(self, default, default_factory, init, repr, hash, compare, metadata, kw_only):
        self.name = None
        self.type = None
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.hash = hash
        self.compare = compare
        self.metadata = metadata
        self.kw_only = kw_only


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None,
          compare=True, metadata=None, kw_only=False):
    return Field(default, default_factory, init, repr, hash, compare, metadata, kw_only)


def fields(class_or_instance):
    return tuple(class_or_instance.__dataclass_fields__.values())


def is_dataclass(obj):
    return hasattr(obj, "__dataclass_fields__")


def asdict(obj, *, dict_factory=dict):
    def conv(v):
        if is_dataclass(v) and not isinstance(v, type):
            return dict_factory([(f.name, conv(getattr(v, f.name))) for f in fields(v)])
        if isinstance(v, (list, tuple)):
            return type(v)([conv(x) for x in v])
        if isinstance(v, dict):
            return type(v)((conv(k), conv(x)) for k, x in v.items())
        return v
    return conv(obj)


def astuple(obj):
    return tuple(getattr(obj, f.name) for f in fields(obj))


def replace(obj, /, **changes):
    vals = {f.name: getattr(obj, f.name) for f in fields(obj) if f.init}
    vals.update(changes)
    return obj.__class__(**vals)


def _process(cls, init, repr_, eq, order, unsafe_hash, frozen, kw_only):
    found = {}
    for b in reversed(cls.__mro__[1:]):
        if hasattr(b, "__dataclass_fields__") and "__dataclass_fields__" in vars(b):
            found.update(b.__dataclass_fields__)
    kw = kw_only
    for name, t in vars(cls).get("__annotations__", {}).items():
        text = t if isinstance(t, str) else ""
        if t is KW_ONLY:
            kw = True
            continue
        if getattr(t, "__classvar__", False) or "ClassVar" in text:
            continue
        default = vars(cls).get(name, MISSING)
        f = default if isinstance(default, Field) else field(default=default)
        f.name = name
        f.type = t
        f.kw_only = f.kw_only or kw
        if isinstance(default, Field):
            if f.default is not MISSING:
                setattr(cls, name, f.default)
            else:
                delattr(cls, name)
        elif isinstance(default, (list, dict, set)):
            raise ValueError(f"mutable default for field {name} is not allowed")
        found[name] = f
    cls.__dataclass_fields__ = found
    fs = list(found.values())
    cls.__match_args__ = tuple(f.name for f in fs if f.init and not f.kw_only)

    def __init__(self, *args, **kwargs):
        pos = [f for f in fs if f.init and not f.kw_only]
        if len(args) > len(pos):
            raise TypeError(f"{cls.__name__}.__init__() takes {len(pos) + 1} positional arguments")
        vals = {f.name: v for f, v in zip(pos, args)}
        known = [f.name for f in fs if f.init]
        for k, v in kwargs.items():
            if k not in known:
                raise TypeError(f"{cls.__name__}.__init__() got an unexpected keyword argument")
            if k in vals:
                raise TypeError(f"{cls.__name__}.__init__() got multiple values for argument")
            vals[k] = v
        for f in fs:
            if f.name in vals:
                v = vals[f.name]
            elif f.default is not MISSING:
                v = f.default
            elif f.default_factory is not MISSING:
                v = f.default_factory()
            elif f.init:
                raise TypeError(f"{cls.__name__}.__init__() missing argument: '{f.name}'")
            else:
                continue
            if frozen:
                object.__setattr__(self, f.name, v)
            else:
                setattr(self, f.name, v)
        if hasattr(self, "__post_init__"):
            self.__post_init__()

    def key(self):
        return tuple(getattr(self, f.name) for f in fs if f.compare)

    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return key(self) == key(other)

    def __repr__(self):
        return cls.__qualname__ + "(" + ", ".join(
            f"{f.name}={getattr(self, f.name)!r}" for f in fs if f.repr) + ")"

    def __hash__(self):
        return hash(tuple(getattr(self, f.name) for f in fs
                          if (f.compare if f.hash is None else f.hash)))

    def frozen_set(self, name, value):
        raise FrozenInstanceError(f"cannot assign to field {name!r}")

    def frozen_del(self, name):
        raise FrozenInstanceError(f"cannot delete field {name!r}")
    own = vars(cls)
    if init and "__init__" not in own:
        cls.__init__ = __init__
    if repr_ and "__repr__" not in own:
        cls.__repr__ = __repr__
    hashed = "__hash__" in own and own["__hash__"] is not None
    if eq and "__eq__" not in own:
        cls.__eq__ = __eq__
        if not hashed:
            cls.__hash__ = None
    if order:
        cls.__lt__ = lambda self, other: key(self) < key(other) \
            if other.__class__ is self.__class__ else NotImplemented
        cls.__le__ = lambda self, other: key(self) <= key(other) \
            if other.__class__ is self.__class__ else NotImplemented
        cls.__gt__ = lambda self, other: key(self) > key(other) \
            if other.__class__ is self.__class__ else NotImplemented
        cls.__ge__ = lambda self, other: key(self) >= key(other) \
            if other.__class__ is self.__class__ else NotImplemented
    if frozen:
        cls.__setattr__ = frozen_set
        cls.__delattr__ = frozen_del
    if unsafe_hash or eq and frozen and not hashed:
        cls.__hash__ = __hash__
    return cls


def dataclass(cls=None, /, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False,
              frozen=False, match_args=True, kw_only=False, slots=False, weakref_slot=False):
    def wrap(cls):
        return _process(cls, init, repr, eq, order, unsafe_hash, frozen, kw_only)
    return wrap if cls is None else wrap(cls)
