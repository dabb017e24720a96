class partial:
    def __new__(cls, func, /, *args, **keywords):
        if not callable(func):
            raise TypeError("the first argument must be callable")
        self = super().__new__(cls)
        if isinstance(func, partial):
            args = func.args + args
            keywords = {**func.keywords, **keywords}
            func = func.func
        self.func = func
        self.args = args
        self.keywords = keywords
        return self

    def __init__(self, func, /, *args, **keywords):
        pass

    def __call__(self, /, *args, **keywords):
        return self.func(*self.args, *args, **{**self.keywords, **keywords})


class partialmethod:
    def __init__(self, func, /, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __get__(self, obj, cls=None):
        f = self.func
        if hasattr(f, "__get__") and obj is not None:
            f = f.__get__(obj, cls)
        return partial(f, *self.args, **self.keywords)


def total_ordering(cls):
    ns = {n for b in cls.__mro__ if b is not object for n in vars(b)}
    if "__lt__" in ns:
        ops = {"__gt__": lambda s, o: _both(s < o, lambda: not (s < o) and s != o),
               "__le__": lambda s, o: s < o or s == o,
               "__ge__": lambda s, o: not s < o}
    elif "__le__" in ns:
        ops = {"__ge__": lambda s, o: not s <= o or s == o,
               "__lt__": lambda s, o: s <= o and not s == o,
               "__gt__": lambda s, o: not s <= o}
    elif "__gt__" in ns:
        ops = {"__lt__": lambda s, o: not (s > o) and s != o,
               "__ge__": lambda s, o: s > o or s == o,
               "__le__": lambda s, o: not s > o}
    elif "__ge__" in ns:
        ops = {"__le__": lambda s, o: not s >= o or s == o,
               "__gt__": lambda s, o: s >= o and not s == o,
               "__lt__": lambda s, o: not s >= o}
    else:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    for n, f in ops.items():
        if n not in ns:
            setattr(cls, n, f)
    return cls


def _both(a, f):
    return f()


def cmp_to_key(mycmp):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0

        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0

        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0
    return K


def _hints(f):
    import typing
    for n, t in f.__annotations__.items():
        if n != "return":
            return t
    raise TypeError("Invalid annotation")


def _classes(t):
    args = getattr(t, "__args__", None)
    if not isinstance(t, type) and args:
        return list(args)
    if isinstance(t, tuple):
        return list(t)
    return [t]


def singledispatch(func):
    registry = {object: func}

    def dispatch(cls):
        best = object
        for c in registry:
            if c is object:
                continue
            if issubclass(cls, c) and (best is object or issubclass(c, best)):
                best = c
        return registry[best]

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type) or isinstance(cls, _union()):
                def deco(f):
                    return register(cls, f)
                return deco
            f = cls
            cls = _hints(f)
        for c in _classes(cls):
            registry[c] = f
        return f

    def wrapper(*args, **kw):
        if not args:
            raise TypeError("singledispatch function requires at least 1 positional argument")
        return dispatch(type(args[0]))(*args, **kw)
    registry[object] = func
    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    wrapper.__wrapped__ = func
    wrapper.__name__ = getattr(func, "__name__", "wrapper")
    wrapper.__doc__ = getattr(func, "__doc__", None)
    return wrapper


def _union():
    return type(int | str)


class singledispatchmethod:
    def __init__(self, func):
        self.dispatcher = singledispatch(func)
        self.func = func

    def register(self, cls, method=None):
        return self.dispatcher.register(cls, method)

    def __get__(self, obj, cls=None):
        def method(*args, **kw):
            f = self.dispatcher.dispatch(type(args[0]))
            return f.__get__(obj, cls)(*args, **kw)
        method.register = self.register
        return method
