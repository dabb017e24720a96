from collections.abc import MutableMapping, MutableSequence


class OrderedDict(dict):
    def move_to_end(self, key, last=True):
        value = dict.pop(self, key)
        if last:
            dict.__setitem__(self, key, value)
        else:
            rest = list(dict.items(self))
            dict.clear(self)
            dict.__setitem__(self, key, value)
            for k, v in rest:
                dict.__setitem__(self, k, v)

    def popitem(self, last=True):
        if not self:
            raise KeyError("dictionary is empty")
        key = list(self)[-1 if last else 0]
        return key, dict.pop(self, key)

    def copy(self):
        return self.__class__(self)


class Counter(dict):
    def __init__(self, iterable=None, /, **kwds):
        super().__init__()
        self.update(iterable, **kwds)

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, /, **kwds):
        if iterable is not None:
            if hasattr(iterable, "keys"):
                for k in iterable.keys():
                    self[k] = self.get(k, 0) + iterable[k]
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) + 1
        for k, v in kwds.items():
            self[k] = self.get(k, 0) + v

    def subtract(self, iterable=None, /, **kwds):
        for k, v in Counter(iterable, **kwds).items():
            self[k] = self.get(k, 0) - v

    def most_common(self, n=None):
        out = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return out if n is None else out[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def total(self):
        return sum(self.values())

    def copy(self):
        return self.__class__(self)

    def __delitem__(self, k):
        if k in self:
            super().__delitem__(k)

    def __add__(self, other):
        out = Counter()
        for k in list(self) + [x for x in other if x not in self]:
            if self[k] + other[k] > 0:
                out[k] = self[k] + other[k]
        return out

    def __sub__(self, other):
        out = Counter()
        for k in list(self) + [x for x in other if x not in self]:
            if self[k] - other[k] > 0:
                out[k] = self[k] - other[k]
        return out

    def __or__(self, other):
        out = Counter()
        for k in list(self) + [x for x in other if x not in self]:
            if max(self[k], other[k]) > 0:
                out[k] = max(self[k], other[k])
        return out

    def __and__(self, other):
        out = Counter()
        for k in self:
            if min(self[k], other[k]) > 0:
                out[k] = min(self[k], other[k])
        return out


class ChainMap(MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __missing__(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        for m in self.maps:
            try:
                return m[key]
            except KeyError:
                pass
        return self.__missing__(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __len__(self):
        return len(list(iter(self)))

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            for k in m:
                d[k] = None
        return iter(d)

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __bool__(self):
        return any(self.maps)

    def new_child(self, m=None, **kwargs):
        if m is None:
            m = kwargs
        elif kwargs:
            m.update(kwargs)
        return self.__class__(m, *self.maps)

    @property
    def parents(self):
        return self.__class__(*self.maps[1:])

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]


class UserDict(MutableMapping):
    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def __repr__(self):
        return repr(self.data)

    def copy(self):
        return self.__class__(self.data)


class UserList(MutableSequence):
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            self.data[:] = list(initlist)

    def __repr__(self):
        return repr(self.data)

    def _cast(self, other):
        return other.data if isinstance(other, UserList) else other

    def __eq__(self, other):
        return self.data == self._cast(other)

    def __lt__(self, other):
        return self.data < self._cast(other)

    def __contains__(self, item):
        return item in self.data

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.__class__(self.data[i]) if isinstance(i, slice) else self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def __add__(self, other):
        return self.__class__(self.data + list(other))

    def __iadd__(self, other):
        self.data += list(other)
        return self

    def append(self, item):
        self.data.append(item)

    def insert(self, i, item):
        self.data.insert(i, item)

    def pop(self, i=-1):
        return self.data.pop(i)

    def remove(self, item):
        self.data.remove(item)

    def clear(self):
        self.data.clear()

    def copy(self):
        return self.__class__(self)

    def count(self, item):
        return self.data.count(item)

    def index(self, item, *args):
        return self.data.index(item, *args)

    def reverse(self):
        self.data.reverse()

    def sort(self, /, *args, **kwds):
        self.data.sort(*args, **kwds)

    def extend(self, other):
        self.data.extend(other)


def namedtuple(typename, field_names, *, rename=False, defaults=None, module=None):
    if isinstance(field_names, str):
        field_names = field_names.replace(",", " ").split()
    fields = tuple(str(f) for f in field_names)
    defaults = tuple(defaults) if defaults is not None else ()
    back = dict(zip(fields[len(fields) - len(defaults):], defaults))

    def __new__(cls, *args, **kw):
        if len(args) > len(fields):
            raise TypeError(f"{typename}() takes {len(fields)} arguments")
        vals = dict(zip(fields, args))
        for k, v in kw.items():
            if k not in fields:
                raise TypeError(f"{typename}() got an unexpected keyword argument {k!r}")
            if k in vals:
                raise TypeError(f"{typename}() got multiple values for argument {k!r}")
            vals[k] = v
        for f in fields:
            if f not in vals:
                if f not in back:
                    raise TypeError(f"{typename}() missing argument {f!r}")
                vals[f] = back[f]
        return tuple.__new__(cls, tuple(vals[f] for f in fields))

    def _make(cls, iterable):
        return cls(*iterable)

    def _replace(self, /, **kw):
        extra = [k for k in kw if k not in fields]
        if extra:
            raise ValueError("Got unexpected field names")
        return self.__class__(*[kw.get(f, v) for f, v in zip(fields, self)])

    def _asdict(self):
        return dict(zip(fields, self))

    def __repr__(self):
        return typename + "(" + ", ".join(f"{f}={v!r}" for f, v in zip(fields, self)) + ")"

    def __getnewargs__(self):
        return tuple(self)
    ns = {"__new__": __new__, "_make": classmethod(_make), "_replace": _replace,
          "_asdict": _asdict, "__repr__": __repr__, "_fields": fields, "__match_args__": fields,
          "_field_defaults": back, "__getnewargs__": __getnewargs__}
    for i, f in enumerate(fields):
        ns[f] = property(lambda self, i=i: tuple.__getitem__(self, i))
    return type(typename, (tuple,), ns)
