"""Mixin methods of the abstract container classes."""


class Sequence:
    def __iter__(self):
        i = 0
        try:
            while True:
                yield self[i]
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in range(len(self) - 1, -1, -1):
            yield self[i]

    def index(self, value, start=0, stop=None):
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)


class MutableSequence:
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Set:
    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __le__(self, other):
        if len(self) > len(other):
            return False
        for e in self:
            if e not in other:
                return False
        return True

    def __lt__(self, other):
        return len(self) < len(other) and self.__le__(other)

    def __gt__(self, other):
        return len(self) > len(other) and self.__ge__(other)

    def __ge__(self, other):
        if len(self) < len(other):
            return False
        for e in other:
            if e not in self:
                return False
        return True

    def __eq__(self, other):
        try:
            return len(self) == len(other) and self.__le__(other)
        except TypeError:
            return NotImplemented

    def __and__(self, other):
        return self._from_iterable(v for v in other if v in self)

    __rand__ = __and__

    def isdisjoint(self, other):
        for v in other:
            if v in self:
                return False
        return True

    def __or__(self, other):
        return self._from_iterable(e for s in (self, other) for e in s)

    __ror__ = __or__

    def __sub__(self, other):
        return self._from_iterable(v for v in self if v not in other)

    def __rsub__(self, other):
        return self._from_iterable(v for v in other if v not in self)

    def __xor__(self, other):
        return self._from_iterable([v for v in self if v not in other] +
                                   [v for v in other if v not in self])

    __rxor__ = __xor__


class MutableSet:
    def remove(self, value):
        if value not in self:
            raise KeyError(value)
        self.discard(value)

    def pop(self):
        it = iter(self)
        try:
            value = next(it)
        except StopIteration:
            raise KeyError from None
        self.discard(value)
        return value

    def clear(self):
        for v in list(self):
            self.discard(v)

    def __ior__(self, it):
        for v in it:
            self.add(v)
        return self

    def __iand__(self, it):
        for v in (self - it):
            self.discard(v)
        return self

    def __isub__(self, it):
        for v in list(it):
            self.discard(v)
        return self


class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return {k: None for k in self}.keys()

    def items(self):
        return {k: self[k] for k in self}.items()

    def values(self):
        return {k: self[k] for k in self}.values()

    def __eq__(self, other):
        try:
            names = other.keys()
        except AttributeError:
            return NotImplemented
        return {k: self[k] for k in self} == {k: other[k] for k in names}


_NONE = object()


class MutableMapping:
    def pop(self, key, default=_NONE):
        try:
            value = self[key]
        except KeyError:
            if default is _NONE:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError from None
        value = self[key]
        del self[key]
        return key, value

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, other=(), /, **kwds):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class Iterator:
    def __iter__(self):
        return self


MIXINS = {"Sequence": [Sequence], "MutableSequence": [MutableSequence, Sequence], "Set": [Set],
          "MutableSet": [MutableSet, Set], "Mapping": [Mapping],
          "MutableMapping": [MutableMapping, Mapping], "Iterator": [Iterator]}
