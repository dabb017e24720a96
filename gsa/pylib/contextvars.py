_missing = object()


class Token:
    MISSING = _missing

    def __init__(self, var, old):
        self.var = var
        self.old_value = old
        self._used = False


class ContextVar:
    def __init__(self, name, *, default=_missing):
        self.name = name
        self._default = default
        self._value = _missing

    def get(self, default=_missing):
        if self._value is not _missing:
            return self._value
        if default is not _missing:
            return default
        if self._default is not _missing:
            return self._default
        raise LookupError(self)

    def set(self, value):
        token = Token(self, self._value)
        self._value = value
        return token

    def reset(self, token):
        if token._used:
            raise RuntimeError("token has already been used once")
        if token.var is not self:
            raise ValueError("token was created by a different ContextVar")
        token._used = True
        self._value = token.old_value
