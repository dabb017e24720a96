class SimpleNamespace:
    def __init__(self, mapping=(), /, **kwargs):
        self.__dict__.update(mapping)
        self.__dict__.update(kwargs)

    def __eq__(self, other):
        if isinstance(other, SimpleNamespace):
            return self.__dict__ == other.__dict__
        return NotImplemented

    def __repr__(self):
        return "namespace(" + ", ".join(f"{k}={v!r}" for k, v in self.__dict__.items()) + ")"


def new_class(name, bases=(), kwds=None, exec_body=None):
    kwds = dict(kwds or {})
    meta = kwds.pop("metaclass", None)
    ns = {}
    if exec_body is not None:
        exec_body(ns)
    if meta is None:
        meta = type(bases[0]) if bases else type
    return meta(name, bases, ns, **kwds)
