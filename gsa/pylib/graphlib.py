class CycleError(ValueError):
    pass


class TopologicalSorter:
    def __init__(self, graph=None):
        self._pre = {}
        self._done = None
        self._out = set()
        if graph is not None:
            for node, before in graph.items():
                self.add(node, *before)

    def add(self, node, *predecessors):
        if self._done is not None:
            raise ValueError("Nodes cannot be added after a call to prepare()")
        self._pre.setdefault(node, [])
        for p in predecessors:
            self._pre.setdefault(p, [])
            self._pre[node].append(p)

    def prepare(self):
        if self._done is not None:
            raise ValueError("cannot prepare() more than once")
        left = dict(self._pre)
        clear = set()
        while left:
            ready = [n for n in left if all(p in clear for p in left[n])]
            if not ready:
                raise CycleError("nodes are in a cycle", list(left))
            for n in ready:
                del left[n]
                clear.add(n)
        self._done = set()

    def get_ready(self):
        ready = tuple(n for n in self._pre if n not in self._out
                      and all(p in self._done for p in self._pre[n]))
        self._out.update(ready)
        return ready

    def is_active(self):
        return len(self._done) < len(self._pre)

    def __bool__(self):
        return self.is_active()

    def done(self, *nodes):
        self._done.update(nodes)

    def static_order(self):
        self.prepare()
        while self.is_active():
            ready = self.get_ready()
            yield from ready
            self.done(*ready)
