def _up(heap, pos, start=0):
    item = heap[pos]
    while pos > start:
        parent = (pos - 1) >> 1
        if item < heap[parent]:
            heap[pos] = heap[parent]
            pos = parent
        else:
            break
    heap[pos] = item


def _down(heap, pos):
    end = len(heap)
    start = pos
    item = heap[pos]
    child = 2 * pos + 1
    while child < end:
        right = child + 1
        if right < end and not heap[child] < heap[right]:
            child = right
        heap[pos] = heap[child]
        pos = child
        child = 2 * pos + 1
    heap[pos] = item
    _up(heap, pos, start)


def heappush(heap, item):
    heap.append(item)
    _up(heap, len(heap) - 1)


def heappop(heap):
    last = heap.pop()
    if heap:
        out = heap[0]
        heap[0] = last
        _down(heap, 0)
        return out
    return last


def heapify(x):
    for i in reversed(range(len(x) // 2)):
        _down(x, i)


def heapreplace(heap, item):
    out = heap[0]
    heap[0] = item
    _down(heap, 0)
    return out


def heappushpop(heap, item):
    if heap and heap[0] < item:
        return heapreplace(heap, item)
    return item


def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:n]


def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:n]


def merge(*iterables, key=None, reverse=False):
    out = []
    for it in iterables:
        out.extend(it)
    out.sort(key=key, reverse=reverse)
    return iter(out)
