class _Lock:
    def __init__(self):
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._n:
            if not blocking or timeout >= 0:
                return False
            raise RuntimeError("deadlock: the lock is already held")
        self._n = 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n = 0

    def locked(self):
        return self._n > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class _RLock(_Lock):
    def acquire(self, blocking=True, timeout=-1):
        self._n += 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1


def Lock():
    return _Lock()


def RLock():
    return _RLock()


class local:
    pass


class Event:
    def __init__(self):
        self._flag = False

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def is_set(self):
        return self._flag


class _Thread:
    name = "MainThread"
    ident = 1
    daemon = False


_main = _Thread()


def current_thread():
    return _main


def main_thread():
    return _main


def get_ident():
    return 1
