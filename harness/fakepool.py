"""A process pool whose completion order is chosen by the specification.

Tasks and results are pickled as a real pool does; nothing runs outside the calling process."""
import itertools
import pickle

SCHEDULES = []   # per use: order of chunks (1-based); filled by the driver
STATE = {"pools": 0, "uses": 0, "running": False}


class Done:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    def __init__(self, *a, **k):
        STATE["pools"] += 1

    def _run(self, fn, args):
        fn, args = pickle.loads(pickle.dumps((fn, args)))
        STATE["running"] = True
        try:
            return pickle.loads(pickle.dumps(fn(args)))
        finally:
            STATE["running"] = False

    def _run_chunk(self, fn, chunk):
        fn, chunk = pickle.loads(pickle.dumps((fn, chunk)))
        STATE["running"] = True
        try:
            return pickle.loads(pickle.dumps([fn(i) for i in chunk]))
        finally:
            STATE["running"] = False

    def imap_unordered(self, fn, iterable, chunksize=1):
        # as in a real pool the tasks of a chunk are sent together, and so are their results
        results, it = [], iter(iterable)
        while chunk := list(itertools.islice(it, chunksize)):
            results.append(self._run_chunk(fn, chunk))
        STATE["uses"] += 1
        order = SCHEDULES.pop(0) if SCHEDULES else None
        if order is None or sorted(order) != list(range(1, len(results) + 1)):
            order = list(range(1, len(results) + 1))
        for k in order:
            yield from results[k - 1]

    def imap(self, fn, iterable, chunksize=1):
        STATE["uses"] += 1
        for i in [pickle.loads(pickle.dumps(i)) for i in iterable]:
            yield self._run(fn, i)

    def map(self, fn, iterable, chunksize=1):
        return list(self.imap(fn, iterable, chunksize))

    def starmap(self, fn, iterable, chunksize=1):
        STATE["uses"] += 1
        return [fn(*i) for i in iterable]

    def apply(self, fn, args=(), kwds={}):
        STATE["uses"] += 1
        return fn(*args, **kwds)

    def map_async(self, fn, iterable, chunksize=1, callback=None, error_callback=None):
        r = self.map(fn, iterable)
        if callback:
            callback(r)
        return Done(r)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(fn, args, kwds)
        if callback:
            callback(r)
        return Done(r)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install():
    import multiprocessing
    import multiprocessing.pool
    import torch.multiprocessing as tmp

    multiprocessing.Pool = FakePool
    tmp.Pool = FakePool
    STATE.update(pools=0, uses=0, running=False)
