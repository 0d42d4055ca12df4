"""Controlled stand-ins for process pools: the completion order is chosen by the explorer."""
import concurrent.futures
import concurrent.futures.process
import contextlib
import multiprocessing
import multiprocessing.pool
import pickle


class Controller:
    """``order``: the order in which submitted tasks run and complete."""

    def __init__(self, order):
        self.order = list(order)
        self.ran = []
        self.pools = 0

    def permute(self, n):
        o = [i for i in self.order if i < n]
        return o + [i for i in range(n) if i not in o]


class Future(concurrent.futures.Future):
    pass


class Executor:
    ctl = None

    def __init__(self, max_workers=None, *a, **k):
        self.tasks = []
        type(self).ctl.pools += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._drain()
        return False

    def shutdown(self, wait=True, **k):
        self._drain()

    def submit(self, fn, *args, **kw):
        f = Future()
        # what a worker process would receive
        f._task = pickle.dumps((fn, args, kw))
        f._index = len(self.tasks)
        f._pool = self
        self.tasks.append(f)
        return f

    def _run(self, f):
        if f.done():
            return
        fn, args, kw = pickle.loads(f._task)
        type(self).ctl.ran.append(f._index)
        try:
            f.set_result(pickle.loads(pickle.dumps(fn(*args, **kw))))
        except BaseException as e:
            f.set_exception(e)

    def _drain(self):
        for i in type(self).ctl.permute(len(self.tasks)):
            self._run(self.tasks[i])

    def map(self, fn, *its, **kw):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        self._drain()
        return iter([f.result() for f in fs])


class Pool:
    """multiprocessing.Pool on top of the controlled executor."""

    def __init__(self, processes=None, *a, **k):
        self.ex = Executor()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    close = terminate = join = lambda self: None

    def _all(self, fn, args, star=False):
        fs = [self.ex.submit(fn, *(a if star else (a,))) for a in args]
        self.ex._drain()
        return fs

    def map(self, fn, it, chunksize=None):
        return [f.result() for f in self._all(fn, it)]

    def starmap(self, fn, it, chunksize=None):
        return [f.result() for f in self._all(fn, it, True)]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        fs = self._all(fn, it)
        return iter([fs[i].result() for i in Executor.ctl.permute(len(fs))])

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        f = self.ex.submit(fn, *args, **kwds)
        ex = self.ex

        class R:
            def get(self, timeout=None):
                ex._drain()
                return f.result()

            def wait(self, timeout=None):
                ex._drain()

            def ready(self):
                return f.done()

        if callback is not None:
            f.add_done_callback(lambda g: callback(g.result()))
        return R()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(fn, it)

        class R:
            def get(self, timeout=None):
                return r

            def wait(self, timeout=None):
                pass

        return R()


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(hasattr(f, "_pool") for f in fs):
        return _real["as_completed"](fs, timeout)

    def gen():
        by = {f._index: f for f in fs}
        for i in Executor.ctl.permute(max(by) + 1 if by else 0):
            if i in by:
                by[i]._pool._run(by[i])
                yield by[i]

    return gen()


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    done = set(as_completed(fs))
    return concurrent.futures._base.DoneAndNotDoneFutures(done, set())


_real = {}


@contextlib.contextmanager
def controlled(order):
    """Every process or thread pool completes its tasks in the given order."""
    ctl = Controller(order)
    Executor.ctl = ctl
    ctxs = {multiprocessing, type(multiprocessing.get_context()), multiprocessing.context.BaseContext}
    names = [(concurrent.futures, "ProcessPoolExecutor", Executor), (concurrent.futures, "ThreadPoolExecutor", Executor), (concurrent.futures.process, "ProcessPoolExecutor", Executor),
             (concurrent.futures, "as_completed", as_completed), (concurrent.futures, "wait", wait), (multiprocessing.pool, "Pool", Pool), (multiprocessing.pool, "ThreadPool", Pool),
             (multiprocessing, "Pool", Pool), (multiprocessing.context.BaseContext, "Pool", lambda self, *a, **k: Pool(*a, **k))]
    concurrent.futures.ThreadPoolExecutor  # lazily loaded
    saved = [(m, n, m.__dict__.get(n, _real)) for m, n, _ in names]
    _real["as_completed"] = concurrent.futures.as_completed
    try:
        for m, n, v in names:
            setattr(m, n, v)
        yield ctl
    finally:
        for m, n, v in saved:
            if v is _real:
                delattr(m, n)
            else:
                setattr(m, n, v)
