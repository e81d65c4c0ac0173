"""Controlled worker pools: multiprocessing.Pool under the explorer's control.

While a PoolControl is active, multiprocessing.Pool(...) returns a FakePool that
runs the submitted tasks in this process, each on pickled copies of its
arguments (as worker processes would see them), in a completion order chosen by
the explorer.
"""
import multiprocessing
import multiprocessing.pool
import os
import pickle

_current = None
_installed = False


def _copy(x):
    return pickle.loads(pickle.dumps(x))


class PoolControl:
    def __init__(self, order=None, on_task=None, copy_args=True):
        self.order = order          # fn(n) -> permutation of range(n)
        self.on_task = on_task      # fn(batch_no, task_no) called before each task
        self.copy_args = copy_args
        self.pools = []
        self.batches = []           # per map: list of (task index, args)
        self.open_at_submit = []

    def __enter__(self):
        global _current
        self.old = _current
        _current = self
        return self

    def __exit__(self, *a):
        global _current
        _current = self.old
        return False


class _Result:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    def get(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.exc is None


class FakePool:
    def __init__(self, control, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._ctl = control
        self._processes = processes or os.cpu_count() or 1
        self._state = "RUN"
        self.closed = self.terminated = False
        self._pending = []
        control.pools.append(self)
        if initializer:
            initializer(*initargs)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _run(self, func, argslist, star=False, kwds=None):
        self._check()
        ctl = self._ctl
        n = len(argslist)
        batch = len(ctl.batches)
        ctl.batches.append([])
        order = ctl.order(n) if ctl.order else list(range(n))
        res = [None] * n
        done = []
        for t in order:
            args, f, kw = argslist[t], func, kwds or {}
            if ctl.copy_args:        # what is sent to a worker is pickled
                f, args, kw = _copy((func, args, kw))
            ctl.batches[batch].append((t, args))
            try:
                if ctl.on_task:
                    ctl.on_task(batch, t)
                r = f(*args, **kw) if star else f(args)
                if ctl.copy_args:
                    r = _copy(r)
                res[t] = _Result(r)
            except Exception as e:
                res[t] = _Result(exc=e)
            done.append(t)
        return res, done

    def _gather(self, res, done):
        for t in done:               # the first failure to arrive is raised
            if res[t].exc is not None:
                raise res[t].exc
        return [r.value for r in res]

    def map(self, func, iterable, chunksize=None):
        return self._gather(*self._run(func, list(iterable)))

    def starmap(self, func, iterable, chunksize=None):
        return self._gather(*self._run(func, list(iterable), True))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable), callback, error_callback)

    def _async(self, go, callback, error_callback):
        try:
            v = go()
            if callback:
                callback(v)
            return _Result(v)
        except Exception as e:
            if error_callback:
                error_callback(e)
            return _Result(exc=e)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable), callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        res, done = self._run(func, list(iterable))
        for r in res:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        res, done = self._run(func, list(iterable))
        for t in done:
            yield res[t].get()

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res, _ = self._run(func, [tuple(args)], True, kwds)
        r = res[0]
        if r.exc is None and callback:
            callback(r.value)
        if r.exc is not None and error_callback:
            error_callback(r.exc)
        return r

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
        self.closed = True

    def terminate(self):
        self._state = "TERMINATE"
        self.terminated = True

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real = multiprocessing.Pool

    def Pool(processes=None, *a, **k):
        if _current is None:
            return real(processes, *a, **k)
        return FakePool(_current, processes, *a, **k)
    multiprocessing.Pool = Pool
    ctx_cls = multiprocessing.context.BaseContext
    real_ctx = ctx_cls.Pool

    def CtxPool(self, processes=None, *a, **k):
        if _current is None:
            return real_ctx(self, processes, *a, **k)
        return FakePool(_current, processes, *a, **k)
    ctx_cls.Pool = CtxPool
