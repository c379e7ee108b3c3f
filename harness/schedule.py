"""Deterministic execution of a thread pool: one task runs at a time, and at every file operation the
running task may be preempted; who continues is an input of the harness (a symbolic choice)."""
import concurrent.futures
import contextlib
import multiprocessing.dummy
import multiprocessing.pool
import sys
import tempfile
import threading

from apache_beam.io.filesystems import FileSystems

REAL_POOL = concurrent.futures.ThreadPoolExecutor
REAL_AS_COMPLETED = concurrent.futures.as_completed
REAL_WAIT = concurrent.futures.wait
REAL_DUMMY_POOL = multiprocessing.dummy.Pool
REAL_THREAD_POOL = multiprocessing.pool.ThreadPool
POINTS = ('open', 'create', 'exists', 'mkdirs', 'match', 'rename', 'copy', 'delete')


class Stop(BaseException):
    pass


class Task:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.future = concurrent.futures.Future()
        self.go = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.signal = None


class Scheduler:
    def __init__(self, ctx, preemptions):
        self.ctx = ctx
        self.preemptions = preemptions
        self.step = 0
        self.current = None
        self.back = threading.Semaphore(0)
        self.stopping = False
        self.switches = 0
        self.open_tasks = []

    def _body(self, task):
        task.go.acquire()
        try:
            if not self.stopping:
                try:
                    task.future.set_result(task.fn(*task.args, **task.kwargs))
                except Exception as e:      # pylint: disable=broad-except
                    task.future.set_exception(e)
        except BaseException as e:          # pylint: disable=broad-except
            task.signal = e
        task.done = True
        self.back.release()

    def point(self):
        """called by the running task: others may run here"""
        task = self.current
        if task is None or threading.current_thread() is not task.thread:
            return
        self.back.release()
        task.go.acquire()
        if self.stopping:
            raise Stop()

    def _choose(self, candidates, what):
        self.step += 1
        name = '%s%d of %d' % (what, self.step, len(candidates))
        return candidates[self.ctx.pick(name, range(len(candidates)))]

    def run(self, tasks, max_workers):
        if all(getattr(t.fn, 'read_only', False) for t in tasks):
            # looking at files only: the order does not matter
            for t in tasks:
                try:
                    t.future.set_result(t.fn(*t.args, **t.kwargs))
                except Exception as e:      # pylint: disable=broad-except
                    t.future.set_exception(e)
            return
        self.open_tasks = list(tasks)
        try:
            self._run(tasks, max_workers)
        finally:
            self.stopping = True
            for t in tasks:
                while t.thread is not None and not t.done:
                    t.go.release()
                    self.back.acquire()
            for t in tasks:
                if t.thread is not None:
                    t.thread.join()
            self.current = None
            self.stopping = False

    def _run(self, tasks, max_workers):
        last = None
        while True:
            active = [t for t in tasks if t.thread is not None and not t.done]
            for t in tasks:
                if len(active) >= max_workers:
                    break
                if t.thread is None:
                    t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                    t.thread.start()
                    active.append(t)
            active = [t for t in tasks if t.thread is not None and not t.done]
            if not active:
                return
            if last is not None and not last.done:
                if self.preemptions > 0 and len(active) > 1:
                    nxt = self._choose([last] + [t for t in active if t is not last], 'preempt')
                    if nxt is not last:
                        self.preemptions -= 1
                        self.switches += 1
                else:
                    nxt = last
            elif len(active) > 1:
                nxt = self._choose(active, 'next')
            else:
                nxt = active[0]
            self.current = last = nxt
            nxt.go.release()
            self.back.acquire()
            if nxt.signal is not None:
                raise nxt.signal


class Pool:
    """takes the place of ThreadPoolExecutor"""
    scheduler = None

    def __init__(self, max_workers=None, *args, **kwargs):
        self.max_workers = max_workers or 8
        self.pending = []
        _POOLS.append(self)

    def submit(self, fn, /, *args, **kwargs):
        task = Task(fn, args, kwargs)
        self.pending.append(task)
        return task.future

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futures = [self.submit(fn, *args) for args in zip(*iterables)]
        self.run()
        return [f.result() for f in futures]

    def run(self):
        tasks, self.pending = self.pending, []
        if tasks:
            Pool.scheduler.run(tasks, self.max_workers)

    def shutdown(self, wait=True, **kwargs):
        self.run()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is not None and not issubclass(exc_type, Exception):
            self.pending = []
            return False
        self.run()
        return False


class DummyPool:
    """takes the place of multiprocessing.dummy.Pool"""
    def __init__(self, processes=None, *args, **kwargs):
        self.pool = Pool(processes)

    def map(self, fn, iterable, chunksize=None):
        return self.pool.map(fn, list(iterable))

    imap = imap_unordered = map

    def starmap(self, fn, iterable, chunksize=None):
        return self.pool.map(lambda args: fn(*args), list(iterable))

    def map_async(self, fn, iterable, *args, **kwargs):
        return _Async([self.pool.submit(fn, x) for x in iterable], many=True)

    def starmap_async(self, fn, iterable, *args, **kwargs):
        return self.map_async(lambda x: fn(*x), iterable)

    def apply_async(self, fn, args=(), kwds=None, *more):
        return _Async([self.pool.submit(fn, *args, **(kwds or {}))], many=False)

    def apply(self, fn, args=(), kwds=None):
        return self.apply_async(fn, args, kwds).get()

    def close(self):
        self.pool.run()

    def join(self):
        self.pool.run()

    def terminate(self):
        self.pool.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.pool.run()


class _Async:
    def __init__(self, futures, many):
        self.futures = futures
        self.many = many

    def get(self, timeout=None):
        _flush()
        results = [f.result() for f in self.futures]
        return results if self.many else results[0]

    def wait(self, timeout=None):
        _flush()


_POOLS = []


def _flush():
    for p in _POOLS:
        p.run()


def _as_completed(fs, timeout=None):
    _flush()
    return REAL_AS_COMPLETED(fs, timeout)


def _wait(fs, *args, **kwargs):
    _flush()
    return REAL_WAIT(fs, *args, **kwargs)


@contextlib.contextmanager
def scheduled(ctx, preemptions=0):
    """thread pools of the program run under the scheduler"""
    scheduler = Scheduler(ctx, preemptions)
    Pool.scheduler = scheduler
    del _POOLS[:]
    undo = []

    def replace(owner, name, new):
        undo.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, new)

    replaced = {id(REAL_POOL): Pool, id(REAL_AS_COMPLETED): _as_completed, id(REAL_WAIT): _wait,
                id(REAL_THREAD_POOL): DummyPool}
    dummy = getattr(REAL_DUMMY_POOL, '__func__', REAL_DUMMY_POOL)
    try:
        for mname, module in list(sys.modules.items()):
            if module is concurrent.futures or mname.split('.')[0] in (
                    'sciencebeam_trainer_grobid_tools', 'sciencebeam_utils'):
                if module is concurrent.futures:
                    names = ['ThreadPoolExecutor', 'as_completed', 'wait']
                    module.ThreadPoolExecutor      # pylint: disable=pointless-statement
                else:
                    names = list(vars(module))
                for name in names:
                    v = vars(module).get(name)
                    new = replaced.get(id(v))
                    if getattr(v, '__func__', v) is dummy:
                        new = DummyPool
                    if new is not None:
                        replace(module, name, new)
        for name in POINTS:
            real = getattr(FileSystems, name)
            replace(FileSystems, name, staticmethod(_with_point(real, scheduler, name in ('exists', 'match'))))
        for name in ('__enter__', 'cleanup'):
            real = getattr(tempfile.TemporaryDirectory, name)
            replace(tempfile.TemporaryDirectory, name, _with_point(real, scheduler))
        yield scheduler
    finally:
        for owner, name, old in reversed(undo):
            setattr(owner, name, old)
        Pool.scheduler = None


def _with_point(real, scheduler, read_only=False):
    def wrapper(*args, **kwargs):
        scheduler.point()
        result = real(*args, **kwargs)
        scheduler.point()
        return result
    wrapper.read_only = read_only
    return wrapper
