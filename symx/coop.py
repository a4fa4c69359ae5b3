"""Cooperative threads: the threads of the code under test run one at a time
and every switch between them is a decision of the symbolic execution.

``threading``, ``time`` (and for the process scheduler ``subprocess``,
``pickle``, ``sys`` and ``traceback``) of the module under test are replaced
by stand-ins.  A switch can happen before a lock is taken, after it is
released, when a thread is started, ends or sleeps, at every pipe operation,
at every access to a changing attribute of a ``watched`` object without its
lock, and wherever the harness calls ``point``.  A sleeping thread goes on
once another thread has released a lock or ended since the sleeper last looked
(took a lock or slept), or (``spurious`` times) when it was just too short;
when no thread can run that is a deadlock."""
import copy
import sys as _sys
import threading as _t


class Kill(BaseException):
    pass


class Hang(Exception):
    """no thread can go on"""


class Coop(object):

    def __init__(self, S, preempt=None, spurious=0, only=None):
        self.S = S
        self.on_start = None
        self.fixed = False          # forced switches go to the first
        self.only = only            # kinds of points with preemptions
        self.spurious = spurious
        self.n = 0
        self.threads = []           # all virtual threads
        self.main = VThread(self, None, 'main')
        self.main.state = 'run'
        self.cur = self.main
        self.steps = 0              # locks released, threads ended
        self.error = None
        self.dead = False
        self.preempt = preempt      # None: any number of preemptions
        self.npoints = 0
        S.add_cleanup(self.kill)

    # ---- switching

    def runnable(self, v):
        return v.state == 'run' and (v.cond is None or v.cond())

    def candidates(self):
        """the threads that may go on; a (virtual) process shares nothing
        with the others but its pipes, so it always goes on at once"""
        cand = [v for v in self.threads if self.runnable(v)]
        return [v for v in cand if v.daemon][:1] or cand

    def point(self, cond=None, kind='call'):
        """a switch point; with cond the thread is blocked until it holds"""
        if self.dead:
            raise Kill()
        me = self.cur
        if _t.current_thread() is not me.thread and me.thread is not None:
            raise RuntimeError('not a thread of this world')
        self.npoints += 1
        me.cond = cond
        cand = self.candidates()
        if me in cand:
            if len(cand) > 1 and self.preempt != 0 and (
                    self.only is None or kind in self.only):
                cand.remove(me)
                cand.insert(0, me)
                nxt = self.pick(cand)
                if nxt is not me and self.preempt:
                    self.preempt -= 1
            else:
                nxt = me
        else:
            nxt = (cand[0] if self.fixed else self.pick(cand)) if cand \
                else None
        if nxt is None:
            raise Hang('no thread can run')
        if nxt is not me:
            self.hand(me, nxt)
        me.cond = None

    def pick(self, cand):
        if len(cand) == 1:
            return cand[0]
        self.n += 1
        i = self.S.int('sw%d' % self.n, 0, len(cand) - 1)
        v = cand[int(i)]
        self.S.log('switch to', v.name)
        return v

    def hand(self, me, nxt):
        self.cur = nxt
        nxt.sem.release()
        if me is not None:
            me.sem.acquire()
            if self.dead:
                raise Kill()
            if me is self.main and self.error is not None:
                e, self.error = self.error, None
                raise e

    def ended(self, v):
        v.state = 'done'
        self.steps += 1
        if self.dead:
            return
        if self.error is not None:
            nxt = self.main
        else:
            try:
                cand = self.candidates()
                if not cand:
                    raise Hang('no thread can run')
                nxt = cand[0] if self.fixed else self.pick(cand)
            except BaseException as e:  # noqa
                self.error = e
                nxt = self.main
        self.hand(None, nxt)

    def kill(self):
        self.dead = True
        for v in self.threads:
            if v is not self.main:
                v.sem.release()
        for v in self.threads:
            if v.thread is not None and v is not self.main and v.started:
                v.thread.join(5)

    def observe(self):
        """the current thread has seen everything done so far"""
        self.cur.seen = self.steps - self.cur.own

    def finish(self):
        """run until all other threads have ended or are blocked for ever"""
        while [v for v in self.threads if v is not self.main and
               self.runnable(v)]:
            self.point(cond=lambda: not [
                v for v in self.threads if v is not self.main and
                self.runnable(v)])

    def alive(self):
        return [v for v in self.threads if v is not self.main and
                v.state == 'run' and not v.daemon]

    # ---- stand-ins

    def threading(self):
        return _Threading(self)

    def time(self):
        return _Time(self)


class VThread(object):
    def __init__(self, coop, fn, name):
        self.coop, self.fn, self.name = coop, fn, name
        self.sem = _t.Semaphore(0)
        self.state, self.cond = 'new', None
        self.thread = None
        self.daemon = False
        self.started = False
        self.uncaught = None
        self.own = self.seen = 0
        coop.threads.append(self)

    def start(self):
        c = self.coop
        self.thread = _t.Thread(target=self._run, daemon=True)
        self.state = 'run'
        self.started = True
        if c.on_start:
            c.on_start(self)
        self.thread.start()
        c.point(kind='start')

    def _run(self):
        c = self.coop
        self.sem.acquire()
        try:
            if not c.dead:
                self.fn()
        except Kill:
            pass
        except SystemExit:
            pass
        except Exception as e:
            # a thread that dies with an exception takes nobody with it
            self.uncaught = e
            if isinstance(e, Hang):
                c.error = e
        except BaseException as e:  # engine: the path ends
            c.error = e
        c.ended(self)


def watched(cls, coop):
    """a subclass whose changing attributes are shared memory: without the
    lock of the object another thread may go on before each access"""
    class Watched(cls):
        def __setattr__(self, name, value):
            d = self.__dict__
            if coop.cur is not coop.main or d.get('_symx_ready'):
                d.setdefault('_symx_changing', set()).add(name)
                self._symx_point()
            cls.__setattr__(self, name, value)

        def __getattribute__(self, name):
            d = object.__getattribute__(self, '__dict__')
            if name in d.get('_symx_changing', ()):
                object.__getattribute__(self, '_symx_point')()
            return cls.__getattribute__(self, name)

        def _symx_point(self):
            lk = self.__dict__.get('_lock')
            if len(coop.threads) > 1 and not coop.dead and not (
                    isinstance(lk, Lock) and lk.owner is coop.cur):
                coop.point(kind='attr')
    Watched.__name__ = cls.__name__
    return Watched


class _Threading(object):
    def __init__(self, coop):
        self._coop = coop

    def Lock(self):
        return Lock(self._coop)

    def RLock(self):
        return RLock(self._coop)

    def Thread(self, target=None, args=(), kwargs=None, **k):
        c = self._coop
        kwargs = kwargs or {}
        v = VThread(c, lambda: target(*args, **kwargs),
                    't%d' % len(c.threads))
        if hasattr(target, '__name__'):
            v.target = target.__name__
        return v

    def __getattr__(self, name):
        return getattr(_t, name)


class Lock(object):
    def __init__(self, coop):
        self.c = coop
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            self.c.point()
            if self.owner is not None:
                return False
        else:
            self.c.point(cond=lambda: self.owner is None, kind='lock')
        self.owner = self.c.cur
        self.c.observe()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        self.c.steps += 1
        self.c.cur.own += 1
        self.c.point(kind='lock')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is self.c.cur:
            self.depth += 1
            return True
        return Lock.acquire(self, blocking, timeout)

    def release(self):
        if self.depth:
            self.depth -= 1
        else:
            Lock.release(self)


class _Time(object):
    def __init__(self, coop):
        self.c = coop

    def sleep(self, s):
        c, me = self.c, self.c.cur
        c.point(cond=lambda: c.steps - me.own > me.seen or c.spurious > 0)
        if c.steps - me.own <= me.seen:
            c.spurious -= 1
        c.observe()

    def __getattr__(self, name):
        import time
        return getattr(time, name)


# ---- processes

class Pipe(object):
    def __init__(self, coop):
        self.c, self.items, self.closed = coop, [], False
        self.loads = 0

    def flush(self):
        self.c.point()

    def close(self):
        self.closed = True


class Pickle(object):
    """pickling to a pipe copies the object (one whole object at a time)"""
    HIGHEST_PROTOCOL = -1

    def __init__(self, coop):
        self.c = coop

    def dump(self, obj, stream, protocol=None):
        if self.c.dead:
            raise Kill()
        if stream.closed:
            raise IOError('broken pipe')
        stream.items.append(copy.deepcopy(obj))

    def load(self, stream):
        self.c.point(cond=lambda: stream.items or stream.closed)
        if not stream.items:
            raise EOFError()
        stream.loads += 1
        return stream.items.pop(0)

    def dumps(self, obj, protocol=None):
        return copy.deepcopy(obj)

    def loads(self, obj):
        return copy.deepcopy(obj)


class ThreadLocalProxy(object):
    """stands for the module ``sys``; a virtual process sees its own"""

    def __init__(self, coop, real):
        self.__dict__['c'] = coop
        self.__dict__['real'] = real
        self.__dict__['per'] = {}

    def __getattr__(self, name):
        d = self.per.get(self.c.cur.name, {})
        if name in d:
            return d[name]
        return getattr(self.real, name)

    def __setattr__(self, name, value):
        d = self.per.get(self.c.cur.name)
        if d is not None:
            d[name] = value
        else:
            setattr(self.real, name, value)


class Std(object):
    def __init__(self, pipe):
        self.buffer = pipe

    def flush(self):
        pass

    def write(self, *a):
        pass


class Quiet(object):
    """stands for ``traceback``"""

    def print_exc(self, *a, **k):
        pass

    def __getattr__(self, name):
        import traceback
        return getattr(traceback, name)


class Subprocess(object):
    """stands for ``subprocess``: a process runs the worker function of the
    module in a thread of its own, connected by pipes only"""
    PIPE = object()

    def __init__(self, coop, module, proxy):
        self.c, self.module, self.proxy = coop, module, proxy
        self.procs = []

    def Popen(self, args, stdout=None, stdin=None, **k):
        c = self.c
        p = Proc()
        p.stdin, p.stdout = Pipe(c), Pipe(c)
        p.args = args
        p.exited = False
        # (as the module's __main__ block does)
        cache = args[3] == 'True'

        def run():
            try:
                self.module._process_run(cache_callable=cache)
            finally:
                p.exited = True
                p.stdout.closed = True
        v = VThread(c, run, 'proc%d' % len(self.procs))
        v.daemon = True
        self.proxy.per[v.name] = dict(stdin=Std(p.stdin),
                                      stdout=Std(p.stdout),
                                      stderr=Std(None))
        v.thread = _t.Thread(target=v._run, daemon=True)
        v.state = 'run'
        v.started = True
        v.thread.start()
        self.procs.append(p)
        return p


class Proc(object):
    pass
