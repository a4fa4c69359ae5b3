"""C14: schedulers run every task exactly once, with its callable, and give
back the results in order, whatever the interleaving."""
import itertools

from symx import coop

BOUNDS = ('up to 4 tasks, 1-3 callables, 1-2 worker threads or processes; '
          'all interleavings at locks, sleeps, pipes, thread start and end '
          'with at most 2 (thorough: 3) preemptions; all data')


def H(name, fn, **o):
    return (name, fn, o)


class Call(object):
    """a task callable x -> a*x + k"""

    def __init__(self, world, k, parent=None):
        self.world, self.k, self.parent = world, k, parent
        self.calls = 0
        self.env = 0

    def __deepcopy__(self, memo):
        c = Call(self.world, self.k, self.parent)
        c.calls, c.env = self.calls, self.env
        return c

    def setup_environment(self):
        self.world.setups.append(self.k)

    def fork(self):
        self.world.forks.append(self.k)
        return Call(self.world, self.k, self)

    def __call__(self, x):
        w = self.world
        w.S.check(self.parent is not None, 'a fork is called, not the '
                  'original')
        self.calls += 1
        w.S.check(self.calls == 1, 'every call gets a fork of its own')
        w.active += 1
        w.most = max(w.most, w.active)
        w.point()
        w.active -= 1
        w.ncalled += 1
        w.done.append(self.k)
        if self.k == 'bad':
            raise Boom()
        return w.f(self.k, x)


class Boom(Exception):
    pass


class World(object):
    def __init__(self, S, point=lambda: None):
        self.S = S
        self.point = point
        self.forks, self.done, self.setups = [], [], []
        self.active = self.most = self.ncalled = self.nstarted = 0
        self.c = [S.real('c%d' % i) for i in range(4)]

    def f(self, k, x):
        return self.c[k] * x + k


NAMES = {'n': 'new', 's': 'set', '-': 'same'}


def submit(S, sched, w, n, ncall):
    """adds n tasks with any callables; -> expected results"""
    want, cur = [], None
    pats = ncall if isinstance(ncall, list) else None
    pat = S.choose('pattern', pats) if pats else None
    for i in range(n):
        x = S.real('x%d' % i)
        opts = ['same'] if cur is not None else []
        if not pats and len(set(w.used)) < ncall:
            opts.append('new')
            opts.append('set')
        opts = opts or ['same']
        how = NAMES[pat[i]] if pat else S.choose('how%d' % i, opts)
        if how == 'same':
            sched.add_task(x)
        else:
            cur = len(w.used)
            w.used.append(cur)
            call = Call(w, cur)
            if how == 'new':
                sched.add_task(x, call)
            else:
                sched.set_task_callable(call)
                sched.add_task(x)
        want.append((cur, x))
        S.check(sched.task_counter == w.total + i + 1, 'tasks are counted')
    w.total += n
    return want


def verify(S, sched, w, want, got, ordered=True, forks=True):
    S.check(sched.n_open_tasks == 0, 'no open tasks')
    S.check(len(got) == len(want), 'as many results as tasks')
    vals = [w.f(k, x) for k, x in want]
    if ordered:
        for g, v in zip(got, vals):
            S.eq(g, v, 'the results, in order of submission')
    else:
        S.check(S.any(S.all(g == v for g, v in zip(got, p))
                      for p in itertools.permutations(vals)),
                'the results, in some order')
    S.check(sorted(w.done[-len(want):]) == sorted(k for k, x in want),
            'every task is executed once, by its callable')
    if forks:
        S.check(len(w.forks) == w.total, 'one fork per task')


def base_h(n, rounds):
    def f(S):
        import mdp
        import mdp.parallel.scheduling as sm
        w = World(S)
        w.used, w.total = [], 0
        cont = S.choose('container', ['default', 'ordered', 'list'])
        rc = {'default': None, 'ordered': sm.OrderedResultContainer(),
              'list': sm.ListResultContainer()}[cont]
        with sm.Scheduler(result_container=rc) as sched:
            for r in range(rounds):
                want = submit(S, sched, w, n, 3) if not r else \
                    submit2(S, sched, w, n, r)
                got = sched.get_results()
                verify(S, sched, w, want, list(got))
                S.check(len(list(sched.get_results())) == 0,
                        'results are handed out once')
        S.check(w.most <= 1, 'one after the other')
        S.reach('end')
    return f


def submit2(S, sched, w, n, r):
    want = []
    for i in range(n):
        x = S.real('y%d_%d' % (r, i))
        sched.add_task(x)
        want.append((w.used[-1], x))
    w.total += n
    return want


def plain_h():
    """functions are wrapped; no callable, failing callables"""
    def f(S):
        import mdp.parallel.scheduling as sm
        sched = sm.Scheduler()
        x = S.vec('x', 3)
        c = S.real('c')
        # (a lock that is not released would block for ever)
        lk = coop.Coop(S)
        sched._lock = coop.Lock(lk)
        S.check(len(list(sched.get_results())) == 0, 'nothing yet')
        S.must_raise(Exception, 'a task without callable is refused',
                     sched.add_task, x[0])
        S.check(sched.n_open_tasks == 0, 'the refused task is not open')

        def g(v):
            return c * v
        if S.choose('set', [False, True]):
            sched.set_task_callable(g)
            sched.add_task(x[0])
        else:
            sched.add_task(x[0], g)
        sched.add_task(x[1])
        if S.choose('fail', [False, True]):
            def bad(v):
                raise Boom()
            S.must_raise(Boom, 'a failing task raises', sched.add_task,
                         x[2], bad)
            S.check(sched.n_open_tasks == 0, 'the failed task is not open')
            sched.add_task(x[2], g)
        else:
            sched.add_task(x[2])
        got = sched.get_results()
        S.check(len(got) == 3, 'three results')
        for a, b in zip(got, x):
            S.eq(a, c * b, 'results in order')
        S.reach('end')
    return f


def thread_h(n, nthreads, preempt, ncall=2, rounds=1, ordered=True,
             copy=True, spurious=0, only=None):
    def f(S):
        import mdp.parallel.scheduling as sm
        import mdp.parallel.thread_schedule as tm
        cp = coop.Coop(S, preempt, spurious, only)
        for m in (sm, tm):
            S.patch(m, 'threading', cp.threading())
            S.patch(m, 'time', cp.time())
        S.patch(tm, 'pickle', coop.Pickle(cp))
        w = World(S, cp.point)
        w.used, w.total = [], 0

        def started(v):
            # (all threads that have been started can go on at any time)
            w.nstarted += 1
            S.check(w.nstarted - w.ncalled <= nthreads,
                    'no more tasks at once than threads')
        cp.on_start = started
        cp.fixed = bool(only)
        sched = coop.watched(tm.ThreadScheduler, cp)(
            n_threads=nthreads, copy_callable=copy,
            result_container=None if ordered else sm.ListResultContainer())
        sched._symx_ready = True
        try:
            for r in range(rounds):
                want = submit(S, sched, w, n, ncall) if not r else \
                    submit2(S, sched, w, n, r)
                got = sched.get_results()
                verify(S, sched, w, want, list(got), ordered)
            sched.shutdown()
            cp.finish()
        except coop.Hang:
            S.fail('every task finishes and get_results returns')
            return
        S.check(w.most <= nthreads, 'no more tasks at once than threads')
        S.check(not cp.alive(), 'no thread is left behind')
        for v in cp.threads:
            S.check(v.uncaught is None, 'no thread fails')
        S.reach('end')
        if w.most > 1:
            S.reach('parallel')
    return f


def process_h(n, nproc, preempt, ncall=2, rounds=1, cache=True, spurious=0):
    def f(S):
        import sys
        import mdp.parallel.scheduling as sm
        import mdp.parallel.process_schedule as pm
        cp = coop.Coop(S, preempt, spurious)
        for m in (sm, pm):
            S.patch(m, 'threading', cp.threading())
            S.patch(m, 'time', cp.time())
        proxy = coop.ThreadLocalProxy(cp, sys)
        S.patch(pm, 'sys', proxy)
        S.patch(pm, 'pickle', coop.Pickle(cp))
        S.patch(pm, 'traceback', coop.Quiet())
        sub = coop.Subprocess(cp, pm, proxy)
        S.patch(pm, 'subprocess', sub)
        w = World(S, cp.point)
        w.used, w.total = [], 0
        sched = coop.watched(pm.ProcessScheduler, cp)(
            n_processes=nproc, cache_callable=cache)
        sched._symx_ready = True
        try:
            for r in range(rounds):
                want = submit(S, sched, w, n, ncall) if not r else \
                    submit2(S, sched, w, n, r)
                got = sched.get_results()
                verify(S, sched, w, want, list(got), forks=False)
            try:
                sched.shutdown()
            except Exception as e:
                S.fail('the scheduler can be shut down once the results are '
                       'there: %s' % e, key='shutdown')
                return
            cp.finish()
        except coop.Hang:
            S.fail('every task finishes and get_results returns')
            return
        S.check(len(sub.procs) == nproc, 'number of processes')
        S.check(all(p.exited for p in sub.procs), 'all processes exit')
        S.check(w.most <= nproc, 'no more tasks at once than processes')
        S.check(not cp.alive(), 'no thread is left behind')
        for v in cp.threads:
            S.check(v.uncaught is None, 'no thread fails')
        S.reach('end')
        if len([p for p in sub.procs if p.stdin.loads > 1]) > 1:
            S.reach('parallel')
    return f


def container_h():
    """the ordered container, for results of tasks added in any order"""
    def f(S):
        import mdp.parallel.scheduling as sm
        cont = sm.OrderedResultContainer()
        for r in range(2):
            left = [2, 9, 10, 100]
            k = 3 if not r else 2
            idx, vals = [], []
            for i in range(k):
                j = S.choose('i%d_%d' % (r, i), left)
                left = [q for q in left if q != j]
                v = S.real('v%d_%d' % (r, i))
                cont.add_result(v, j)
                idx.append(j)
                vals.append(v)
            got = cont.get_results()
            want = [v for j, v in sorted(zip(idx, vals),
                                         key=lambda q: q[0])]
            S.check(len(got) == k, 'as many results as tasks')
            for a, b in zip(got, want):
                S.eq(a, b, 'the results, in order of submission')
        S.check(len(list(cont.get_results())) == 0, 'handed out once')
        S.reach('end')
    return f


def harnesses(tier):
    hs = []
    q = tier == 'quick'
    hs.append(H('base/3', base_h(3, 2), reach=['end']))
    hs.append(H('plain', plain_h(), reach=['end']))
    hs.append(H('container', container_h(), reach=['end']))
    par = ['end', 'parallel']

    def add(name, fn, reach=par, **o):
        hs.append(H(name, fn, reach=reach, max_paths=400000, **o))
    one = ['end']
    P2 = ['n-', 'nn', 'ns', 'sn', 's-', 'ss']
    P3 = ['nn-', 'n-n', 'ns-', 'nsn']
    if q:
        add('thread/n2t1', thread_h(2, 1, 2, P2), one, weight=2)
        add('thread/n2t2', thread_h(2, 2, 2, ['n-', 'ns']), weight=4)
        add('thread/nocopy', thread_h(2, 2, 1, ['nn', 's-'], copy=False))
        add('thread/n3t2', thread_h(3, 2, 1, ['nsn', 'nn-']), weight=4)
        add('process/n2p1', process_h(2, 1, 1, P2), one, weight=2)
        add('process/n2p2', process_h(2, 2, 1, ['n-', 'nn', 'ns']), weight=4)
        add('process/n3p1', process_h(3, 1, 1, P3), one)
        add('process/n3p2', process_h(3, 2, 0, ['nn-', 'nsn']), weight=4)
        add('process/nocache', process_h(2, 1, 1, ['nn', 's-'], cache=False),
            one)
    else:
        add('thread/n2t1', thread_h(2, 1, 2, P2), one, budget_s=800)
        add('thread/n2t2', thread_h(2, 2, 2, P2), budget_s=800)
        add('thread/nocopy', thread_h(2, 2, 2, P2, copy=False),
            budget_s=800)
        add('thread/n3t2', thread_h(3, 2, 1, P3), budget_s=800)
        add('thread/n3t3', thread_h(3, 3, 1, P3), budget_s=800)
        add('process/n2p1', process_h(2, 1, 2, P2), one, budget_s=800)
        add('process/n2p2', process_h(2, 2, 2, P2), budget_s=800)
        add('process/n3p2', process_h(3, 2, 1, P3), budget_s=800)
        add('process/nocache', process_h(2, 2, 2, P2, cache=False),
            budget_s=800)
    add('thread/spurious', thread_h(2, 1, 1, ['n-'], spurious=1), one)
    add('thread/spurious3', thread_h(3, 2, 1, ['n--'], spurious=1))
    add('process/spurious', process_h(2, 1, 1, ['n-'], spurious=1), one)
    add('thread/n4t2', thread_h(4, 2, 2, ['n---'], only=('start', 'attr')),
        one)
    add('thread/rounds', thread_h(1, 2, 1, ['n'], 2), one)
    add('process/rounds', process_h(1, 2, 1, ['n'], 2), one)
    add('thread/list', thread_h(2, 2, 1, ['nn'], ordered=False))
    return hs
