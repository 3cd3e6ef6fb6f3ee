"""Every task the pool accepts is run exactly once: schedules of adding, running, sleeping and shutting down, over the abstract
effect of the pool's functions, against a first-in first-out queue."""
import itertools
from common import *
from driver import *
import engine
import interp
import nest

CREATE, ADD, DESTROY = 'threadpool_create', 'threadpool_add', 'threadpool_destroy'
FULL, SHUT = -3, -4
GRACEFUL = 1
MAXTASKS = 9
# position in the schedule, accepted and not taken, tasks accepted, tasks run, wake-ups given, workers asleep,
# shutdown (0 no, 1 at once, 2 graceful), mutexes held, threads started, threads ended, pool freed, threads created, creations tried
M = ('pos', 'queue', 'added', 'ran', 'tokens', 'parked', 'shut', 'held', 'started', 'ended', 'freed', 'created', 'tried', 'gap')


class S(tuple):
    __slots__ = ()


for _i, _n in enumerate(M):
    setattr(S, _n, property(lambda self, i=_i: self[i]))


class PoolMon(nest.Nest):
    names = frozenset({'pthread_create', 'pthread_join', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast',
                       'pthread_mutex_lock', 'pthread_mutex_unlock'})
    inline_never = frozenset({'log_log', 'rpmalloc_thread_initialize', 'rpmalloc_thread_finalize'})

    def __init__(self, prog, job):
        nest.Nest.__init__(self, prog)
        self.job = job
        self.pool = None
        self.threads = {}
        self.stopped = None     # states at the first join of a shutdown inside
        self.done = 0
        self.sched = ''
        self.failing = job['fail'] >= 0

    def init(self):
        m = dict.fromkeys(M, 0)
        m['queue'] = ()
        return S(m[n] for n in M)

    def put(self, st, **kw):
        st.mon = S(kw.get(n, v) for n, v in zip(M, st.mon))

    def bad(self, itp, st, ins, ctx, rule, msg):
        if ins is None and isinstance(ctx, str):
            ctx = interp.Ctx(None, None, self.prog.need(ctx))
        itp.report(rule, ins, ctx, msg + ' (%d workers, queue of %d, schedule %s)' % (
            self.job['workers'], self.job['size'], self.sched or '-'), st, key=rule)

    def add(self, itp, st, ctx, ins, slack=0):
        n = st.mon.added
        if n >= MAXTASKS:
            return [st]
        out = []
        asleep = st.mon.parked > st.mon.tokens
        n0 = len(st.mon.queue)
        room = n0 < self.job['size'] and not st.mon.shut
        most = n0 - slack < self.job['size'] and not st.mon.shut
        before = st.mon.tokens
        for r, s in self.nested(itp, st, ADD, [self.pool, V('fn', '$task%d' % n), V('fn', '$arg%d' % n), ZERO], 'op'):
            c = s.const(r)
            if c is None:
                raise AnalysisError('result of adding a task is not known')
            c = c - (1 << 32) if c >= 1 << 31 else c
            if c == 0:
                if not most:
                    self.bad(itp, s, None, ADD, 'accepted', 'a task is accepted although %s' % (
                        'the pool is shut down' if s.mon.shut else 'the queue is full'))
                    continue
                if asleep and s.mon.tokens == before:
                    self.bad(itp, s, None, ADD, 'asleep', 'a task is accepted and no sleeping worker woken')
                    continue
                self.put(s, queue=s.mon.queue + (n,), added=n + 1)
            elif room:
                self.bad(itp, s, None, ADD, 'refused', 'a task is refused (%d) although there is room' % c)
                continue
            if s.mon.held:
                self.bad(itp, s, None, ADD, 'lock', 'adding a task leaves the lock taken')
                continue
            out.append(s)
        return out

    def start(self, itp, st, ctx):
        """another worker runs, until it ends"""
        m = st.mon
        if m.started >= m.created:
            return [st]
        i = m.started
        self.put(st, started=i + 1)
        f, a = self.threads[i]
        out = []
        for r, s in self.nested(itp, st, f, [a], 'worker'):
            if self.end(itp, s, ctx, None):
                out.append(s)
        return out

    def end(self, itp, st, ctx, ins):
        m = st.mon
        if not m.shut:
            self.bad(itp, st, ins, ctx, 'ends', 'a worker ends although the pool is not shut down')
            return False
        if m.shut == 2 and m.queue:
            self.bad(itp, st, ins, ctx, 'lost', 'a worker ends at a graceful shutdown although tasks are waiting')
            return False
        if m.held:
            self.bad(itp, st, ins, ctx, 'lock', 'a worker ends with the lock taken')
            return False
        self.put(st, ended=m.ended + 1)
        return True

    def destroy(self, itp, st, ctx, flag):
        """shut down while workers are at work: up to where they are waited for"""
        if st.mon.shut:
            return [st]
        old, self.stopped = self.stopped, []
        env = dict(st.env)
        for r, s in self.nested(itp, st, DESTROY, [self.pool, C(flag)], 'op'):
            self.bad(itp, s, None, DESTROY, 'wait', 'a shutdown returns although workers have not ended')
        out, self.stopped = self.stopped, old
        for s in out:
            s.env = dict(env)
        return out

    def env(self, itp, st, ctx, ins, where):
        """what else happens before the innermost activation goes on"""
        work, out = [st], []
        while work:
            s = work.pop()
            m = s.mon
            a = self.sched[m.pos] if m.pos < len(self.sched) else 'r'
            if a == 'r' and where != 'top' and (m.pos < len(self.sched) or m.shut):
                self.put(s, pos=min(m.pos + 1, len(self.sched)))
                out.append(s)
                continue
            if m.pos >= len(self.sched):
                if where == 'top':
                    out.append(s)
                elif not m.shut:
                    # shut down in the end
                    work += self.destroy(itp, s, ctx, self.job['flag'])
                continue
            self.put(s, pos=m.pos + 1)
            if a == 'a':
                work += self.add(itp, s, ctx, ins)
            elif a == 's':
                work += self.start(itp, s, ctx)
            elif a == 'd':
                work += self.destroy(itp, s, ctx, self.job['flag']) if where != 'top' else [s]
            else:
                work.append(s)
        return out

    # -- events
    def call(self, itp, st, ins, name, args, ctx):
        m = st.mon
        if name.startswith('$task'):
            return self.task(itp, st, ins, int(name[5:]), args, ctx)
        if name in ('pthread_mutex_lock', 'pthread_spin_lock'):
            self.site(ins, 'lock')
            if m.freed:
                self.bad(itp, st, ins, ctx, 'freed', 'the pool is used after it was freed')
                return []
            self.put(st, held=m.held + 1)
            return [(ZERO, st)]
        if name == 'pthread_mutex_unlock':
            self.put(st, held=m.held - 1)
            if self.stack and self.stack[-1] == 'worker' and self.job['gap'] and not m.gap and m.held == 1:
                self.put(st, gap=1)
                out = [st]
                for _ in range(self.job['gap']):
                    out = [s for x in out for s in self.add(itp, x, ctx, ins, 1)]
                return [(ZERO, s) for s in out]
            return [(ZERO, st)]
        if name in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            self.site(ins, 'wake')
            n = m.parked if name.endswith('broadcast') else min(m.tokens + 1, m.parked)
            self.put(st, tokens=n)
            return [(ZERO, st)]
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            self.site(ins, 'sleep')
            if m.held != 1:
                self.bad(itp, st, ins, ctx, 'lock', 'a worker goes to sleep without holding the lock once')
                return []
            if m.shut:
                self.bad(itp, st, ins, ctx, 'end', 'a worker goes to sleep after the shutdown, which then waits for it for ever')
                return []
            if m.queue:
                self.bad(itp, st, ins, ctx, 'asleep', 'a worker goes to sleep although a task is waiting')
                return []
            self.put(st, parked=m.parked + 1, held=0)
            out = []
            for s in self.env(itp, st, ctx, ins, 'sleep'):
                k = s.mon
                self.put(s, parked=k.parked - 1, tokens=max(0, k.tokens - 1), held=1)
                out.append((ZERO, s))
            return out
        if name == 'pthread_create':
            self.site(ins, 'create')
            if m.tried == self.job['fail']:
                self.put(st, tried=m.tried + 1)
                return [(C(11), st)]
            if args[2].k != 'fn' or args[2].a not in self.prog.funcs:
                raise AnalysisError('what a worker runs is not known')
            self.threads[m.created] = (args[2].a, args[3])
            self.put(st, tried=m.tried + 1, created=m.created + 1)
            return [(ZERO, st)]
        if name == 'pthread_join':
            self.site(ins, 'join')
            if m.held:
                self.bad(itp, st, ins, ctx, 'lock', 'a shutdown waits for a worker with the lock taken')
                return []
            if m.tokens < m.parked:
                self.bad(itp, st, ins, ctx, 'end', 'a shutdown does not wake all sleeping workers')
                return []
            if not m.shut:
                self.put(st, shut=self.flag())
            if self.stopped is not None:
                if not any(self.same(s, st) for s in self.stopped):
                    self.stopped.append(st.copy())
                return []
            return [(ZERO, s) for s in self.start(itp, st, ctx)]
        if name.startswith('pthread_') and name not in interp.NORETURN and name not in self.prog.funcs:
            return [(ZERO, st)]
        if name in interp.FREES:
            o = args[0]
            if self.pool is not None and o is self.pool:
                self.site(ins, 'free')
                if m.ended < m.created:
                    self.bad(itp, st, ins, ctx, 'freed', 'the pool is freed although %d of %d workers have not ended' % (m.created - m.ended, m.created))
                    return []
                self.put(st, freed=1)
            return [(None, st)]
        return None

    def same(self, a, b):
        return a.mon == b.mon

    def flag(self):
        return 2 if self.job['flag'] & GRACEFUL and not self.failing else 1

    def task(self, itp, st, ins, n, args, ctx):
        m = st.mon
        self.site(ins, 'task')
        if n not in m.queue:
            self.bad(itp, st, ins, ctx, 'twice', 'a task is run again, or before it is accepted')
            return []
        if m.queue[0] != n:
            self.bad(itp, st, ins, ctx, 'order', 'a task is run before an earlier one, which is skipped')
            return []
        if not args or args[0] is not V('fn', '$arg%d' % n):
            self.bad(itp, st, ins, ctx, 'argument', 'a task is run with something else than its argument')
            return []
        if m.held:
            self.bad(itp, st, ins, ctx, 'lock', 'a task is run with the lock of the pool taken')
            return []
        self.put(st, queue=m.queue[1:], ran=m.ran + 1, gap=0)
        return [(None, s) for s in self.env(itp, st, ctx, ins, 'task')]

    def icall(self, itp, st, ins, cv, args, ctx):
        self.bad(itp, st, ins, ctx, 'order', 'a worker runs something else than the task it took')
        return []

    def noreturn(self, itp, st, ins, name, ctx):
        if name == 'pthread_exit' and self.stack and self.stack[-1] == 'worker':
            self.exits.append(st.copy())

    # -- the whole
    def ret(self, itp, st, ins, val, ctx):
        if ins is not None:
            return
        if self.stack:
            return
        n = self.job['workers']
        if st.const(val) == 0:
            if self.job['fail'] < 0:
                self.bad(itp, st, ins, ctx, 'create', 'the pool is not created')
            elif st.mon.ended < st.mon.created:
                self.bad(itp, st, ins, ctx, 'create', 'a pool that could not be created leaves workers behind')
            self.done += 1
            return
        if self.job['fail'] >= 0:
            self.bad(itp, st, ins, ctx, 'create', 'a pool with a worker missing is handed out')
            return
        self.pool = val
        self.keep = frozenset(engine.syms(val))
        if st.mon.created != n:
            self.bad(itp, st, ins, ctx, 'create', 'the pool has %d workers instead of %d' % (st.mon.created, n))
            return
        for sched in self.job['scheds']:
            self.sched = sched
            ends = []
            for s in self.env(itp, st.copy(), ctx, ins, 'top'):
                if s.mon.shut:
                    # the workers not started yet
                    todo = [s]
                    for _ in range(n):
                        todo = [y for x in todo for y in self.start(itp, x, ctx)]
                    ends += todo
                else:
                    for r, y in self.nested(itp, s, DESTROY, [self.pool, C(self.job['flag'])], 'op'):
                        if y.const(r) != 0:
                            self.bad(itp, y, None, DESTROY, 'end', 'the shutdown fails')
                            continue
                        if not y.mon.freed:
                            self.bad(itp, y, None, DESTROY, 'freed', 'the shutdown does not free the pool')
                            continue
                        ends.append(y)
            for s in ends:
                m = s.mon
                if m.ended != m.created:
                    self.bad(itp, s, None, DESTROY, 'wait', 'a shutdown does not wait for all workers')
                elif m.queue and self.job['flag'] & GRACEFUL:
                    self.bad(itp, s, None, DESTROY, 'lost', 'accepted tasks are lost at a graceful shutdown')
                else:
                    self.done += 1

    def finish(self, itp):
        return self.done

    def setup(self, itp, st, vals, ctx):
        vals[0:4] = [C(self.job['workers']), C(self.job['size']), C(1 << 16), ZERO]


def check(tier):
    prog = build.program('server')
    jobs = []
    n = 8 if tier == 'thorough' else 6
    for workers in (1, 2, 3):
        for size in (1, 2, 3):
            scheds = [''.join(x) for k in range(n + 1) for x in itertools.product('asr', repeat=k) if not k or x[-1] == 'a' or k == n]
            # what cannot matter: a return outside of workers, more starts than workers
            scheds = sorted({s.lstrip('r') for s in scheds if s.count('s') <= workers})
            scheds = [s for s in scheds if 'rrrr' not in s]
            for flag in (1, 0):
                for gap in (0, 1, size):
                    if gap == 1 and size == 1:
                        continue
                    k = 4 if tier == 'quick' else 1
                    for i in range(0, len(scheds), 250):
                        jobs.append(dict(workers=workers, size=size, flag=flag, gap=gap, fail=-1, scheds=scheds[i:i + 250]))
    for workers in (1, 2, 3):
        for i in range(workers):
            jobs.append(dict(workers=workers, size=2, flag=0, gap=0, fail=i, scheds=()))

    def mk(j):
        m = PoolMon(prog, j)
        j['setup'] = m.setup
        return m
    for j in jobs:
        j['root'] = CREATE
    run = explore(prog, mk, jobs, 20000000, stop=24)
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j for j, x in run.extra if not x][:1])
    for w in ('create', 'join', 'sleep', 'wake', 'task', 'free', 'lock'):
        if not run.reports and not any(s.endswith(w) for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    # the server shuts its pools down gracefully
    callers = 0
    for f in prog.funcs.values():
        if f.file == prog.need(DESTROY).file:
            continue
        for b in f.order:
            for ins in f.blocks[b].insts:
                if ins.op == 'call' and ins.extra[0] == 'g' and ins.extra[1] == DESTROY:
                    callers += 1
                    x = ins.args[1][1]
                    if x[0] == 'c' and not x[1] & GRACEFUL:
                        run.reports.append(report('lost', f, ins, 'shuts the pool down without running the accepted tasks'))
    cov = run.cover()
    cov['entry_points'] = 3
    cov['schedules'] = sum(len(j['scheds']) for j in jobs)
    cov['shutdowns'] = callers
    return run.reports, cov, [
        'a worker runs its function as one activation: other threads act while it sleeps, while it runs a task and, as far as tasks are '
        'added, right after it released the lock; within the lock nothing interferes (P01, P03)',
        'creating threads may fail; taking a lock, signalling and joining does not']
