"""Lock pairing: every lock taken is released on every path; no lock is released or destroyed while not / still held."""
from common import *
from locks import LockMon, TAKE, DROP
from driver import *

DESTROY = {'pthread_mutex_destroy', 'pthread_rwlock_destroy'}


class PairMon(LockMon):
    names = frozenset(TAKE | DROP | DESTROY | {'pthread_cond_wait', 'pthread_cond_timedwait'})

    def __init__(self, prog, start=None, end=None):
        LockMon.__init__(self)
        self.prog, self.start, self.end = prog, start, end


    def call(self, itp, st, ins, name, args, ctx):
        if name in DESTROY:
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            for q, n in st.mon:
                if q is args[0]:
                    itp.report('destroyed-while-held', ins, ctx, 'destroys %s while holding it' % desc(q), st)
        elif name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            if len(args) > 1 and not any(q is args[1] for q, n in st.mon):
                itp.report('wait-without-lock', ins, ctx, 'waits on a condition without holding %s' % desc(args[1]), st)
        return None

    # the logger is analysed as an entry point of its own
    def interesting(self, prog, f, ins):
        return self.root_log and self.loglock(ins)

    root_log = False
    inline_never = frozenset(('log_log',))

    def loglock(self, ins):
        """call through the lock callback of the logger: a store of the callback anywhere is in log_set_lock"""
        if ins.op != 'call' or ins.extra[0] != 'l':
            return False
        t = self.prog._ev.get('loglock')
        if t is None:
            f = self.prog.funcs.get('log_set_lock')
            t = set()
            if f is not None:
                for bn in f.order:
                    for i in f.blocks[bn].insts:
                        if i.op == 'store':
                            t.add(repr(i.args[1][1]))
            self.prog._ev['loglock'] = t
        f = ins.fn
        defs = self.prog._ev.get(('d', f))
        if defs is None:
            defs = self.prog._ev[('d', f)] = {i.res: i for bn in f.order for i in f.blocks[bn].insts if i.res is not None}
        d = defs.get(ins.extra[1])
        return d is not None and d.op == 'load' and repr(d.args[0][1]) in t

    def icall(self, itp, st, ins, cv, args, ctx):
        if self.loglock(ins) and len(args) == 2:
            self.sites.add('%s:%s log lock' % (ins.fn.file, ins.line))
            c = st.const(args[1])
            d = dict(st.mon)
            p = V('G', None, 'the log lock')
            if c is None:
                itp.report('unlock-not-held', ins, ctx, 'calls the lock callback of the log with an unknown operation', st)
            elif c == 0:
                if d.get(p, 0) == 0:
                    itp.report('unlock-not-held', ins, ctx, 'releases the lock of the log, which is not held here', st)
                d.pop(p, None)
            else:
                d[p] = 1
            st.mon = tuple(sorted(d.items(), key=lambda x: x[0].n))
            return [(None, st)]
        return None

    def ret(self, itp, st, ins, val, ctx):
        if self.end is not None:
            if len(st.mon) != self.end:
                itp.report('log-lock-callback', None, ctx, 'the lock callback of the log leaves %d locks held instead of %d' % (
                    len(st.mon), self.end), st)
            return
        self.left(itp, st, None, ctx, 'returns')


def lock_callbacks(prog):
    """functions handed to log_set_lock"""
    out = set()
    for f in prog.funcs.values():
        for bn in f.order:
            for i in f.blocks[bn].insts:
                if i.op == 'call' and i.extra == ('g', 'log_set_lock'):
                    n = prog.callee_name(f.mod, i.args[0][1])
                    if n:
                        out.add(n)
    return out


def cb_job(prog, f, n):
    def setup(itp, st, vals, ctx):
        vals[1] = C(n)
        if n == 0:
            st.mon = ((vals[0], 1),)
    return dict(root=f, setup=setup, name='%s(lock=%d)' % (f, n), mon=(n, 1 if n else 0))


def analyse(prog, extra_roots=()):
    cbs = lock_callbacks(prog)
    jobs = [dict(root=r) for r in roots(prog, cbs)] + [dict(root=r) for r in extra_roots]
    for c in cbs:
        jobs += [cb_job(prog, c, 1), cb_job(prog, c, 0)]

    def mk(j):
        m = j.get('mon')
        mon = PairMon(prog, None, m[1] if m else None)
        if m:
            mon.LOCKFAIL = False
        if j['root'] == 'log_log':
            mon.root_log = True
        return mon
    return explore(prog, mk, jobs)


def check(tier):
    run = Run()
    for w, m in build.load({'server', 'echo', 'broadcast', 'deflate'}).items():
        prog = Program(m)
        run.add(analyse(prog, ['log_log'] if w == 'server' else []))
    st = analyse(selftest_program('p01.c', 'p01'))
    got = sorted({(r['rule'], r['function']) for r in st.reports})
    want = [('destroyed-while-held', 'd'), ('held-at-exit', 'a'), ('unlock-not-held', 'b')]
    if got != want:
        raise AnalysisError('self-test: expected %s, got %s' % (want, got))
    cov = run.cover()
    cov['explanation'] = ('every path through every thread, callback, plugin entry point and main was followed with the '
                          'multiset of locks held, including the paths on which a lock function, an allocation or a system '
                          'call fails; the set must be empty where the path ends')
    if not run.reports and cov['rule_instances'] < 90:
        raise AnalysisError('only %d lock sites found' % cov['rule_instances'])
    return run.reports, cov, ['code of rpmalloc and OpenSSL takes no lock of the server']
