"""Typestate of sessions: who may use a session, and when it may be freed."""
from common import *
from locks import TAKE, DROP
from engine import desc
import engine

S = 'struct.wss_session_t'
# states of a session as one thread sees it
NEW, OWN, WAITED, FREED, GONE = 'new', 'own', 'waited', 'freed', 'released'


def base_of(p):
    """the session a location belongs to"""
    q = p
    while q.k in ('F', 'I'):
        if q.k == 'F' and q.b == S:
            return q.a, q.c
        q = q.a
    return None, None


def sorted_mon(d):
    return tuple(sorted(d.items(), key=lambda x: x[0].n))


class SessMon(Monitor):
    """mon = (locks, sessions); locks: ((location, count)..); sessions: ((base, (jobs, state))..)"""
    names = frozenset(TAKE | DROP | {'WSS_session_add', 'pthread_cond_signal', 'pthread_cond_broadcast'})
    LOCKFAIL = False
    # also follow locks that are neither global nor part of a session
    ALL_LOCKS = False
    MODINT = True
    MODSIZE = 60
    K = 4
    KRET = 4

    def __init__(self, prog):
        self.prog = prog
        self.sites = set()
        x = prog.fidx
        n = 'wss_session_t'
        self.f = {k: x(n, k) for k in ('jobs', 'disconnecting', 'lock_jobs', 'lock_disconnecting', 'fd', 'hh', 'cond_jobs')}

    def init(self):
        return ((), ())

    def rename(self, mon, sub):
        return (tuple((sub(a), b) for a, b in mon[0]), tuple((sub(a), b) for a, b in mon[1]))

    def mon_syms(self, mon):
        s = set()
        for a, b in mon[0] + mon[1]:
            s |= syms(a)
        return s

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and c[1] == S
        return False

    def get(self, st, b):
        for a, x in st.mon[1]:
            if a is b:
                return x
        return (0, None)

    def put(self, st, b, x):
        d = dict(st.mon[1])
        if x == (0, None):
            d.pop(b, None)
        else:
            d[b] = x
        st.mon = (st.mon[0], sorted_mon(d))

    def site(self, ins, what):
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, what))

    def table_locked(self, st):
        return any(a.k == 'G' for a, n in st.mon[0])

    def held(self, st, base, fld):
        return any(a.k == 'F' and a.b == S and a.c == fld and a.a is base for a, n in st.mon[0])

    def project(self, itp, st, g, args):
        out = {}
        for k, v in st.mem.items():
            if k.k == 'F' and k.b == S and k.c in (self.f['jobs'], self.f['disconnecting']) and any(k.a is a for a in args):
                out[k] = v
        return out

    # -- uses
    def deref(self, itp, st, ins, p, ctx):
        b, fld = base_of(p)
        if b is None or root(b).k == 'G':
            return
        self.site(ins, 'use')
        j, s = self.get(st, b)
        if j > 0 or s in (NEW, OWN, WAITED):
            return
        if s == FREED:
            itp.report('use-after-free', ins, ctx, 'uses the session %s after it has been freed' % desc(b), st)
            return
        if s == GONE:
            if self.held(st, b, self.f['lock_jobs']):
                # whoever waits for the jobs cannot go on before this lock is released
                return
            itp.report('use-after-release', ins, ctx,
                       'uses the session %s after releasing the job on it: another thread may have freed it' % desc(b), st)
            return
        if self.table_locked(st):
            return
        if root(b).k == 'o' and root(b).b == 'heap':
            return
        itp.report('use-without-job', ins, ctx, 'uses the session %s without a job on it and without holding the lock of '
                   'the session table: another thread may free it' % desc(b), st)

    def store(self, itp, st, ins, p, v, ctx):
        b, fld = base_of(p)
        if b is None or p.k != 'F' or p.b != S:
            return
        if fld == self.f['jobs']:
            self.site(ins, 'jobs')
            k = delta(st, p, v)
            j, s = self.get(st, b)
            if k is None:
                if root(b).k == 'o':
                    return
                itp.report('job-count', ins, ctx, 'sets the number of jobs to a value that is not derived from it', st)
                return
            if not self.held(st, b, self.f['lock_jobs']):
                itp.report('job-unlocked', ins, ctx, 'changes the number of jobs without holding lock_jobs', st)
            if k > 0:
                if j == 0 and s not in (NEW, OWN, WAITED):
                    if not self.table_locked(st):
                        itp.report('job-too-late', ins, ctx, 'registers a job on %s when the session table is not locked: '
                                   'it may have been freed' % desc(b), st)
                    elif not (self.held(st, b, self.f['lock_disconnecting']) and
                              self.is_false(st, F(b, S, self.f['disconnecting']))):
                        itp.report('job-on-disconnecting', ins, ctx, 'registers a job on %s without ruling out, under '
                                   'lock_disconnecting, that it is being disconnected' % desc(b), st)
                self.put(st, b, (min(4, j + k), None if s in (GONE, NEW) else s))
            else:
                if j + k < 0:
                    itp.report('job-not-held', ins, ctx, 'releases a job on %s that it does not hold' % desc(b), st)
                    j = -k
                n = j + k
                self.mark(st, b, True)
                self.put(st, b, (n, s if s or n else GONE))
        elif fld == self.f['disconnecting']:
            c = st.const(v)
            j, s = self.get(st, b)
            self.site(ins, 'disconnecting')
            if c == 0:
                if s is not None or root(b).k != 'o':
                    itp.report('reset-disconnecting', ins, ctx, 'a session that is being disconnected is made usable again', st)
                return
            if self.is_false(st, p) and self.held(st, b, self.f['lock_disconnecting']):
                self.put(st, b, (j, OWN))

    def is_false(self, st, p):
        v = st.mem.get(p)
        if v is None:
            return False
        if st.const(v) == 0:
            return True
        if st.rng(v)[1] == 0 and st.rng(v)[0] == 0:
            return True
        t = engine.cast('trunc', v, 8, 1)
        return t is not None and st.truth(t) is False

    def mark(self, st, b, on):
        """whoever waits for the jobs on b must be woken up"""
        d = dict(st.mon[0])
        l = F(b, S, self.f['lock_jobs'])
        if l in d:
            d[l] = d[l] % 16 + (16 if on else 0)
        st.mon = (sorted_mon(d), st.mon[1])

    # -- calls
    def call(self, itp, st, ins, name, args, ctx):
        if name in FREES:
            p = args[0]
            j, s = self.get(st, p)
            if s is None and j == 0 and not (p.k == 's' and self.session_typed(st, p)):
                return None
            self.site(ins, 'free')
            if s == FREED:
                itp.report('double-free', ins, ctx, 'frees the session %s twice' % desc(p), st)
            elif s in (OWN, NEW):
                itp.report('free-without-wait', ins, ctx, 'frees the session %s without waiting for the jobs other threads '
                           'hold on it' % desc(p), st)
            elif s != WAITED:
                itp.report('free-not-owner', ins, ctx, 'frees the session %s without being the thread that disconnects it' % desc(p), st)
            elif j > 0:
                itp.report('free-with-job', ins, ctx, 'frees the session %s while holding a job on it' % desc(p), st)
            if s is not None or j:
                self.put(st, p, (0, FREED))
        return None

    def session_typed(self, st, p):
        return any(k.k == 'F' and k.b == S and k.a is p for k in st.mem)

    def post_call(self, itp, st, ins, name, args, ret, ctx):
        if name == 'WSS_session_add' and ret is not None:
            if st.const(ret) != 0:
                self.site(ins, 'add')
                self.put(st, ret, (0, NEW))
            return
        if name.startswith('pthread_cond_'):
            b, fld = base_of(args[0])
            if b is not None and fld == self.f['cond_jobs']:
                self.site(ins, 'wake')
                self.mark(st, b, False)
            return
        if name in TAKE or name in DROP:
            p = args[0]
            d = dict(st.mon[0])
            n = d.get(p, 0)
            if name in DROP:
                b, fld = base_of(p)
                if b is not None and fld == self.f['lock_jobs']:
                    j, s = self.get(st, b)
                    v = st.mem.get(F(b, S, self.f['jobs']))
                    if n >= 16:
                        n -= 16
                        if v is None or not (engine.fexcl(st.rng(v), 0) or st.cmp('eq', v, ZERO, 32) is False):
                            itp.report('lost-wakeup', ins, ctx, 'the last job on %s may be released without waking up the '
                                       'thread that waits to free it' % desc(b), st)
                    if s == OWN and j == 0 and v is not None:
                        r = st.rng(v)
                        if r[1] is not None and r[1] <= 0:
                            self.site(ins, 'waited')
                            self.put(st, b, (j, WAITED))
                if n <= 1 or n in (4, 8):
                    d.pop(p, None)
                else:
                    d[p] = n - 1
            elif ret is None or st.const(ret) == 0:
                if p.k != 'G' and base_of(p)[0] is None and not self.ALL_LOCKS:
                    return
                d[p] = 8 if 'wrlock' in name else min(3, n + 1)
            st.mon = (sorted_mon(d), st.mon[1])

    def left(self, itp, st, ins, ctx):
        for b, (j, s) in st.mon[1]:
            if s == FREED:
                continue
            if s in (OWN, WAITED):
                itp.report('not-freed', ins, ctx, 'the session %s was disconnected but is never freed' % desc(b), st)
            elif j > 0:
                itp.report('job-leak', ins, ctx, 'ends without releasing the job on %s: the session can never be freed' % desc(b), st)

    def ret(self, itp, st, ins, val, ctx):
        self.left(itp, st, ins, ctx)

    def noreturn(self, itp, st, ins, name, ctx):
        if name == 'pthread_exit':
            self.left(itp, st, ins, ctx)
