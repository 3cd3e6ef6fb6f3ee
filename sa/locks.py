"""Lock-pairing monitor."""
from interp import *

TAKE = {'pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_mutex_trylock',
        'pthread_rwlock_trywrlock', 'pthread_rwlock_tryrdlock', 'pthread_mutex_timedlock', 'pthread_spin_lock'}
DROP = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'}


class LockMon(Monitor):
    names = frozenset(TAKE | DROP)
    exit_ok = ()

    def __init__(self):
        self.sites = set()

    def init(self):
        return ()

    def rename(self, mon, sub):
        return tuple((sub(a), b) for a, b in mon)

    def mon_syms(self, mon):
        s = set()
        for a, b in mon:
            s |= syms(a)
        return s

    def post_call(self, itp, st, ins, name, args, ret, ctx):
        if name not in self.names:
            return
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
        p = args[0]
        d = dict(st.mon)
        if name in DROP:
            n = d.get(p, 0)
            if n == 0:
                itp.report('unlock-not-held', ins, ctx, 'releases %s, which is not held here' % desc(p), st)
            elif n == 1:
                del d[p]
            else:
                d[p] = n - 1
        elif ret is None or st.const(ret) == 0:
            d[p] = min(4, d.get(p, 0) + 1)
        st.mon = tuple(sorted(d.items(), key=lambda x: x[0].n))

    def left(self, itp, st, ins, ctx, what):
        if st.mon:
            itp.report('held-at-exit', ins, ctx, '%s with %s still held' % (
                what, ', '.join(desc(a) for a, n in st.mon)), st, key=','.join(sorted(desc(a) for a, n in st.mon)))

    def ret(self, itp, st, ins, val, ctx):
        self.left(itp, st, None, ctx, 'returns')

    def noreturn(self, itp, st, ins, name, ctx):
        if name == 'pthread_exit':
            self.left(itp, st, ins, ctx, 'ends the thread')
