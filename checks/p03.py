"""Locksets: every access to shared state happens under the lock that guards it, or on data no other thread can reach."""
from common import *
from driver import *
from locks import TAKE, DROP
from sess import SessMon, NEW, WAITED, S
import p04

SESS = 'wss_session_t'
READ, WRITE = 'read', 'written'
# field -> (locks of the session of which one is needed to read, locks of which all are needed to write)
GUARD = {n: (('lock',), ('lock',)) for n in (
    'state', 'event', 'closing', 'written', 'payload', 'payload_length', 'offset', 'frames', 'frames_length', 'pong', 'pong_length')}
# nothing is sent before the handshake is done, and sending holds lock_send
GUARD['handshaked'] = (('lock', 'lock_send'), ('lock', 'lock_send'))
GUARD['header'] = (('lock', 'lock_send'), ('lock', 'lock_send'))
GUARD['jobs'] = (('lock_jobs',), ('lock_jobs',))
GUARD['disconnecting'] = (('lock_disconnecting',), ('lock_disconnecting',))
# written under the lock, read elsewhere only by a user of the session after the handshake made them final
WONLY = {'ssl': 'lock', 'ssl_connected': 'lock', 'messages': 'lock', 'ringbuf': 'lock'}
LOCKS = ['lock', 'lock_send', 'lock_jobs', 'lock_disconnecting']
POOL = ('queue', 'head', 'tail', 'count', 'shutdown')
RING = {'ringbuf_acquire': 'lock_send', 'ringbuf_produce': 'lock_send', 'ringbuf_consume': 'lock', 'ringbuf_release': 'lock'}
EXCL, SHARED = 8, 4


def heads(prog, elems):
    """globals that hold the head of a table of the given structures"""
    out = {}
    for f in prog.funcs.values():
        defs = {}
        for bn in f.order:
            for i in f.blocks[bn].insts:
                if i.op == 'load' and i.args[0][1][0] == 'g':
                    defs[i.res] = i.args[0][1][1]
                elif i.op == 'gep':
                    c = prog.gep_class(i)
                    b = i.args[0][1]
                    if c[0] == 'F' and short(c[1]) in elems and b[0] == 'l' and b[1] in defs:
                        if prog.fieldname(c[1], c[2]) == 'hh':
                            out[defs[b[1]]] = short(c[1])
    return out


class LockSet(SessMon):
    ALL_LOCKS = True
    names = frozenset(SessMon.names | set(RING) | {'pthread_join'})

    def __init__(self, prog, server, elems, hd):
        self.prog, self.server, self.elems, self.heads = prog, server, elems, hd
        self.sites = set()
        self.acc = {}
        if server:
            SessMon.__init__(self, prog)
            self.sf = {k: prog.fidx(SESS, k) for k in list(GUARD) + list(WONLY) + LOCKS}
            self.name = {v: k for k, v in self.sf.items()}
            self.hsk = self.sf['handshaked']
            t = 'threadpool_t'
            self.pool = {prog.fidx(t, k): k for k in POOL}
            self.threads = prog.fidx(t, 'thread_count')
            self.poollock = prog.fidx(t, 'lock')
            self.POOLT = 'struct.threadpool_t'
            self.maxfd = prog.fidx('wss_server_t', 'max_fd')
            self.srvlock = prog.fidx('wss_server_t', 'lock')
        else:
            self.f = {k: -1 for k in ('jobs', 'disconnecting', 'lock_jobs', 'lock_disconnecting', 'fd', 'hh', 'cond_jobs')}

    # the typestate itself is judged by P04
    def call(self, itp, st, ins, name, args, ctx):
        if name in RING and self.server:
            b = None
            for k, v in st.mem.items():
                if k.k == 'F' and k.b == S and v is args[0]:
                    b = k.a
            ok = any(a.k == 'F' and a.b == S and a.c == self.sf[RING[name]] and (b is None or a.a is b) for a, n in st.mon[0])
            self.site(ins, name)
            if not ok and b is not None and RING[name] == 'lock_send' and self.not_shaken(st, b):
                ok = True
            if not ok:
                itp.report('unlocked-queue', ins, ctx, '%s is called on the message queue of a connection without holding its %s'
                           % (name, RING[name]), st)
            return None
        if name == 'pthread_join':
            st.mon = (st.mon[0], self.add(st.mon[1], V('G', None, 'joined'), (0, WAITED)))
            return None
        if name in FREES:
            return SessMon.call(self, itp, st, ins, name, args, ctx)
        return None

    def add(self, t, k, v):
        d = dict(t)
        d[k] = v
        return tuple(sorted(d.items(), key=lambda x: x[0].n))

    def project(self, itp, st, g, args):
        out = SessMon.project(self, itp, st, g, args) if self.server else {}
        for k, v in st.mem.items():
            if k.k == 'F' and k.b == S and k.c == self.hsk and any(k.a is a for a in args):
                out[k] = v
        return out

    def post_call(self, itp, st, ins, name, args, ret, ctx):
        if name in RING or name == 'pthread_join':
            return
        if 'rdlock' in name and not (ret is None or st.const(ret) == 0):
            return
        SessMon.post_call(self, itp, st, ins, name, args, ret, ctx)
        if 'rdlock' in name:
            d = dict(st.mon[0])
            d[args[0]] = SHARED
            st.mon = (tuple(sorted(d.items(), key=lambda x: x[0].n)), st.mon[1])

    def not_shaken(self, st, b):
        return self.is_false(st, F(b, S, self.hsk))

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and (c[1] == S or short(c[1]) in ('threadpool_t', 'threadpool') or short(c[1]) in self.elems)
        if ins.op in ('load', 'store'):
            a = ins.args[0 if ins.op == 'load' else 1][1]
            return a[0] == 'g' and a[1] in self.heads
        return False

    # left / deref belong to P04
    def left(self, itp, st, ins, ctx):
        pass

    def deref(self, itp, st, ins, p, ctx):
        pass

    def load(self, itp, st, ins, p, v, ctx):
        self.access(itp, st, ins, p, READ, ctx)

    def store(self, itp, st, ins, p, v, ctx):
        self.access(itp, st, ins, p, WRITE, ctx)
        if self.server:
            n = len(itp.reports)
            rep = itp.report
            itp.report = lambda *a, **k: None
            try:
                SessMon.store(self, itp, st, ins, p, v, ctx)
            finally:
                del itp.report
            assert len(itp.reports) == n

    def access(self, itp, st, ins, p, m, ctx):
        if p.k == 'G':
            if p.b in self.heads:
                self.table(st, ins, p.b, m, ctx, itp)
            return
        if p.k not in ('F', 'I'):
            return
        if root(p).k == 'o':
            return
        q = p
        while q.k in ('F', 'I'):
            if q.k == 'F':
                t = short(q.b)
                if t in self.elems and self.prog.fieldname(q.b, q.c) == 'hh' or (t in self.elems and self.elems[t] == 'all'):
                    for h, e in self.heads.items():
                        if e == t:
                            self.table(st, ins, h, m, ctx, itp)
                    if self.prog.fieldname(q.b, q.c) == 'hh':
                        return
                if self.server and q.b == S:
                    self.session(itp, st, ins, q.a, q.c, m if q is p else READ, ctx)
                    return
                if self.server and q.b == self.POOLT and q.c in self.pool:
                    self.poolacc(itp, st, ins, q.a, q.c, m, ctx)
                    return
                if self.server and t == 'wss_server_t' and q.c == self.maxfd and q is p:
                    self.sites.add('%s:%s max_fd' % (ins.fn.file, ins.line))
                    if not any(a is F(q.a, q.b, self.srvlock) for a, n in st.mon[0]):
                        itp.report('unlocked-server', ins, ctx, 'the highest filedescriptor of the server is %s without its lock' % m, st)
                    return
            q = q.a

    def held_locks(self, st, b):
        return {self.name.get(a.c): n for a, n in st.mon[0] if a.k == 'F' and a.b == S and a.a is b}

    def session(self, itp, st, ins, b, fld, m, ctx):
        n = self.name.get(fld)
        if n is None or n not in GUARD and n not in WONLY:
            return
        j, s = self.get(st, b)
        if s in (NEW, WAITED) or root(b).k == 'o':
            return
        if n in WONLY and m == READ:
            return
        self.sites.add('%s:%s %s %s' % (ins.fn.file, ins.line, n, m))
        h = self.held_locks(st, b)
        if n in WONLY:
            need, ok = (WONLY[n],), WONLY[n] in h
        elif m == READ:
            need, ok = GUARD[n][0], any(x in h for x in GUARD[n][0])
            need = need if ok else (' or '.join(need),)
        else:
            need = GUARD[n][1]
            ok = all(x in h for x in need)
            if not ok and n == 'header' and 'lock' in h and self.not_shaken(st, b):
                ok = True
        if not ok:
            itp.report('unlocked-session', ins, ctx, '%s of the session %s is %s without holding its %s' % (
                n, desc(b), m, ' and '.join(x for x in need if x not in h)), st)

    def poolacc(self, itp, st, ins, b, fld, m, ctx):
        if any(a.k == 'G' and a.b == 'joined' for a, x in st.mon[1]):
            return
        n = st.mem.get(F(b, self.POOLT, self.threads))
        if n is not None and st.cmp('sgt', n, ZERO, 32) is False:
            return
        self.sites.add('%s:%s %s %s' % (ins.fn.file, ins.line, self.pool[fld], m))
        if not any(a is F(b, self.POOLT, self.poollock) for a, n in st.mon[0]):
            itp.report('unlocked-pool', ins, ctx, '%s of the thread pool is %s without holding its lock' % (self.pool[fld], m), st)

    def table(self, st, ins, h, m, ctx, itp):
        self.sites.add('%s:%s table %s %s' % (ins.fn.file, ins.line, h, m))
        ls = frozenset((a.b, n == SHARED) for a, n in st.mon[0] if a.k == 'G')
        k = (h, m, ls)
        if k not in self.acc:
            self.acc[k] = (ins.fn.file, ins.line, ins.fn.name, itp.entry)

    def finish(self, itp):
        return self.acc


def judge(run):
    """the lock that guards each table is the one held at most of its accesses; it must be held at all"""
    reps = []
    tables = {}
    for j, acc in run.extra:
        for k, v in acc.items():
            tables.setdefault(k[0], []).append((k, v))
    for h, xs in sorted(tables.items()):
        count = {}
        for (_, m, ls), v in xs:
            for l, sh in ls:
                count[l] = count.get(l, 0) + 1
        g = max(sorted(count), key=lambda l: count[l]) if count else None
        for (_, m, ls), (file, line, fn, entry) in xs:
            mine = dict(ls)
            if g not in mine:
                w = 'without holding the lock that guards it'
            elif m == WRITE and mine[g]:
                w = 'holding the lock that guards it only for reading'
            else:
                continue
            r = dict(rule='unlocked-table', file=file, line=line, function=fn, entry=entry, calls=[], branches=[],
                     message='the table %s is %s %s' % (h, m, w))
            if r not in reps:
                reps.append(r)
    return reps


def plugin_roots(prog):
    """plugin entry points that run while connections exist"""
    once = {'setAllocators', 'onInit', 'onDestroy'}
    return [r for r in roots(prog) if r not in once]


def check(tier):
    run = Run()
    for w in ('server', 'broadcast', 'deflate'):
        prog = build.program(w)
        elems = {SESS: 'hh'} if w == 'server' else {'wss_client_t': 'all'} if w == 'broadcast' else {'wss_comp_t': 'hh'}
        hd = heads(prog, elems)
        if not hd:
            raise AnalysisError('%s: no table found' % w)

        def mk(j):
            return LockSet(prog, w == 'server', elems, hd)
        if w == 'server':
            cbs = p04.session_callbacks(prog)
            rs = relevant_roots(prog, mk(None), cbs | {'main'})
            for c in ('threadpool_destroy',):
                if c in prog.funcs and c not in rs:
                    rs.append(c)
        else:
            rs = plugin_roots(prog)
        r = explore(prog, mk, rs)
        r.reports += judge(r)
        run.add(r)
    cov = run.cover()
    if not run.reports and cov['rule_instances'] < 150:
        raise AnalysisError('only %d guarded accesses found' % cov['rule_instances'])
    cov['explanation'] = ('every access to a guarded field, table or queue on every path of every entry point, with the locks '
                          'held there; objects that are not shared yet or not shared any more are exempt')
    return run.reports, cov, ['fields not in the guard table are either immutable after publication or used by one thread',
                              'plugins are initialised and destroyed while no connection exists']
