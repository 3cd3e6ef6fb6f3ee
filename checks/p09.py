"""No queued message is left behind: whoever gives up a connection looks for messages that came in meanwhile, and writes them."""
from common import *
from driver import *
import engine

SS = 'struct.wss_session_t'
EAGAIN, EINTR, EPIPE = 11, 4, 32
IDLE, READING, WRITING, CONNECTING = 0, 1, 2, 4
DONE, OUTPUT, SEEN = V('G', None, '$ssldone'), V('G', None, '$sslout'), V('G', None, '$pend')
TURN = V('G', None, '$turn')
ERRNO = V('G', None, '$errno')
SSLIO = {'SSL_read', 'SSL_write', 'SSL_do_handshake'}
LOCKS = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'}
SSL = (0, 1, 2, 3, 5, 6)
# depth of the lock, must look for messages, must write what is queued, cannot write now, has queued, asked to end, ended
D, LOOK, DRAIN, BLOCKED, QUEUED, CLOSING, ENDED = range(7)


class QueueMon(Monitor):
    names = frozenset({'write', 'read', 'SSL_get_error', 'SSL_read', 'SSL_write', 'SSL_do_handshake', 'ringbuf_consume',
                       'ringbuf_produce', 'WSS_disconnect', 'WSS_session_add', 'WSS_session_acquire', 'WSS_session_jobs_dec',
                       'WSS_stringify_frame', 'WSS_stringify_frames'})
    inline_never = frozenset({'WSS_parse_header', 'WSS_upgrade_header', 'WSS_parse_frame', 'WSS_stringify_frame',
                              'WSS_stringify_frames', 'WSS_free_header', 'WSS_free_frame', 'WSS_closing_frame', 'WSS_ping_frame',
                              'WSS_pong_frame', 'WSS_free', 'WSS_disconnect', 'WSS_session_add', 'WSS_session_acquire',
                              'WSS_create_frames', 'ringbuf_acquire', 'ringbuf_produce', 'ringbuf_release', 'ringbuf_consume',
                              'WSS_base64_encode_sha1', 'strload', 'WSS_session_jobs_inc', 'WSS_session_jobs_dec',
                              'WSS_server_set_max_fd', 'log_log', 'WSS_session_all', 'utf8_check', 'WSS_sha1', 'bin2hex',
                              'WSS_poll_set_write', 'WSS_poll_set_read', 'WSS_poll_remove', 'WSS_poll_add'})
    LOCKFAIL = False
    OOM = True
    K = 4
    KHEAD = 1
    KRET = 8
    MODSIZE = 1 << 30

    def __init__(self, prog, state=None, ssl=None, codes=SSL, job=None, hs=None):
        self.prog, self.state, self.ssl, self.job, self.hs, self.codes = prog, state, ssl, job, hs, codes
        self.sites = set()
        x = prog.fidx
        f = lambda n: (SS, x('wss_session_t', n))
        self.fdf, self.lockf, self.clf, self.stf, self.sslf, self.hsf, self.pf = map(
            f, ('fd', 'lock', 'closing', 'state', 'ssl', 'handshaked', 'pending'))
        self.af = ('struct.wss_thread_args_t', x('wss_thread_args_t', 'fd'))
        self.jobf = (self.af[0], x('wss_thread_args_t', 'state'))
        self.volatile = (self.clf, self.stf)

    def init(self):
        return (0, False, False, False, False, False, False)

    def group(self, st):
        k = []
        for q, x in st.mem.items():
            if q.k == 'F' and q.b == SS and q.c == self.stf[1]:
                k.append((q.c, st.const(x)))
            elif q.k == 'F' and q.b == SS and q.c in (self.clf[1], self.hsf[1]):
                k.append((q.c, st.truth(x)))
            elif q is SEEN:
                k.append((-1, st.truth(x)))
        return (st.mon,) + tuple(sorted(k, key=str))

    def changes(self, p):
        return self.is_f(p, self.pf)

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and c[1] in (SS, SS[7:]) and c[2] in (self.clf[1], self.pf[1])
        return False

    def modular(self, itp, g):
        return False

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[globals()[k]] = v
        st.mon = tuple(m)

    def site(self, ins, what):
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, what))

    def is_f(self, p, f):
        return p.k == 'F' and (p.b, p.c) == f

    def is_session_fd(self, st, v):
        if v.k == 's' and isinstance(v.b, engine.Val) and self.is_f(v.b, self.fdf):
            return True
        return any(x is v and self.is_f(q, self.fdf) for q, x in st.mem.items())

    def field(self, st, f):
        for q, x in st.mem.items():
            if self.is_f(q, f):
                return x
        return None

    def store(self, itp, st, ins, p, v, ctx):
        if self.is_f(p, self.clf) and v is not None and st.const(v) != 0:
            self.put(st, CLOSING=True)
        elif self.is_f(p, self.pf):
            c = st.const(v) if v is not None else None
            st.mem.pop(SEEN, None)
            self.site(ins, 'pending')
            if c == 0:
                if st.mon[D] == 0:
                    itp.report('cleared-unlocked', ins, ctx, 'forgets that messages are queued without holding the connection', st)
                self.put(st, DRAIN=True)
            else:
                self.put(st, LOOK=True, QUEUED=False)

    def load(self, itp, st, ins, p, v, ctx):
        if v.k == 'c':
            return
        if self.is_f(p, self.clf) and st.mon[CLOSING] and st.mon[D]:
            st.facts[v] = engine.const_fact(1)
        elif self.is_f(p, self.jobf) and self.job is not None:
            st.facts[v] = engine.const_fact(self.job)
        elif self.is_f(p, self.sslf) and self.ssl is not None:
            st.facts[v] = engine.NONNULL if self.ssl else engine.const_fact(0)
        elif self.is_f(p, self.pf):
            self.site(ins, 'look')
            st.mem[SEEN] = v

    def branch(self, itp, st, ins, cond, taken, ctx):
        m = st.mon
        if m[D] and not m[CLOSING]:
            x = self.field(st, self.clf)
            if x is not None and st.truth(x):
                self.put(st, CLOSING=True)
        x = st.mem.get(SEEN)
        if x is not None:
            t = st.truth(x)
            if t is None:
                t = st.truth(engine.cast('trunc', x, 8, 1))
            if t is False:
                self.put(st, LOOK=False)

    def io(self, itp, st, ins, name, ctx):
        out = []
        if name == 'read':
            out.append((ZERO, st.copy()))
        for err in (EAGAIN, EINTR, EPIPE):
            s = st.copy()
            s.mem[ERRNO] = C(err)
            if err == EAGAIN and name == 'write':
                self.put(s, BLOCKED=True)
            out.append((C(-1), s))
        r = itp.retsym(st, ins, ctx, name)
        st.facts[r] = (1, 1 << 30, 1, 1 << 30, frozenset())
        if name == 'write':
            self.put(st, BLOCKED=False)
        out.append((r, st))
        return out

    def call(self, itp, st, ins, name, args, ctx):
        m = st.mon
        if name == '__errno_location':
            return [(ERRNO, st)]
        if name in LOCKS and self.is_f(args[0], self.lockf):
            s2 = st.copy()
            if 'unlock' in name:
                if m[D] == 1:
                    self.left(itp, st, ins, ctx)
                else:
                    self.put(st, D=max(0, m[D] - 1))
                return [(ZERO, st)]
            if m[D] == 0:
                for s in (st, s2):
                    for q in [q for q in s.mem if q.k == 'F' and (q.b, q.c) in self.volatile]:
                        del s.mem[q]
                    if s is s2:
                        # whoever has it looks for messages later
                        self.put(s, LOOK=False)
                if self.state is not None and self.fresh(st):
                    st.mem[F(args[0].a, *self.stf)] = C(self.state)
                    if self.state == WRITING:
                        # waited for being able to write
                        st.mem[TURN] = ONE
                        self.put(st, DRAIN=True)
            self.put(st, D=m[D] + 1)
            if 'try' in name and m[D] == 0:
                r = itp.retsym(s2, ins, ctx, name)
                s2.facts[r] = engine.NONNULL
                return [(ZERO, st), (r, s2)]
            return [(ZERO, st)]
        if name in ('write', 'read') and self.is_session_fd(st, args[0]):
            self.site(ins, name)
            return self.io(itp, st, ins, name, ctx)
        if name in ('WSS_stringify_frame', 'WSS_stringify_frames'):
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = (0, 1 << 30, 0, 1 << 30, frozenset())
            return [(r, st)]
        if name in SSLIO:
            s2 = st.copy()
            for s, x in ((st, (1, 1 << 30)), (s2, (-1, 0))):
                r = itp.retsym(s, ins, ctx, name)
                s.facts[r] = x + (0, 1 << 30, frozenset()) if x[0] > 0 else x + (None, None, frozenset())
                s.mem[DONE] = C(x[0] > 0)
                s.mem[OUTPUT] = C(name == 'SSL_write')
            return [(r, st), (r, s2)]
        if name == 'SSL_get_error':
            self.site(ins, name)
            out = []
            ok = st.const(st.mem.get(DONE, ZERO))
            w = st.const(st.mem.get(OUTPUT, ZERO))
            for k in ((0,) if ok else self.codes[1:]):
                s = st.copy()
                if w:
                    self.put(s, BLOCKED=k in (2, 3))
                out.append((C(k), s))
            return out
        if name == 'ringbuf_consume':
            self.site(ins, name)
            s2 = st.copy()
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            self.put(st, DRAIN=True)
            self.put(s2, DRAIN=False, QUEUED=False)
            return [(r, st)] if m[BLOCKED] else [(r, st), (ZERO, s2)]
        if name == 'ringbuf_produce':
            self.site(ins, name)
            self.put(st, QUEUED=True)
            return [(None, st)]
        if name == 'WSS_session_jobs_dec':
            if m[D] == 0:
                self.site(ins, name)
                self.done(itp, st, ins, ctx)
            return [(itp.retsym(st, ins, ctx, name), st)]
        if name == 'WSS_disconnect':
            st.mon = self.init()
            self.put(st, ENDED=True)
            return [(None, st)]
        if name in ('WSS_session_add', 'WSS_session_acquire'):
            self.site(ins, name)
            self.done(itp, st, ins, ctx)
            s2 = st.copy()
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            st.mon = s2.mon = self.init()
            self.put(s2, ENDED=True)
            if name == 'WSS_session_add':
                st.mem[F(r, *self.hsf)] = ZERO
                if args[0].k != 'c':
                    st.mem[F(r, *self.fdf)] = args[0]
            elif self.hs is not None:
                st.mem[F(r, *self.hsf)] = C(self.hs)
            st.mem.pop(V('G', None, '$fresh'), None)
            if name == 'WSS_session_acquire':
                st.mem[V('G', None, '$fresh')] = ONE
            return [(r, st), (ZERO, s2)]
        return None

    def fresh(self, st):
        return st.mem.pop(V('G', None, '$fresh'), None) is not None

    def icall(self, itp, st, ins, cv, args, ctx):
        w = plugin_slot(self.prog, cv)
        if w is None or not st.mon[D]:
            return None
        # a plugin may send to the connection whose lock is held: what the analysis of sending guarantees
        itp.havoc_args(st, args)
        r = itp.retsym(st, ins, ctx, desc(cv))
        out = [(r, st)]
        se = [q.a for q in st.mem if self.is_f(q, self.stf)]
        if se and not st.mon[CLOSING] and w[0] == SUBPROTO:
            q = F(se[0], *self.stf)
            x = st.const(st.mem[q])
            if x is None or x in (IDLE, READING):
                s = st.copy()
                del s.mem[q]
                s.mem[q] = C(WRITING)
                self.put(s, BLOCKED=True)
                out.append((r, s))
        return out

    def left(self, itp, st, ins, ctx):
        m = st.mon
        self.site(ins, 'left')
        c = m[CLOSING]
        x = self.field(st, self.clf)
        if x is not None and st.truth(x):
            c = True
        s = self.field(st, self.stf)
        may = lambda k: s is None or not engine.fexcl(st.rng(s), k)
        if not c and not m[ENDED]:
            # a write that waits is continued by the work that follows it
            idle = may(IDLE) or may(READING)
            if m[DRAIN] and not m[BLOCKED] and (idle or TURN in st.mem and may(WRITING)):
                itp.report('not-drained', ins, ctx, 'the connection is given up although messages may still be queued', st)
            if m[BLOCKED] and (idle or may(CONNECTING)):
                itp.report('forgotten', ins, ctx, 'a message could not be written completely, but the connection is not marked as '
                           'being in the middle of a write', st)
        h = self.field(st, self.hsf)
        look = not (h is not None and st.truth(h) is False)
        st.mem.pop(SEEN, None)
        st.mem.pop(TURN, None)
        for q in [q for q in st.mem if q.k == 'F' and (q.b, q.c) in self.volatile]:
            if st.const(st.mem[q]) is None or self.is_f(q, self.stf):
                del st.mem[q]
        self.put(st, D=0, LOOK=look, DRAIN=False, QUEUED=m[QUEUED] and not m[BLOCKED], BLOCKED=False, CLOSING=c)

    def done(self, itp, st, ins, ctx):
        m = st.mon
        if m[ENDED] or m[CLOSING]:
            return
        if m[LOOK]:
            itp.report('not-looked', ins, ctx, 'the connection is given up without looking whether messages came in meanwhile',
                       st, key='look')
        if m[QUEUED]:
            itp.report('not-told', ins, ctx, 'a message was queued, but nobody is told that it has to be written', st, key='told')

    def ret(self, itp, st, ins, val, ctx):
        self.done(itp, st, ins, ctx)


def check(tier):
    prog = build.program('server')
    run = Run()
    mon = QueueMon(prog)
    codes = SSL if tier != 'quick' else (0, 1, 2, 3, 6)
    states = sorted(prog.fdom.get(SS, {}).get(mon.stf[1], ())) or [None]
    work = sorted(stored_consts(prog, 'wss_thread_args_t', 'state') or ()) or [None]
    jobs = []
    for r in relevant_roots(prog, mon, {'main'}):
        for ssl in (0, 1):
            for s in states if r == 'WSS_work' else (None,):
                for k in work if r == 'WSS_work' and s in (None, IDLE) else (None,):
                    for h in (0, 1) if r == 'WSS_work' and k in (None, READING) else (None,):
                        jobs.append(dict(root=r, name='%s/%s/%d/%s/%s' % (r, s, ssl, k, h), state=s, ssl=ssl, job=k, hs=h))
    jobs.sort(key=lambda j: (j['root'] != 'WSS_work', j['state'] not in (READING, IDLE, CONNECTING), -j['ssl']))
    run.add(explore(prog, lambda j: QueueMon(prog, j['state'], j['ssl'], codes, j['job'], j['hs']), jobs, 15000000))
    for w in (' write', 'pending', 'look', 'left', 'ringbuf_consume', 'ringbuf_produce'):
        if not run.reports and not any(w in s for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    return run.reports, run.cover(), []
