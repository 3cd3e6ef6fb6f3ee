"""Every open connection stays watched: after each piece of work it is armed for the right event, or ended."""
from common import *
from driver import *
import engine

SS = 'struct.wss_session_t'
EV = 'struct.epoll_event'
IN, OUT, ONESHOT, ET, RDHUP = 1, 4, 1 << 30, 1 << 31, 0x2000
MOD, ADD, DEL = 3, 1, 2
EAGAIN, EINTR, EPIPE, ENOENT = 11, 4, 32, 2
IDLE, READING, WRITING, CONNECTING = 0, 1, 2, 4
DONE, OUTPUT = V('G', None, '$ssldone'), V('G', None, '$sslout')
SSLIO = {'SSL_read', 'SSL_write', 'SSL_do_handshake'}
ERRNO = V('G', None, '$errno')
LOCKS = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'}
# SSL_get_error: none, error, want read, want write, syscall, closed
SSL = (0, 1, 2, 3, 5, 6)


class ArmMon(Monitor):
    """mon = (need, depth of the session lock, armed event, wanted event, closing since the last arming, ended)"""
    names = frozenset({'epoll_ctl', 'write', 'read', 'SSL_get_error', 'SSL_read', 'SSL_write', 'SSL_do_handshake', 'ringbuf_consume',
                       'WSS_disconnect', 'WSS_session_add', 'WSS_session_acquire', 'WSS_stringify_frame',
                       'WSS_stringify_frames'})
    inline_never = frozenset({'WSS_parse_header', 'WSS_upgrade_header', 'WSS_parse_frame', 'WSS_stringify_frame',
                              'WSS_stringify_frames', 'WSS_free_header', 'WSS_free_frame', 'WSS_closing_frame', 'WSS_ping_frame',
                              'WSS_pong_frame', 'WSS_free', 'WSS_disconnect', 'WSS_session_add', 'WSS_session_acquire',
                              'WSS_create_frames', 'ringbuf_acquire', 'ringbuf_produce', 'ringbuf_release', 'ringbuf_consume',
                              'WSS_base64_encode_sha1', 'strload', 'WSS_session_jobs_inc', 'WSS_session_jobs_dec',
                              'WSS_server_set_max_fd', 'log_log', 'WSS_session_all', 'utf8_check', 'WSS_sha1', 'bin2hex'})
    LOCKFAIL = False
    OOM = True
    K = 4
    KHEAD = 1
    KRET = 8
    MODSIZE = 1 << 30

    def __init__(self, prog, state=None, ssl=None, codes=SSL, job=None, hs=None):
        self.prog = prog
        self.state = state
        self.ssl = ssl
        self.job = job
        self.hs = hs
        self.codes = codes
        self.sites = set()
        x = prog.fidx
        self.fdf = (SS, x('wss_session_t', 'fd'))
        self.lockf = (SS, x('wss_session_t', 'lock'))
        self.clf = (SS, x('wss_session_t', 'closing'))
        self.evf = (SS, x('wss_session_t', 'event'))
        self.stf = (SS, x('wss_session_t', 'state'))
        self.sslf = (SS, x('wss_session_t', 'ssl'))
        self.af = ('struct.wss_thread_args_t', x('wss_thread_args_t', 'fd'))
        self.hsf = (SS, x('wss_session_t', 'handshaked'))
        self.jobf = (self.af[0], x('wss_thread_args_t', 'state'))
        self.volatile = (self.clf, self.evf, self.stf)

    def init(self):
        return (False, 0, None, None, False, False)

    def group(self, st):
        k = [st.mon]
        for q, x in st.mem.items():
            if q.k == 'F' and q.b == SS and (q.c == self.evf[1] or q.c == self.stf[1]):
                k.append((q.c, st.const(x)))
            elif q.k == 'F' and q.b == SS and q.c == self.clf[1]:
                k.append((q.c, st.truth(x)))
        k[1:] = sorted(k[1:], key=str)
        return tuple(k)

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and c[1] in (SS, SS[7:]) and c[2] in (self.clf[1], self.evf[1])
        return False

    def modular(self, itp, g):
        return False

    def is_session_fd(self, st, v):
        if v.k == 's' and isinstance(v.b, engine.Val) and v.b.k == 'F' and (v.b.b, v.b.c) == self.fdf:
            return True
        return any(x is v and q.k == 'F' and (q.b, q.c) == self.fdf for q, x in st.mem.items())

    def store(self, itp, st, ins, p, v, ctx):
        if p.k == 'F' and (p.b, p.c) == self.clf and v is not None and st.const(v) != 0:
            need, d, a, w, c, e = st.mon
            self.sites.add('%s:%s closing' % (ins.fn.file, ins.line))
            st.mon = (need, d, a, w, True, e)

    def load(self, itp, st, ins, p, v, ctx):
        # the flag that asks for the end of the connection
        if p.k == 'F' and (p.b, p.c) == self.clf and v.k != 'c' and st.mon[4] and st.mon[1]:
            st.facts[v] = engine.const_fact(1)
        if p.k == 'F' and (p.b, p.c) == self.jobf and v.k != 'c' and self.job is not None:
            st.facts[v] = engine.const_fact(self.job)
        if p.k == 'F' and (p.b, p.c) == self.sslf and v.k != 'c' and self.ssl is not None:
            st.facts[v] = engine.NONNULL if self.ssl else engine.const_fact(0)

    def call(self, itp, st, ins, name, args, ctx):
        need, d, a, w, c, e = st.mon
        where = '%s:%s ' % (ins.fn.file, ins.line)
        if name == '__errno_location':
            return [(ERRNO, st)]
        if name in LOCKS and args[0].k == 'F' and (args[0].b, args[0].c) == self.lockf:
            s2 = st.copy()
            if 'unlock' in name:
                if d == 1:
                    self.left(itp, st, ins, ctx)
                else:
                    st.mon = (need, max(0, d - 1), a, w, c, e)
                return [(ZERO, st)]
            if d == 0:
                # what other threads did meanwhile
                for s in (st, s2):
                    for q in [q for q in s.mem if q.k == 'F' and (q.b, q.c) in self.volatile]:
                        if not (name.endswith('trylock') and s is s2):
                            del s.mem[q]
                if self.state is not None and need and a is None and not e:
                    st.mem[F(args[0].a, *self.stf)] = C(self.state)
            st.mon = (need, d + 1, a, w, c, e)
            if 'try' in name and d == 0:
                r = itp.retsym(s2, ins, ctx, name)
                s2.facts[r] = engine.NONNULL
                return [(ZERO, st), (r, s2)]
            return [(ZERO, st)]
        if name == 'epoll_ctl':
            return self.epoll(itp, st, ins, args, ctx)
        if name in ('write', 'read') and self.is_session_fd(st, args[0]):
            self.sites.add(where + name)
            out = []
            if name == 'read':
                s = st.copy()
                s.mon = (need, d, a, None, c, e)
                out.append((ZERO, s))
            for err in (EAGAIN, EINTR, EPIPE):
                s = st.copy()
                s.mem[ERRNO] = C(err)
                s.mon = (need, d, a, {EAGAIN: 'W' if name == 'write' else None, EINTR: w}.get(err, '?'), c, e)
                out.append((C(-1), s))
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = (1, 1 << 30, 1, 1 << 30, frozenset())
            st.mon = (need, d, a, None, c, e)
            out.append((r, st))
            return out
        if name in ('WSS_stringify_frame', 'WSS_stringify_frames'):
            # a length
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = (0, 1 << 30, 0, 1 << 30, frozenset())
            return [(r, st)]
        if name in SSLIO:
            s2 = st.copy()
            for s, x in ((st, (1, 1 << 30)), (s2, (-1, 0))):
                r = itp.retsym(s, ins, ctx, name)
                s.facts[r] = x + (0, 1 << 30, frozenset()) if x[0] > 0 else x + (None, None, frozenset())
                s.mem[DONE] = C(x[0] > 0)
                s.mem[OUTPUT] = C(name == 'SSL_write')
                s.mon = (need, d, a, None if x[0] > 0 else '?', c, e)
            return [(r, st), (r, s2)]
        if name == 'SSL_get_error':
            self.sites.add(where + name)
            out = []
            ok = st.const(st.mem.get(DONE, ZERO))
            blocked = 'W' if st.const(st.mem.get(OUTPUT, ZERO)) else 'w'
            for k in ((0,) if ok else self.codes[1:]):
                s = st.copy()
                s.mon = (need, d, a, {0: None, 2: 'r', 3: blocked, 6: None}.get(k, '?'), c, e)
                out.append((C(k), s))
            return out
        if name == 'ringbuf_consume' and w == 'W':
            # what could not be written is still there
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            itp.havoc_args(st, args)
            return [(r, st)]
        if name == 'WSS_disconnect':
            self.sites.add(where + name)
            st.mon = (False, d, None, None, False, True)
            return [(None, st)]
        if name in ('WSS_session_add', 'WSS_session_acquire'):
            self.sites.add(where + name)
            if name == 'WSS_session_add':
                self.done(itp, st, ins, ctx, 'takes the next connection')
            s2 = st.copy()
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            work = name == 'WSS_session_add' or any(self.is_arg(st, x) for x in args)
            st.mon = (work, 0, None, None, False, False)
            if self.hs is not None and work:
                st.mem[F(r, *self.hsf)] = C(self.hs)
            if work and name == 'WSS_session_add' and args[0].k != 'c':
                st.mem[F(r, *self.fdf)] = args[0]
            return [(r, st), (ZERO, s2)]
        return None

    def branch(self, itp, st, ins, cond, taken, ctx):
        need, d, a, w, c, e = st.mon
        if d and not c and any(q.k == 'F' and (q.b, q.c) == self.clf and st.truth(x) for q, x in st.mem.items()):
            st.mon = (need, d, a, w, True, e)

    def icall(self, itp, st, ins, cv, args, ctx):
        need, d, a, w, c, e = st.mon
        if plugin_slot(self.prog, cv) is None or not d:
            return None
        # a plugin may send to the connection whose lock is held: what the analysis of sending guarantees
        itp.havoc_args(st, args)
        r = itp.retsym(st, ins, ctx, desc(cv))
        out = [(r, st)]
        se = [q.a for q in st.mem if q.k == 'F' and (q.b, q.c) == self.stf]
        if se and not c:
            x = st.const(st.mem[F(se[0], *self.stf)])
            if x is None or x in (IDLE, READING):
                s = st.copy()
                if x is None:
                    del st.mem[F(se[0], *self.stf)]
                s.mem[F(se[0], *self.stf)] = C(WRITING)
                s.mem[F(se[0], *self.evf)] = C(2)
                s.mon = (need, d, 'w', 'W', c, e)
                out.append((r, s))
                s = st.copy()
                s.mem[F(se[0], *self.clf)] = ONE
                s.mon = (need, d, 'w', w, 'armed', e)
                out.append((r, s))
        return out

    def is_arg(self, st, v):
        return v.k == 's' and isinstance(v.b, engine.Val) and v.b.k == 'F' and (v.b.b, v.b.c) == self.af

    def epoll(self, itp, st, ins, args, ctx):
        need, d, a, w, c, e = st.mon
        op = st.const(args[1])
        fd, p = args[2], args[3]
        if op == DEL:
            return [(ZERO, st)]
        self.sites.add('%s:%s epoll_ctl %s' % (ins.fn.file, ins.line, op))
        ev = None
        for q, x in st.mem.items():
            if q.k == 'F' and q.b.startswith(EV) and q.c == 0 and root(q) is root(p):
                ev = x
        ev = st.const(ev) if ev is not None else (0 if itp.zdef0(st.mem, p) else None)
        data = [x for q, x in st.mem.items() if root(q) is root(p) and q.k != 'Z' and
                (q.k == 'F' and not (q.b.startswith(EV) and q.c == 0) or q.k == 'I')]
        if not any(x is fd or st.cmp('eq', x, fd, 32) for x in data):
            itp.report('event-fd', ins, ctx, 'the event of a descriptor is registered with another descriptor', st)
        if ev is None:
            itp.report('event-unknown', ins, ctx, 'a descriptor is registered for events that cannot be told', st)
            return [(ZERO, st)]
        ev &= 0xffffffff
        what = []
        if op == MOD:
            s2 = st.copy()
            s2.mem[ERRNO] = C(ENOENT)
            what.append((C(-1), s2))
        if self.is_session_fd(st, fd):
            if not ev & ONESHOT:
                itp.report('not-oneshot', ins, ctx, 'a connection is registered so that several threads can be woken for it', st)
            if not ev & (IN | OUT):
                itp.report('no-event', ins, ctx, 'a connection is registered for no event', st)
            if d == 0:
                itp.report('arm-unlocked', ins, ctx, 'a connection is armed without its lock, so the thread that uses it may be '
                           'overruled', st)
            if e:
                itp.report('arm-ended', ins, ctx, 'a connection that has ended is armed', st)
            ev = ('r' if ev & IN else '') + ('w' if ev & OUT else '')
            # asked to be ended: any event brings a thread to it
            st.mon = (need, d, ev, w, 'armed' if c else False, e)
        else:
            if ev & ONESHOT:
                itp.report('oneshot', ins, ctx, 'the descriptor of the server is registered for a single event', st)
            if not ev & IN:
                itp.report('no-event', ins, ctx, 'the descriptor of the server is not registered for reading', st)
        what.insert(0, (ZERO, st))
        return what

    def left(self, itp, st, ins, ctx):
        """the lock of the connection is given up: others may now use it"""
        need, d, a, w, c, e = st.mon
        if w == '?' and not c and not e:
            itp.report('failed', ins, ctx, 'the connection is left open after its input or output failed', st)
        elif w is not None and not c and not e and (a is not None or w in 'wW' and not need) and w.lower() not in (a or ''):
            itp.report('wrong-event', ins, ctx, 'the connection is left while it does not wait for the event its unfinished '
                       'input or output needs', st)
        st.mon = (need and a is None, 0, None, None, c, e)

    def done(self, itp, st, ins, ctx, when):
        need, d, a, w, c, e = st.mon
        if e:
            return
        if c is True:
            itp.report('closing-left', ins, ctx, '%s without ending a connection that has to be ended' % when, st, key='closing')
        elif need:
            itp.report('not-armed', ins, ctx, '%s while nothing waits for events of the connection' % when, st, key='armed')

    def ret(self, itp, st, ins, val, ctx):
        self.done(itp, st, ins, ctx, 'returns')


def check(tier):
    prog = build.program('server')
    run = Run()
    mon = ArmMon(prog)
    codes = SSL if tier != 'quick' else (0, 1, 2, 3, 6)
    states = sorted(prog.fdom.get(SS, {}).get(mon.stf[1], ())) or [None]
    # what the event loop asks the workers to do
    work = sorted(stored_consts(prog, 'wss_thread_args_t', 'state') or ()) or [None]
    jobs = []
    for r in relevant_roots(prog, mon, {'main'}):
        for ssl in (0, 1):
            for s in states if r == 'WSS_work' else (None,):
                for k in work if r == 'WSS_work' and s in (None, IDLE) else (None,):
                    for h in (0, 1) if r == 'WSS_work' and k in (None, READING) else (None,):
                        jobs.append(dict(root=r, name='%s/%s/%d/%s/%s' % (r, s, ssl, k, h), state=s, ssl=ssl, job=k, hs=h))
    jobs.sort(key=lambda j: (j['root'] != 'WSS_work', j['state'] not in (READING, IDLE, CONNECTING), -j['ssl']))
    run.add(explore(prog, lambda j: ArmMon(prog, j['state'], j['ssl'], codes, j['job'], j['hs']), jobs, 15000000))
    for w in ('epoll_ctl', 'write', 'WSS_session_add', 'WSS_session_acquire', 'closing', 'WSS_disconnect'):
        if not run.reports and not any(w in s for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    return run.reports, run.cover(), []
