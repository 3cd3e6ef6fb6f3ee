"""The server is taken apart only when nothing uses it any more: for every step of starting and stopping that fails, and for none, the order in which
threads are stopped and resources are released is computed from the code."""
from common import *
from driver import *
import engine
import interp
import p16
import p18
from engine import F, I

g = p16.g
CS, VS = 'struct.wss_config_t', 'struct.wss_server_t'
CONFIG = g('config')
START, SSLINIT, SSLFREE, ENDALL = 'WSS_server_start', 'WSS_http_ssl', 'WSS_http_ssl_free', 'WSS_session_delete_all'
RUNNING = 1
INTERRUPT, PIPE = 2, 13
CLEANUP = 'WSS_cleanup'


class LifeMon(p18.ZlibMon):
    """mon as in P18; sent: what is held, as (kind, what, owner); reads: what happened"""
    fn = START
    inline_never = frozenset({'log_log'})

    def prepare(self, itp, st, vals):
        m, x = st.mem, self.prog.fidx
        vals[0] = CONFIG
        m[V('Z', CONFIG)] = ONE
        c = lambda n, v: m.__setitem__(F(CONFIG, CS, x('wss_config_t', n)), v)
        for n in ('ssl_cert', 'ssl_key', 'ssl_ca_file', 'ssl_ca_path'):
            c(n, self.text(n, 3) if n in self.job['ssl'] else ZERO)
        for n, v in (('port_http', self.job['ports'][0]), ('port_https', self.job['ports'][1]), ('pool_workers', 4), ('size_thread', 1 << 16), ('timeout_poll', -1)):
            c(n, C(v))
        if self.job['paths']:
            o = V('o', (None, ('paths', '', '', 0)), 'pool', 0)
            st.facts[o] = engine.NONNULL
            m[o] = self.text('path', 3)
            c('paths', o)
            c('paths_length', ONE)
        if self.job['fails']:
            self.put(st, failed=self.job['fails'])
        for gv, y in self.prog.gl.items():
            if y[1] is not None and y[1][0] == 'agg' and y[0][0] == 'arr' and y[0][2] == ('i', 32) and not y[2]:
                for i, (t, v) in enumerate(y[1][1]):
                    if v[0] == 'c':
                        m[I(gv, C(i), ('i', 32))] = C(v[1])

    # -- what is held
    def event(self, st, e):
        self.put(st, reads=st.mon[5] + (e,) if e not in st.mon[5] else st.mon[5])

    def hold(self, st, kind, what, owner=None):
        self.put(st, sent=st.mon[3] + ((kind, what, owner),))

    def find(self, st, kind, what):
        return [x for x in st.mon[3] if x[0] == kind and x[1] is what or x[0] == kind and x[1] == what]

    def fail(self, itp, st, ins, v):
        """the paths on which this step fails"""
        if st.mon[4] is not None:
            return []
        s = st.copy()
        self.put(s, failed='%s:%s' % (ins.fn.file, ins.line))
        return [(v, s)]

    def servers(self, st):
        k = self.prog.fidx('wss_server_t', 'config')
        return [p.a for p in st.mem if p.k == 'F' and p.b == VS and p.c == k]

    def get(self, st, srv, n):
        i = self.prog.fidx('wss_server_t', n)
        return st.mem.get(F(srv, VS, i))

    def owner(self, st, what):
        for s in self.servers(st):
            if s is what:
                return s
            for n in ('fd', 'poll_fd'):
                v = self.get(st, s, n)
                if v is not None and v is what:
                    return s
            if what.k == 'o' and any(v is what and engine.root(k) is s for k, v in st.mem.items()):
                return s
            if what.k != 'c' and engine.root(what) is s:
                return s
        return None

    def started(self, st, srv):
        return ('started', srv) in st.mon[5]

    def users(self, st):
        out = []
        for kind, what, o in st.mon[3]:
            if kind == 'thread':
                out.append('a thread' if o is None else 'the thread of a server')
            elif kind == 'pool' and self.started(st, self.owner(st, what)):
                out.append('the tasks of a server')
        return out

    def ends(self, itp, st, ins, ctx, kind, what, text, owner):
        """something is released; whether to go on"""
        self.site(ins, 'release ' + kind)
        if kind == 'pool':
            u = [1 for k, t, o in st.mon[3] if k == 'thread' and o is not None and o is owner]
            u = ['the thread that adds tasks'] if u else []
        elif owner is not None and not self.started(st, owner):
            u = []
        else:
            u = self.users(st)
        if u:
            self.bad(itp, st, ins, ctx, 'used', '%s while %s may still use it%s' % (text, u[0], self.when(st)))
            return False
        return True

    def drop(self, itp, st, ins, ctx, kind, what, text):
        if hasattr(what, 'k') and engine.root(what) in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'freed memory is used' + self.when(st))
            return []
        x = self.find(st, kind, what)
        if not x:
            self.bad(itp, st, ins, ctx, 'unheld', '%s that is not held%s' % (text, self.when(st)))
            return []
        o = x[0][2] if x[0][2] is not None or not hasattr(what, 'k') else self.owner(st, what)
        if not self.ends(itp, st, ins, ctx, kind, what, text, o):
            return []
        self.put(st, sent=tuple(y for y in st.mon[3] if y is not x[0]))
        return [(ZERO, st)]

    def when(self, st):
        return ', when %s fails' % st.mon[4] if st.mon[4] else ''

    # -- calls
    def call(self, itp, st, ins, name, args, ctx):
        fn = getattr(self, 'c_' + name, None)
        if fn is not None and name in OWN:
            try:
                return fn(itp, st, ins, args, ctx)
            except interp.PathEnd:
                return []
        base = name.split('.')[1] if name.startswith('llvm.') else name
        if base in ('memset', 'memcpy', 'memmove') and args[0].k == 'F' and engine.root(args[0]).k == 'o' and V('Z', engine.root(args[0])) in st.mem:
            # an address in the server: what it is does not matter, the rest is as before
            for q in [q for q in st.mem if self.inside(q, args[0])]:
                del st.mem[q]
            return [(args[0], st)]
        if base in ('memcpy', 'memmove') and args[1].k == 'G' and args[1] in self.prog.gl and self.prog.gl[args[1]][2]:
            y = self.prog.gl[args[1]]
            self.initial(itp, st, ins.fn, ctx, args[1], y[0], y[1])
        r = p18.ZlibMon.call(self, itp, st, ins, name, args, ctx)
        if r is None and name not in self.prog.funcs and not name.startswith('llvm.'):
            r = [(itp.retsym(st, ins, ctx, name), st)]
        return r

    def initial(self, itp, st, fn, ctx, p, t, v):
        """what a constant holds, for a copy of it"""
        if v is None:
            return
        if v[0] == 'agg':
            for i, (u, w) in enumerate(v[1]):
                self.initial(itp, st, fn, ctx, itp.gep(p, t, [ZERO, C(i)]), u, w)
        elif v[0] in ('c', 'g', 'null') and t[0] in ('i', 'ptr'):
            st.mem[p] = itp.ev(fn, v, st, ctx, t)

    def inside(self, q, p):
        while q.k in ('F', 'I'):
            if q is p:
                return True
            q = q.a
        return q is p

    def c_shutdown(self, itp, st, ins, args, ctx):
        if not self.find(st, 'descriptor', args[0]):
            self.bad(itp, st, ins, ctx, 'closed', 'a descriptor that is closed is shut down' + self.when(st))
            return []
        again = ('shut', args[0]) in st.mon[5]
        f = self.fail(itp, st, ins, C(-1))
        self.event(st, ('shut', args[0]))
        return [(C(-1) if again else ZERO, st)] + f

    def step(self, itp, st, ins, args, ctx):
        return [(ZERO, st)] + self.fail(itp, st, ins, C(-1))
    c_getrlimit = c_setrlimit = c_setsockopt = c_bind = c_listen = c_fcntl = c_fcntl64 = c_epoll_ctl = step

    def c_sigaction(self, itp, st, ins, args, ctx):
        n = st.const(args[0])
        f = self.fail(itp, st, ins, C(-1))
        h = [v for k, v in st.mem.items() if v.k == 'fn' and engine.root(k) is engine.root(args[1])]
        if n is not None and len(h) == 1:
            self.event(st, ('signal', n, h[0].a))
        elif n is not None:
            self.event(st, ('signal', n, None))
        return [(ZERO, st)] + f

    def signalled(self, itp, st, n):
        """the states after signal n"""
        h = [e[2] for e in st.mon[5] if e[0] == 'signal' and e[1] == n]
        if not h:
            return None
        if h[-1] is None:
            return [st]
        return [s for r, s in self.nested(itp, st, h[-1], [C(n)], 'signal')]

    def c_pthread_mutex_init(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(12))
        self.hold(st, 'lock', args[0])
        self.site(ins, 'set up lock')
        return [(ZERO, st)] + f
    c_pthread_rwlock_init = c_pthread_mutex_init

    def c_pthread_mutex_destroy(self, itp, st, ins, args, ctx):
        return self.drop(itp, st, ins, ctx, 'lock', args[0], 'a lock is destroyed')
    c_pthread_rwlock_destroy = c_pthread_mutex_destroy

    def descriptor(self, st, owner=None):
        n = C(100 + st.mon[1])
        self.put(st, count=st.mon[1] + 1)
        self.hold(st, 'descriptor', n, owner)
        return n

    def c_socket(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(-1))
        return [(self.descriptor(st), st)] + f
    c_epoll_create1 = c_epoll_create = c_socket

    def c_pipe(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(-1))
        o = self.owner(st, engine.root(args[0])) if engine.root(args[0]).k == 'o' else None
        for i in range(2):
            itp.store(st, I(args[0], C(i), ('i', 32)), self.descriptor(st, o), ('i', 32))
        if o is None:
            self.event(st, ('closer', st.mon[3][-1][1]))
        return [(ZERO, st)] + f
    c_pipe2 = c_pipe

    def c_close(self, itp, st, ins, args, ctx):
        return self.drop(itp, st, ins, ctx, 'descriptor', args[0], 'a descriptor is closed')

    def c_write(self, itp, st, ins, args, ctx):
        if not self.find(st, 'descriptor', args[0]):
            self.bad(itp, st, ins, ctx, 'closed', 'a descriptor that is closed is written to' + self.when(st))
            return []
        if ('closer', args[0]) in st.mon[5] and not self.running(st):
            self.event(st, 'woken')
        return [(args[2], st)]

    def running(self, st):
        k = [x for x, y in self.prog.gl.items() if y[0] == ('struct', 'struct.wss_server_state_t')]
        if len(k) != 1:
            raise AnalysisError('the state of the server is not found')
        k = k[0]
        v = st.mem.get(F(k, 'struct.wss_server_state_t', self.prog.fidx('wss_server_state_t', 'state')))
        v = st.mem.get(k) if v is None else v
        if v is None:
            return False
        v = st.const(v)
        if v is None:
            raise AnalysisError('the state of the server is not known')
        return v == RUNNING

    def c_pthread_create(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(11))
        n = C(1000 + st.mon[1])
        self.put(st, count=st.mon[1] + 1)
        o = args[3] if args[3].k == 'o' else None
        itp.store(st, args[0], n, ('i', 64))
        self.hold(st, 'thread', n, o)
        self.site(ins, 'thread')
        if not self.running(st):
            self.bad(itp, st, ins, ctx, 'state', 'a thread is started that would end at once')
            return []
        self.event(st, ('started', o))
        if o is not None:
            t, v = (self.get(st, o, n) for n in ('ssl_ctx', 'port'))
            self.event(st, ('serves', st.const(v) if v is not None else 0, t is not None and st.const(t) != 0))
        if o is None:
            self.event(st, 'complete')
        elif not self.find(st, 'sessions', 1):
            self.hold(st, 'sessions', 1)
        return [(ZERO, st)] + f

    def c_pthread_join(self, itp, st, ins, args, ctx):
        x = self.find(st, 'thread', args[0])
        self.site(ins, 'join')
        if not x:
            self.bad(itp, st, ins, ctx, 'unheld', 'a thread is joined that does not run' + self.when(st))
            return []
        out = []
        if st.const(args[1]) != 0:
            for v, s in self.fail(itp, st, ins, ZERO):
                if self.told(s):
                    self.joined(itp, s, args, x[0], C(3))
                    out.append((v, s))
            if not out and st.mon[4] is None:
                # it ends although nobody told it to
                v, s = self.fail(itp, st, ins, ZERO)[0]
                self.joined(itp, s, args, x[0], C(3))
                out.append((v, s))
        if 'complete' in st.mon[5] and not self.told(st) and st.mon[4] is None:
            out += self.shutdown(itp, st, ins, args, ctx, x[0])
        elif not self.told(st):
            self.bad(itp, st, ins, ctx, 'asleep', 'a thread is waited for that was not told to end' + self.when(st))
        else:
            self.joined(itp, st, args, x[0], ZERO)
            out.append((ZERO, st))
        return out

    def shutdown(self, itp, st, ins, args, ctx, x):
        """all runs, then a broken pipe and an interrupt are signalled"""
        r = self.signalled(itp, st, PIPE)
        if r is None or any(self.told(s) or not self.running(s) for s in r):
            self.bad(itp, st, ins, ctx, 'signal', 'the server ends when a client has gone')
            return []
        out = []
        for s in r:
            q = self.signalled(itp, s, INTERRUPT)
            if q is None:
                self.bad(itp, s, ins, ctx, 'signal', 'an interrupt does not end the server in order')
            for t in q or []:
                if not self.told(t):
                    self.bad(itp, t, ins, ctx, 'asleep', 'an interrupt does not make the threads end')
                    continue
                self.joined(itp, t, args, x, ZERO)
                out.append((ZERO, t))
        return out

    def told(self, st):
        return 'woken' in st.mon[5] and not self.running(st)

    def joined(self, itp, st, args, x, result):
        self.put(st, sent=tuple(y for y in st.mon[3] if y is not x))
        if st.const(args[1]) != 0:
            itp.store(st, args[1], result, ('ptr',))

    def c_threadpool_create(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, ZERO)
        o = V('o', (None, ('pool', '', '', st.mon[1])), 'pool', 0)
        self.put(st, count=st.mon[1] + 1)
        st.facts[o] = engine.NONNULL
        self.hold(st, 'pool', o)
        return [(o, st)] + f

    def c_threadpool_destroy(self, itp, st, ins, args, ctx):
        return self.drop(itp, st, ins, ctx, 'pool', args[0], 'a pool is stopped')

    def c_WSS_http_ssl(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(9)) + self.fail(itp, st, ins, C(9))
        q = F(args[0], VS, self.prog.fidx('wss_server_t', 'ssl_ctx'))
        for s in [st] + [x for v, x in f[1:]]:
            o = V('o', (None, ('ssl', '', '', s.mon[1])), 'ssl', 0)
            s.facts[o] = engine.NONNULL
            itp.store(s, q, o, ('ptr',))
            self.hold(s, 'tls', o)
        return [(ZERO, st)] + f

    def c_WSS_http_ssl_free(self, itp, st, ins, args, ctx):
        v = itp.load(st, F(args[0], VS, self.prog.fidx('wss_server_t', 'ssl_ctx')), ins, ctx, ('ptr',))
        return self.drop(itp, st, ins, ctx, 'tls', v, 'the TLS context is freed')

    def c_regcomp(self, itp, st, ins, args, ctx):
        f = self.fail(itp, st, ins, C(12))
        self.hold(st, 'expression', args[0])
        return [(ZERO, st)] + f

    def c_regfree(self, itp, st, ins, args, ctx):
        return self.drop(itp, st, ins, ctx, 'expression', args[0], 'a regular expression is freed')

    def c_WSS_load_extensions(self, itp, st, ins, args, ctx):
        self.hold(st, 'plugins', 'extensions')
        return [(None, st)]

    def c_WSS_load_subprotocols(self, itp, st, ins, args, ctx):
        self.hold(st, 'plugins', 'subprotocols')
        return [(None, st)]

    def unload(self, itp, st, ins, ctx, what):
        if self.find(st, 'sessions', 1):
            self.bad(itp, st, ins, ctx, 'used', 'plugins are unloaded while connections are left' + self.when(st))
            return []
        return self.drop(itp, st, ins, ctx, 'plugins', what, 'the plugins are unloaded')

    def c_WSS_destroy_extensions(self, itp, st, ins, args, ctx):
        return self.unload(itp, st, ins, ctx, 'extensions')

    def c_WSS_destroy_subprotocols(self, itp, st, ins, args, ctx):
        return self.unload(itp, st, ins, ctx, 'subprotocols')

    def c_WSS_session_delete_all(self, itp, st, ins, args, ctx):
        if not self.ends(itp, st, ins, ctx, 'sessions', 1, 'connections are freed', None):
            return []
        self.put(st, sent=tuple(y for y in st.mon[3] if y[0] != 'sessions'))
        return [(ZERO, st)]

    def release(self, itp, st, ins, p, ctx):
        if st.const(p) != 0 and self.buffer(st, p)[1] is not None and p not in st.mon[2]:
            o = self.owner(st, p)
            if o is not None and not self.ends(itp, st, ins, ctx, 'memory', p, 'memory of a server is freed', o):
                return []
        return p18.ZlibMon.release(self, itp, st, ins, p, ctx)

    def load(self, itp, st, ins, p, v, ctx):
        self.alive(itp, st, ins, p, ctx)
        return p18.ZlibMon.load(self, itp, st, ins, p, v, ctx)

    def store(self, itp, st, ins, p, v, ctx):
        self.alive(itp, st, ins, p, ctx)

    def alive(self, itp, st, ins, p, ctx):
        if engine.root(p) in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'freed memory is used' + self.when(st))
            raise interp.PathEnd()

    def start(self, itp, st):
        pass

    def ret(self, itp, st, ins, val, ctx):
        if ctx.parent is not None or ins is not None or self.stack:
            return
        self.done += 1
        r = st.const(val) if val is not None else None
        if r is None:
            raise AnalysisError('the result is not known')
        if (r != 0) != (st.mon[4] is not None):
            self.bad(itp, st, None, ctx, 'status', 'the server ends with status %d%s' % (r, self.when(st) or ', when nothing fails'))
        both = [(self.job['ports'][0], False)] + [(self.job['ports'][1], True)] * self.job['tls']
        if st.mon[4] is None and sorted(e[1:] for e in st.mon[5] if e[0] == 'serves') != sorted(both):
            self.bad(itp, st, None, ctx, 'which', 'not those servers run that are configured')
        for k, w, o in st.mon[3]:
            self.bad(itp, st, None, ctx, 'left', '%s left%s' % ({'thread': 'a thread is', 'sessions': 'connections are', 'plugins': 'plugins are'}.get(k, 'a %s is' % k), self.when(st)))
        if self.held(st):
            self.bad(itp, st, None, ctx, 'left', 'memory is left' + self.when(st))


OWN = {n[2:] for n in LifeMon.__dict__ if n.startswith('c_')}


def classes(tier):
    out = []
    all4 = ('ssl_cert', 'ssl_key', 'ssl_ca_file', 'ssl_ca_path')
    for name, ssl, ports, fails in (('HTTP only', (), (80, 443), None), ('both servers', all4[:3], (80, 443), None),
                                    ('both, CA path', ('ssl_cert', 'ssl_key', 'ssl_ca_path'), (0, 65535), None), ('no CA', all4[:2], (80, 443), None),
                                    ('no key', ('ssl_cert', 'ssl_ca_file'), (80, 443), None), ('no certificate', ('ssl_key', 'ssl_ca_file'), (80, 443), None),
                                    ('ports out of range', (), (65536, 443), 'the port'), ('ports out of range, HTTPS', all4, (80, -1), 'the port')):
        out.append(dict(root=START, name=name, text=name, ssl=ssl, ports=ports, fails=fails, paths=ports[1] == 443, tls=all4[0] in ssl and all4[1] in ssl and len(ssl) > 2))
    return out


def check(tier):
    prog = build.program('server')
    engine.OFFSETS = True
    jobs = classes(tier)

    def mk(j):
        m = LifeMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 4000000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['name'] for j, x in run.extra if not x][:1])
    cov = run.cover()
    cov['courses'] = sum(x for j, x in run.extra)
    return run.reports, cov, ['one step fails at a time', 'what threads do is that of the other properties']
