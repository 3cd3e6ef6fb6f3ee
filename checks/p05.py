"""Lifecycle of connections as plugins see it: connect once, close once for every connect, every opened extension closed once."""
from common import *
from driver import *
import engine

SS, HD, XT = 'struct.wss_session_t', 'struct.wss_header_t', 'struct.wss_ext_t'
FREEH = 'WSS_free_header'


class LifeMon(Monitor):
    """mon = (handshaked, header, extensions, connects, closes, closed extensions)
    header: none (no request parsed) / req (parsed, extensions opened) / kept (belongs to the connection)"""
    names = frozenset({'WSS_parse_header', FREEH, 'close'})
    inline_never = frozenset({'WSS_parse_header', 'WSS_upgrade_header', 'WSS_parse_frame', 'WSS_stringify_frame', FREEH,
                              'ringbuf_produce', 'ringbuf_acquire', 'WSS_flush', 'WSS_free_frame', 'WSS_connect',
                              'WSS_message_send_frames', 'WSS_closing_frame', 'WSS_ping_frame', 'WSS_pong_frame',
                              'WSS_ssl_handshake', 'WSS_write', 'WSS_free'})
    LOCKFAIL = False
    OOM = True
    K = 4
    KHEAD = 1
    KRET = 8
    MODSIZE = 1 << 30

    def __init__(self, prog, hs, n):
        self.prog = prog
        self.hs = hs
        self.n = n
        self.sites = set()
        x = prog.fidx
        self.hsf = (SS, x('wss_session_t', 'handshaked'))
        self.hf = (SS, x('wss_session_t', 'header'))
        self.fdf = (SS, x('wss_session_t', 'fd'))
        self.cf = (HD, x('wss_header_t', 'ws_extensions_count'))
        self.lf = (HD, x('wss_header_t', 'ws_extensions'))
        self.pf = (HD, x('wss_header_t', 'ws_protocol'))

    def init(self):
        return (self.hs, 'kept' if self.hs else 'none', self.n if self.hs else 0, 1 if self.hs else 0, 0, 0)

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and c[1] in (SS, SS[7:]) and c[2] == self.hsf[1]
        x = icall_field(prog, f, ins)
        return x is not None and (x[0] == SUBPROTO and x[1] in ('connect', 'close') or x[0] == EXT and x[1] == 'close')

    def modular(self, itp, g):
        return False

    def load(self, itp, st, ins, p, v, ctx):
        if p.k != 'F' or v.k == 'c':
            return
        k = (p.b, p.c)
        hs, h, n, con, cl, mask = st.mon
        if k == self.hsf:
            st.facts[v] = engine.const_fact(1 if hs else 0)
        elif k == self.hf and hs:
            st.facts[v] = engine.NONNULL
        elif k == self.cf:
            st.facts[v] = engine.const_fact(n)
        elif k == self.lf:
            st.facts[v] = engine.NONNULL if n else engine.const_fact(0)
        elif k == self.pf:
            if h == 'kept':
                # set for as long as the connection was announced and not closed
                if con > cl:
                    st.facts[v] = engine.NONNULL
            elif h == 'none':
                st.facts[v] = engine.const_fact(0)
        elif p.b == XT and self.prog.fieldname(XT, p.c) == 'ext':
            st.facts[v] = engine.NONNULL

    def store(self, itp, st, ins, p, v, ctx):
        if p.k != 'F' or v is None:
            return
        hs, h, n, con, cl, mask = st.mon
        if (p.b, p.c) == self.hsf and st.const(v) != 0:
            self.sites.add('%s:%s established' % (ins.fn.file, ins.line))
            st.mon = (True, 'kept', n, con, cl, mask)

    def fd_of(self, st, v):
        if v.k == 's' and isinstance(v.b, engine.Val) and v.b.k == 'F' and (v.b.b, v.b.c) == self.fdf:
            return True
        return any(x is v and q.k == 'F' and (q.b, q.c) == self.fdf for q, x in st.mem.items())

    def index(self, cv):
        """index of the extension whose callback is called"""
        try:
            e = cv.b.a.b          # address of the ext member the structure was loaded from
            q = e.a.b             # address of the list element
            if q.k == 'I':
                return q.b
            if root(q) is q or q.k == 's':
                return ZERO
        except AttributeError:
            pass
        return None

    def icall(self, itp, st, ins, cv, args, ctx):
        s = plugin_slot(self.prog, cv)
        if s is None:
            return None
        hs, h, n, con, cl, mask = st.mon
        w = '%s:%s %s.%s' % (ins.fn.file, ins.line, s[0], s[1])
        if s[0] == SUBPROTO and s[1] == 'connect':
            self.sites.add(w)
            if con:
                itp.report('connect-twice', ins, ctx, 'the subprotocol is told twice about a connection', st)
            elif not hs:
                itp.report('connect-early', ins, ctx, 'the subprotocol is told about a connection that is not established', st)
            if not self.fd_of(st, args[0]):
                itp.report('wrong-fd', ins, ctx, 'connect is called with something else than the descriptor of the session', st)
            st.mon = (hs, h, n, min(2, con + 1), cl, mask)
        elif s[0] == SUBPROTO and s[1] == 'close':
            self.sites.add(w)
            if not con:
                itp.report('close-unconnected', ins, ctx, 'the subprotocol is told about the end of a connection it was never told '
                           'about', st)
            elif cl:
                itp.report('close-twice', ins, ctx, 'the subprotocol is told twice about the end of a connection', st)
            if not self.fd_of(st, args[0]):
                itp.report('wrong-fd', ins, ctx, 'close is called with something else than the descriptor of the session', st)
            st.mon = (hs, h, n, con, min(2, cl + 1), mask)
        elif s[0] == SUBPROTO and s[1] == 'message':
            self.sites.add(w)
            if not con:
                itp.report('message-unconnected', ins, ctx, 'a message is given to a subprotocol that was not told about the '
                           'connection', st)
            elif cl:
                itp.report('message-closed', ins, ctx, 'a message is given to a subprotocol after the end of the connection', st)
            if not self.fd_of(st, args[0]):
                itp.report('wrong-fd', ins, ctx, 'message is called with something else than the descriptor of the session', st)
        elif s[0] == EXT and s[1] == 'close':
            self.sites.add(w)
            i = self.index(cv)
            i = st.const(i) if i is not None else None
            if i is None:
                itp.report('ext-unknown', ins, ctx, 'the end of a connection is told to an extension that cannot be told from others', st)
            else:
                if mask >> i & 1:
                    itp.report('ext-close-twice', ins, ctx, 'an extension is told twice about the end of a connection', st)
                st.mon = (hs, h, n, con, cl, mask | 1 << i)
            if not self.fd_of(st, args[0]):
                itp.report('wrong-fd', ins, ctx, 'close is called with something else than the descriptor of the session', st)
        elif s[0] == EXT and s[1] in ('inframe', 'inframes', 'outframe', 'outframes'):
            if not hs or mask:
                itp.report('ext-use', ins, ctx, 'frames are given to an extension that is not open', st)
        return None

    def call(self, itp, st, ins, name, args, ctx):
        hs, h, n, con, cl, mask = st.mon
        if name == 'WSS_parse_header':
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            itp.havoc_args(st, args)
            out = []
            for k in (0, self.n) if self.n else (0,):
                s = st.copy()
                for q in [q for q in s.mem if q.k == 'F' and (q.b, q.c) in (self.cf, self.lf, self.pf)]:
                    del s.mem[q]
                r = itp.retsym(s, ins, ctx, name)
                s.mon = (hs, 'req', k, con, cl, 0)
                out.append((r, s))
            return out
        if name == FREEH:
            if h in ('req', 'kept'):
                self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
                self.closed(itp, st, ins, ctx, 'its header is freed')
                if h == 'req':
                    st.mon = (hs, 'none', 0, con, cl, 0)
                else:
                    st.mon = (hs, 'gone', 0, con, cl, 0)
            return [(None, st)]
        if name == 'close' and args and self.fd_of(st, args[0]):
            self.sites.add('%s:%s close' % (ins.fn.file, ins.line))
            if hs and not cl:
                itp.report('close-missing', ins, ctx, 'a connection ends without telling the subprotocol', st)
            if h != 'gone':
                self.closed(itp, st, ins, ctx, 'the connection is closed')
            st.mon = self.init()
            return None
        return None

    def closed(self, itp, st, ins, ctx, when):
        hs, h, n, con, cl, mask = st.mon
        if n and mask != (1 << n) - 1:
            itp.report('ext-close-missing', ins, ctx, 'not every opened extension is told about the end of the connection before %s'
                       % when, st)

    def ret(self, itp, st, ins, val, ctx):
        hs, h, n, con, cl, mask = st.mon
        if hs and not con:
            itp.report('connect-missing', ins, ctx, 'a connection is established without telling the subprotocol', st)
        if h == 'req' and n and mask != (1 << n) - 1:
            itp.report('ext-close-missing', ins, ctx, 'a refused request leaves its extensions open', st, key='ret')


class OpenMon(Monitor):
    """opening extensions. mon = an extension is open that neither belongs to the header nor was closed"""
    OOM = True
    K = 8
    KHEAD = 2
    KRET = 16
    MODSIZE = 1 << 30
    inline_never = frozenset({'log_log', 'WSS_find_subprotocol', 'WSS_find_extension', 'WSS_free', 'strinarray'})

    def __init__(self, prog, known):
        self.prog = prog
        self.known = known
        self.sites = set()
        x = prog.fidx
        self.cf = (HD, x('wss_header_t', 'ws_extensions_count'))
        self.ef = (XT, x('wss_ext_t', 'ext'))

    def init(self):
        return (False, None, 0)

    def rename(self, mon, sub):
        return (mon[0], sub(mon[1]) if mon[1] is not None else None, mon[2])

    def mon_syms(self, mon):
        return syms(mon[1]) if mon[1] is not None else frozenset()

    def interesting(self, prog, f, ins):
        return ins.op == 'gep' and prog.gep_class(ins)[:2] in (('F', XT), ('F', XT[7:])) or is_plugin_icall(prog, f, ins)

    def modular(self, itp, g):
        return False

    def load(self, itp, st, ins, p, v, ctx):
        if p.k == 'F' and v.k == 's':
            if (p.b, p.c) == self.cf and self.known:
                st.facts[v] = (1, 100, 1, 100, frozenset())
            if (p.b, p.c) == self.ef and self.known and st.mon[1] is not None:
                st.assume_cmp('eq', v, st.mon[1], 'p')

    def call(self, itp, st, ins, name, args, ctx):
        if name == 'WSS_find_extension':
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            s2 = st.copy()
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            st.mon = (st.mon[0], r, 0)
            return [(r, st), (ZERO, s2)]
        return None

    def icall(self, itp, st, ins, cv, args, ctx):
        s = plugin_slot(self.prog, cv)
        if s is None or s[0] != EXT:
            return None
        open_, cur, _ = st.mon
        if s[1] == 'open':
            self.sites.add('%s:%s open' % (ins.fn.file, ins.line))
            if open_:
                itp.report('ext-dropped', ins, ctx, 'an opened extension is neither used nor closed', st)
            if self.known:
                itp.report('ext-open-twice', ins, ctx, 'an extension that is already open on the connection is opened again', st)
            itp.havoc_args(st, args)
            s2 = st.copy()
            p = args[3]
            st.mem[p] = ONE
            s2.mem[p] = ZERO
            st.mon = (True, cur, 0)
            s2.mon = (False, cur, 1)
            return [(None, st), (None, s2)]
        if s[1] == 'close':
            self.sites.add('%s:%s close' % (ins.fn.file, ins.line))
            st.mon = (False, cur, 0)
        return None

    def store(self, itp, st, ins, p, v, ctx):
        if p.k == 'F' and (p.b, p.c) == self.cf:
            self.sites.add('%s:%s kept' % (ins.fn.file, ins.line))
            if not st.mon[0]:
                itp.report('ext-refused-used', ins, ctx, 'an extension is used although it was not opened or refused its parameters', st)
            st.mon = (False, st.mon[1], 0)

    def ret(self, itp, st, ins, val, ctx):
        if st.mon[0]:
            itp.report('ext-dropped', ins, ctx, 'an opened extension is neither used nor closed', st, key='ret')


def check(tier):
    prog = build.program('server')
    run = Run()
    most = 2 if tier == 'quick' else 4
    for hs, n in [(a, b) for a in (False, True) for b in range(0, most + 1)]:
        mon = LifeMon(prog, hs, n)
        rr = relevant_roots(prog, mon, {'main', 'WSS_parse_header', 'WSS_upgrade_header', FREEH})
        rr = [r for r in rr if any(LifeMon(prog, hs, n).relevant_fn(prog, g) for g in prog.reach(prog.funcs[r])[1])]
        if hs and 'WSS_session_delete_all' not in rr and prog.func('WSS_session_delete_all'):
            rr.append('WSS_session_delete_all')
        run.add(explore(prog, lambda j: LifeMon(prog, hs, n), [dict(root=r, name='%s/%d%d' % (r, hs, n)) for r in rr]))
    for known in (False, True):
        run.add(explore(prog, lambda j: OpenMon(prog, known), ['WSS_parse_header']))
    need = ('established', 'subprotocol_t.connect', 'subprotocol_t.close', 'extension_t.close', ' open', ' kept')
    for w in need:
        if not run.reports and not any(w in s for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    cov = run.cover()
    cov['explanation'] = ('every path of every thread is followed with the callbacks the connection has had so far; a connection '
                          'starts unestablished or established, with up to %d extensions' % most)
    return run.reports, cov, ['an extension reports its refusal through the valid parameter']
