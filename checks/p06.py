"""Handshake gate: the requests are partitioned by what their fields are worth against the configuration; the status code is decided
for every class. Frames, callbacks and the 101 response are only reachable behind it."""
from common import *
from driver import *
import engine
import itertools

CMP = {'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'bcmp'}
LEN = {'strlen', 'strnlen'}
FIND = {'strstr', 'strcasestr'}
HD = 'struct.wss_header_t'
DIMS = {
    'path': ('/', 'ws://', 'wss://', 'http://', 'https://'),
    're': ('none', 'match', 'nomatch', 'error'),
    'host': ('nolist', 'first', 'later', 'other', 'missing', 'absent'),
    'upgrade': ('ok', 'other', 'missing'),
    'conn': ('first', 'later', 'other', 'missing'),
    'origin': ('nolist', 'first', 'later', 'other', 'missing', 'absent'),
    'type': (13, 8, 7, 0, 1, 2, 4, 5, 6),
    'key': ('ok', 'missing', 'undecodable', 0, 15, 17),
}
FAULT = {'path': {'http://': (426, 400), 'https://': (426, 400)},
         're': {'nomatch': (404,), 'error': (500,)},
         'host': {'other': (400,), 'missing': (400,)},
         'upgrade': {'other': (426, 400), 'missing': (426, 400)},
         'conn': {'other': (426, 400), 'missing': (426, 400)},
         'origin': {'other': (403,), 'missing': (403,)},
         'type': {k: (501, 426, 400) for k in (0, 1, 2, 4, 5, 6)},
         'key': {k: (426, 400) for k in ('missing', 'undecodable', 0, 15, 17)}}
WHAT = {'path': 'the path names another protocol', 're': 'the path is not among the configured paths',
        'host': 'the host is not among the configured hosts', 'upgrade': 'no upgrade to websocket was asked for',
        'conn': 'the connection field does not ask for an upgrade',
        'origin': 'the origin is not among the configured origins', 'type': 'the version is not supported',
        'key': 'the key is not 16 bytes'}
FIELD = {'path': 'path', 'host': 'host', 'ws_upgrade': 'upgrade', 'ws_connection': 'conn', 'ws_origin': 'origin', 'ws_key': 'key'}


def text(c):
    return ', '.join('%s=%s' % (k, v) for k, v in c.items())


def classes(tier):
    most = 2 if tier == 'quick' else 3
    names = list(DIMS)
    base = {k: v[0] for k, v in DIMS.items()}
    out = []
    for n in range(most + 1):
        for ks in itertools.combinations(names, n):
            for vs in itertools.product(*[DIMS[k][1:] for k in ks]):
                c = dict(base)
                c.update(zip(ks, vs))
                out.append(c)
    return out


def literal(itp, v):
    b = itp.prog.string(v) if v is not None and v.k == 'G' else None
    return b.decode('latin1') if b is not None else None


class UpMon(Monitor):
    """mon = how often the list behind conn/host/origin was compared so far"""
    OOM = False
    K = 4
    KHEAD = 4
    KRET = 8
    MODSIZE = 1 << 30
    inline_never = frozenset({'log_log', 'WSS_free', 'b64_decode', 'b64_decode_ex', 'strinarray'})

    def __init__(self, prog, cls):
        self.prog = prog
        self.cls = cls
        self.c = None
        self.sites = set()
        x = prog.fidx
        self.f = {x('wss_header_t', k): d for k, d in FIELD.items()}
        self.typef = x('wss_header_t', 'ws_type')
        self.cfg = {x('wss_config_t', 'hosts_length'): 'host', x('wss_config_t', 'origins_length'): 'origin'}
        self.seen = {}

    def init(self):
        return (0, 0, 0)

    def interesting(self, prog, f, ins):
        return True

    def modular(self, itp, g):
        return False

    def prov(self, v):
        if v is None:
            return None
        for s in (root(v),) if v.k != 'e' else syms(v):
            if s.k == 's' and isinstance(s.b, engine.Val) and s.b.k == 'F' and s.b.b == HD:
                return self.f.get(s.b.c)
        return None

    def load(self, itp, st, ins, p, v, ctx):
        if p.k != 'F' or v.k != 's':
            return
        c = self.c
        if p.b == HD and p.c in self.f:
            st.facts[v] = engine.const_fact(0) if c[self.f[p.c]] in ('missing', 'absent') else engine.NONNULL
        elif p.b == HD and p.c == self.typef:
            st.facts[v] = engine.const_fact(c['type'])
        elif p.b == 'struct.wss_config_t' and p.c in self.cfg:
            d = c[self.cfg[p.c]]
            if d in ('nolist', 'absent'):
                st.facts[v] = engine.const_fact(0)
            else:
                lo = 2 if d == 'later' else 1
                st.facts[v] = (lo, 1000, lo, 1000, frozenset())

    def step(self, st, f):
        i = ('conn', 'host', 'origin').index(f)
        m = list(st.mon)
        n = m[i]
        m[i] = min(2, n + 1)
        st.mon = tuple(m)
        return n

    def equal(self, itp, st, a, b, f, ins):
        """outcome of comparing something from field f with b"""
        c = self.c
        lit = literal(itp, b) or literal(itp, a)
        self.sites.add('%s:%s compares %s' % (ins.fn.file, ins.line, f))
        if f == 'path':
            return lit is not None and lit.lower() == c['path']
        if f == 'upgrade':
            if lit is None or lit.lower() != 'websocket':
                return False
            return c[f] == 'ok'
        if f in ('conn', 'host', 'origin'):
            if f == 'conn' and (lit is None or lit.lower() != 'upgrade'):
                return False
            if c[f] == 'first':
                return True
            if c[f] == 'later':
                return self.step(st, f) >= 1
            return False
        return None

    def whole_list(self, itp, st, ins, args, f, ctx):
        n = args[2]
        while n.k == 'e' and n.a in ('zext', 'sext', 'trunc'):
            n = n.b
        loc = n.b if n.k == 's' and isinstance(n.b, engine.Val) else None
        lst = root(args[1]).b
        x = self.prog.fidx
        if isinstance(lst, engine.Val) and lst.k == 'F' and lst.b == 'struct.wss_config_t':
            if lst.c != x('wss_config_t', f + 's'):
                itp.report('wrong-list', ins, ctx, 'the %s is looked up in another list' % f, st, key=f)
            elif loc is None or loc.k != 'F' or loc.c != x('wss_config_t', f + 's_length'):
                itp.report('partial-list', ins, ctx, 'the %s is not looked up in the whole list' % f, st, key=f)

    def call(self, itp, st, ins, name, args, ctx):
        c = self.c
        if name in CMP or name in FIND:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                f = self.prov(a)
                if f is not None and f != 'key':
                    if name not in FIND and len(args) > 2 and name not in ('strcmp', 'strcasecmp'):
                        lit = literal(itp, b)
                        n = st.const(args[2])
                        if lit is not None and n is not None and n < len(lit) and f != 'path':
                            itp.report('partial-comparison', ins, ctx, 'only the first %d bytes of the %s field are compared with '
                                       '"%s"' % (n, f, lit), st)
                    e = self.equal(itp, st, a, b, f, ins)
                    r = itp.retsym(st, ins, ctx, name)
                    if name in FIND:
                        if e:
                            st.facts[r] = engine.NONNULL
                            return [(V('s', (ctx, ins.id, 'f'), root(a).b, 0, 'p'), st)]
                        return [(ZERO, st)]
                    if e:
                        return [(ZERO, st)]
                    st.facts[r] = (None, None, 1, None, frozenset((0,)))
                    return [(r, st)]
            return None
        if name == 'strinarray':
            f = self.prov(args[0])
            if f in ('host', 'origin'):
                self.sites.add('%s:%s looks up %s' % (ins.fn.file, ins.line, f))
                self.whole_list(itp, st, ins, args, f, ctx)
                return [(ZERO if c[f] in ('first', 'later') else C(0xffffffff), st)]
            if st.const(args[0]) == 0:
                return [(C(0xffffffff), st)]
            return None
        if name in LEN:
            f = self.prov(args[0])
            r = itp.retsym(st, ins, ctx, name)
            if f == 'upgrade' and c[f] == 'ok':
                st.facts[r] = engine.const_fact(9)
                return [(C(9), st)]
            if f == 'conn' and c[f] in ('first', 'later'):
                st.facts[r] = (7, 1000, 7, 1000, frozenset())
            lit = literal(itp, args[0])
            return [(C(len(lit)) if lit is not None else r, st)]
        if name == 'strtok_r':
            if args[0] is not None and st.const(args[0]) != 0:
                f = self.prov(args[0])
                loc = root(args[0]).b
                first = True
            else:
                s = st.mem.get(args[2])
                f = self.prov(s)
                loc = root(s).b if s is not None else None
                first = False
            if f is None:
                return None
            st.mem[args[2]] = V('s', (ctx, ins.id, 'sv'), loc, 0, 'p')
            r = V('s', (ctx, ins.id, 'tok'), loc, 0, 'p')
            st.facts.pop(r, None)
            s2 = st.copy()
            st.facts[r] = engine.NONNULL
            if f == 'conn' and c[f] in ('first', 'later'):
                return [(r, st)]
            return [(r, st), (ZERO, s2)]
        if name == 'regexec':
            self.sites.add('%s:%s regexec' % (ins.fn.file, ins.line))
            if self.prov(args[1]) != 'path':
                itp.report('wrong-subject', ins, ctx, 'the configured paths are not matched against the path of the request', st)
            r = itp.retsym(st, ins, ctx, name)
            if c['re'] == 'error':
                st.facts[r] = (2, 100, 2, 100, frozenset())
                return [(r, st)]
            return [(C(1 if c['re'] == 'nomatch' else 0), st)]
        if args and name.startswith('b64_decode') and self.prov(args[0]) == 'key':
            self.sites.add('%s:%s decodes the key' % (ins.fn.file, ins.line))
            if c['key'] == 'undecodable':
                return [(ZERO, st)]
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = engine.NONNULL
            for a in args[1:]:
                if root(a).k == 'o' and root(a).b == 'alloca':
                    st.mem[a] = C(16 if c['key'] == 'ok' else c['key'])
            return [(r, st)]
        return None

    def ret(self, itp, st, ins, val, ctx):
        c = self.c
        code = st.const(val, 32) if val is not None else None
        allowed = [(k, FAULT[k][v]) for k, v in c.items() if v in FAULT[k]]
        want = set().union(*[set(a) for _, a in allowed]) if allowed else {101}
        self.seen.setdefault(code, 0)
        self.seen[code] += 1
        if code is None:
            r = st.rng(val, 32)
            if allowed and engine.cmp_rng('eq', r, engine.const_fact(101)) is not False or not allowed:
                itp.report('undecided-status', ins, ctx, 'the status code is not determined by the request (%s)' % text(c), st,
                           key='u')
            return
        if code in want:
            return
        if not allowed:
            itp.report('valid-refused', ins, ctx, 'a valid request is refused with %d (%s)' % (code, text(c)), st, key='v%d' % code)
        elif code == 101:
            itp.report('invalid-accepted', ins, ctx, 'the handshake is accepted although %s (%s)' % (
                ' and '.join(WHAT[k] for k, _ in allowed), text(c)), st, key='a' + allowed[0][0])
        else:
            itp.report('wrong-status', ins, ctx, 'the request is refused with %d instead of %s: %s (%s)' % (
                code, '/'.join(map(str, sorted(want))), ' and '.join(WHAT[k] for k, _ in allowed), text(c)), st,
                key='w%s%d' % (allowed[0][0], code))


class FindMon(Monitor):
    """strinarray: found only if one element equals the needle in full. mon = element known to be equal"""
    OOM = False
    MODSIZE = 1 << 30
    K = 6
    KHEAD = 3

    def __init__(self, prog):
        self.sites = set()

    def init(self):
        return (False, None)

    def interesting(self, prog, f, ins):
        return True

    def length(self, v):
        return V('e', 'strlen', v, None, 64)

    def call(self, itp, st, ins, name, args, ctx):
        if name == 'strlen':
            return [(self.length(args[0]), st)]
        if name in CMP:
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            s2 = st.copy()
            r = itp.retsym(s2, ins, ctx, name)
            s2.facts[r] = (None, None, 1, None, frozenset((0,)))
            full = name in ('strcmp',)
            if not full and len(args) > 2 and name in ('strncmp', 'memcmp', 'bcmp'):
                a, b = self.length(args[0]), self.length(args[1])
                full = st.cmp('eq', a, b, 64) is True and (args[2] in (a, b) or st.cmp('eq', a, args[2], 64) is True)
            st.mon = (True, full)
            s2.mon = (False, None)
            return [(ZERO, st), (r, s2)]
        return None

    def ret(self, itp, st, ins, val, ctx):
        c = st.const(val, 32)
        if c == 0 and not (st.mon[0] and st.mon[1]):
            itp.report('found-unequal', ins, ctx, 'a value is found in a list although no element equals it completely', st)
        if c != 0 and st.mon[0] and st.mon[1]:
            itp.report('not-found', ins, ctx, 'a value that equals an element of a list is not found', st)


NAMES = {'sec-websocket-version': 'ws_version', 'upgrade': 'ws_upgrade', 'origin': 'ws_origin', 'connection': 'ws_connection',
         'cookie': 'cookies', 'sec-websocket-protocol': 'ws_protocol', 'sec-websocket-origin': 'ws_origin',
         'sec-websocket-key': 'ws_key', 'host': 'host', 'websocket-protocol': 'ws_protocol',
         'sec-websocket-key1': 'ws_key1', 'sec-websocket-key2': 'ws_key2'}
FIXED = ('ws_upgrade', 'ws_origin', 'ws_connection', 'cookies', 'ws_protocol', 'ws_key', 'host', 'ws_key1', 'ws_key2', 'ws_version')


class ParseMon(Monitor):
    """mon = (method, version, matched header name, key seen)"""
    OOM = False
    K = 16
    KHEAD = 3
    KRET = 8
    MODSIZE = 1 << 30
    inline_never = frozenset({'log_log', 'WSS_find_subprotocol', 'WSS_find_extension', 'WSS_copy', 'WSS_free', 'strinarray'})

    def __init__(self, prog):
        self.prog = prog
        self.sites = set()
        x = prog.fidx
        self.idx = {x('wss_header_t', k): k for k in
                    set(FIXED) | {'method', 'version', 'path', 'payload', 'content', 'ws_type'}}
        self.pay = None

    def init(self):
        return ('?', '?', None, False, False, False)

    def interesting(self, prog, f, ins):
        return True

    def modular(self, itp, g):
        return False

    def length(self, v):
        return V('e', 'strlen', v, None, 64)

    def call(self, itp, st, ins, name, args, ctx):
        m = st.mon
        if name in LEN:
            lit = literal(itp, args[0])
            return [(C(len(lit)) if lit is not None else self.length(args[0]), st)]
        if name == 'strinarray':
            which = None
            for k, i in (('method', 0), ('version', 1)):
                p = [q for q, v in st.mem.items() if v is args[0] and q.k == 'F' and q.b == HD and self.idx.get(q.c) == k]
                if p:
                    which = i
            if which is None:
                return None
            self.sites.add('%s:%s checks the %s' % (ins.fn.file, ins.line, ('method', 'version')[which]))
            s2 = st.copy()
            a, b = list(m), list(m)
            a[which], b[which] = 'ok', 'bad'
            st.mon, s2.mon = tuple(a), tuple(b)
            return [(ZERO, st), (C(0xffffffff), s2)]
        if name in CMP:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                lit = literal(itp, b)
                if lit is None:
                    continue
                if lit.lower() in NAMES:
                    self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, lit))
                    full = name in ('strcmp', 'strcasecmp')
                    if not full:
                        full = st.cmp('eq', self.length(a), C(len(lit)), 64) is True and \
                            st.cmp('eq', args[2], C(len(lit)), 64) is True
                    s2 = st.copy()
                    st.mon = m[:2] + (lit.lower() if full else '~' + lit.lower(),) + m[3:]
                    r = itp.retsym(s2, ins, ctx, name)
                    s2.facts[r] = (None, None, 1, None, frozenset((0,)))
                    s2.mon = m[:2] + (None,) + m[3:]
                    return [(ZERO, st), (r, s2)]
            return None
        return None

    def store(self, itp, st, ins, p, v, ctx):
        if p.k != 'F' or p.b != HD or p.c not in self.idx:
            return
        k = self.idx[p.c]
        m = st.mon
        if k in FIXED:
            cur = m[2]
            self.sites.add('%s:%s sets %s' % (ins.fn.file, ins.line, k))
            if cur is None or NAMES.get(cur) != k:
                itp.report('wrong-field', ins, ctx, 'the value of the header field %s is used as %s' % (
                    cur.strip('~') + ' (only part of whose name was compared)' if cur and cur[0] == '~' else cur, k), st, key=k)
            if k == 'ws_key' and not st.isnull(v):
                if m[3]:
                    itp.report('second-key', ins, ctx, 'a second key in a request is not refused', st)
                st.mon = m[:3] + (True,) + m[4:]
        elif k == 'payload':
            st.mon = m[:4] + (v,) + m[5:]

    def rename(self, mon, sub):
        if not isinstance(mon[4], engine.Val):
            return mon
        return mon[:4] + (sub(mon[4]),) + mon[5:]

    def mon_syms(self, mon):
        return syms(mon[4]) if isinstance(mon[4], engine.Val) else frozenset()


class GateMon(Monitor):
    """mon = (handshaked at start, parse result, upgrade result, answered, handshaked, told)"""
    names = frozenset({'WSS_parse_header', 'WSS_upgrade_header', 'WSS_parse_frame', 'WSS_stringify_frame', 'ringbuf_produce'})
    inline_never = frozenset({'WSS_parse_header', 'WSS_upgrade_header', 'WSS_parse_frame', 'WSS_stringify_frame', 'WSS_free_header',
                              'ringbuf_produce', 'ringbuf_acquire', 'WSS_flush', 'WSS_disconnect', 'WSS_free_frame',
                              'WSS_closing_frame', 'WSS_ping_frame', 'WSS_pong_frame', 'WSS_ssl_handshake', 'WSS_connect'})
    LOCKFAIL = False
    OOM = True
    K = 6
    KHEAD = 2
    KRET = 12
    MODSIZE = 1 << 30

    def __init__(self, prog, hs):
        self.prog = prog
        self.hs = hs
        self.sites = set()
        x = prog.fidx
        self.hf = ('struct.wss_session_t', x('wss_session_t', 'handshaked'))
        self.cf = ('struct.wss_session_t', x('wss_session_t', 'closing'))

    def init(self):
        return (None, None, False, self.hs, False)

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and (c[1], c[2]) in (self.hf, (self.hf[0][7:], self.hf[1]))
        return is_plugin_icall(prog, f, ins)

    def modular(self, itp, g):
        return False

    def load(self, itp, st, ins, p, v, ctx):
        if p.k == 'F' and (p.b, p.c) == self.hf and v.k != 'c':
            st.facts[v] = engine.const_fact(1 if st.mon[3] else 0)

    def store(self, itp, st, ins, p, v, ctx):
        if p.k != 'F':
            return
        if (p.b, p.c) == self.cf and v is not None and st.const(v) != 0:
            st.mon = st.mon[:2] + (True,) + st.mon[3:]
        if (p.b, p.c) == self.hf and v is not None and st.const(v) != 0:
            pr, up, ans, hs, told = st.mon
            self.sites.add('%s:%s established' % (ins.fn.file, ins.line))
            if pr != 200 or up != 101:
                itp.report('established-refused', ins, ctx, 'a connection is established although its request was not accepted', st)
            elif not ans:
                itp.report('established-unanswered', ins, ctx, 'a connection is established before the response is queued', st)
            st.mon = (pr, up, ans, True, told)

    def icall(self, itp, st, ins, cv, args, ctx):
        s = plugin_slot(self.prog, cv)
        if s and s[0] == SUBPROTO and s[1] in ('connect', 'message'):
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, s[1]))
            if not st.mon[3]:
                itp.report('told-unestablished', ins, ctx, 'the subprotocol is told about a connection (%s) that is not established'
                           % s[1], st)
        return None

    def call(self, itp, st, ins, name, args, ctx):
        pr, up, ans, hs, told = st.mon
        if name == 'WSS_parse_header':
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            if hs:
                itp.report('second-handshake', ins, ctx, 'an established connection is treated as a HTTP request', st)
            s2 = st.copy()
            itp.havoc_args(st, args)
            itp.havoc_args(s2, args)
            st.mon = (200, None, False, hs, told)
            s2.mon = (0, None, False, hs, told)
            r = itp.retsym(s2, ins, ctx, name)
            s2.facts[r] = (400, 599, 400, 599, frozenset())
            return [(C(200), st), (r, s2)]
        if name == 'WSS_upgrade_header':
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            s2 = st.copy()
            st.mon = (pr, 101, ans, hs, told)
            s2.mon = (pr, 0, ans, hs, told)
            r = itp.retsym(s2, ins, ctx, name)
            s2.facts[r] = (400, 599, 400, 599, frozenset())
            return [(C(101), st), (r, s2)]
        if name == 'ringbuf_produce':
            st.mon = (pr, up, True, hs, told)
            return None
        if name in ('WSS_parse_frame', 'WSS_stringify_frame'):
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
            if not hs:
                itp.report('frame-unestablished', ins, ctx, 'a frame is %s on a connection that is not established' % (
                    'parsed' if name == 'WSS_parse_frame' else 'sent'), st)
            return None
        if name in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            if any(a.k != 'G' and st.const(a, 32) == 101 and a.k == 'c' for a in args[1:]) or \
                    any('101 ' in (literal(itp, a) or '') for a in args):
                self.sites.add('%s:%s status 101' % (ins.fn.file, ins.line))
                if pr != 200 or up != 101:
                    itp.report('switching-refused', ins, ctx, 'status 101 is sent to a request that was not accepted', st)
            return None
        return None

    def ret(self, itp, st, ins, val, ctx):
        pr, up, ans, hs, told = st.mon
        if pr is not None and not ans:
            itp.report('unanswered', ins, ctx, 'a complete request is neither answered nor is its connection closed', st)


def check(tier):
    prog = build.program('server')
    f = prog.need('WSS_upgrade_header')
    if prog.structs.get('struct.wss_header_t') is None:
        raise AnalysisError('anchor vanished: wss_header_t')
    cl = classes(tier)
    # -- status code of every class
    def setup_of(c):
        def setup(itp, st, vals, ctx):
            itp.mon.c = c
            for i, a in enumerate(vals):
                if i == 0:
                    st.mem[F(a, HD, itp.mon.typef)] = C(c['type'])
                if i == 2:
                    st.facts[a] = engine.const_fact(0) if c['re'] == 'none' else engine.NONNULL
        return setup
    run = Run()
    run.add(explore(prog, lambda j: UpMon(prog, None),
                    [dict(root='WSS_upgrade_header', name='WSS_upgrade_header', setup=setup_of(c)) for c in cl]))
    n = len(cl)
    if not run.reports and len(run.sites) < 7:
        raise AnalysisError('only %d decisions found in WSS_upgrade_header' % len(run.sites))
    # -- list lookup
    if prog.func('strinarray') is not None:
        run.add(explore(prog, lambda j: FindMon(prog), ['strinarray']))
    # -- request parsing
    run.add(explore(prog, lambda j: ParseRet(prog), ['WSS_parse_header']))
    # -- the gate
    for hs in (False, True):
        mon = GateMon(prog, hs)
        rr = relevant_roots(prog, mon, {'main', 'WSS_parse_header', 'WSS_upgrade_header'})
        run.add(explore(prog, lambda j: GateMon(prog, hs), [dict(root=r, name='%s/%s' % (r, hs)) for r in rr]))
    run.roots = sorted(set(run.roots))
    cov = run.cover()
    cov['request_classes'] = n
    cov['explanation'] = ('every class of requests (each field right, wrong or missing, with or without a configured list) is '
                          'followed through the decision; the header parser is followed with the name of the field being parsed; '
                          'every worker path is followed with the results of both')
    return run.reports, cov, ['comparison functions of the C library and b64_decode_ex by contract',
                              'two wrong fields at a time (three in thorough)']


class ParseRet(ParseMon):
    def ret(self, itp, st, ins, val, ctx):
        m = st.mon
        code = st.const(val, 32)
        if code != 200:
            r = st.rng(val, 32)
            if r[0] is None or r[0] < 400 or r[1] is None or r[1] > 599:
                itp.report('undecided-status', ins, ctx, 'a refused request has no error status (%s)' % code, st)
            return
        self.sites.add('accepts a request')
        if m[0] != 'ok':
            itp.report('method-unchecked', ins, ctx, 'a request is accepted whose method was not checked', st)
        if m[1] != 'ok':
            itp.report('version-unchecked', ins, ctx, 'a request is accepted whose HTTP version was not checked', st)
        if m[4] is False:
            itp.report('end-unchecked', ins, ctx, 'a request is accepted whose header has no end', st)
        hdr = [(q, v) for q, v in st.mem.items() if q.k == 'F' and q.b == HD and q.c in self.idx]
        cfg = {(q.b, q.c): v for q, v in st.mem.items() if q.k == 'F' and q.b == 'struct.wss_config_t'}
        x = self.prog.fidx

        def within(s, field, what):
            lim = cfg.get(('struct.wss_config_t', x('wss_config_t', field)))
            if lim is not None:
                z = engine.cast('zext', lim, 32, 64)
                for a in (lim, z):
                    if st.cmp('ule', self.length(s), a, 64) is True:
                        return
            itp.report('limit-' + field, ins, ctx, 'a request is accepted although the %s may exceed the configured size' % what,
                       st, key=field)
        for q, v in hdr:
            if self.idx[q.c] == 'path':
                within(v, 'size_uri', 'path')
            if self.idx[q.c] == 'payload' and m[4] is not False:
                within(v, 'size_payload', 'body')
