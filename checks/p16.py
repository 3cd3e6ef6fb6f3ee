"""Answers to HTTP requests are complete and well-formed: for every kind of answer the bytes queued for the client are computed from the code and
compared with what an HTTP response has to look like."""
import math
import re
from common import *
from driver import *
import engine
import interp
import nest
from engine import F, I
from interp import fval, fconst

SS, HS, XS, MS = 'struct.wss_session_t', 'struct.wss_header_t', 'struct.wss_ext_t', 'struct.wss_message_t'
g = lambda n: V('G', None, '$' + n)
SESSION, HEADER, SERVER, CONFIG, RING, MSGS, WORKER, PROTO, ERRNO = map(g, (
    'session', 'header', 'server', 'config', 'ring', 'msgs', 'worker', 'proto', 'errno'))
OFF = V('s', (None, ('arg', 'off')), 'off', 0, 64)
READ, PARSE, UPGRADE, WRITE = 'WSS_read', 'WSS_parse_header', 'WSS_upgrade_header', 'WSS_write'
GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
DATE = 29
BUFFER = 64


class AnswerMon(nest.Nest):
    """mon: (buffers: (object, size, bytes), number of allocations, freed, answers, which allocation failed, read calls); a byte is a number,
    (name, index) of an unknown text, or None"""
    names = frozenset({'sprintf', 'snprintf', 'malloc', 'free'})
    inline_never = frozenset({'log_log', WRITE, PARSE, UPGRADE, 'WSS_free_header', 'WSS_base64_encode_sha1', 'WSS_sha1', 'strload', 'bin2hex',
                              'ringbuf_acquire', 'ringbuf_produce', 'WSS_malloc', 'WSS_calloc', 'WSS_realloc', 'WSS_realloc_normal',
                              'WSS_find_subprotocol', 'WSS_disconnect'})
    OOM = True

    def __init__(self, prog, job):
        nest.Nest.__init__(self, prog)
        self.job = job
        self.done = 0
        self.answers = 0
        self.texts = {}

    def init(self):
        return ((), 0, frozenset(), 0, None, 0)

    def put(self, st, **kw):
        st.mon = tuple(kw.get(n, o) for n, o in zip(('buf', 'count', 'freed', 'sent', 'failed', 'reads'), st.mon))

    # -- setting
    def setup(self, itp, st, vals, ctx):
        j, m, x = self.job, st.mem, self.prog.fidx
        vals[0:2] = [SERVER, SESSION]
        s = lambda n, v: m.__setitem__(F(SESSION, SS, x('wss_session_t', n)), v)
        h = lambda n, v: m.__setitem__(F(HEADER, HS, x('wss_header_t', n)), v)
        t = lambda n, k: None if k is None else self.text(n, k)
        for n in ('handshaked', 'closing', 'ssl', 'ssl_connected', 'disconnecting'):
            try:
                s(n, ZERO)
            except AnalysisError:
                pass
        s('fd', C(7))
        s('header', HEADER)
        s('ringbuf', RING)
        s('messages', MSGS)
        content = self.text('content', 40)
        h('content', content)
        h('length', C(40))
        for n in ('method', 'host', 'payload', 'ws_upgrade', 'ws_connection', 'ws_origin', 'cookies', 'ws_key1', 'ws_key2', 'ws_key3'):
            h(n, ZERO)
        h('version', t('version', j['version']) or ZERO)
        path = g('path')
        self.texts[path] = [c for c in (b'/favicon.ico' if j['kind'] == 'icon' else b'/chat')] + [0]
        h('path', path)
        h('ws_key', self.text('key', 24))
        h('ws_protocol', PROTO if j['proto'] else ZERO)
        if j['proto']:
            m[F(PROTO, 'struct.wss_subprotocol_t', x('wss_subprotocol_t', 'name'))] = self.text('proto', j['proto'])
        exts = g('exts')
        h('ws_extensions', exts if j['exts'] else ZERO)
        h('ws_extensions_count', C(len(j['exts'])))
        for i, (n, a) in enumerate(j['exts']):
            e = g('used%d' % i)
            m[I(exts, C(i), ('ptr',))] = e
            f = lambda k, v: m.__setitem__(F(e, XS, x('wss_ext_t', k)), v)
            f('ext', g('ext%d' % i))
            f('name', self.text('name%d' % i, n))
            f('accepted', t('accepted%d' % i, a) or ZERO)
        m[F(SERVER, 'struct.wss_server_t', x('wss_server_t', 'config'))] = CONFIG
        c = lambda n, v: m.__setitem__(F(CONFIG, 'struct.wss_config_t', x('wss_config_t', n)), v)
        c('size_buffer', C(BUFFER))
        for n in ('size_header', 'size_uri', 'size_payload'):
            c(n, C(12 if j['kind'] == 'large' else 1000))
        c('favicon', ZERO if j.get('icon', 0) is None else self.text('file', 5))

    def text(self, name, n):
        p = g('text-' + name)
        self.texts[p] = [(name, i) for i in range(n)] + [0]
        return p

    def bad(self, itp, st, ins, ctx, rule, msg):
        itp.report(rule, ins, ctx, '%s (%s)' % (msg, self.job['text']), st, key=(rule, ins.line if ins else 0))

    # -- bytes
    def at(self, p):
        off = 0
        while p.k == 'I' and (p.c == ('i', 8) or p.b.k == 'c'):
            n = 1 if p.c[0] == 'i' else None
            if p.b.k != 'c' or n is None:
                return p, None
            off += p.b.a
            p = p.a
        return p, off

    def buffer(self, st, b):
        for o, n, bs in st.mon[0]:
            if o is b:
                return n, bs
        return None, None

    def content(self, st, b):
        bs = self.buffer(st, b)[1]
        if bs is not None:
            return bs
        if b in self.texts:
            return self.texts[b]
        if b.k == 'G':
            s = self.prog.string(b)
            if s is not None:
                return list(s if isinstance(s, bytes) else s.encode('latin1')) + [0]
        return None

    def string(self, st, p):
        """the bytes of a string, without the end"""
        b, off = self.at(p)
        bs = self.content(st, b)
        if bs is None or off is None or off < 0:
            return None
        out = []
        for x in bs[off:]:
            if x == 0:
                return out
            out.append(x)
        return None

    def write(self, itp, st, ins, ctx, p, data):
        """whether p lies in a known buffer"""
        b, off = self.at(p)
        n, bs = self.buffer(st, b)
        if bs is None:
            return False
        if b in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'a freed buffer is written to')
            raise interp.PathEnd()
        if off is None or n is None:
            raise AnalysisError('the place written to is not known (%s:%s)' % (ins.fn.file, ins.line))
        if off < 0 or off + len(data) > n:
            self.bad(itp, st, ins, ctx, 'overflow', '%d bytes are written at %d of a buffer of %d' % (len(data), off, n))
            raise interp.PathEnd()
        bs = bs[:off] + tuple(data) + bs[off + len(data):]
        self.put(st, buf=tuple((o, n, bs if o is b else x) for o, n, x in st.mon[0]))
        return True

    def new(self, st, obj, n, fill):
        self.put(st, buf=tuple(x for x in st.mon[0] if x[0] is not obj) + ((obj, n, (fill,) * n),))

    def local(self, itp, st, ins, obj, ctx):
        t, k = ins.extra, 1
        if ins.args:
            k = st.const(itp.ev(ins.fn, ins.args[0][1], st, ctx))
        while t[0] == 'arr':
            k, t = None if k is None else k * t[1], t[2]
        if t == ('i', 8) and k is not None and k > 1:
            self.new(st, obj, k, None)

    def load(self, itp, st, ins, p, v, ctx):
        if ins.ty != ('i', 8):
            return None
        b, off = self.at(p)
        bs = self.content(st, b)
        if bs is None or off is None or not 0 <= off < len(bs):
            return None
        x = bs[off]
        if isinstance(x, int):
            return C(engine.sgn(x, 8))
        if x is not None:
            return V('s', (None, ('text', x)), 'text', 0, 8)
        return None

    def store(self, itp, st, ins, p, v, ctx):
        if engine.root(p) is MSGS:
            self.site(ins, 'queue')
            self.answer(itp, st, ins, v, ctx)
            return
        if ins.args[0][0] == ('i', 8) or ins.args[0][0][0] == ('i', 8):
            if v is None:
                return
            c = st.const(v)
            x = c & 255 if c is not None else v.a[1][1] if v.k == 's' and isinstance(v.a[1], tuple) and v.a[1][0] == 'text' else ('?', 0)
            self.write(itp, st, ins, ctx, p, [x])

    # -- the C library
    def format(self, itp, st, ins, fmt, args):
        out, k, i = [], 0, 0
        f = self.string(st, fmt)
        if f is None or not all(isinstance(x, int) for x in f):
            raise AnalysisError('a format is not known (%s:%s)' % (ins.fn.file, ins.line))
        for m in re.finditer(rb'%([-0 #+]*)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([%sdiuxXc])|(%)|([^%]+)', bytes(f)):
            if m.group(7):
                out += list(m.group(7))
                continue
            what = m.group(5)
            if what == b'%':
                out.append(37)
                continue
            if what is None or m.group(1) or m.group(2):
                raise AnalysisError('a format is not followed (%s:%s)' % (ins.fn.file, ins.line))
            prec = m.group(3)
            if prec == b'*':
                prec = st.const(args[k])
                k += 1
            elif prec is not None:
                prec = int(prec)
            if k >= len(args):
                raise AnalysisError('an argument is missing (%s:%s)' % (ins.fn.file, ins.line))
            a = args[k]
            k += 1
            if what == b's':
                b, off = self.at(a)
                s = self.string(st, a)
                if s is None and prec is not None and self.content(st, b) is not None and off is not None:
                    s = list(self.content(st, b)[off:off + prec])
                    s = s if len(s) == prec else None
                if s is None:
                    return None
                out += s if prec is None else s[:prec]
            else:
                n = st.const(a)
                if n is None:
                    return None
                n = engine.sgn(n, 64 if m.group(4) in (b'l', b'll', b'z', b'j') else 32)
                if what in b'ux' and n < 0:
                    n &= (1 << 32) - 1
                out += [n & 255] if what == b'c' else list(('%d' % n if what in b'diu' else '%x' % n if what == b'x' else '%X' % n).encode())
        return out

    def call(self, itp, st, ins, name, args, ctx):
        if name.startswith('llvm.'):
            name = name.split('.')[1]
        fn = getattr(self, 'c_' + name, None)
        if name in interp.ALLOCS or name in ('WSS_malloc', 'WSS_calloc'):
            try:
                return self.allocate(itp, st, ins, name, args, ctx)
            except interp.PathEnd:
                return []
        if name in interp.FREES:
            return self.release(itp, st, ins, args[0], ctx)
        try:
            return fn(itp, st, ins, args, ctx) if fn else None
        except interp.PathEnd:
            return []

    def allocate(self, itp, st, ins, name, args, ctx):
        a = [st.const(x) for x in args]
        n = a[0] if len(a) == 1 else a[0] * a[1] if None not in a[:2] else None
        if name in ('WSS_copy',) or n is None or n > 1 << 20:
            if n is not None:
                self.bad(itp, st, ins, ctx, 'size', 'a buffer of %d bytes is asked for' % n)
                raise interp.PathEnd()
            raise AnalysisError('the size of a buffer is not known (%s:%s)' % (ins.fn.file, ins.line))
        out = []
        if st.mon[4] is None:
            s = st.copy()
            self.put(s, failed='%s:%s' % (ins.fn.file, ins.line))
            out.append((ZERO, s))
        o = V('o', (None, ('alloc', '', '', st.mon[1])), 'buffer', 0)
        self.put(st, count=st.mon[1] + 1)
        st.facts[o] = engine.NONNULL
        st.mem[V('Z', o)] = ONE
        self.new(st, o, n, 0 if name in ('WSS_malloc', 'WSS_calloc', 'calloc', 'rpcalloc') else None)
        return [(o, st)] + out

    def c_WSS_realloc(self, itp, st, ins, args, ctx):
        n = st.const(args[2])
        if n is None:
            return None
        old = itp.load(st, args[0], ins, ctx, ('ptr',))
        bs = self.content(st, old) or []
        r = self.allocate(itp, st, ins, 'WSS_malloc', [C(n)], ctx)
        for v, s in r:
            if v is not ZERO:
                self.write(itp, s, ins, ctx, v, list(bs)[:min(n, st.const(args[1]) or 0)])
            itp.store(s, args[0], v, ('ptr',))
        return r

    def release(self, itp, st, ins, p, ctx):
        if st.const(p) == 0:
            return [(None, st)]
        if self.buffer(st, p)[1] is not None:
            if p in st.mon[2]:
                self.bad(itp, st, ins, ctx, 'freed', 'something is freed twice')
                return []
            self.put(st, freed=st.mon[2] | {p})
        return [(None, st)]

    def c_strlen(self, itp, st, ins, args, ctx):
        s = self.string(st, args[0])
        if s is not None:
            return [(C(len(s)), st)]
        if self.buffer(st, self.at(args[0])[0])[1] is not None:
            self.bad(itp, st, ins, ctx, 'unset', 'the length of a text that is not set is used')
            return []
        return None

    def copy(self, itp, st, ins, ctx, dst, src, n):
        if n == 0:
            return True
        if n is None:
            if self.buffer(st, self.at(dst)[0])[1] is not None:
                raise AnalysisError('an amount copied is not known (%s:%s)' % (ins.fn.file, ins.line))
            return False
        b, off = self.at(src)
        bs = self.content(st, b)
        if bs is not None and off is not None:
            if off + n > len(bs):
                self.bad(itp, st, ins, ctx, 'overread', '%d bytes at %d of %d are read' % (n, off, len(bs)))
                raise interp.PathEnd()
            data = bs[off:off + n]
        elif n > 1 << 20:
            return False
        else:
            data = [('?', i) for i in range(n)]
        return self.write(itp, st, ins, ctx, dst, data)

    def c_memcpy(self, itp, st, ins, args, ctx):
        if self.copy(itp, st, ins, ctx, args[0], args[1], st.const(args[2])):
            return [(args[0], st)]
        return None
    c_memmove = c_memcpy

    def c_memset(self, itp, st, ins, args, ctx):
        n, c = st.const(args[2]), st.const(args[1])
        if n is not None and c is not None and n < 1 << 16 and self.write(itp, st, ins, ctx, args[0], [c & 255] * n):
            return [(args[0], st)]
        return None

    def c_strcpy(self, itp, st, ins, args, ctx, end=False):
        s = self.string(st, args[1])
        b, off = self.at(args[0])
        if s is None or off is None:
            return None
        if self.write(itp, st, ins, ctx, args[0], s + [0]):
            return [(I(b, C(off + len(s)), ('i', 8)) if end else args[0], st)]
        return None

    def c_stpcpy(self, itp, st, ins, args, ctx):
        return self.c_strcpy(itp, st, ins, args, ctx, True)

    def c_strcat(self, itp, st, ins, args, ctx):
        s, d = self.string(st, args[1]), self.string(st, args[0])
        b, off = self.at(args[0])
        if s is None or d is None or off is None:
            return None
        if self.write(itp, st, ins, ctx, I(b, C(off + len(d)), ('i', 8)), s + [0]):
            return [(args[0], st)]
        return None

    def c_strncpy(self, itp, st, ins, args, ctx):
        s, n = self.string(st, args[1]), st.const(args[2])
        if s is None or n is None:
            return None
        if self.write(itp, st, ins, ctx, args[0], (s + [0] * n)[:n]):
            return [(args[0], st)]
        return None

    def print(self, itp, st, ins, ctx, dst, size, fmt, args):
        out = self.format(itp, st, ins, fmt, args)
        self.site(ins, 'print')
        if out is None:
            if st.const(dst) == 0 or self.buffer(st, self.at(dst)[0])[1] is None:
                return None
            raise AnalysisError('what is printed is not known (%s:%s)' % (ins.fn.file, ins.line))
        if st.const(dst) != 0:
            data = out + [0]
            if size is not None:
                data = [] if size == 0 else out[:size - 1] + [0]
            self.write(itp, st, ins, ctx, dst, data)
        return [(C(len(out)), st)]

    def c_sprintf(self, itp, st, ins, args, ctx):
        return self.print(itp, st, ins, ctx, args[0], None, args[1], args[2:])

    def c_snprintf(self, itp, st, ins, args, ctx):
        n = st.const(args[1])
        if n is None:
            raise AnalysisError('the size of a buffer is not known (%s:%s)' % (ins.fn.file, ins.line))
        return self.print(itp, st, ins, ctx, args[0], n, args[2], args[3:])

    def c_log10(self, itp, st, ins, args, ctx):
        x = fconst(args[0])
        if x is None:
            return None
        if x <= 0:
            self.bad(itp, st, ins, ctx, 'size', 'a length is computed from the logarithm of %d' % x)
            return []
        return [(fval(math.log10(x)), st)]

    def compare(self, st, args, n, fold):
        a, b = (self.string(st, x) for x in args[:2])
        if a is None or b is None or not all(isinstance(x, int) for x in a + b):
            return None
        a, b = ((bytes(x).lower() if fold else bytes(x))[:n] for x in (a, b))
        return [(C(engine.sgn((a > b) - (a < b), 32)), st)]

    def c_strcmp(self, itp, st, ins, args, ctx):
        return self.compare(st, args, None, False)

    def c_strcasecmp(self, itp, st, ins, args, ctx):
        return self.compare(st, args, None, True)

    def c_strncmp(self, itp, st, ins, args, ctx):
        return self.compare(st, args, st.const(args[2]), False)
    c_memcmp = c_bcmp = c_strncmp

    def c_strncasecmp(self, itp, st, ins, args, ctx):
        return self.compare(st, args, st.const(args[2]), True)

    def c_strstr(self, itp, st, ins, args, ctx):
        return [(g('text-content'), st)] if self.at(args[0])[0] is g('text-content') or self.job['kind'] == 'large' else None
    c_memmem = c_strstr

    def c_strftime(self, itp, st, ins, args, ctx):
        n = st.const(args[1])
        self.site(ins, 'date')
        if n is None or n <= DATE:
            self.bad(itp, st, ins, ctx, 'overflow', 'there is no room for a date')
            return []
        self.write(itp, st, ins, ctx, args[0], [('date', i) for i in range(DATE)] + [0])
        return [(C(DATE), st)]

    def c_setlocale(self, itp, st, ins, args, ctx):
        return [(self.text('locale', 1), st)]

    def c_gmtime(self, itp, st, ins, args, ctx):
        return [(g('tm'), st)]

    def c_access(self, itp, st, ins, args, ctx):
        return [(C(-1) if self.job['icon'] == 'gone' else ZERO, st)]

    def c_stat(self, itp, st, ins, args, ctx):
        return [(ZERO, st)]

    def c___errno_location(self, itp, st, ins, args, ctx):
        return [(ERRNO, st)]

    # -- the server
    def c_strload(self, itp, st, ins, args, ctx):
        n = self.job['icon']
        if not isinstance(n, int):
            n = 0
        if n > 0:
            r = self.allocate(itp, st, ins, 'WSS_malloc', [C(n + 1)], ctx)
        else:
            r = [(ZERO, st)]
        out = []
        for v, s in r:
            itp.store(s, args[1], v, ('ptr',))
            if v is not ZERO:
                self.write(itp, s, ins, ctx, v, [('icon', i) for i in range(n)] + [0])
            out.append((C(n if v is not ZERO else 0), s))
        return out

    def c_bin2hex(self, itp, st, ins, args, ctx):
        n = st.const(args[1])
        r = self.allocate(itp, st, ins, 'WSS_malloc', [C(2 * n + 1)], ctx)
        for v, s in r:
            if v is not ZERO:
                self.write(itp, s, ins, ctx, v, [('etag', i) for i in range(2 * n)] + [0])
        return r

    def c_WSS_sha1(self, itp, st, ins, args, ctx):
        b = itp.load(st, args[2], ins, ctx, ('ptr',))
        self.write(itp, st, ins, ctx, b, [('sha', i) for i in range(20)])
        return [(C(20), st)]

    def c_WSS_base64_encode_sha1(self, itp, st, ins, args, ctx):
        self.site(ins, 'accept')
        b, off = self.at(args[0])
        bs, n = self.content(st, b), st.const(args[1])
        want = [('key', i) for i in range(24)] + list(GUID)
        if bs is None or n is None or off is None or list(bs[off:off + n]) != want:
            self.bad(itp, st, ins, ctx, 'accept', 'the accept field is not computed from the key of the request and the identifier of the protocol')
            return []
        r = self.allocate(itp, st, ins, 'WSS_malloc', [C(29)], ctx)
        for v, s in r:
            itp.store(s, args[2], v, ('ptr',))
            if v is not ZERO:
                self.write(itp, s, ins, ctx, v, [('digest', i) for i in range(28)] + [0])
        return [(C(28) if v is not ZERO else ZERO, s) for v, s in r]

    def c_read(self, itp, st, ins, args, ctx):
        k, n = self.job['kind'], st.mon[5]
        self.put(st, reads=n + 1)
        if k == 'large' and n == 0:
            self.write(itp, st, ins, ctx, args[1], [('in', i) for i in range(BUFFER)])
            return [(C(BUFFER), st)]
        st.mem[ERRNO] = C(5 if k == 'error' else 11)
        return [(C(-1), st)]

    def c_WSS_parse_header(self, itp, st, ins, args, ctx):
        return [(C(self.job['code'] if self.job['kind'] == 'parse' else 200), st)]

    def c_WSS_upgrade_header(self, itp, st, ins, args, ctx):
        return [(C(self.job['code']), st)]

    def c_WSS_free_header(self, itp, st, ins, args, ctx):
        return [(None, st)]

    def c_WSS_write(self, itp, st, ins, args, ctx):
        return [(None, st)]
    c_WSS_disconnect = c_WSS_write

    def c_WSS_find_subprotocol(self, itp, st, ins, args, ctx):
        return [(PROTO, st)]

    def c_ringbuf_acquire(self, itp, st, ins, args, ctx):
        s = st.copy()
        itp.store(st, args[1], WORKER, ('ptr',))
        st.facts[OFF] = (0, None, 0, None, frozenset())
        return [(OFF, st), (C(-1), s)]

    def c_ringbuf_produce(self, itp, st, ins, args, ctx):
        return [(None, st)]

    def icall(self, itp, st, ins, cv, args, ctx):
        return [(None, st)]

    # -- the answer
    def answer(self, itp, st, ins, v, ctx):
        self.put(st, sent=st.mon[3] + 1)
        self.answers += 1
        x = self.prog.fidx
        m = lambda n: st.mem.get(F(v, MS, x('wss_message_t', n))) if v is not None else None
        p, n = m('msg'), m('length')
        n = st.const(n) if n is not None else None
        size, bs = self.buffer(st, p) if p is not None else (None, None)
        say = lambda rule, msg: self.bad(itp, st, ins, ctx, rule, msg)
        if bs is None or n is None or v in st.mon[2] or p in st.mon[2]:
            say('answer', 'what is queued is not a message')
            return
        # the message belongs to the queue now
        self.put(st, freed=st.mon[2] | {v, p})
        if n > size or any(b is None or b == 0 for b in bs[:n]):
            say('length', 'the answer is shorter than the %d bytes that are sent' % n)
            return
        if n < size and bs[n] != 0:
            say('length', 'only %d bytes of the answer are sent' % n)
            return
        why = self.wrong(list(bs[:n]), st.mon[4])
        if why:
            say('form', why)

    def wrong(self, bs, failed):
        """what is wrong with an answer"""
        j = self.job
        sub = lambda t: next((i for i in range(len(bs) - len(t) + 1) if bs[i:i + len(t)] == t), None)
        end = sub(list(b'\r\n\r\n'))
        if end is None:
            return 'the fields of the answer do not end'
        body = bs[end + 4:]
        lines, cur = [], []
        for b in bs[:end] + [13, 10]:
            if b == 10 and cur and cur[-1] == 13:
                lines.append(cur[:-1])
                cur = []
            else:
                cur.append(b)
        if cur or any(b in (10, 13) for l in lines for b in l):
            return 'the lines of the answer do not end as they should'
        code = 404 if j['kind'] == 'icon' and not (isinstance(j['icon'], int) and j['icon'] > 0) else j['code']
        words = []
        cur = []
        for b in lines[0]:
            if b == 32 and len(words) < 2:
                words.append(cur)
                cur = []
            else:
                cur.append(b)
        words.append(cur)
        ver = [('version', i) for i in range(j['version'])] if j['version'] else list(b'HTTP/1.1')
        if len(words) < 3 or words[0] != ver:
            return 'the answer does not start with the version of the protocol'
        if j['kind'] == 'icon' and (code == 404 or failed) and words[1] in (list(b'404'), list(b'500'), list(b'503')):
            code = int(bytes(words[1]))
        if words[1] != list(b'%d' % code):
            return 'the status of the answer is not %d' % code
        if not words[2] or not all(isinstance(b, int) and 32 <= b < 127 for b in words[2]):
            return 'the answer has no reason'
        fields = {}
        for l in lines[1:]:
            k = l.index(58) if 58 in l else 0
            name = bytes(l[:k]).decode('latin1').lower() if k and all(isinstance(b, int) for b in l[:k]) else ''
            if not re.fullmatch(r"[a-z0-9!#$%&'*+.^_`|~-]+", name):
                return 'a line of the answer is not a field'
            v = l[k + 1:]
            while v and v[0] in (32, 9):
                v = v[1:]
            while v and v[-1] in (32, 9):
                v = v[:-1]
            if name in fields:
                return 'the field %s appears twice' % name
            fields[name] = v
        known = lambda n: bytes(fields[n]).decode('latin1').lower() if n in fields and all(isinstance(b, int) for b in fields[n]) else None
        length = known('content-length')
        if code != 101:
            if length is None or not length.isdigit() or int(length) != len(body):
                return 'the answer says it has %s bytes of content, but it has %d' % (length, len(body))
            if not body and code != 200:
                return 'the answer has no content'
            if 'transfer-encoding' in fields:
                return 'the answer has no length'
            for n in fields:
                if n.startswith('sec-websocket-') and n != 'sec-websocket-version':
                    return 'a refusal has the field %s' % n
        if code == 200 and body != [('icon', i) for i in range(j['icon'])]:
            return 'the content of the answer is not that of the file'
        if code == 426 and (known('upgrade') != 'websocket' or 'upgrade' not in (known('connection') or '').split(', ')):
            return 'the answer does not say what to upgrade to'
        if code == 501 or code == 426 and 'sec-websocket-version' in fields:
            have = set(re.split(r'\s*,\s*', known('sec-websocket-version') or ''))
            if not (have <= {'13', '8', '7'} and '13' in have) or code == 501 and have != {'13', '8', '7'}:
                return 'the answer does not say which versions are supported'
        if code != 101:
            return None
        if body or length not in (None,):
            return 'an accepted handshake has content'
        if known('upgrade') != 'websocket' or 'upgrade' not in re.split(r'\s*,\s*', known('connection') or ''):
            return 'the answer does not upgrade to websocket'
        if fields.get('sec-websocket-accept') != [('digest', i) for i in range(28)]:
            return 'the answer does not have the accept field'
        want = [('proto', i) for i in range(j['proto'])] if j['proto'] else None
        if fields.get('sec-websocket-protocol') != want:
            return 'the answer does not name the negotiated subprotocol' if want else 'the answer names a subprotocol that was not asked for'
        v = fields.get('sec-websocket-extensions')
        if v is not None:
            v = [b for b in v if b != 32]
        want = None
        for i, (n, a) in enumerate(j['exts']):
            want = (want + [44] if want else []) + [('name%d' % i, k) for k in range(n)]
            if a is not None:
                want += [59] + [('accepted%d' % i, k) for k in range(a)]
        if v != want:
            return 'the answer does not name the negotiated extensions and their parameters'
        return None

    def ret(self, itp, st, ins, val, ctx):
        if ctx.parent is not None or ins is not None:
            return
        self.done += 1
        mem = st.mem.get(F(SESSION, SS, self.prog.fidx('wss_session_t', 'closing')))
        closing = mem is not None and st.const(mem) != 0
        if not st.mon[3] and not closing:
            self.bad(itp, st, ins, ctx, 'none', 'a request is neither answered nor its connection closed%s' % (
                ' when memory runs out at ' + st.mon[4] if st.mon[4] else ''))
        elif st.mon[3] > 1:
            self.bad(itp, st, ins, ctx, 'twice', 'a request is answered twice')
        held = {o for o, n, b in st.mon[0] if o.b == 'buffer'} - st.mon[2]
        reach = {engine.root(v) for k, v in st.mem.items() if engine.root(k) in (SESSION, HEADER)}
        if held - reach:
            self.bad(itp, st, ins, ctx, 'leak', 'memory is lost%s' % (' when memory runs out at ' + st.mon[4] if st.mon[4] else ''))

    def finish(self, itp):
        return self.answers


def classes(tier):
    out = []

    def job(kind, code, text, version=8, proto=0, exts=(), icon=0):
        out.append(dict(root=READ, name='%s/%s' % (kind, text), kind=kind, code=code, text=text, version=version, proto=proto, exts=exts, icon=icon))
    for v in (None, 8):
        for c in (400, 405, 413, 414, 431, 500, 505):
            job('parse', c, 'refused with %d%s' % (c, '' if v else ', no version'), v)
        job('error', 500, 'reading fails%s' % ('' if v else ', no version'), v)
        job('large', 413, 'request too large%s' % ('' if v else ', no version'), v)
    for c in (400, 403, 404, 426, 500, 501):
        job('upgrade', c, 'refused with %d' % c)
    sizes = [1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001] + ([9999, 10000, 10001, 99999, 100000] if tier == 'thorough' else [])
    for n in sizes:
        job('icon', 200, 'icon of %d bytes' % n, icon=n)
    for n in (None, 'gone', 0):
        job('icon', 200, 'icon %s' % {None: 'not configured', 'gone': 'missing', 0: 'empty'}[n], icon=n)
    ext = [(), ((18, None),), ((18, 1),), ((18, 25),), ((1, 40), (5, 3)), ((18, None), (2, None)), ((18, 7), (3, None)), ((4, None), (3, 60), (2, 1))]
    for p in (0, 1, 4, 9):
        for e in ext:
            job('upgrade', 101, 'accepted, subprotocol %s, extensions %s' % ('of %d bytes' % p if p else 'not asked for',
                ', '.join('%d%s' % (n, '' if a is None else ';%d' % a) for n, a in e) or 'none'), proto=p, exts=e)
    return out


def check(tier):
    prog = build.program('server')
    jobs = classes(tier)

    def mk(j):
        m = AnswerMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 400000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no answer: %s' % [j['name'] for j, x in run.extra if not x][:1])
    cov = run.cover()
    cov['answers'] = len(jobs)
    return run.reports, cov, ['the reason phrases and the texts of refusals are not judged', 'lengths of names and contents are the enumerated ones']
