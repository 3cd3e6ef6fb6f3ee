"""Frames are written and read as RFC 6455 says: every class of frame is put through the code that turns frames into bytes and
bytes into frames, and the resulting bytes and fields are compared with the format."""
import struct
from common import *
from driver import *
import engine

FR = 'struct.wss_frame_t'
M64 = (1 << 64) - 1
IN = V('G', None, '$input')
OUTP, OFFP = V('G', None, '$out'), V('G', None, '$offset')
FIELDS = ('fin', 'rsv1', 'rsv2', 'rsv3', 'opcode', 'mask', 'payloadLength', 'applicationDataLength', 'extensionDataLength')
COPY = {'memcpy', 'memmove'}
ALLOC = {'WSS_malloc', 'WSS_calloc', 'malloc', 'calloc', 'WSS_realloc', 'WSS_copy', 'rpmalloc', 'rpcalloc'}
SWAP = {'ntohs': 2, 'htons': 2, 'ntohl': 4, 'htonl': 4, 'llvm.bswap.i16': 2, 'llvm.bswap.i32': 4, 'llvm.bswap.i64': 8}
ORDER = struct.pack('=H', 1) == struct.pack('<H', 1)


def lin(v, k=1, out=None):
    top = out is None
    out = {} if top else out
    if v.k == 'c':
        out[None] = out.get(None, 0) + k * v.a
    elif v.k == 'e' and v.a in ('add', 'sub'):
        lin(v.b, k, out)
        lin(v.c, k if v.a == 'add' else -k, out)
    elif v.k == 'e' and v.a in ('zext', 'sext'):
        lin(v.b, k, out)
    else:
        out[v] = out.get(v, 0) + k
    if top:
        return {x: n for x, n in out.items() if n}
    return out


def size_of(t):
    return {'i': lambda: max(1, t[1] // 8), 'ptr': lambda: 8}.get(t[0], lambda: None)()


class Rope:
    """contents of a buffer: pieces (offset, length, kind, data), kind k known bytes, c copied from (base, offset), v computed bytes, x something else;
    length may be symbolic for the last one"""

    @staticmethod
    def put(rope, off, n, kind, data):
        out = []
        for o, l, k, d in rope:
            if isinstance(l, int) and isinstance(n, int):
                for a, b in ((o, min(o + l, off)), (max(o, off + n), o + l)):
                    if a < b:
                        dd = d[a - o:b - o] if k in 'kv' else (d[0], d[1] + a - o) if k == 'c' else d
                        out.append((a, b - a, k, dd))
            elif isinstance(l, int) and o + l <= off:
                out.append((o, l, k, d))
            elif not isinstance(l, int) and isinstance(n, int) and off + n <= o:
                out.append((o, l, k, d))
        if n != 0:
            out.append((off, n, kind, data))
        return Rope.norm(out)

    @staticmethod
    def norm(r):
        r = sorted(r, key=lambda x: x[0])
        out = []
        for o, l, k, d in r:
            if out and isinstance(l, int):
                a, b, kk, dd = out[-1]
                if isinstance(b, int) and a + b == o and k == kk:
                    if k in 'kv':
                        out[-1] = (a, b + l, k, dd + d)
                        continue
                    if k == 'c' and dd[0] is d[0] and dd[1] + b == d[1]:
                        out[-1] = (a, b + l, k, dd)
                        continue
            out.append((o, l, k, d))
        return tuple(out)

    @staticmethod
    def cut(rope, off, n):
        """pieces between off and off + n, moved to 0"""
        out = []
        for o, l, k, d in rope:
            if not isinstance(l, int):
                if o >= off and not isinstance(n, int):
                    out.append((o - off, l, k, d))
                continue
            e = off + n if isinstance(n, int) else o + l
            a, b = max(o, off), min(o + l, e)
            if a < b:
                dd = d[a - o:b - o] if k in 'kv' else (d[0], d[1] + a - o) if k == 'c' else d
                out.append((a - off, b - a, k, dd))
        return Rope.norm(out)

    @staticmethod
    def text(r):
        return ' '.join('%s..%s:%s' % (o, '' if not isinstance(l, int) else o + l, d.hex() if k == 'k' and len(d) <= 16 else
                                       {'k': 'bytes', 'c': 'data from %s' % (d[1] if k == 'c' else ''), 'x': '?', 'v': 'data'}[k])
                        for o, l, k, d in r)


def byte(c=0, *atoms):
    return (c, frozenset(atoms))


def bytes_of(v, n):
    """the n lowest bytes of a value, each a constant exclusive or unknown bytes"""
    if v.k == 'c':
        return tuple(byte(x) for x in (v.a & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
    if v.k == 's' and isinstance(v.a, tuple) and isinstance(v.a[1], tuple) and v.a[1][0] == 'bytes' and len(v.a[1][1]) >= n:
        return v.a[1][1][:n]
    if v.k == 'B':
        return v.b[:n]
    if v.k == 'e':
        if v.a == 'xor':
            a, b = bytes_of(v.b, n), bytes_of(v.c, n)
            return tuple((x[0] ^ y[0], x[1] ^ y[1]) for x, y in zip(a, b))
        if v.a == 'trunc':
            return bytes_of(v.b, n)
        if v.a in ('zext', 'sext'):
            k = v.c.a // 8
            if v.c.a % 8 == 0 and n <= k:
                return bytes_of(v.b, n)
            if v.c.a % 8 == 0 and v.a == 'zext':
                return bytes_of(v.b, k) + (byte(),) * (n - k)
        if v.a == 'and' and v.c.k == 'c' and v.c.a & ((1 << 8 * n) - 1) == (1 << 8 * n) - 1:
            return bytes_of(v.b, n)
    return tuple(byte(0, (v, i)) for i in range(n))


def spread(r, n):
    """the first n bytes of a rope, None for unknown ones"""
    out = [None] * n
    for o, l, k, d in r:
        if not isinstance(l, int):
            if k != 'c':
                return [None] * n
            l = max(0, n - o)
        for i in range(max(0, -o), min(l, n - o)):
            out[o + i] = byte(d[i]) if k == 'k' else byte(0, (d[0], d[1] + i)) if k == 'c' else d[i] if k == 'v' else None
    return out


class FrameMon(Monitor):
    """mon = (buffers: ((object, rope, size), ...), allocations)"""
    names = frozenset(COPY | ALLOC | set(SWAP) | {'log_log'})
    inline_never = frozenset({'log_log', 'WSS_malloc', 'WSS_calloc', 'WSS_realloc', 'WSS_free', 'WSS_copy'})
    LOCKFAIL = False
    OOM = False
    K = KHEAD = KRET = 300
    MODSIZE = 1 << 30

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.sites = set()
        x = prog.fidx
        self.fi = {n: (FR, x('wss_frame_t', n)) for n in FIELDS + ('payload', 'maskingKey')}
        self.results = 0
        # only the header is followed exactly
        self.coarse = cls['kind'] == 'decode' and not cls['content']
        if cls['kind'] in ('decode', 'ping'):
            self.K = self.KHEAD = 310 if cls.get('content') else 24

    def init(self):
        return ((), 0)

    def modular(self, itp, g):
        return False

    def relevant_fn(self, prog, f):
        return True

    def group(self, st):
        return st.mon

    def fail(self, itp, rule, ins, ctx, msg, st):
        itp.report(rule, ins, ctx, '%s (%s)' % (msg, self.cls['text']), st, key=(rule, self.cls['kind'], ins.id if ins else None))

    # -- buffers
    def at(self, p):
        """(base, offset) of a byte address"""
        off = {}
        while p.k == 'I':
            sz = size_of(p.c)
            if sz is None:
                break
            for k, n in lin(p.b).items():
                off[k] = off.get(k, 0) + sz * n
            p = p.a
        off = {k: n for k, n in off.items() if n}
        if not off:
            return p, 0
        if set(off) == {None}:
            return p, off[None]
        return p, None

    def rope(self, st, b):
        for o, r, s in st.mon[0]:
            if o is b:
                return r, s
        return None, None

    def setrope(self, st, b, r, size=None):
        out = tuple((o, r, s) if o is b else (o, q, s) for o, q, s in st.mon[0])
        if not any(o is b for o, q, s in out):
            out += ((b, r, size),)
        st.mon = (out,) + st.mon[1:]

    def new(self, st, size):
        n = st.mon[1]
        o = V('o', (None, ('alloc', '', '', n)), 'buffer', 0)
        st.mon = (st.mon[0] + ((o, (), size),), n + 1) + st.mon[2:]
        st.mem[V('Z', o)] = ONE
        return o

    def num(self, st, v):
        c = st.const(v)
        return c & M64 if c is not None else v

    def input(self, off, n):
        """what is at off in the input: a rope"""
        h = self.cls.get('bytes')
        base = self.cls.get('start', 0)
        if h is None:
            return ((0, n, 'c', (IN, off)),)
        r = ()
        k = off - base
        if isinstance(n, int) and 0 <= k < len(h):
            m = min(n, len(h) - k)
            r = ((0, m, 'k', h[k:k + m]),)
            if n > m:
                r += ((m, n - m, 'c', (IN, off + m)),)
            return r
        return ((0, n, 'c', (IN, off)),)

    def source(self, itp, st, ins, ctx, p, n):
        b, off = self.at(p)
        if n == 0:
            return ()
        if off is None:
            return ((0, n, 'x', None),)
        if b is IN:
            lim = self.cls.get('length')
            if lim is not None and (not isinstance(n, int) or off + n > lim or off < 0):
                self.fail(itp, 'overread', ins, ctx, 'reads behind the end of what was received', st)
            return self.input(off, n)
        r, s = self.rope(st, b)
        if r is not None:
            if isinstance(s, int) and isinstance(n, int) and off + n > s:
                self.fail(itp, 'overread', ins, ctx, 'reads behind the end of a buffer', st)
            return Rope.cut(r, off, n)
        if b.k == 'G' and b.b != '$input':
            s = self.string(itp, b)
            if s is not None and isinstance(n, int) and off + n <= len(s):
                return ((0, n, 'k', s[off:off + n]),)
        v = st.mem.get(p)
        if v is not None and isinstance(n, int) and n <= 8:
            return self.value(st, v, n)
        return ((0, n, 'c', (b, off)),)

    def string(self, itp, g):
        g0 = g
        s = self.prog.string(g0)
        return None if s is None else (s if isinstance(s, bytes) else s.encode('latin1')) + b'\0'

    def write(self, itp, st, ins, ctx, p, n, rope):
        b, off = self.at(p)
        r, s = self.rope(st, b)
        if r is None:
            if b.k == 'F' and (b.b, b.c) == self.fi['maskingKey']:
                self.setrope(st, b, ())
                r, s = (), 4
            else:
                return False
        if off is None or self.coarse and any(k == 'v' for _, _, k, _ in rope):
            self.setrope(st, b, ((0, V('G', None, 'all'), 'x', None),))
            return True
        if isinstance(s, int) and ((not isinstance(n, int) and not self.coarse) or isinstance(n, int) and off + n > s or off < 0):
            self.fail(itp, 'overflow', ins, ctx, 'writes behind the end of a buffer of %d bytes' % s, st)
            self.setrope(st, b, ((0, V('G', None, 'all'), 'x', None),))
            return True
        for o, l, k, d in rope:
            r = Rope.put(r, off + o, l, k, d)
        self.setrope(st, b, r)
        return True

    # -- hooks
    def load(self, itp, st, ins, p, v, ctx):
        b, off = self.at(p)
        n = self.size(ins.ty)
        if n is None or ins.ty[0] == 'ptr' or b is not IN and self.rope(st, b)[0] is None:
            return None
        self.sites.add('%s:%s read' % (ins.fn.file, ins.line))
        if off is None:
            return None
        bs = self.bytes(st, b, self.source(itp, st, ins, ctx, p, n), n)
        if any(x is None for x in bs):
            return None
        if ins.ty[0] == 'vec':
            return V('B', None, tuple(bs))
        if n > 8:
            return None
        if not any(x[1] for x in bs):
            return C(engine.sgn(int.from_bytes(bytes(x[0] for x in bs), 'little'), 8 * n))
        if v is not None and bs == list(bytes_of(v, n)):
            return None
        return V('s', (None, ('bytes', tuple(bs))), 'bytes', 0, 8 * n)

    def bytes(self, st, b, rope, n):
        bs = spread(rope, n)
        if b.k == 'o' and b.b == 'buffer':
            have = {o + i for o, l, k, d in rope for i in range(l if isinstance(l, int) else n)}
            bs = [byte() if x is None and i not in have else x for i, x in enumerate(bs)]
        return bs

    @staticmethod
    def size(t):
        if t[0] in ('arr', 'vec'):
            k = FrameMon.size(t[2])
            return None if k is None else t[1] * k
        return size_of(t)

    def store(self, itp, st, ins, p, v, ctx):
        n = self.size(ins.args[0][0])
        b, off = self.at(p)
        if n is None or v is None or self.rope(st, b)[0] is None:
            return
        self.sites.add('%s:%s write' % (ins.fn.file, ins.line))
        if ins.args[0][0][0] in ('i', 'vec'):
            self.write(itp, st, ins, ctx, p, n, self.value(st, v, n))

    def value(self, st, v, n):
        c = st.const(v)
        if c is not None:
            return ((0, n, 'k', (c & M64).to_bytes(8, 'little')[:n]),)
        return ((0, n, 'v', bytes_of(v, n)),)

    def local(self, itp, st, ins, obj, ctx):
        t, k = ins.extra, 1
        if ins.args:
            k = st.const(itp.ev(ins.fn, ins.args[0][1], st, ctx))
        while t[0] == 'arr':
            k, t = None if k is None else k * t[1], t[2]
        if t[0] == 'i' and t[1] == 8 and k != 1 or t[0] == 'vec':
            e = self.size(t)
            self.setrope(st, obj, (), None)
            st.mon = (tuple((o, () if o is obj else r, (None if k is None else k * e) if o is obj else s) for o, r, s in st.mon[0]),
                      st.mon[1]) + st.mon[2:]

    def vector(self, itp, st, ins, args, ctx):
        if ins.op == 'insertelement':
            t = ins.args[0][0]
            e, i = self.size(t[2]), st.const(args[2])
            if e is None or i is None:
                return None
            v = args[0]
            bs = list(v.b) if v is not None and v.k == 'B' and len(v.b) == e * t[1] else [None] * (e * t[1])
            c = st.const(args[1])
            bs[e * i:e * i + e] = bytes_of(C(c) if c is not None else args[1], e)
            return V('B', None, tuple(bs))
        if ins.op == 'extractelement':
            t = ins.args[0][0]
            e, i = self.size(t[2]), st.const(args[1])
            v = args[0]
            if e is None or i is None or v is None or v.k != 'B' or e > 8 or None in v.b[e * i:e * i + e]:
                return None
            return V('s', (None, ('bytes', v.b[e * i:e * i + e])), 'bytes', 0, 8 * e)
        if ins.op == 'bin' and ins.extra == 'xor' and all(a is not None and a.k == 'B' for a in args) and \
                len(args[0].b) == len(args[1].b):
            return V('B', None, tuple(None if x is None or y is None else (x[0] ^ y[0], x[1] ^ y[1])
                                      for x, y in zip(args[0].b, args[1].b)))
        return None

    def call(self, itp, st, ins, name, args, ctx):
        base = name
        if base in SWAP and args:
            c = st.const(args[0])
            n = SWAP[base]
            if c is not None:
                return [(C(engine.sgn(int.from_bytes((c & M64).to_bytes(8, 'little')[:n], 'big'), 8 * n)), st)]
            return [(V('e', 'swap', args[0], None, 8 * n), st)]
        if base in ('WSS_malloc', 'malloc', 'rpmalloc', 'WSS_calloc', 'calloc', 'rpcalloc'):
            a = [self.num(st, x) for x in args]
            n = a[0] if len(a) == 1 else (a[0] * a[1] if all(isinstance(x, int) for x in a[:2]) else None)
            self.sites.add('%s:%s allocate' % (ins.fn.file, ins.line))
            if n == 0:
                return [(ZERO, st)]
            return [(self.new(st, n if isinstance(n, int) else None), st)]
        if base == 'WSS_realloc':
            old = st.mem.get(args[0])
            n = self.num(st, args[2])
            o = self.new(st, n if isinstance(n, int) else None)
            if old is not None and old.k == 'o':
                r, s = self.rope(st, old)
                k = self.num(st, args[1])
                if r:
                    self.setrope(st, o, Rope.cut(r, 0, k if isinstance(k, int) else M64))
                for q, x in list(st.mem.items()):
                    if q.k != 'Z' and engine.root(q) is old:
                        nk = itp.rebase(q, old, o)
                        if nk is not None:
                            st.mem[nk] = x
            return [(o, st)]
        if base == 'WSS_free':
            itp.store(st, args[0], ZERO, ('ptr',))
            return [(None, st)]
        if base == 'strlen':
            b, off = self.at(args[0])
            r, s = self.rope(st, b)
            if b.k == 'G' and off == 0 and self.string(itp, b) is not None:
                return [(C(len(self.string(itp, b)) - 1), st)]
            return [(V('e', 'strlen', args[0], None, 64), st)]
        if name in COPY or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = self.num(st, args[2])
            self.sites.add('%s:%s copy' % (ins.fn.file, ins.line))
            rope = self.source(itp, st, ins, ctx, args[1], n)
            if self.write(itp, st, ins, ctx, args[0], n, rope):
                itp.kill(st, args[0])
                return [(args[0], st)]
            if isinstance(n, int) and 0 < n <= 8 and len(rope) == 1:
                o, l, k, d = rope[0]
                old = st.mem.get(args[0])
                c = st.const(old) if old is not None else (0 if itp.zdef0(st.mem, args[0]) else None)
                itp.kill(st, args[0])
                if k == 'k' and (n == 8 or c is not None):
                    x = ((c or 0) & M64 & ~((1 << 8 * n) - 1)) | int.from_bytes(d, 'little')
                    st.mem[args[0]] = C(engine.sgn(x, 64))
                elif k == 'k' and args[0].k == 'o':
                    st.mem[args[0]] = C(int.from_bytes(d, 'little'))
                elif k == 'v' and c is None:
                    st.mem[args[0]] = V('s', (None, ('bytes', d)), 'bytes', 0, 8 * n)
                elif k == 'c':
                    st.mem[args[0]] = V('s', (None, ('bytes', tuple(spread(rope, n)))), 'bytes', 0, 8 * n)
                return [(args[0], st)]
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            n = self.num(st, args[2])
            c = st.const(args[1])
            if isinstance(n, int) and c is not None and n < 1 << 16:
                if self.write(itp, st, ins, ctx, args[0], n, ((0, n, 'k', bytes([c & 255]) * n),)):
                    return None
            return None
        return None

    def ret(self, itp, st, ins, val, ctx):
        self.results += 1
        self.cls['check'](self, itp, st, val, ctx)

    def field(self, itp, st, fr, n):
        q = F(fr, *self.fi[n])
        v = st.mem.get(q)
        if v is None and itp.zdef0(st.mem, q):
            return 0
        if v is None:
            return None
        return self.num(st, v)

    def finish(self, itp):
        return self.results


# -- the format
def header(fin, rsv, op, n, mask=None):
    h = bytes([fin << 7 | rsv << 4 | op])
    m = 0x80 if mask is not None else 0
    if isinstance(n, int):
        if n < 126:
            h += bytes([m | n])
        elif n < 65536:
            h += bytes([m | 126]) + struct.pack('>H', n)
        else:
            h += bytes([m | 127]) + struct.pack('>Q', n)
    return h + (mask or b'')


def frame_setup(mon, st, fr, pl, fin, rsv, op, ext, app):
    x = dict(fin=fin, rsv1=rsv >> 2 & 1, rsv2=rsv >> 1 & 1, rsv3=rsv & 1, opcode=op, mask=0, extensionDataLength=ext)
    for k, n in x.items():
        st.mem[F(fr, *mon.fi[k])] = C(n)
    if isinstance(app, int):
        st.mem[F(fr, *mon.fi['applicationDataLength'])] = C(app)
        st.mem[F(fr, *mon.fi['payloadLength'])] = C(app + ext)
    else:
        st.mem[F(fr, *mon.fi['applicationDataLength'])] = app
        st.mem[F(fr, *mon.fi['payloadLength'])] = app
    st.mem[F(fr, *mon.fi['payload'])] = pl


def payload(n, pl, off=0):
    return ((off, n, 'c', (pl, 0)),) if n != 0 else ()


def same(a, b):
    a, b = Rope.norm(a), Rope.norm(b)
    if a == b:
        return True
    n = [max([0] + [o + l if isinstance(l, int) else 1 << 40 for o, l, k, d in r]) for r in (a, b)]
    return n[0] == n[1] <= 4096 and None not in spread(a, n[0]) and spread(a, n[0]) == spread(b, n[0])


def out_classes():
    """frames to bytes"""
    jobs = []
    lens = (0, 1, 2, 125, 126, 127, 0x102, 65535, 65536, 65537, 0x10203, 0x1020304050, (2, 124), (127, 65534), (65537, 1 << 40))
    for fin, rsv, op in ((1, 0, 1), (0, 0, 2), (1, 4, 1), (0, 4, 0), (1, 2, 2), (1, 1, 2), (1, 0, 8), (1, 0, 9), (1, 0, 10), (1, 7, 15)):
        for n in lens:
            for ext in ((0, 3) if isinstance(n, int) else (0,)):
                jobs.append(stringify_job(fin, rsv, op, n, ext))
    for ns in ((0,), (5,), (126,), (3, 0), (125, 126), (200, 7, 0), (65536, 1)):
        jobs.append(stringify_many(ns))
    return jobs


def stringify_job(fin, rsv, op, n, ext):
    fr, pl = V('G', None, '$frame'), V('G', None, '$payload')
    sy = V('s', (None, ('len',)), 'length', 0, 64)
    app = n if isinstance(n, int) else sy

    def setup(itp, st, vals, ctx):
        vals[0], vals[1] = fr, OUTP
        frame_setup(itp.mon, st, fr, pl, fin, rsv, op, ext, app)
        if not isinstance(n, int):
            st.facts[sy] = (n[0], n[1], n[0], n[1], frozenset())

    def check(mon, itp, st, val, ctx):
        m = st.mem.get(OUTP)
        bad = lambda what: mon.fail(itp, 'encode', None, ctx, what, st)
        r, s = mon.rope(st, m) if m is not None else (None, None)
        if r is None:
            return bad('the bytes of the frame are not handed back')
        if isinstance(n, int):
            h = header(fin, rsv, op, n + ext)
            want = ((0, len(h), 'k', h),) + payload(n + ext, pl, len(h))
            total = n + ext + len(h)
            if mon.num(st, val) != total:
                return bad('the returned length is %s, not %d' % (mon.num(st, val), total))
        else:
            k = 0 if n[1] < 126 else 2 if n[1] < 65536 else 8
            h = header(fin, rsv, op, None) + (b'' if not k else bytes([126 if k == 2 else 127]))
            want = ((0, len(h), 'k', h),) + payload(app, pl, 2 + k)
            if sum(x[1] for x in Rope.cut(r, len(h), 2 + k - len(h))) != 2 + k - len(h):
                return bad('the bytes are %s' % Rope.text(r))
            r = Rope.cut(r, 0, len(h)) + tuple(x for x in r if x[0] >= 2 + k)
            d = lin(val) if val is not None else {}
            if d != {app: 1, None: 2 + k}:
                return bad('the returned length is not that of the frame')
        if not same(r, want):
            bad('the bytes are %s instead of %s' % (Rope.text(r), Rope.text(want)))
    return dict(root='WSS_stringify_frame', kind='encode', setup=setup, check=check, text='fin %d, reserved bits %d, opcode %d, '
                'length %s%s' % (fin, rsv, op, n, ', %d more of an extension' % ext if ext else ''))


def stringify_many(ns):
    frs = [V('G', None, '$frame%d' % i) for i in range(len(ns))]
    pls = [V('G', None, '$payload%d' % i) for i in range(len(ns))]
    arr = V('G', None, '$frames')

    def setup(itp, st, vals, ctx):
        vals[0], vals[1], vals[2] = arr, C(len(ns)), OUTP
        for i, n in enumerate(ns):
            st.mem[engine.I(arr, C(i), ('ptr',))] = frs[i]
            frame_setup(itp.mon, st, frs[i], pls[i], int(i == len(ns) - 1), 0, 1 if i == 0 else 0, 0, n)

    def check(mon, itp, st, val, ctx):
        m = st.mem.get(OUTP)
        r, s = mon.rope(st, m) if m is not None else (None, None)
        want, o = (), 0
        for i, n in enumerate(ns):
            h = header(int(i == len(ns) - 1), 0, 1 if i == 0 else 0, n)
            want += ((o, len(h), 'k', h),) + payload(n, pls[i], o + len(h))
            o += len(h) + n
        if r is None or not same(r, want):
            return mon.fail(itp, 'encode', None, ctx, 'the bytes are %s instead of %s' % (Rope.text(r or ()), Rope.text(want)), st)
        if mon.num(st, val) != o:
            mon.fail(itp, 'encode', None, ctx, 'the returned length is %s, not %d' % (mon.num(st, val), o), st)
    return dict(root='WSS_stringify_frames', kind='encode-many', setup=setup, check=check, text='frames of lengths %s' % (ns,))


def create_classes(prog):
    jobs = []
    cf = ('struct.wss_config_t', prog.fidx('wss_config_t', 'size_frame'))
    for size in (10, 1 << 20):
        for n in (0, 1, 9, 10, 11, 19, 20, 21, 35) if size == 10 else (0, 125, 126, 1 << 20, (1 << 20) + 1):
            for op in (1, 2):
                jobs.append(create_job(cf, size, n, op))
    for op in (9, 10):
        jobs.append(create_job(cf, 1 << 20, 20, op))
    return jobs


def create_job(cf, size, n, op):
    conf, msg = V('G', None, '$config'), V('G', None, '$message')

    def setup(itp, st, vals, ctx):
        vals[:] = [conf, C(op), msg, C(n), OUTP]
        st.mem[F(conf, *cf)] = C(size)

    def check(mon, itp, st, val, ctx):
        bad = lambda what: mon.fail(itp, 'split', None, ctx, what, st)
        k = max(1, (n + size - 1) // size)
        arr = st.mem.get(OUTP)
        if mon.num(st, val) != k or arr is None:
            return bad('%s frames are created, not %d' % (mon.num(st, val), k))
        for i in range(k):
            fr = st.mem.get(engine.I(arr, C(i), ('ptr',)))
            if fr is None:
                return bad('frame %d is missing' % i)
            l = min(size, n - i * size)
            for q, x in dict(fin=int(i == k - 1), opcode=op if i == 0 else 0, mask=0, rsv1=0, rsv2=0, rsv3=0, payloadLength=l,
                             applicationDataLength=l, extensionDataLength=0).items():
                y = mon.field(itp, st, fr, q)
                if y != x:
                    return bad('%s of frame %d is %s, not %s' % (q, i, y, x))
            pl = st.mem.get(F(fr, *mon.fi['payload']))
            r, s = mon.rope(st, pl) if pl is not None else (None, None)
            if l and (r is None or not same(Rope.cut(r, 0, l), ((0, l, 'c', (msg, i * size)),))):
                return bad('frame %d does not carry its part of the message' % i)
    return dict(root='WSS_create_frames', kind='split', setup=setup, check=check, text='message of %d bytes, frames of at most %d, '
                'opcode %d' % (n, size, op))


CODES = (1000, 1001, 1002, 1003, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015)


def control_classes():
    jobs = []
    msg = V('G', None, '$message')
    for code in CODES:
        for m in (ZERO, msg):
            jobs.append(closing_job(code, m))

    def setup(itp, st, vals, ctx):
        pass

    def ping(mon, itp, st, val, ctx):
        bad = lambda what: mon.fail(itp, 'control', None, ctx, what, st)
        if val is None or val.k != 'o':
            return bad('no ping frame is created')
        control(mon, itp, st, val, 9, bad)
    jobs.append(dict(root='WSS_ping_frame', kind='ping', setup=setup, check=ping, text='ping'))
    for n, rsv, mask in ((0, 0, 1), (1, 0, 1), (125, 0, 1), (50, 7, 1), (50, 0, 0)):
        jobs.append(pong_job(n, rsv, mask))
    return jobs


def control(mon, itp, st, fr, op, bad):
    for q, x in dict(fin=1, opcode=op, mask=0, rsv1=0, rsv2=0, rsv3=0, extensionDataLength=0).items():
        y = mon.field(itp, st, fr, q)
        if y != x:
            return bad('%s of the frame is %s, not %s' % (q, y, x))
    a, b = mon.field(itp, st, fr, 'payloadLength'), mon.field(itp, st, fr, 'applicationDataLength')
    if isinstance(a, int) and (a > 125 or a != b):
        return bad('the frame has %s bytes, %s of them data' % (a, b))
    pl = st.mem.get(F(fr, *mon.fi['payload']))
    r, s = mon.rope(st, pl) if pl is not None else (None, None)
    if isinstance(a, int) and isinstance(s, int) and s < a:
        return bad('the frame has %d bytes of data, but only %d are there' % (a, s))
    return a, b, r


def closing_job(code, m):
    def setup(itp, st, vals, ctx):
        vals[0], vals[1] = C(code), m

    def check(mon, itp, st, val, ctx):
        bad = lambda what: mon.fail(itp, 'control', None, ctx, what, st)
        if val is None or val.k != 'o':
            return bad('no closing frame is created')
        x = control(mon, itp, st, val, 8, bad)
        if not x:
            return
        a, b, r = x
        if r is None or not Rope.cut(r, 0, 2) or Rope.cut(r, 0, 2)[0][2:] != ('k', struct.pack('>H', code)):
            return bad('the frame does not begin with its code')
        if m is ZERO:
            if not isinstance(a, int) or a < 2:
                return bad('the frame has %s bytes' % (a,))
            t = Rope.cut(r, 2, a - 2)
            if a > 2 and (len(t) != 1 or t[0][2] != 'k' or t[0][1] != a - 2 or 0 in t[0][3]):
                return bad('the reason is not %d bytes of text' % (a - 2))
        else:
            l = V('e', 'strlen', m, None, 64)
            if any(isinstance(v, int) or lin(v) != {l: 1, None: 2} for v in (a, b)):
                return bad('the length is not that of the code and the reason')
            if Rope.cut(r, 2, l) != ((0, l, 'c', (m, 0)),):
                return bad('the frame does not carry the reason')
    return dict(root='WSS_closing_frame', kind='closing', setup=setup, check=check, text='closing frame with code %d%s' % (
        code, '' if m is ZERO else ' and a reason'))


def pong_job(n, rsv, mask):
    fr, pl = V('G', None, '$frame'), V('G', None, '$payload')

    def setup(itp, st, vals, ctx):
        vals[0] = fr
        frame_setup(itp.mon, st, fr, pl, 1, rsv, 9, 0, n)
        st.mem[F(fr, *itp.mon.fi['mask'])] = C(mask)

    def check(mon, itp, st, val, ctx):
        bad = lambda what: mon.fail(itp, 'control', None, ctx, what, st)
        if val is None or val is ZERO:
            return bad('no pong frame is created')
        x = control(mon, itp, st, val, 10, bad)
        if not x:
            return
        if x[0] != n or x[1] != n:
            return bad('the pong has %s bytes, the ping %d' % (x[0], n))
        p = st.mem.get(F(val, *mon.fi['payload']))
        if n and p is not pl and (x[2] is None or not same(Rope.cut(x[2], 0, n), payload(n, pl))):
            bad('the pong does not carry the data of the ping')
    return dict(root='WSS_pong_frame', kind='pong', setup=setup, check=check, text='ping of %d bytes, reserved bits %d, mask %d' % (
        n, rsv, mask))


def in_classes():
    """bytes to frames"""
    jobs = []
    key = b'\x11\x22\x33\x44'
    forms = [(n, None) for n in (0, 1, 125, 126, 65535, 65536, 0x102, 0x1020304)]
    forms += [(n, 2) for n in (0, 5, 125)] + [(n, 8) for n in (0, 7, 126, 65535, (1 << 63) - 1, 1 << 63, M64, M64 - 13, M64 - 14)]
    for i, (n, form) in enumerate(forms):
        for fin, rsv, op, mask in ((1, 0, 1, 1), (0, 4, 2, 1), (1, 0, 8, 0), (0, 3, 15, 1), (1, 2, 0, 1), (1, 1, 9, 1)):
            h = bytes([fin << 7 | rsv << 4 | op])
            m = 0x80 if mask else 0
            if form == 2:
                h += bytes([m | 126]) + struct.pack('>H', n)
            elif form == 8:
                h += bytes([m | 127]) + struct.pack('>Q', n)
            else:
                h = header(fin, rsv, op, n, b'' if mask else None)
            h += key if mask else b''
            starts = (0, 5) if op in (1, 8) else (0,)
            for start in starts:
                total = len(h) + n
                ls = set()
                if n < 1 << 31:
                    ls |= {total, total + 1, total + 9}
                    if n:
                        ls |= {total - 1, len(h)}
                else:
                    ls |= {len(h), len(h) + 13, len(h) + 4000}
                if op in (1, 8):
                    ls |= set(range(1, len(h)))
                for l in sorted(ls):
                    jobs.append(parse_job(h, n, fin, rsv, op, mask, key, start, start + l))
    return jobs


def content_classes():
    jobs = []
    for n in list(range(1, 70)) + [95, 96, 97, 125, 126, 127, 128, 129, 160, 191, 192, 193, 255, 256, 257, 300]:
        for key in (b'\x11\x22\x33\x44',):
            start = 3 if n % 2 else 0
            h = header(1, 0, 2, n, key)
            jobs.append(parse_job(h, n, 1, 0, 2, 1, key, start, start + len(h) + n, True))
    for n in (1, 4, 63, 64, 200):
        h = header(1, 0, 2, n)
        jobs.append(parse_job(h, n, 1, 0, 2, 0, None, 0, len(h) + n, True))
    return jobs


def parse_job(h, n, fin, rsv, op, mask, key, start, length, content=False):
    def setup(itp, st, vals, ctx):
        vals[:] = [IN, C(length), OFFP]
        st.mem[OFFP] = C(start)
    text = 'header %s at %d of %d bytes' % (h.hex(), start, length)

    def check(mon, itp, st, val, ctx):
        bad = lambda what: mon.fail(itp, 'decode', None, ctx, what, st)
        if val is None or st.const(val) == 0:
            return bad('no frame is handed back')
        off = st.mem.get(OFFP)
        off = mon.num(st, off) if off is not None else None
        if not isinstance(off, int):
            return bad('the end of the frame cannot be told')
        complete = start + len(h) + n <= length
        if not complete:
            if off <= length:
                bad('the frame is not completely received, but handed back as if')
            return
        if off != start + len(h) + n:
            return bad('the next frame is looked for at %d, not %d' % (off, start + len(h) + n))
        want = dict(fin=fin, rsv1=rsv >> 2 & 1, rsv2=rsv >> 1 & 1, rsv3=rsv & 1, opcode=op, mask=mask, payloadLength=n,
                    applicationDataLength=n, extensionDataLength=0)
        for q, x in want.items():
            y = mon.field(itp, st, val, q)
            if y != x:
                return bad('%s of the frame is %s, not %s' % (q, y, x))
        k = F(val, *mon.fi['maskingKey'])
        r, s = mon.rope(st, k)
        if mask and (r is None or not same(Rope.cut(r, 0, 4), ((0, 4, 'k', key),))):
            return bad('the key of the frame is not taken over')
        if content:
            pl = st.mem.get(F(val, *mon.fi['payload']))
            b, off = mon.at(pl) if pl is not None else (None, None)
            r, s = mon.rope(st, b)
            if r is None or off != 0:
                return bad('the frame has no data')
            got = mon.bytes(st, b, Rope.cut(r, 0, n), n)
            for i in range(n):
                if got[i] != byte(key[i % 4] if mask else 0, (IN, start + len(h) + i)):
                    return bad('byte %d of the data is not what was received%s' % (i, ', unmasked' if mask else ''))
    return dict(root='WSS_parse_frame', kind='decode', setup=setup, check=check, text=text, bytes=h, start=start, length=length,
                n=n, hl=len(h), content=content)


ARCHS = (('x86-64-v3', ()), ('x86-64-v4', ()), ('x86-64-v2', ()), ('x86-64-v2', ('-U__SSE2__',)))


def check(tier):
    run = Run()
    progs = []
    n = 0
    for i, (arch, extra) in enumerate(ARCHS):
        prog = build.program('server', arch, extra)
        jobs = content_classes()
        if not i:
            jobs += in_classes() + out_classes() + create_classes(prog) + control_classes()
        for j in jobs:
            j['name'] = '%s: %s' % (j['root'], j['text'])
        r = explore(prog, lambda j: FrameMon(prog, j), jobs, 400000)
        run.add(r)
        n += len(jobs)
        if not run.reports and any(x == 0 for j, x in r.extra):
            raise AnalysisError('no result: %s' % [j['name'] for j, x in r.extra if x == 0][:3])
    cov = run.cover()
    cov['frame_classes'] = n
    cov['entry_points'] = len({j['root'] for j, x in run.extra})
    cov['instruction_sets'] = len(ARCHS)
    return run.reports, cov, ['lengths between the classes; frame contents are unknown bytes, so every value is covered']
