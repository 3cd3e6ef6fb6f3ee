"""Compression is negotiated as RFC 7692 demands: for every class of configuration and offer the answer of the extension and the windows it then uses
are computed from the code and compared."""
import ctypes
import re
from common import *
from driver import *
import engine
import interp
import p16
from engine import F, I
from interp import fconst

g = p16.g
SLOT, VALID, TABLE, TABLEP = map(g, ('accepted', 'valid', 'ctype', 'ctypep'))
BYTE = ('i', 8)
LIBC = ctypes.CDLL(None)
CTYPE = LIBC.__ctype_b_loc
CTYPE.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
NAMES = ('server_no_context_takeover', 'client_no_context_takeover', 'server_max_window_bits', 'client_max_window_bits')
SNCT, CNCT, SMWB, CMWB = NAMES


class Match(ctypes.Structure):
    _fields_ = [('so', ctypes.c_int), ('eo', ctypes.c_int)]


class ZlibMon(p16.AnswerMon):
    """the C library and the setting up of zlib; mon: (buffers, allocations, freed, (zlib: stream, kind, bits), failed, compiled expressions)"""
    names = frozenset({'malloc', 'free', 'realloc'})
    inline_never = frozenset()

    def __init__(self, prog, job):
        p16.AnswerMon.__init__(self, prog, job)
        self.what = job['text']
        self.oom = True
        self.expected = frozenset()
        self.reported = []

    def init(self):
        return ((), 0, frozenset(), (), None, ())

    def bad(self, itp, st, ins, ctx, rule, msg):
        self.reported.append(rule)
        itp.report(rule, ins, ctx or interp.Ctx(None, None, self.prog.need(self.fn)), '%s (%s)' % (msg, self.what), st,
                   key=(rule, msg, ins.line if ins else 0))

    def setup(self, itp, st, vals, ctx):
        m = st.mem
        m[TABLEP] = TABLE
        for gv, x in self.prog.gl.items():
            if x[1] is None or x[2]:
                continue
            if x[1][0] in ('zero', 'null'):
                m[V('Z', gv)] = ONE
            elif x[1][0] == 'c':
                m[V('G', None, gv.b if hasattr(gv, 'b') else gv)] = C(x[1][1])
        self.prepare(itp, st, vals)

    def prepare(self, itp, st, vals):
        for i, n in enumerate(('WSS_malloc', 'WSS_realloc_normal', 'WSS_free_normal')):
            vals[i] = V('fn', n)

    def owned(self, st, name, data):
        """a buffer of the caller"""
        p = g('own-' + name)
        self.put(st, buf=tuple(x for x in st.mon[0] if x[0] is not p) + ((p, len(data), tuple(data)),))
        return p

    def answer(self, itp, st, ins, v, ctx):
        pass

    def allocate(self, itp, st, ins, name, args, ctx):
        r = p16.AnswerMon.allocate(self, itp, st, ins, name, args, ctx)
        return r if self.oom else r[:1]

    def load(self, itp, st, ins, p, v, ctx):
        if ins.ty == ('i', 16) and engine.root(p) is TABLE:
            k = engine.sgn(p.b.a, 64) if p.k == 'I' and p.b.k == 'c' else 0 if p is TABLE else None
            if k is None or not -128 <= k < 256:
                return None
            return C(engine.sgn(CTYPE()[0][k], 16))
        r = p16.AnswerMon.load(self, itp, st, ins, p, v, ctx)
        if r is None and ins.ty == BYTE:
            # a byte of a number
            b, k = (p.a, st.const(p.b)) if p.k == 'I' else (p, 0)
            w = st.mem.get(b)
            w = st.const(w) if w is not None else None
            if w is not None and k is not None and 0 <= k < 4:
                return C(engine.sgn(w >> 8 * k, 8))
        return r

    def local(self, itp, st, ins, obj, ctx):
        p16.AnswerMon.local(self, itp, st, ins, obj, ctx)
        # of a length computed
        if ins.extra == BYTE and ins.args and st.const(itp.ev(ins.fn, ins.args[0][1], st, ctx)) == 1 and self.buffer(st, obj)[1] is None:
            self.new(st, obj, 1, None)

    def c___ctype_b_loc(self, itp, st, ins, args, ctx):
        return [(TABLEP, st)]

    def cstring(self, st, p, ins):
        s = self.string(st, p)
        if s is None or not all(isinstance(x, int) for x in s):
            raise AnalysisError('a text is not known (%s:%s)' % (ins.fn.file, ins.line))
        return bytes(s)

    def call(self, itp, st, ins, name, args, ctx):
        alias = dict(WSS_realloc_normal='realloc', WSS_free_normal='free').get(name, name)
        if alias == 'realloc':
            return self.c_realloc(itp, st, ins, args, ctx)
        if alias.startswith('pthread_') and alias not in self.prog.funcs:
            return [(ZERO, st)]
        return p16.AnswerMon.call(self, itp, st, ins, alias, args, ctx)

    def c_realloc(self, itp, st, ins, args, ctx):
        n = st.const(args[1])
        if n is None:
            raise AnalysisError('the size of a buffer is not known (%s:%s)' % (ins.fn.file, ins.line))
        size, bs = self.buffer(st, args[0])
        if args[0] in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'freed memory is resized')
            return []
        out = self.allocate(itp, st, ins, 'malloc', args[1:], ctx)
        for v, s in out:
            if v is not ZERO and bs is not None:
                self.write(itp, s, ins, ctx, v, list(bs)[:min(n, size)])
                self.put(s, freed=s.mon[2] | {args[0]})
        return out

    def c_memcmp(self, itp, st, ins, args, ctx):
        r = self.compare_bytes(st, args)
        if r is not None:
            return [(C(r), st)]
        a, b = (st.mem.get(x) for x in args[:2])
        a, b = (st.const(x) if x is not None else None for x in (a, b))
        if a is not None and b is not None:
            return [(ZERO if a == b else ONE, st)]
        return None
    c_bcmp = c_memcmp

    def compare_bytes(self, st, args):
        n = st.const(args[2])
        x = []
        for p in args[:2]:
            b, off = self.at(p)
            bs = self.content(st, b)
            if bs is None or off is None or n is None or off < 0 or off + n > len(bs):
                return None
            x.append(list(bs[off:off + n]))
        if x[0] == x[1]:
            return 0
        for a, b in zip(*x):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return (a > b) - (a < b)
            elif a != b:
                # another byte is another value
                return 1
        return 0

    def c_strtok_r(self, itp, st, ins, args, ctx):
        p = args[0]
        if st.const(p) == 0:
            p = itp.load(st, args[2], ins, ctx, ('ptr',))
        if st.const(p) == 0:
            return [(ZERO, st)]
        s, delim = self.cstring(st, p, ins), self.cstring(st, args[1], ins)
        b, off = self.at(p)
        k = 0
        while k < len(s) and s[k] in delim:
            k += 1
        e = k
        while e < len(s) and s[e] not in delim:
            e += 1
        end = I(b, C(off + len(s)), BYTE)
        if e < len(s):
            self.write(itp, st, ins, ctx, I(b, C(off + e), BYTE), [0])
            end = I(b, C(off + e + 1), BYTE)
        itp.store(st, args[2], end, ('ptr',))
        return [(I(b, C(off + k), BYTE) if k < len(s) else ZERO, st)]

    def c_strtol(self, itp, st, ins, args, ctx, unsigned=False):
        s = self.cstring(st, args[0], ins)
        base = st.const(args[2])
        m = re.match(rb'\s*([-+]?)([0-9]*)', s)
        if base != 10:
            raise AnalysisError('a number is not followed (%s:%s)' % (ins.fn.file, ins.line))
        v = int(m.group(2) or b'0')
        v = min(v, (1 << 64) - 1 if unsigned else (1 << 63) - 1)
        if m.group(1) == b'-':
            v = -v
        if st.const(args[1]) != 0:
            b, off = self.at(args[0])
            itp.store(st, args[1], I(b, C(off + (m.end() if m.group(2) else 0)), BYTE), ('ptr',))
        return [(C(engine.sgn(v, 64)), st)]

    def c_strtoul(self, itp, st, ins, args, ctx):
        return self.c_strtol(itp, st, ins, args, ctx, True)
    c_strtoull = c_strtoul
    c_strtoll = c___isoc23_strtol = c_strtol

    def c_atoi(self, itp, st, ins, args, ctx):
        (r, s), = self.c_strtol(itp, st, ins, [args[0], ZERO, C(10)], ctx)
        return [(C(engine.sgn(r.a, 32)), s)]

    def c_strchr(self, itp, st, ins, args, ctx):
        s, c = self.cstring(st, args[0], ins), st.const(args[1])
        b, off = self.at(args[0])
        k = (s + b'\0').find(bytes([c & 255]))
        return [(I(b, C(off + k), BYTE) if k >= 0 else ZERO, st)]

    def c_strspn(self, itp, st, ins, args, ctx):
        s, d = self.cstring(st, args[0], ins), self.cstring(st, args[1], ins)
        return [(C(len(s) - len(s.lstrip(d))), st)]

    def c_strcspn(self, itp, st, ins, args, ctx):
        s, d = self.cstring(st, args[0], ins), self.cstring(st, args[1], ins)
        return [(C(next((i for i, x in enumerate(s) if x in d), len(s))), st)]

    # -- regular expressions are decided by the library's own matcher, for the known pattern and text
    def c_regcomp(self, itp, st, ins, args, ctx):
        pat, fl = self.cstring(st, args[1], ins), st.const(args[2])
        out = []
        if self.oom and st.mon[4] is None:
            s = st.copy()
            self.put(s, failed='%s:%s' % (ins.fn.file, ins.line))
            out.append((C(12), s))
        self.put(st, reads=st.mon[5] + ((args[0], pat, fl),))
        return [(ZERO, st)] + out

    def c_regexec(self, itp, st, ins, args, ctx):
        r = [x for x in st.mon[5] if x[0] is args[0]]
        n = st.const(args[2])
        s = self.cstring(st, args[1], ins)
        if not r or n is None:
            raise AnalysisError('a regular expression is not known (%s:%s)' % (ins.fn.file, ins.line))
        buf = ctypes.create_string_buffer(256)
        if LIBC.regcomp(buf, r[-1][1], r[-1][2]):
            raise AnalysisError('a regular expression is not valid (%s:%s)' % (ins.fn.file, ins.line))
        m = (Match * max(n, 1))()
        e = LIBC.regexec(buf, s, n, m, st.const(args[4]))
        LIBC.regfree(buf)
        if e == 0:
            for i in range(n):
                p = I(args[3], C(i), ('struct', 'struct.regmatch_t'))
                itp.store(st, F(p, 'struct.regmatch_t', 0), C(m[i].so), ('i', 32))
                itp.store(st, F(p, 'struct.regmatch_t', 1), C(m[i].eo), ('i', 32))
        return [(C(1 if e else 0), st)]

    def c_regfree(self, itp, st, ins, args, ctx):
        self.put(st, reads=tuple(x for x in st.mon[5] if x[0] is not args[0]))
        return [(None, st)]

    # -- zlib
    def zinit(self, itp, st, ins, ctx, strm, kind, bits, ok):
        self.site(ins, kind)
        if bits is None:
            raise AnalysisError('the window of a stream is not known (%s:%s)' % (ins.fn.file, ins.line))
        if not ok:
            return [(C(-2), st)]
        out = []
        if self.oom and st.mon[4] is None:
            s = st.copy()
            self.put(s, failed='%s:%s' % (ins.fn.file, ins.line))
            out.append((C(-4), s))
        if any(x[0] is strm for x in st.mon[3]):
            self.bad(itp, st, ins, ctx, 'leak', 'a stream is set up that is in use')
            return []
        self.put(st, sent=st.mon[3] + ((strm, kind, -bits),))
        return [(ZERO, st)] + out

    def c_inflateInit2_(self, itp, st, ins, args, ctx):
        b = st.const(args[1])
        return self.zinit(itp, st, ins, ctx, args[0], 'decompressor', b, b is not None and -15 <= b <= -8)

    def c_deflateInit2_(self, itp, st, ins, args, ctx):
        b, mem = st.const(args[3]), st.const(args[4])
        return self.zinit(itp, st, ins, ctx, args[0], 'compressor', b, b is not None and -15 <= b <= -9 and mem is not None and 1 <= mem <= 9)

    def zend(self, itp, st, ins, args, ctx):
        have = [x for x in st.mon[3] if x[0] is args[0]]
        if not have:
            self.bad(itp, st, ins, ctx, 'freed', 'a stream is ended that is not in use')
            return []
        self.put(st, sent=tuple(x for x in st.mon[3] if x[0] is not args[0]))
        return [(ZERO, st)]
    c_inflateEnd = c_deflateEnd = zend

    def held(self, st):
        return {o for o, n, b in st.mon[0] if o.b == 'buffer'} - st.mon[2] - self.expected

    def ret(self, itp, st, ins, val, ctx):
        if ins is not None or self.stack:
            return
        if ctx.fn.cname == self.fn:
            self.start(itp, st)

    def icall(self, itp, st, ins, cv, args, ctx):
        raise AnalysisError('a call is not followed (%s:%s)' % (ins.fn.file, ins.line))

    def finish(self, itp):
        return self.done


def params(text):
    """(the parameters of an offer, whether they are what RFC 7692 allows)"""
    out, ok = {}, True
    for t in text.split(';'):
        t = t.strip()
        if not t:
            continue
        n, eq, v = t.partition('=')
        if n not in NAMES or n in out:
            ok = False
        v = v if eq else None
        if n in (SNCT, CNCT) and v is not None or n == SMWB and v is None:
            ok = False
        if n in (SMWB, CMWB) and v is not None:
            if v not in [str(k) for k in range(8, 16)]:
                ok = False
            else:
                v = int(v)
        out[n] = v
    return out, ok


class OfferMon(ZlibMon):
    fn = 'setAllocators'

    def start(self, itp, st):
        j = self.job
        self.oom = False
        config = ZERO if j['config'] is None else self.owned(st, 'config', list(j['config'].encode()) + [0])
        states = [s for r, s in self.nested(itp, st, 'onInit', [config], '')]
        for s in states:
            self.put(s, count=s.mon[1], reads=())
        self.oom = True
        self.expected = frozenset(x for s in states for x in self.held(s))
        for offer in j['offers']:
            self.what = 'offer %s, configuration %s' % ('without parameters' if offer is None else '"%s"' % offer, '"%s"' % j['config'] if j['config'] else 'none')
            n = self.done + len(self.reported)
            for s in states:
                self.offer(itp, s.copy(), offer)
            if self.done + len(self.reported) == n:
                raise AnalysisError('no result: %s' % self.what)

    def offer(self, itp, st, offer):
        self.fn = 'onOpen'
        st.mem[SLOT] = ZERO
        st.mem[VALID] = ZERO
        param = ZERO if offer is None else self.owned(st, 'param', list(offer.encode()) + [0])
        self.site(None, 'offer')
        for r, s in self.nested(itp, st, 'onOpen', [C(7), param, SLOT, VALID], ''):
            self.judge(itp, s, offer)

    def judge(self, itp, st, offer):
        self.done += 1
        say = lambda rule, msg: self.bad(itp, st, None, None, rule, msg)
        want, ok = params(offer or '')
        valid, acc = st.mem.get(VALID), st.mem.get(SLOT)
        valid = st.const(valid) if valid is not None else None
        if valid is None or acc is None:
            raise AnalysisError('the answer is not known (%s)' % self.what)
        failed = st.mon[4]
        when = ' when memory runs out at ' + failed if failed else ''
        text = None
        if st.const(acc) != 0:
            if acc in st.mon[2] or self.buffer(st, acc)[1] is None:
                say('freed', 'the answer is memory the caller cannot own' + when)
                return
            s = self.string(st, acc)
            if s is None or not all(isinstance(x, int) for x in s):
                say('form', 'the answer is not a text' + when)
                return
            text = bytes(s).decode('latin1')
        if st.mon[5]:
            say('leak', 'the expression for the offer is not freed' + when)
        keep = {acc}
        if not valid:
            if ok and want.get(SMWB) != 8 and not failed:
                say('declined', 'an offer that can be met is declined')
            if self.held(st) - keep or st.mon[3]:
                say('leak', 'memory is lost for an offer that is declined' + when)
            return
        if not ok:
            say('invalid', 'an offer that is not valid is accepted')
            return
        got, good = params(text or '')
        if not good or (text or '').strip() != (text or '') or text is not None and ';;' in text or (text or ' ')[-1] == ';':
            say('form', 'the answer "%s" is not valid' % text + when)
            return
        wins = {k: b for p, k, b in st.mon[3]}
        if sorted(wins) != ['compressor', 'decompressor'] or len(st.mon[3]) != 2:
            say('streams', 'an offer is accepted without the streams to keep to it' + when)
            return
        c, d = wins['compressor'], wins['decompressor']
        cfg = self.job['bits']
        if SNCT in want and SNCT not in got:
            say('context', 'the client wants each message compressed on its own, which the answer does not confirm' + when)
        if c > got.get(SMWB, 15):
            say('window', 'messages are compressed with a window of %d bits, the answer says %d' % (c, got.get(SMWB, 15)) + when)
        if SMWB in want and got.get(SMWB, 15) > want[SMWB]:
            say('window', 'the client wants windows of at most %d bits, the answer says %d' % (want[SMWB], got.get(SMWB, 15)) + when)
        if CMWB in got:
            if CMWB not in want:
                say('window', 'the client is told to limit its window, which it did not offer' + when)
                return
            if got[CMWB] is None:
                say('form', 'the answer has no number of bits')
                return
            if want[CMWB] is not None and got[CMWB] > want[CMWB]:
                say('window', 'the client offers windows of at most %d bits, the answer says %d' % (want[CMWB], got[CMWB]) + when)
        if d < (got[CMWB] if CMWB in got else 15):
            say('window', 'messages may be compressed with a window of %d bits, but only %d are expected' % (got.get(CMWB, 15), d) + when)
        if cfg and not failed:
            if SMWB not in want and c > cfg[0]:
                say('configured', 'a window of %d bits is used, %d are configured' % (c, cfg[0]))
            if CMWB in want and want[CMWB] is None and got.get(CMWB, 15) != cfg[1]:
                say('configured', 'the client is told to use %s bits, %d are configured' % (got.get(CMWB), cfg[1]))
        # what was accepted is given back when the connection ends
        oom, self.oom = self.oom, False
        for r, s in self.nested(itp, st, 'onClose', [C(7)], ''):
            if self.held(s) - keep or s.mon[3]:
                self.fn = 'onClose'
                self.bad(itp, s, None, None, 'leak', 'memory is lost when the connection ends' + when)
                self.fn = 'onOpen'
        self.oom = oom


def offers(tier):
    one = [SNCT, CNCT, CMWB] + ['%s=%d' % (n, b) for n in (SMWB, CMWB) for b in range(8, 16)]
    odd = [SMWB, SNCT + '=1', CNCT + '=true', 'x', 'x=9', SMWB + '=', SMWB + '=x', CMWB + '=9x'] + \
        ['%s=%s' % (n, v) for n in (SMWB, CMWB) for v in ('0', '1', '7', '16', '99', '010', '08', '-9', '255', '256', '264', '271', '4294967304', '99999999999999999999', '1 0')]
    out = [None, ''] + one + odd
    some = [SNCT, CNCT, CMWB, SMWB + '=9', SMWB + '=15', CMWB + '=8', CMWB + '=15', CMWB + '=11', SMWB + '=12']
    bad = [SMWB + '=16', CMWB + '=7', 'x', SMWB + '=8', CMWB + '=99', SMWB, CMWB + '=255']
    for a in some:
        for b in some + bad:
            out += [a + '; ' + b, b + ';' + a]
            if a is not b and tier == 'thorough':
                out += [a + '; ' + b + '; ' + c for c in some]
    out += [a + b for a in some[:4] for b in some[:4]]
    out += ['; '.join(x) for x in ((SNCT, CNCT, SMWB + '=9', CMWB), (CMWB + '=10', SMWB + '=10', CNCT, SNCT), (SMWB + '=99', CNCT, SNCT, CMWB + '=9'),
            (CMWB + '=99', SMWB + '=10', CNCT, SNCT), (CMWB, SNCT, CNCT, CMWB), (SMWB + '=9', SNCT, CNCT, SMWB + '=9'))]
    return list(dict.fromkeys(out))


CONFIGS = ((None, (15, 15)), (SMWB + '=15;' + CMWB + '=15;memory_level=8', (15, 15)), (SMWB + '=10;' + CMWB + '=9', (10, 9)), (SNCT, (15, 15)),
           (SMWB + '=8;' + CMWB + '=8;chunk_size=1;memory_level=1', (9, 8)), (CMWB + '=12;' + SNCT + '; ' + SMWB + ' = 9; memory_level=9', (9, 12)),
           (SMWB + '=99;' + CMWB + '=7;memory_level=10;chunk_size=0', (15, 15)), ('nonsense', (15, 15)))


def classes(tier):
    out = []
    for i, (c, bits) in enumerate(CONFIGS):
        o = offers(tier)
        n = 40
        for k in range(0, len(o), n):
            out.append(dict(root='setAllocators', name='%d/%d' % (i, k), text='configuration %s' % c, config=c, bits=bits, offers=o[k:k + n], kind='offer'))
    return out


def check(tier):
    prog = build.program('deflate')
    engine.OFFSETS = True
    jobs = classes(tier)

    def mk(j):
        m = OfferMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 4000000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['name'] for j, x in run.extra if not x][:1])
    cov = run.cover()
    cov['offers'] = sum(len(j['offers']) for j in jobs)
    return run.reports, cov, ['values of parameters are the enumerated ones', 'zlib is taken to accept exactly the windows and levels it documents',
                              'regular expressions are matched by the C library the server uses']
