"""Frame validation: the frames a client may send are partitioned into classes (one per combination of the header bits, opcodes,
length intervals, closing codes); for every class every path from the parser must accept, answer or reject it as RFC 6455 says."""
from common import *
from driver import *
import engine
import itertools

FR = 'struct.wss_frame_t'
SWAP = {'ntohs', 'htons', 'htons16', 'bswap_16', '__bswap_16', 'be16toh', '__uint16_identity'}
M63 = 1 << 63
LENS = (0, 1, 2, (3, 124), 125, 126, (127, 999), 1000, 1001, (1002, M63 - 1), (M63, 2 * M63 - 1))
CODES = (0, 1, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016,
         2000, 2999, 3000, 3500, 3999, 4000, 4999, 5000, 5001, 32768, 65535)


def code_ok(c):
    return 1000 <= c <= 1003 or 1007 <= c <= 1014 or 3000 <= c <= 4999


class Cls:
    __slots__ = ('limit', 'ext', 'rsv', 'op', 'fin', 'mask', 'len', 'code', 'utf', 'complete', 'why', 'codes', 'n')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)
        lo = self.len[0] if isinstance(self.len, tuple) else self.len
        ctl = self.op in (8, 9, 10)
        why = []

        def bad(what, *codes):
            why.append((what, set(codes)))
        if any(self.rsv) and not self.ext:
            bad('a reserved bit is set although no extension was negotiated', 1002)
        if not (self.op in (0, 1, 2) or ctl):
            bad('the opcode %d is unknown' % self.op, 1002, 1003)
        if not self.mask:
            bad('it is not masked', 1002)
        if not self.fin and ctl:
            bad('a control frame is fragmented', 1002)
        if lo > self.limit:
            bad('its payload is larger than the configured limit', 1009)
        if ctl and lo > 125:
            bad('the payload of a control frame exceeds 125 bytes', 1002, 1009)
        if lo >= M63:
            bad('the length has its highest bit set', 1002, 1009)
        if self.op == 8 and lo == 1:
            bad('a closing frame has one byte of payload', 1002)
        if self.op == 8 and lo >= 2:
            if not self.utf:
                bad('the reason in a closing frame is not UTF-8', 1007)
            if not code_ok(self.code):
                bad('the code %d of a closing frame is not allowed' % self.code, 1002)
        self.why = [w for w, _ in why]
        self.codes = frozenset().union(*[c for _, c in why]) if why else frozenset()

    def big(self):
        lo = self.len[0] if isinstance(self.len, tuple) else self.len
        return lo > self.limit

    def text(self):
        return 'opcode %d, fin %d, mask %d, rsv %s%s, length %s of at most %d%s%s' % (
            self.op, self.fin, self.mask, ''.join(map(str, self.rsv)), ' with extensions' if self.ext else '', self.len,
            self.limit, ', code %d, reason %s' % (self.code, 'valid' if self.utf else 'not UTF-8') if self.op == 8 else '',
            '' if self.complete else ', not completely received')


def classes(tier):
    out = []
    rsvs = ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))
    most = 2 if tier == 'quick' else 9
    for limit, ext, rsv, op, fin, mask in itertools.product((1000, 100), (0, 1), rsvs, range(16), (1, 0), (1, 0)):
        lens = LENS if limit == 1000 else (0, 100, 101, 125)
        if tier == 'quick':
            if not (op <= 2 or 8 <= op <= 10):
                lens = (0, 126) if limit == 1000 else ()
            elif any(rsv):
                lens = (0, (3, 124), 126) if limit == 1000 else ()
            elif ext:
                lens = (2, (3, 124), 125, 126, 1000) if limit == 1000 else (100,)
        for ln in lens:
            subs = [(1000, 1)]
            if op == 8 and ln in (2, 125, 100):
                subs = [(c, u) for c in CODES for u in ((1, 0) if ln != 2 else (1,))]
                if not (fin and mask and not any(rsv)):
                    subs = [(1000, 1), (1005, 1)] + ([(1000, 0)] if ln != 2 else [])
            for code, utf in subs:
                c = Cls(limit=limit, ext=ext, rsv=rsv, op=op, fin=fin, mask=mask, len=ln, code=code, utf=utf, complete=1)
                if len(c.why) > most:
                    continue
                out.append(c)
                if not c.why or c.big():
                    if len(c.why) <= 1 and not (op == 8 and code != 1000):
                        out.append(Cls(limit=limit, ext=ext, rsv=rsv, op=op, fin=fin, mask=mask, len=ln, code=code, utf=utf,
                                       complete=0))
    for i, c in enumerate(out):
        c.n = i
    return out


class GateMon(Monitor):
    """mon = (phase, class number, frame, codes, flags)"""
    names = frozenset({'WSS_parse_frame', 'WSS_closing_frame', 'WSS_pong_frame', 'WSS_free_frame', 'utf8_check'})
    inline_never = frozenset({'WSS_parse_frame', 'WSS_closing_frame', 'WSS_pong_frame', 'utf8_check', 'WSS_free_frame',
                              'WSS_message_send_frames', 'WSS_disconnect', 'WSS_connect', 'WSS_write', 'WSS_flush'} | SWAP)
    LOCKFAIL = False
    OOM = False
    K = 4
    KHEAD = 1
    KRET = 8
    MODSIZE = 1 << 30

    def __init__(self, prog, cl, part):
        self.prog = prog
        self.cl = cl
        self.part = part
        self.sites = set()
        self.done = set()
        x = prog.fidx
        n = 'wss_frame_t'
        self.f = {k: x(n, k) for k in ('fin', 'rsv1', 'rsv2', 'rsv3', 'opcode', 'mask', 'payloadLength', 'payload',
                                       'applicationDataLength', 'extensionDataLength')}
        self.inv = {v: k for k, v in self.f.items()}
        self.sizef = ('struct.wss_config_t', x('wss_config_t', 'size_frame'))
        self.maxf = ('struct.wss_config_t', x('wss_config_t', 'max_frames'))
        self.extf = ('struct.wss_header_t', x('wss_header_t', 'ws_extensions'))
        self.extn = ('struct.wss_header_t', x('wss_header_t', 'ws_extensions_count'))
        self.closing = ('struct.wss_session_t', x('wss_session_t', 'closing'))
        self.outcomes = {}

    def init(self):
        return ('none', None, None, None, False)

    def rename(self, mon, sub):
        if mon[2] is None:
            return mon
        return (mon[0], mon[1], sub(mon[2]), mon[3], mon[4])

    def mon_syms(self, mon):
        return syms(mon[2]) if mon[2] is not None else frozenset()

    def interesting(self, prog, f, ins):
        return ins.op == 'gep' and any(c[0] == 'F' and c[1] in (FR, FR[7:]) for c in (prog.gep_class(ins),))

    def modular(self, itp, g):
        return False

    def val(self, st, c, k):
        """value of field k of a frame of class c"""
        if k in ('rsv1', 'rsv2', 'rsv3'):
            return c.rsv[int(k[3]) - 1]
        if k == 'opcode':
            return c.op
        if k in ('payloadLength', 'applicationDataLength'):
            return c.len
        if k == 'extensionDataLength':
            return 0
        if k in ('fin', 'mask'):
            return getattr(c, k)
        return None

    def load(self, itp, st, ins, p, v, ctx):
        ph, n, fr, codes, fl = st.mon
        if p.k != 'F':
            return
        if ph == 'parsed':
            c = self.cl[n]
            if p.a is fr and p.b == FR and p.c in self.inv and v.k != 'c' and st.rng(v) == engine.TOP:
                x = self.val(st, c, self.inv[p.c])
                if x is not None:
                    self.pin(st, v, x)
            elif (p.b, p.c) == self.sizef:
                self.pin(st, v, c.limit)
            elif (p.b, p.c) == self.extf:
                st.facts[v] = engine.NONNULL if c.ext else engine.const_fact(0)
            elif (p.b, p.c) == self.extn:
                if c.ext:
                    st.facts[v] = (1, None, 1, None, frozenset((0,)))
                else:
                    self.pin(st, v, 0)
            elif (p.b, p.c) == self.maxf:
                st.mon = (ph, n, fr, codes, True)
        elif ph == 'freed':
            if (p.b, p.c) == self.maxf:
                st.mon = (ph, n, fr, codes, True)
        elif ph == 'closing' and p.a is fr and p.b == FR and p.c == self.f['opcode'] and v.k != 'c':
            self.pin(st, v, 8)

    def pin(self, st, v, x):
        if v.k == 'c':
            return
        if isinstance(x, tuple):
            lo, hi = x
            st.facts[v] = (lo if hi < M63 else None, hi if hi < M63 else None, lo, hi, frozenset())
        else:
            st.facts[v] = engine.const_fact(x)

    def branch(self, itp, st, ins, cond, taken, ctx):
        if st.mon[0] == 'freed' and st.mon[1] == -1:
            st.mon = self.init()

    def site(self, ins, what):
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, what))

    def accept(self, itp, st, ins, ctx, how):
        ph, n, fr, codes, fl = st.mon
        c = self.cl[n]
        self.site(ins, how)
        if c.why:
            itp.report('invalid-accepted', ins, ctx, '%s although %s (%s)' % (how, '; '.join(c.why), c.text()), st,
                       key=c.why[0][:30])
        elif not c.complete:
            itp.report('incomplete-accepted', ins, ctx, '%s although it was not completely received (%s)' % (how, c.text()), st,
                       key='inc')
        self.out(n, 'accept')
        st.mon = self.init()

    def out(self, n, what):
        self.outcomes.setdefault(n, set()).add(what)

    def store(self, itp, st, ins, p, v, ctx):
        ph, n, fr, codes, fl = st.mon
        if ph == 'parsed' and v is fr and not (root(p).k == 'o' and root(p).b == 'alloca'):
            self.accept(itp, st, ins, ctx, 'a frame is kept')
        if ph in ('freed', 'parsed') and p.k == 'F' and (p.b, p.c) == self.closing and v is not None and st.const(v) != 0:
            st.mon = self.init()

    def call(self, itp, st, ins, name, args, ctx):
        ph, n, fr, codes, fl = st.mon
        if name == 'WSS_parse_frame':
            self.site(ins, name)
            if ph in ('freed', 'parsed'):
                self.dropped(itp, st, ins, ctx)
            if ph == 'closing':
                itp.report('parsed-after-close', ins, ctx, 'goes on parsing frames after one that ends the connection', st)
            r = itp.retsym(st, ins, ctx, name)
            itp.havoc_classes(st, itp.prog.modset(itp.prog.funcs[name]), args)
            for x in args:
                if root(x).k == 'o' and root(x).b == 'alloca':
                    itp.kill(st, x)
            for k in [k for k in st.mem if root(k.a if k.k == 'Z' else k) is r]:
                del st.mem[k]
            for k in [k for k in st.mem if k.k == 'F' and (k.b, k.c) in (self.sizef, self.extf, self.extn, self.maxf)]:
                del st.mem[k]
            out = []
            base = st
            z = base.copy()
            z.mon = self.init()
            out.append((ZERO, z))
            end = V('s', (ctx, ins.id, 'end'), name, 0, 64)
            pay = V('s', (ctx, ins.id, 'pay'), name, 0, 'p')
            for c in self.part:
                s = base.copy()
                s.facts[r] = engine.NONNULL
                s.facts[pay] = engine.NONNULL
                for k, i in self.f.items():
                    x = self.val(s, c, k)
                    if k == 'payload':
                        s.mem[F(r, FR, i)] = pay
                    elif isinstance(x, tuple):
                        y = V('s', (ctx, ins.id, 'len'), name, 0, 64)
                        self.pin(s, y, x)
                        s.mem[F(r, FR, i)] = y
                    else:
                        s.mem[F(r, FR, i)] = C(x)
                if c.op == 8:
                    s.mem[pay] = C(c.code >> 8)
                    s.mem[engine.I(pay, ONE, ('i', 8))] = C(c.code & 255)
                if len(args) > 2 and args[1].k != 'c':
                    s.mem[args[2]] = end
                    s.facts.pop(end, None)
                    s.assume_cmp('ugt' if not c.complete else 'ule', end, args[1], 64)
                s.mon = ('parsed', c.n, r, None, False)
                out.append((r, s))
            return out
        if name == 'WSS_free_frame':
            if ph == 'parsed' and args[0] is fr:
                c = self.cl[n]
                ok = (not c.why and (c.op == 10 or not c.complete)) or (not c.big() and not c.complete)
                st.mon = ('freed', n if not ok else -1, None, c.codes, fl)
            return [(None, st)]
        if name == 'utf8_check':
            r = itp.retsym(st, ins, ctx, name)
            if ph == 'parsed':
                c = self.cl[n]
                p = st.mem.get(F(fr, FR, self.f['payload']))
                if p is not None and args[0] is not None and root(args[0]) is root(p):
                    self.site(ins, name)
                    ln = st.const(args[1])
                    want = c.len - 2 if not isinstance(c.len, tuple) else None
                    if self.off(args[0], p) != 2 or (want is not None and ln != want):
                        itp.report('utf8-range', ins, ctx, 'the UTF-8 check of a closing frame does not cover exactly the bytes '
                                   'after its code (%s)' % c.text(), st, key='r')
                    return [(ONE if c.utf else ZERO, st)]
            return [(r, st)]
        if name in SWAP:
            if ph == 'parsed' and self.cl[n].op == 8 and args and self.from_payload(st, args[0]):
                return [(C(self.cl[n].code), st)]
            c = st.const(args[0]) if args else None
            if c is not None:
                c &= 0xffff
                return [(C((c >> 8) | (c & 255) << 8), st)]
            return None
        if name == 'WSS_pong_frame':
            if ph == 'parsed' and args[0] is fr:
                self.accept(itp, st, ins, ctx, 'a frame is answered')
            r = itp.retsym(st, ins, ctx, name)
            s2 = st.copy()
            itp.havoc_classes(st, itp.prog.modset(itp.prog.funcs[name]), args)
            st.facts[r] = engine.NONNULL
            st.mem[F(r, FR, self.f['opcode'])] = C(0xA)
            return [(r, st), (ZERO, s2)]
        if name == 'WSS_closing_frame':
            self.site(ins, name)
            code = st.const(args[0])
            if ph in ('freed', 'parsed'):
                if not codes and ph == 'parsed':
                    codes = self.cl[n].codes
                if not codes:
                    if not (fl and code in (1008, 1009)):
                        itp.report('valid-rejected', ins, ctx, 'a valid frame is answered with a closing frame (%s)' % (
                            self.cl[n].text() if n is not None and n >= 0 else 'pong or incomplete frame'), st, key='v%s' % ins.line)
                elif code is not None and code not in codes and not (fl and code in (1008, 1009)):
                    c = self.cl[n] if n is not None and n >= 0 else None
                    itp.report('wrong-close-code', ins, ctx, 'a frame is rejected with code %s instead of %s: %s' % (
                        code, '/'.join(map(str, sorted(codes))), '; '.join(c.why) + ' (' + c.text() + ')' if c else '?'), st,
                        key='c%s' % code)
                if n is not None and n >= 0:
                    self.out(n, 'close')
                ph = 'closing'
            r = itp.retsym(st, ins, ctx, name)
            s2 = st.copy()
            s2.mon = self.init() if ph == 'closing' else st.mon
            itp.havoc_classes(st, itp.prog.modset(itp.prog.funcs[name]), args)
            st.facts[r] = engine.NONNULL
            st.mem[F(r, FR, self.f['opcode'])] = C(8)
            if ph == 'closing':
                st.mon = ('closing', None, r, None, False)
            return [(r, st), (ZERO, s2)]
        return None

    def from_payload(self, st, v):
        """a 16 bit value loaded from the start of the payload (directly or through a copy of it)"""
        for s in syms(v):
            if s.k == 's' and isinstance(s.b, engine.Val):
                r = root(s.b)
                if r.k == 's' and r.b == 'WSS_parse_frame' or r.k == 'o' and r.b == 'alloca':
                    return True
        c = st.const(v)
        n = self.cl[st.mon[1]].code
        return c is not None and c in (n >> 8, n, (n >> 8) | (n & 255) << 8)

    def dropped(self, itp, st, ins, ctx):
        ph, n, fr, codes, fl = st.mon
        if n is not None and n >= 0:
            c = self.cl[n]
            itp.report('frame-ignored', ins, ctx, 'a frame is ignored and neither answered nor rejected (%s)' % c.text(), st,
                       key='bad' if c.why else 'good')

    def ret(self, itp, st, ins, val, ctx):
        if st.mon[0] in ('freed',):
            self.dropped(itp, st, ins, ctx)

    def off(self, a, b):
        """constant a - b of two pointers, or None"""
        x, d = self.poff(a)
        y, e = self.poff(b)
        return d - e if x is y else None

    def poff(self, p):
        n = 0
        while p.k == 'I' and p.b.k == 'c':
            n += p.b.a
            p = p.a
        return p, n

    def finish(self, itp):
        return {n: sorted(o) for n, o in self.outcomes.items()}


def merge(reports):
    """one report per construct and kind of frame"""
    seen, out = {}, []
    for r in reports:
        k = (r['rule'], r['function'], r['line'], r['message'].split('(')[0])
        if k not in seen:
            seen[k] = 1
            out.append(r)
    return out


def check(tier):
    prog = build.program('server')
    cl = classes(tier)
    mon = GateMon(prog, cl, ())
    rr = relevant_roots(prog, mon, {'main'})
    rr = [r for r in rr if any('WSS_parse_frame' in prog.direct(g)[0] for g in prog.reach(prog.funcs[r])[1])]
    parts = [cl[i::8] for i in range(8)]
    jobs = [dict(root=r, name=r, part=i) for r in rr for i in range(8)]
    run = explore(prog, lambda j: GateMon(prog, cl, parts[j['part']]), jobs)
    run.reports = merge(run.reports)
    out = {}
    for j, x in run.extra:
        for n, o in x.items():
            out.setdefault(n, set()).update(o)
    if not out:
        raise AnalysisError('no frame was followed to a decision')
    cov = run.cover()
    cov['frame_classes'] = len(cl)
    cov['classes_accepted'] = sum('accept' in o for o in out.values())
    cov['classes_rejected'] = sum('close' in o for o in out.values())
    for c in cl:
        if c.complete and not c.why and c.op != 10 and 'accept' not in out.get(c.n, ()):
            f = prog.need('WSS_parse_frame')
            run.reports.append(report('valid-never-accepted', f, None, 'no path accepts a valid frame (%s)' % c.text()))
            break
    cov['explanation'] = ('every class of frames (combination of header bits, each of the 16 opcodes, length intervals around every '
                          'limit, closing codes and reasons, extensions or not) is put where the parser returns and followed along '
                          'every path; it must be kept or answered if it is valid and complete, otherwise be replaced by a closing '
                          'frame whose code fits what is wrong with it')
    return run.reports, cov, ['WSS_parse_frame decodes the header bits as RFC 6455 lays them out',
                              'the configured limit is represented by two values']
