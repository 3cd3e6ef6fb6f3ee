"""Output is complete and in order: every message is handed over from its first to its last byte, each byte once, and only then
given up; a message that cannot be completed now is continued where it stopped, one that never will be ends the connection."""
from common import *
from driver import *
import engine
from engine import cast

SS = 'struct.wss_session_t'
EAGAIN, EINTR, EPIPE = 11, 4, 32
WRITING = 2
ERRNO = V('G', None, '$errno')
# ghosts: what is expected next
OFFSET = V('G', None, '$offset')      # first byte of the current message not handed over yet
BATCH = V('G', None, '$batch')        # position of the batch in the buffer
COUNT = V('G', None, '$count')        # number of messages of the batch
MSG = V('G', None, '$msg')            # current message
BUF = V('G', None, '$buf')            # its bytes
LEN = V('G', None, '$len')            # how many
DONE = V('G', None, '$done')          # it is completely handed over
RES = V('G', None, '$res')            # result of the last TLS call
GHOSTS = (OFFSET, BATCH, COUNT, MSG, BUF, LEN, DONE)
STRINGIFY = {'WSS_stringify_frame', 'WSS_stringify_frames'}
OUT = {'write', 'SSL_write', 'send'}
# cannot write now, connection will be ended, messages given up, holds a batch, current message of the batch,
# batches taken, parts of the current message written, interrupted
BLOCKED, CLOSING, DROPPED, HOLDS, INDEX, BATCHES, PARTS, INTR = range(8)
MAXBATCH, MAXPARTS = 2, 2


def lin(v, sign=1, out=None, d=0):
    """linear form of a value, not regarding widths: ({symbol: factor}, constant)"""
    top = out is None
    if top:
        out = {}
    if v.k == 'c':
        n = v.a
        if n >= 1 << 63:
            n -= 1 << 64
        elif 1 << 31 <= n < 1 << 32:
            n -= 1 << 32
        out[None] = out.get(None, 0) + sign * n
    elif v.k == 'e' and v.a in ('zext', 'sext', 'trunc') and d < 12:
        lin(v.b, sign, out, d + 1)
    elif v.k == 'e' and v.a in ('add', 'sub') and d < 12:
        lin(v.b, sign, out, d + 1)
        lin(v.c, sign if v.a == 'add' else -sign, out, d + 1)
    else:
        out[v] = out.get(v, 0) + sign
    if top:
        out = {k: n for k, n in out.items() if n}
    return out


def plus(a, b, k=1):
    o = dict(a)
    for x, n in b.items():
        o[x] = o.get(x, 0) + k * n
    return {x: n for x, n in o.items() if n}


class OutMon(Monitor):
    names = frozenset(OUT | {'SSL_get_error', 'ringbuf_consume', 'ringbuf_release', 'WSS_stringify_frame', 'WSS_stringify_frames',
                             'WSS_free', 'free', 'rpfree'})
    inline_never = frozenset({'WSS_stringify_frame', 'WSS_stringify_frames', 'WSS_free', 'WSS_free_frame', 'log_log',
                              'ringbuf_release', 'ringbuf_consume', 'ringbuf_acquire', 'ringbuf_produce', 'WSS_disconnect'})
    LOCKFAIL = False
    OOM = True
    K = KHEAD = 8
    KRET = 64
    count = 3
    MODSIZE = 1 << 30

    def __init__(self, prog, ssl):
        self.prog, self.ssl = prog, ssl
        self.sites = set()
        x = prog.fidx
        f = lambda n: (SS, x('wss_session_t', n))
        self.fdf, self.clf, self.sslf, self.wf, self.mf, self.scf, self.stf = map(f, (
            'fd', 'closing', 'ssl', 'written', 'messages', 'ssl_connected', 'state'))
        m = 'struct.wss_message_t'
        self.msgf, self.lenf = (m, x('wss_message_t', 'msg')), (m, x('wss_message_t', 'length'))

    def init(self):
        return (False, False, False, False, 0, 0, 0, False)

    def put(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[globals()[k]] = v
        st.mon = tuple(m)

    def group(self, st):
        return st.mon + tuple(st.const(st.mem[q]) if q is COUNT else q.b for q in GHOSTS if q in st.mem)

    def modular(self, itp, g):
        return False

    def interesting(self, prog, f, ins):
        if ins.op == 'gep':
            c = prog.gep_class(ins)
            return c[0] == 'F' and c[1] in (SS, SS[7:]) and c[2] in (self.clf[1], self.wf[1], self.mf[1], self.stf[1])
        return False

    def is_f(self, p, f):
        return p.k == 'F' and (p.b, p.c) == f

    def site(self, ins, what):
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, what))

    def field(self, st, f):
        for q, x in st.mem.items():
            if self.is_f(q, f):
                return x
        return None

    # -- what is known of the current message
    def get(self, st, g):
        return st.mem.get(g)

    def drop(self, st, *gs):
        for g in gs:
            st.mem.pop(g, None)

    def same(self, st, a, b):
        return plus(lin(a), lin(b), -1) == {}

    def reached(self, st, a, b):
        """a is not less than b"""
        if self.same(st, a, b):
            return True
        ca, cb = st.const(a), st.const(b)
        if ca is not None and cb is not None:
            return ca >= cb
        if cb == 0:
            return True
        for x in self.forms(a):
            for y in self.forms(b):
                for bits in (32, 64):
                    if st.cmp('ult', x, y, bits) is False or st.cmp('eq', x, y, bits) is True:
                        return True
        la, lb = lin(a), lin(b)
        d = plus(lb, la, -1)
        for k in st.facts:
            if k.k == 'e' and lin(k) == d:
                r = st.rng(k)
                if r[1] is not None and r[1] <= 0 or r[3] == 0:
                    return True
        for k, t in st.preds.items():
            if isinstance(k, tuple) and len(k) == 3 and (k[0] in ('ult', 'slt') and t is False or k[0] == 'eq' and t is True):
                if lin(k[1]) == la and lin(k[2]) == lb or k[0] == 'eq' and lin(k[1]) == lb and lin(k[2]) == la:
                    return True
        return False

    def forms(self, v):
        out = [v]
        for op, a, b in (('zext', 32, 64), ('sext', 32, 64), ('trunc', 64, 32)):
            c = cast(op, v, a, b)
            if c is not None:
                out.append(c)
        if v.k == 'e' and v.a in ('zext', 'sext', 'trunc'):
            out.append(v.b)
        return out

    def complete(self, st):
        if DONE in st.mem:
            return True
        l = st.mem.get(LEN)
        o = st.mem.get(OFFSET)
        return l is not None and o is not None and self.reached(st, o, l)

    # -- hooks
    def load(self, itp, st, ins, p, v, ctx):
        if self.is_f(p, self.sslf) and v.k != 'c':
            st.facts[v] = engine.NONNULL if self.ssl else engine.const_fact(0)
        elif self.is_f(p, self.scf) and v.k != 'c':
            st.facts[v] = engine.const_fact(1 if self.ssl else 0)
        elif p.k == 'I' and p.a.k == 's' and isinstance(p.a.b, engine.Val) and self.is_f(p.a.b, self.mf):
            self.message(itp, st, ins, p.b, v, ctx)
        elif p.k == 's' and isinstance(p.b, engine.Val) and self.is_f(p.b, self.mf):
            self.message(itp, st, ins, ZERO, v, ctx)

    def message(self, itp, st, ins, idx, v, ctx):
        self.site(ins, 'message')
        b = self.get(st, BATCH)
        if b is None or not st.mon[HOLDS]:
            itp.report('no-batch', ins, ctx, 'takes a message from the queue that is not known to be there', st)
            return
        i = st.mon[INDEX]
        if MSG in st.mem and self.complete(st):
            i += 1
        if plus(plus(lin(b), {None: i} if i else {}), lin(idx), -1) != {}:
            now = plus(plus(lin(b), {None: st.mon[INDEX]} if st.mon[INDEX] else {}), lin(idx), -1) == {}
            if not st.mon[CLOSING] and not now:
                itp.report('order', ins, ctx, 'takes another message than the next one of the queue, or before the current one '
                           'is completely written', st)
            return
        if v.k == 'c' and v.a == 0:
            return
        if i != st.mon[INDEX] or MSG not in st.mem:
            if i != st.mon[INDEX]:
                st.mem[OFFSET] = ZERO
            self.put(st, INDEX=i, PARTS=0, INTR=False)
            st.mem[MSG] = v
            self.drop(st, BUF, LEN, DONE)
            q = F(v, *self.lenf)
            if q not in st.mem:
                st.mem[q] = V('s', (ctx, ins.id, 'len'), q, 0, 64)
            st.mem[LEN] = st.mem[q]

    def edge(self, itp, st, f, dst, ctx):
        """the code's own names for what is expected"""
        m = st.mem
        if OFFSET not in m:
            return
        vals = None
        for g in (OFFSET, LEN):
            o = m.get(g)
            if o is not None and o.k != 'c':
                vals = vals or self.values(st, f, dst)
                l = lin(o)
                for x in vals:
                    if lin(x) == l:
                        m[g] = x
                        break
        if MSG in m and st.mon[HOLDS] and DONE not in m and self.complete(st):
            m[DONE] = ONE

    def values(self, st, f, dst):
        live = set(f.livein[dst]) | {i.res for i in f.blocks[dst].insts if i.op == 'phi'}
        return [x for k, x in st.env.items() if k in live] + [x for q, x in st.mem.items() if q not in GHOSTS]

    def store(self, itp, st, ins, p, v, ctx):
        if self.is_f(p, self.clf) and v is not None and st.const(v) != 0:
            self.put(st, CLOSING=True)

    def call(self, itp, st, ins, name, args, ctx):
        if name == '__errno_location':
            return [(ERRNO, st)]
        if name in self.skip:
            itp.havoc_args(st, args)
            return [(None, st)]
        if name in STRINGIFY:
            self.site(ins, name)
            itp.havoc_args(st, args)
            r = itp.retsym(st, ins, ctx, name)
            st.facts[r] = (0, 1 << 30, 0, 1 << 30, frozenset())
            s2 = st.copy()
            s2.facts[r] = engine.const_fact(0)
            st.facts[r] = (1, 1 << 30, 1, 1 << 30, frozenset())
            self.drop(st, MSG, BUF, DONE)
            st.mem[LEN] = r
            st.mem[OFFSET] = ZERO
            return [(r, st), (ZERO, s2)]
        if name in OUT and (name != 'write' or self.out(st, args[0])):
            return self.output(itp, st, ins, name, args, ctx)
        if name == 'SSL_get_error':
            r = st.mem.get(RES)
            ok = r is not None and st.cmp('sgt', r, ZERO, 32)
            out = []
            for k in ((0,) if ok else (1, 2, 3, 5, 6)):
                s = st.copy()
                self.put(s, BLOCKED=k in (2, 3))
                out.append((C(k), s))
            return out
        if name == 'ringbuf_consume':
            return self.consume(itp, st, ins, args, ctx)
        if name == 'ringbuf_release':
            self.release(itp, st, ins, args[1], ctx)
            return [(None, st)]
        if name in FREES or name == 'WSS_free':
            b = args[0]
            if name == 'WSS_free':
                b = st.mem.get(b)
            if b is None:
                return None
            m = st.mem.get(MSG)
            if b is st.mem.get(BUF) or m is not None and (b is m or b is st.mem.get(F(m, *self.msgf))):
                self.site(ins, 'free')
                if not st.mon[CLOSING] and not self.complete(st):
                    itp.report('freed-early', ins, ctx, 'gives up a message that is not completely written, although the '
                               'connection goes on', st)
            return None
        return None

    def out(self, st, fd):
        x = fd
        if x.k == 's' and isinstance(x.b, engine.Val) and self.is_f(x.b, self.fdf):
            return True
        return any(y is x and self.is_f(q, self.fdf) for q, y in st.mem.items())

    def output(self, itp, st, ins, name, args, ctx):
        self.site(ins, name)
        p, n = args[1], args[2]
        off = ZERO
        buf = p
        if p.k == 'I':
            buf, off = p.a, p.b
        o = st.mem.get(OFFSET)
        m = st.mem.get(MSG)
        if m is not None:
            if buf is not st.mem.get(F(m, *self.msgf)):
                itp.report('bytes', ins, ctx, 'writes something else than the current message', st)
        else:
            x = self.field(st, self.stf)
            if not self.ring and (x is None or not engine.fexcl(st.rng(x), WRITING)):
                itp.report('inside', ins, ctx, 'writes a frame of its own although a message of the queue may be half written', st)
            if BUF in st.mem and st.mem[BUF] is not buf and not self.complete(st) and not st.mon[CLOSING]:
                itp.report('interleaved', ins, ctx, 'writes another buffer before the last one is completely written', st)
        l = st.mem.get(LEN)
        st.mem[BUF] = buf
        if o is None or l is None:
            itp.report('unknown', ins, ctx, 'writes bytes of which it cannot be told how many there are', st)
            return None
        if not self.same(st, off, o):
            itp.report('offset', ins, ctx, 'writes from another position of the message than the one the last write ended at', st)
        if plus(plus(lin(n), lin(off)), lin(l), -1) != {}:
            itp.report('length', ins, ctx, 'writes another number of bytes than the message has left', st)
        res = []
        full = st.mon[PARTS] >= MAXPARTS
        if name == 'SSL_write':
            s2 = st.copy()
            r = itp.retsym(s2, ins, ctx, name)
            s2.facts[r] = (-1, 0, None, None, frozenset())
            s2.mem[RES] = r
            self.put(s2, BLOCKED=False)
            res.append((r, s2))
        else:
            for err in (EAGAIN, EINTR, EPIPE):
                if err == EINTR and st.mon[INTR]:
                    continue
                s = st.copy()
                s.mem[ERRNO] = C(err)
                self.put(s, BLOCKED=err == EAGAIN, INTR=st.mon[INTR] or err == EINTR)
                res.append((C(-1), s))
        if full:
            return res
        r = itp.retsym(st, ins, ctx, name)
        st.facts[r] = (1, 1 << 30, 1, 1 << 30, frozenset())
        st.mem[RES] = r
        t = r
        if name != 'SSL_write':
            t = cast('trunc', r, 64, 32) or r
        x = engine.binop('add', off, t, 32)
        st.mem[OFFSET] = x if x is not None else V('e', 'add', off, t, 32)
        self.put(st, BLOCKED=False, PARTS=st.mon[PARTS] + 1)
        return [(r, st)] + res

    def consume(self, itp, st, ins, args, ctx):
        self.site(ins, 'ringbuf_consume')
        if st.mon[HOLDS] and not st.mon[CLOSING]:
            itp.report('not-released', ins, ctx, 'asks for more messages without having given back the ones it has', st)
        s2 = st.copy()
        itp.havoc_args(st, args)
        b = st.mem.get(args[1])
        if b is None:
            b = V('s', (ctx, ins.id, 'off'), 'position', 0, 64)
            st.mem[args[1]] = b
        st.facts[b] = (0, 1 << 30, 0, 1 << 30, frozenset())
        self.drop(st, *GHOSTS)
        st.mem[BATCH] = b
        w = self.field(st, self.wf)
        if w is None:
            ring = args[0]
            if ring.k == 's' and isinstance(ring.b, engine.Val) and ring.b.k == 'F' and ring.b.b == SS:
                p = F(ring.b.a, *self.wf)
                w = V('s', (ctx, ins.id, 'w0'), p, 0, 32)
                st.mem[p] = w
        if w is not None:
            st.mem[OFFSET] = w
        self.put(st, HOLDS=True, BLOCKED=False, INDEX=0, PARTS=0, INTR=False, BATCHES=st.mon[BATCHES] + 1)
        # nothing to hand over: nothing was begun either
        self.drop(s2, BATCH, COUNT, MSG, BUF, LEN, DONE)
        self.put(s2, HOLDS=False)
        out = [(ZERO, s2)]
        if s2.mon[BATCHES] < MAXBATCH:
            for n in range(1, self.count + 1):
                s = st.copy()
                s.mem[COUNT] = C(n)
                out.append((C(n), s))
        return out

    def release(self, itp, st, ins, n, ctx):
        self.site(ins, 'ringbuf_release')
        m = st.mem
        if not st.mon[HOLDS]:
            if not (st.const(n) == 0):
                itp.report('release', ins, ctx, 'gives back messages it does not have', st)
            return
        done = st.mon[INDEX] + (MSG in m and self.complete(st))
        n = st.const(n)
        if n == done:
            pass
        elif n == m[COUNT].a and done < n:
            self.put(st, DROPPED=True)
        elif not st.mon[CLOSING]:
            itp.report('release', ins, ctx, 'gives back another number of messages than it has completely written', st)
        self.drop(st, BATCH, COUNT, MSG, DONE)
        if n == done and n:
            if not (st.mon[BLOCKED] or m.get(OFFSET) is None):
                st.mem[OFFSET] = ZERO
        self.put(st, HOLDS=False)

    def ret(self, itp, st, ins, val, ctx):
        self.sites.add('end')
        b, c, d, h = st.mon[:4]
        if c:
            return
        x = self.field(st, self.clf)
        if x is not None and st.truth(x):
            return
        if d:
            itp.report('dropped', ins, ctx, 'messages are given up without being written, although the connection goes on', st)
        if h:
            itp.report('not-released', ins, ctx, 'ends without giving back the messages that are written', st)
        o, w = st.mem.get(OFFSET), self.field(st, self.wf)
        if not self.ring:
            if o is not None and not self.complete(st):
                itp.report('incomplete', ins, ctx, 'leaves a message incompletely written, although the connection goes on', st)
        elif b:
            if o is None or w is None or not self.same(st, o, w):
                itp.report('position', ins, ctx, 'does not remember how much of the message that has to wait is written', st)
        elif w is not None and o is not None and not self.same(st, o, w):
            itp.report('position', ins, ctx, 'remembers a wrong position for the next message', st)


def minimal(prog, want):
    fs = {n for n, f in prog.funcs.items() if want(prog.reach(f)[0])}
    out = []
    for n in sorted(fs):
        c, t = prog.direct(prog.funcs[n])
        if not any(m in fs for m in (c | t) - {n}):
            out.append(n)
    return out


def directly(prog, f):
    out, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in out or g not in prog.funcs:
            continue
        out.add(g)
        todo += prog.direct(prog.funcs[g])[0]
    return out


def check(tier):
    prog = build.program('server')
    run = Run()
    jobs = []
    ring = minimal(prog, lambda r: {'ringbuf_consume', 'ringbuf_release'} <= r and r & OUT)
    ctl = minimal(prog, lambda r: r & STRINGIFY and r & OUT and 'ringbuf_consume' not in r)
    if not ring:
        raise AnalysisError('no function writes the queue')
    # the control frames of the server itself: whole work items, for what is known of the connection
    top = [r for r in roots(prog) if directly(prog, r) & set(ctl)]
    for f in ring + sorted(set(top)):
        for ssl in (0, 1):
            jobs.append(dict(root=f, name='%s/%d' % (f, ssl), ssl=ssl, ring=f in ring))

    def mk(j):
        m = OutMon(prog, j['ssl'])
        m.ring = j['ring']
        m.skip = frozenset(ring if not m.ring else ())
        m.inline_never = m.inline_never | m.skip
        m.count = 3 if tier == 'thorough' else 2
        if m.ring:
            m.K = m.KHEAD = m.KRET = 1 << 30      # histories are bounded, states are not merged
        return m
    run.add(explore(prog, mk, jobs, 3000000))
    for w in ('write', 'SSL_write', 'message', 'ringbuf_release', 'free', 'end'):
        if not run.reports and not any(w in s for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    return run.reports, run.cover(), ['at most two batches of three messages, each written in at most three parts', 'widths of integers are not regarded: a message is shorter than 4 GB']
