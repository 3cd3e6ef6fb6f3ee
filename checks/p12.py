"""Messages reach the subprotocol as they were sent: sequences of frames, split over several reads, are put through the code that
reads a connection; what the subprotocol is told and what is answered is compared with a reference that handles frame by frame."""
import itertools
from common import *
from driver import *
import engine
import p11
from p11 import FrameMon, FR, Rope, byte

FREES = {'free', 'rpfree', 'WSS_free_normal'}
STREAM, ERRNO = V('G', None, '$stream'), V('G', None, '$errno')
SERVER, SESSION, CONFIG, HEADER = (V('G', None, '$' + n) for n in ('server', 'session', 'config', 'header'))
PROTO, EXTN, WSEXT, EXTS = (V('G', None, '$' + n) for n in ('protocol', 'extension', 'wsext', 'extensions_list'))
SSLV = V('G', None, '$ssl')
EAGAIN, EINTR, ECONNRESET = 11, 4, 104
# kind of frame: (opcode, fin, length, text property); w ends within a character, k continues it
KINDS = {'T': (1, 1, 5), 't': (1, 0, 4), 'B': (2, 1, 6), 'b': (2, 0, 3), 'C': (0, 1, 7), 'c': (0, 0, 2), 'P': (9, 1, 4), 'G': (10, 1, 3),
         'X': (8, 1, 2), 'Y': (8, 1, 0), 'I': (1, 1, 4), 'U': (1, 1, 3), 'u': (1, 0, 3), 'w': (1, 0, 3), 'W': (1, 1, 3),
         'E': (1, 1, 0), 'e': (1, 0, 0), 'o': (0, 0, 0), 'O': (0, 1, 0), 'p': (9, 1, 0)}
BAD, SPLIT = 'Uu', 'wW'
HEAD = 6


def reference(seq, limit):
    """[(frame the event is due at, event)], ending with a close"""
    out, cur = [], None
    for i, k in enumerate(seq):
        op, fin, n = KINDS[k]
        if k == 'I':
            return out + [(i, ('close', 1002))]
        if op == 8:
            return out + [(i, ('close', 1000))]
        if op == 10:
            continue
        if op == 9:
            out.append((i, ('pong', i)))
            continue
        if (op == 0) != (cur is not None):
            return out + [(i, ('close', 1002))]
        cur = (cur or []) + [i]
        if len(cur) > limit:
            return out + [(i, ('close', 1009))]
        if fin:
            first = seq[cur[0]]
            if KINDS[first][0] == 1 and not utf(seq, cur):
                return out + [(i, ('close', 1007))]
            out.append((i, ('message', KINDS[first][0], tuple(cur))))
            cur = None
    return out


def utf(seq, idx):
    full = [i for i in idx if KINDS[seq[i]][2]]
    return not any(seq[i] in BAD for i in idx) and not (full and seq[full[-1]] in SPLIT)


def open_frames(seq):
    """frames of the message that is not complete"""
    cur = []
    for i, k in enumerate(seq):
        op, fin, n = KINDS[k]
        if op < 8:
            cur = [] if fin else cur + [i]
    return cur


class ReadMon(FrameMon):
    """mon = (buffers, allocations, events, freed objects, bytes read, frames parsed, reads of this phase, called for frames)"""
    names = FrameMon.names | {'read', 'recv', 'SSL_read', 'SSL_get_error', 'free', 'rpfree', 'WSS_free_normal', 'WSS_message_send_frames', 'WSS_parse_frame', 'utf8_check',
                              'WSS_free', '__errno_location'}
    inline_never = FrameMon.inline_never | {'WSS_parse_frame', 'utf8_check', 'WSS_message_send_frames', 'WSS_session_jobs_inc',
                                            'WSS_session_jobs_dec', 'WSS_disconnect', 'WSS_connect', 'WSS_write', 'WSS_flush'}
    EV, FREED, POS, PARSED, CHUNK, CALLED, COUNT = range(2, 9)
    K = KHEAD = KRET = 1 << 30

    def __init__(self, prog, job):
        job = dict(job, kind='read')
        FrameMon.__init__(self, prog, job)
        self.job = job
        self.seq = job['seq']
        self.start, n = [], 0
        for k in self.seq:
            self.start.append(n)
            n += HEAD + KINDS[k][2]
        self.total = n
        self.ref = reference(self.seq, job.get('max', 1000))
        x = prog.fidx
        self.sf = {n: ('struct.wss_session_t', x('wss_session_t', n)) for n in
                   ('handshaked', 'ssl', 'closing', 'event', 'state', 'fd', 'header', 'frames', 'frames_length')}
        self.ends = []
        self.phase = 0

    def init(self):
        return ((), 0, (), frozenset(), 0, 0, 0, (), 0)

    def put(self, st, i, v):
        st.mon = st.mon[:i] + (v,) + st.mon[i + 1:]

    def bad(self, itp, rule, ins, ctx, msg, st, key=None):
        itp.report(rule, ins, ctx, '%s (frames %s, received in %s)' % (msg, self.describe(), self.parts()), st, key=(rule, key))

    def fail(self, itp, rule, ins, ctx, msg, st):
        self.bad(itp, rule, ins, ctx, msg, st, ins.id if ins is not None else None)

    def write(self, itp, st, ins, ctx, p, n, rope):
        out = []
        for o, l, k, d in rope:
            if k != 'v':
                out.append((o, l, k, d))
                continue
            for i, (c, a) in enumerate(d):
                b, j = next(iter(a)) if len(a) == 1 and not c else (None, None)
                out.append((o + i, 1, 'c', (b, j)) if b is not None and b.k == 'G' else (o + i, 1, 'v', (d[i],)))
        return FrameMon.write(self, itp, st, ins, ctx, p, n, Rope.norm(out))

    def describe(self):
        names = {'T': 'text', 't': 'text..', 'B': 'binary', 'b': 'binary..', 'C': '..end', 'c': '..part..', 'P': 'ping', 'p': 'empty ping',
                 'G': 'pong', 'X': 'close', 'Y': 'empty close', 'I': 'invalid', 'U': 'text not UTF-8', 'u': 'text not UTF-8..',
                 'w': 'text with half a character..', 'W': 'text with half a character', 'E': 'empty text', 'e': 'empty text..',
                 'o': '..empty part..', 'O': '..empty end'}
        return ', '.join(names[k] for k in self.seq)

    def parts(self):
        return ' + '.join(str(b - a) for a, b in zip((0,) + self.job['cuts'], self.job['cuts'] + (self.total,)))

    # -- the state before and after
    def setup(self, itp, st, vals, ctx):
        if self.phase:
            e = self.resume
            st.mem, st.facts, st.preds = dict(e.mem), dict(e.facts), dict(e.preds)
            st.mon = e.mon
            self.put(st, self.CHUNK, 0)
        m = st.mem
        for n, p in (('server', SERVER), ('session', SESSION)):
            for i, pt in enumerate(self.params):
                if pt == n:
                    vals[i] = p
        if not self.phase:
            for p in (SERVER, SESSION, CONFIG, HEADER):
                m[V('Z', p)] = ONE
            x = self.prog.fidx
            m[F(SERVER, 'struct.wss_server_t', x('wss_server_t', 'config'))] = CONFIG
            for n, v in (('size_buffer', 4096), ('size_frame', 1 << 20), ('max_frames', self.job.get('max', 1000))):
                m[F(CONFIG, 'struct.wss_config_t', x('wss_config_t', n))] = C(v)
            m[F(SESSION, *self.sf['handshaked'])] = ONE
            m[F(SESSION, *self.sf['header'])] = HEADER
            m[F(SESSION, *self.sf['fd'])] = C(7)
            if self.job.get('ssl'):
                m[F(SESSION, *self.sf['ssl'])] = SSLV
            h = 'struct.wss_header_t'
            m[F(HEADER, h, x('wss_header_t', 'ws_protocol'))] = PROTO
            if self.job.get('ext'):
                m[F(HEADER, h, x('wss_header_t', 'ws_extensions'))] = EXTS
                m[F(HEADER, h, x('wss_header_t', 'ws_extensions_count'))] = ONE
                m[engine.I(EXTS, ZERO, ('ptr',))] = WSEXT
                m[F(WSEXT, 'struct.wss_ext_t', x('wss_ext_t', 'ext'))] = EXTN
        m[F(SESSION, *self.sf['state'])] = ONE
        m[F(SESSION, *self.sf['event'])] = ZERO

    def upto(self):
        c = self.job['cuts']
        return c[self.phase] if self.phase < len(c) else self.total

    def ret(self, itp, st, ins, val, ctx):
        if ctx.parent is not None:
            return
        self.results += 1
        got = [i for i, k in enumerate(self.seq) if self.start[i] + HEAD + KINDS[k][2] <= self.upto()]
        want = [e for i, e in self.ref if i in got]
        ev = st.mon[self.EV]
        last = self.upto() == self.total
        if self.wants_write():
            # the data is handled as soon as the library can write
            want = [e for i, e in self.ref if self.start[i] + HEAD + KINDS[self.seq[i]][2] <= self.job.get('seen', 0)]
        if self.job.get('fail') and last or st.mon[self.CALLED] == 'oom':
            self.failed(itp, st, ins, ctx, ev, want)
            return
        if list(ev) != want:
            self.bad(itp, 'delivery', ins, ctx, 'the events are: %s; expected: %s' % (self.text(ev), self.text(want)), st,
                     self.difference(ev, want))
            return
        closed = bool(want) and want[-1][0] == 'close'
        ended = bool(self.sess(st, 'closing'))
        if self.job.get('eof') and last:
            closed = True
        if closed != ended:
            self.bad(itp, 'ending', ins, ctx, 'the connection is %s' % ('not ended' if closed else 'ended'), st)
            return
        self.kept(itp, st, ins, ctx)
        self.leaks(itp, st, ins, ctx)
        if not closed and self.upto() < self.total:
            self.ends.append(st.copy())

    def failed(self, itp, st, ins, ctx, ev, want):
        """reading fails: what was received before may be lost, the connection ends"""
        told = [e for e in ev if e[0] != 'close']
        if told != want[:len(told)]:
            self.bad(itp, 'delivery', ins, ctx, 'the events are: %s; expected: %s' % (self.text(ev), self.text(want)), st,
                     self.difference(ev, want))
        elif not self.sess(st, 'closing') and not (ev and ev[-1][0] == 'close'):
            self.bad(itp, 'ending', ins, ctx, 'the connection is not ended when it cannot be read', st)
        else:
            self.kept(itp, st, ins, ctx)
            self.leaks(itp, st, ins, ctx)

    def kept(self, itp, st, ins, ctx):
        """what is kept for the next read is there"""
        v = st.mem.get(F(SESSION, *self.sf['frames'])) or ZERO
        n = self.sess(st, 'frames_length')
        for i in range(n if isinstance(n, int) else 0):
            if v.k != 'o' or st.mem.get(engine.I(v, C(i), ('ptr',))) in (None, ZERO):
                self.bad(itp, 'kept', ins, ctx, '%d frames are kept for the next read, but not all of them are there' % n, st)
                return

    def sess(self, st, n):
        v = st.mem.get(F(SESSION, *self.sf[n]))
        return 0 if v is None else st.const(v)

    def wants_write(self):
        w = self.job.get('write')
        return w == self.phase + 1 or w == -1 and self.upto() < self.total

    def text(self, ev):
        return '; '.join('%s %s' % (e[0], e[1] if len(e) < 3 else '%s of frames %s' % ({1: 'text', 2: 'binary'}.get(e[1], e[1]), list(e[2])))
                         for e in ev) or 'none'

    def difference(self, a, b):
        for x, y in itertools.zip_longest(a, b):
            if x != y:
                return (x and x[0], y and y[0])

    def leaks(self, itp, st, ins, ctx):
        seen, todo = set(), []
        ref = {}
        for k, v in st.mem.items():
            if k.k == 'Z':
                continue
            r = root(k)
            ref.setdefault(r, []).append(v)
        live = [r for r in ref if r.k != 'o']
        todo = list(live)
        seen = set(todo)
        while todo:
            r = todo.pop()
            for v in ref.get(r, ()):
                if v is None or v.k == 'c':
                    continue
                x = root(v)
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        for o, r, s in st.mon[0]:
            if o.k == 'o' and o.b == 'buffer' and o not in seen and o not in st.mon[self.FREED]:
                self.bad(itp, 'lost', ins, ctx, 'memory is neither freed nor kept', st)
                return

    def finish(self, itp):
        todo = [(1, e) for e in self.ends]
        while todo:
            self.phase, self.resume = todo.pop()
            self.ends = []
            itp.run_root(self.job['root'], setup=self.setup)
            todo += [(self.phase + 1, e) for e in self.ends]
        return self.results

    # -- events
    def use(self, itp, st, ins, ctx, p):
        r = root(p)
        if r.k == 'c' and r.a == 0:
            self.bad(itp, 'null', ins, ctx, 'uses a null pointer', st, ins.id)
        if r.k == 'o' and r in st.mon[self.FREED]:
            self.bad(itp, 'use-after-free', ins, ctx, 'uses memory that has been freed', st, ins.id)

    def load(self, itp, st, ins, p, v, ctx):
        self.use(itp, st, ins, ctx, p)
        return FrameMon.load(self, itp, st, ins, p, v, ctx)

    def store(self, itp, st, ins, p, v, ctx):
        self.use(itp, st, ins, ctx, p)
        return FrameMon.store(self, itp, st, ins, p, v, ctx)

    def read(self, itp, st, ins, ctx, args):
        """the result of a read: what is there up to the end of this phase, in chunks"""
        end = self.upto()
        pos = st.mon[self.POS]
        n = min(end - pos, self.job.get('chunk', 1 << 20))
        cap = self.num(st, args[2])
        if isinstance(cap, int):
            n = min(n, cap)
        if n == 0:
            if self.job.get('eof') and end == self.total:
                return 0
            return -1
        self.write(itp, st, ins, ctx, args[1], n, ((0, n, 'c', (STREAM, pos)),))
        self.put(st, self.POS, pos + n)
        return n

    def event(self, st, e):
        self.put(st, self.EV, st.mon[self.EV] + (e,))

    def message(self, st, p, n):
        """frames whose data the n bytes at p are, or None"""
        if n == 0:
            return ()
        b, off = self.at(p)
        if off is None or not isinstance(n, int):
            return None
        r, s = self.rope(st, b)
        if r is None:
            return None
        out = []
        o = 0
        for a, l, k, d in Rope.cut(r, off, n):
            if a != o or not isinstance(l, int):
                return None
            if k != 'c' or not isinstance(d[0].b, tuple) or d[0].b[0] not in ('data', 'plain'):
                return None
            i = d[0].b[1]
            while l:
                if d[1] != 0 or l < self.length(i):
                    return None
                out.append((d[0].b[0], i))
                l -= self.length(i)
                o += self.length(i)
        return tuple(out) if o == n else None

    def length(self, i):
        n = KINDS[self.seq[i]][2]
        return n + 100 if self.job.get('ext') and n and KINDS[self.seq[i]][0] < 8 else n

    def frame_of(self, st, fr):
        """number of the received frame"""
        r = root(fr)
        x = st.mem.get(V('G', None, ('frame', r)))
        return x.a if x is not None else None

    def call(self, itp, st, ins, name, args, ctx):
        if self.job.get('oom') and (name in p11.ALLOC or name in ('WSS_parse_frame', 'strdup', 'strndup')):
            if st.mon[self.COUNT] + 1 == self.job['oom']:
                self.put(st, self.COUNT, st.mon[self.COUNT] + 1)
                self.put(st, self.CALLED, 'oom')
                self.sites.add('%s:%s no memory' % (ins.fn.file, ins.line))
                if name == 'WSS_realloc':
                    v = st.mem.get(args[0])
                    if v is not None and v.k == 'o':
                        self.put(st, self.FREED, st.mon[self.FREED] | {v})
                    itp.store(st, args[0], ZERO, ('ptr',))
                return [(ZERO, st)]
            self.put(st, self.COUNT, st.mon[self.COUNT] + 1)
        if name == '__errno_location':
            return [(ERRNO, st)]
        if name in ('read', 'recv'):
            self.sites.add('%s:%s read' % (ins.fn.file, ins.line))
            if self.job.get('signal') and not st.mon[self.CHUNK]:
                self.put(st, self.CHUNK, 1)
                st.mem[ERRNO] = C(EINTR)
                return [(C(-1), st)]
            n = self.read(itp, st, ins, ctx, args)
            if n < 0:
                st.mem[ERRNO] = C(ECONNRESET if self.job.get('fail') and self.upto() == self.total else EAGAIN)
            self.put(st, self.CHUNK, 0)
            return [(C(n), st)]
        if name == 'SSL_read':
            last = self.upto() == self.total
            n = self.read(itp, st, ins, ctx, args)
            st.mem[V('G', None, '$sslerr')] = C(0 if n > 0 else 6 if n == 0 else 2 + self.wants_write() if not (
                last and 'fail' in self.job) else 5)
            return [(C(n), st)]
        if name == 'SSL_get_error':
            return [(st.mem.get(V('G', None, '$sslerr')) or itp.retsym(st, ins, ctx, name), st)]
        if name == 'WSS_parse_frame':
            return self.parse(itp, st, ins, ctx, args)
        if name == 'utf8_check':
            self.sites.add('%s:%s utf8' % (ins.fn.file, ins.line))
            self.use(itp, st, ins, ctx, args[0])
            n = self.num(st, args[1])
            fs = self.message(st, args[0], n)
            if fs is None:
                return [(ONE, st)] if n == 0 else [(ZERO, st)]
            ok = utf(self.seq, [i for k, i in fs])
            if fs and fs[0][1] and self.seq[fs[0][1]] in 'Cc':
                j = fs[0][1] - 1
                while j >= 0 and (KINDS[self.seq[j]][0] > 7 or KINDS[self.seq[j]][2] == 0):
                    j -= 1
                ok = ok and not (j >= 0 and self.seq[j] in SPLIT)
            return [(ONE if ok else ZERO, st)]
        if name == 'WSS_message_send_frames':
            self.sites.add('%s:%s answer' % (ins.fn.file, ins.line))
            n = self.num(st, args[3])
            for i in range(n if isinstance(n, int) else 1):
                fr = st.mem.get(engine.I(args[2], C(i), ('ptr',)))
                self.event(st, self.answer(itp, st, ins, ctx, fr))
            return [(ZERO, st)]
        if name in FREES or name == 'WSS_free':
            v = st.mem.get(args[0]) if name == 'WSS_free' else args[0]
            if v is not None and v.k == 'o':
                if v in st.mon[self.FREED]:
                    self.bad(itp, 'double-free', ins, ctx, 'frees memory twice', st, ins.id)
                self.put(st, self.FREED, st.mon[self.FREED] | {v})
            if name == 'WSS_free':
                itp.store(st, args[0], ZERO, ('ptr',))
            return [(None, st)]
        if name == 'WSS_realloc':
            v = st.mem.get(args[0])
            r = FrameMon.call(self, itp, st, ins, name, args, ctx)
            if v is not None and v.k == 'o':
                self.put(st, self.FREED, st.mon[self.FREED] | {v})
            return r
        if (name in p11.COPY or name.startswith(('llvm.memcpy', 'llvm.memmove'))) and self.copy_list(itp, st, args):
            return [(args[0], st)]
        if name in ('WSS_session_jobs_inc', 'WSS_session_jobs_dec'):
            return [(None if ins.res is None else ZERO, st)]
        if name.startswith('pthread_'):
            return [(ZERO, st)]
        return FrameMon.call(self, itp, st, ins, name, args, ctx)

    def copy_list(self, itp, st, args):
        """pointers are copied"""
        n = self.num(st, args[2])
        if not isinstance(n, int):
            return False
        (a, i), (b, j) = self.at(args[0]), self.at(args[1])
        if i is None or j is None or i % 8 or j % 8 or a.k != 'o' or b.k != 'o' or self.rope(st, b)[0]:
            return False
        x = [st.mem.get(engine.I(b, C(j // 8 + k), ('ptr',))) for k in range(n // 8)]
        if n % 8 or all(v is None for v in x):
            return False
        for k, v in enumerate(x):
            q = engine.I(a, C(i // 8 + k), ('ptr',))
            if v is None:
                st.mem.pop(q, None)
            else:
                st.mem[q] = v
        return True

    def parse(self, itp, st, ins, ctx, args):
        self.sites.add('%s:%s parse' % (ins.fn.file, ins.line))
        b, off = self.at(args[0])
        o, n = st.mem.get(args[2]), self.num(st, args[1])
        o = self.num(st, o) if o is not None else None
        r, s = self.rope(st, b)
        i = st.mon[self.PARSED]
        if r is None or off is None or not isinstance(o, int) or not isinstance(n, int):
            return None
        self.use(itp, st, ins, ctx, args[0])
        p = Rope.cut(r, off + o, n - o)
        if i >= len(self.seq) or not p or p[0][0] != 0 or p[0][2] != 'c' or p[0][3][0] is not STREAM or p[0][1] != n - o:
            self.bad(itp, 'position', ins, ctx, 'a frame is parsed where no received data is', st)
            return []
        if p[0][3][1] != self.start[i]:
            self.bad(itp, 'position', ins, ctx, 'the next frame is looked for at byte %d of the received data instead of %d' % (
                p[0][3][1], self.start[i]), st)
            return []
        op, fin, l = KINDS[self.seq[i]]
        fr = self.new(st, None)
        full = HEAD + l <= n - o
        st.mem[args[2]] = C(o + HEAD + l) if full or n - o >= 2 else C(o + 2 + 4)
        pl = ZERO
        if full:
            if l:
                pl = self.new(st, l)
                self.setrope(st, pl, ((0, l, 'k', b'\x03\xe8'),) if op == 8 else ((0, l, 'c', (V('G', None, ('data', i)), 0)),), l)
            self.put(st, self.PARSED, i + 1)
            st.mem[V('G', None, ('frame', fr))] = C(i)
        for k, v in dict(fin=fin, opcode=op, mask=int(self.seq[i] != 'I'), rsv1=0, rsv2=0, rsv3=0, extensionDataLength=0,
                         payloadLength=l, applicationDataLength=l).items():
            st.mem[F(fr, *self.fi[k])] = C(v)
        st.mem[F(fr, *self.fi['payload'])] = pl
        return [(fr, st)]

    def answer(self, itp, st, ins, ctx, fr):
        if fr is None or fr.k != 'o':
            return ('unknown frame',) * 2
        self.use(itp, st, ins, ctx, fr)
        op, n = self.field(itp, st, fr, 'opcode'), self.field(itp, st, fr, 'applicationDataLength')
        pl = st.mem.get(F(fr, *self.fi['payload']))
        i = self.frame_of(st, fr)
        if pl is not None and pl.k == 'o':
            self.use(itp, st, ins, ctx, pl)
        if op == 8:
            if n == 0 or i is not None and self.seq[i] == 'Y':
                return ('close', 1000)
            r, s = self.rope(st, pl) if pl is not None else (None, None)
            c = Rope.cut(r, 0, 2) if r else ()
            return ('close', int.from_bytes(c[0][3], 'big') if len(c) == 1 and c[0][2] == 'k' else '?')
        if op == 10:
            fs = self.message(st, pl, n) if pl is not None and n else ()
            if fs and fs[0][0] == 'data' and len(fs) == 1:
                return ('pong', fs[0][1])
            if n == 0 and i is not None:
                return ('pong', i)
            return ('pong', '?')
        return ('frame with opcode %s' % op, i)

    def icall(self, itp, st, ins, cv, args, ctx):
        x = plugin_slot(self.prog, cv)
        if x is None:
            return None
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, x[1]))
        if x == (SUBPROTO, 'message'):
            n = self.num(st, args[3])
            self.use(itp, st, ins, ctx, args[2])
            fs = self.message(st, args[2], n)
            op = st.const(args[1])
            want = 'plain' if self.job.get('ext') else 'data'
            if fs is None or any(k != want for k, i in fs):
                self.event(st, ('message', op, '?'))
            else:
                self.event(st, self.named(op, tuple(i for k, i in fs), st))
            if st.const(args[0]) != 7:
                self.bad(itp, 'descriptor', ins, ctx, 'the message is given for another descriptor', st)
        elif x == (EXT, 'inframe'):
            i = self.frame_of(st, args[1]) if args[1].k == 'o' else None
            if i is not None:
                if st.mon[self.CALLED] != 'oom':
                    self.put(st, self.CALLED, st.mon[self.CALLED] + (i,))
        elif x == (EXT, 'inframes'):
            n = self.num(st, args[2])
            if isinstance(n, int):
                frs = [st.mem.get(engine.I(args[1], C(j), ('ptr',))) for j in range(n)]
                idx = [self.frame_of(st, f) if f is not None and f.k == 'o' else None for f in frs]
                data = bool(idx) and idx[0] is not None and KINDS[self.seq[idx[0]]][0] < 8
                if data and st.mon[self.CALLED] != 'oom':
                    miss = [i for i in idx if st.mon[self.CALLED].count(i) != 1]
                    if miss:
                        self.bad(itp, 'extension', ins, ctx, 'the extension is not given every frame of the message exactly once', st)
                    for i, f in zip(idx, frs):
                        if i is None or KINDS[self.seq[i]][0] > 7 or not KINDS[self.seq[i]][2]:
                            continue
                        l = self.length(i)
                        o = self.new(st, l)
                        self.setrope(st, o, ((0, l, 'c', (V('G', None, ('plain', i)), 0)),), l)
                        old = st.mem.get(F(f, *self.fi['payload']))
                        if old is not None and old.k == 'o':
                            self.put(st, self.FREED, st.mon[self.FREED] | {old})
                        st.mem[F(f, *self.fi['payload'])] = o
                        for k in ('payloadLength', 'applicationDataLength'):
                            st.mem[F(f, *self.fi[k])] = C(l)
        return [(itp.retsym(st, ins, ctx, x[1]) if ins.res is not None else None, st)]

    def named(self, op, fs, st):
        """the event of the message, empty frames filled in"""
        for i, e in self.ref:
            if e[0] == 'message' and tuple(x for x in e[2] if KINDS[self.seq[x]][2]) == fs and e[1] == op and \
                    e not in st.mon[self.EV]:
                return e
        return ('message', op, fs)


def scenarios(tier):
    out = []

    def add(seq, cuts=(), **k):
        out.append(dict(seq=seq, cuts=tuple(cuts), **k))

    def bounds(seq):
        n, b = 0, []
        for k in seq:
            n += HEAD + KINDS[k][2]
            b.append(n)
        return b[:-1]
    full = 'TtBbCcPGXYIUuwWEeoOp'
    core = 'TtBCcPX'
    for n in (1, 2):
        for s in itertools.product(full, repeat=n):
            add(''.join(s))
    for s in itertools.product('TtBbCcPGXIuw', repeat=3):
        add(''.join(s))
    for s in itertools.product(core, repeat=2):
        b = bounds(s)[0]
        t = b + HEAD + KINDS[s[1]][2]
        for c in sorted({1, b - 1, b, b + 1, b + 5, t - 1}):
            if 0 < c < t:
                add(''.join(s), (c,))
    for s in itertools.product(core, repeat=3):
        b = bounds(s)
        add(''.join(s), (b[0],))
        add(''.join(s), (b[1],))
        add(''.join(s), (b[0], b[1]))
        add(''.join(s), (b[0] + 3,))
        add(''.join(s), (b[0] + 3, b[1] - 1))
    four = core if tier != 'quick' else 'TtCcP'
    for s in itertools.product(four, repeat=4):
        add(''.join(s))
        b = bounds(s)
        add(''.join(s), (b[1],))
        add(''.join(s), (b[1] + 2, b[2]))
    for s in ('T', 'TP', 'tPC', 'tcC', 'U', 'TX', 'I', 'C', 'TT', 'Tt', 'tPc', 'BtP', 'uC', 'Y', 'UT', 'tT', 'TC'):
        for k in range(1, 15):
            add(s, oom=k)
            add(s, oom=k, ext=1)
            for c in bounds(s):
                for d in (c, c + 2):
                    add(s, (d,), oom=k)
    for s in ('tcccC', 'tccC', 'tcC', 'tccccc', 'bccccC', 'TtcccC'):
        add(s, max=4)
        for c in bounds(s):
            add(s, (c,), max=4)
    if tier != 'quick':
        for s in itertools.product('TtCcPX', repeat=5):
            add(''.join(s))
            add(''.join(s), (bounds(s)[2],))
    for s in ('T', 'tC', 'tcC', 'tPcC', 'TB', 'tX', 'PtC', 'TtPC', 'bcC', 'tC', 'E', 'eoO', 'UT', 'wC', 'twT'):
        add(s, ext=1)
        add(s, eof=1)
        add(s, ssl=1)
        add(s, ssl=1, chunk=5)
        add(s, chunk=1)
        add(s, chunk=7)
        add(s, chunk=5, signal=1)
        add(s, fail=1)
        add(s, fail=1, ssl=1)
        for c in bounds(s):
            for d in (c, c - 2, c + 2):
                if d < bounds(s + 'T')[-1]:
                    add(s, (d,), write=-1, ssl=1)
                    add(s, (d,), write=-1, ssl=1, chunk=4)
                    for e in (d + 1, d + 4, d + 9):
                        if e < bounds(s + 'T')[-1]:
                            add(s, (d, e), write=2, seen=d, ssl=1)
                    add(s, (d,), fail=1)
                    add(s, (d,), fail=1, ssl=1)
                    add(s, (d, d), chunk=6)
                    add(s, (d,), ext=1, chunk=3, signal=1)
                    add(s, (d,), ext=1, eof=1)
                    add(s, (d,), ssl=1, eof=1)
            add(s, (c, ), ssl=1)
    return out


def check(tier):
    prog = build.program('server')
    jobs = []
    for j in scenarios(tier):
        j['root'] = 'WSS_read'
        j['name'] = 'WSS_read'
        jobs.append(j)

    def mk(j):
        m = ReadMon(prog, j)
        m.params = ['server', 'session']
        j['setup'] = m.setup
        return m
    run = explore(prog, mk, jobs, 150000, stop=24)
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['seq'] for j, x in run.extra if not x][:3])
    cov = run.cover()
    cov['entry_points'] = 1
    cov['scenarios'] = len(jobs)
    for w in ('message', 'answer', 'utf8', 'parse', 'read'):
        if not run.reports and not any(s.endswith(w) for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    return run.reports, cov, ['frames are what the parser hands back (P11)', 'sequences of up to four frames (five thorough)']
