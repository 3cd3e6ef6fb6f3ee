"""Messages pass through compression whole: what zlib is given, and what the frames of a message carry afterwards, is computed for every shape of message."""
from common import *
from driver import *
import engine
import p16
import p18
from engine import F, I

g = p16.g
ZS, FR = 'struct.z_stream_s', 'struct.wss_frame_t'
FRAMES = g('frames')
NEXT_IN, AVAIL_IN, NEXT_OUT, AVAIL_OUT = 0, 1, 3, 4
NO, PARTIAL, SYNC, FULL, FINISH, BLOCK = range(6)
TAIL = (0, 0, 255, 255)
CONFIG = 'server_max_window_bits=15;client_max_window_bits=15'


class MessageMon(p18.ZlibMon):
    """mon[4]: (bytes zlib was given, bytes it gave, bytes it has yet to give, last flush, whether the message was put out, calls)"""
    fn = 'setAllocators'

    def start(self, itp, st):
        self.oom = False
        for j in self.job['jobs']:
            self.j = j
            self.what = j['text']
            n = self.done + len(self.reported)
            self.story(itp, st.copy())
            if self.done + len(self.reported) == n:
                raise AnalysisError('no result: %s' % self.what)

    def story(self, itp, st):
        j = self.j
        cfg = self.owned(st, 'config', [ord(c) for c in CONFIG + (';chunk_size=%d' % j['chunk'] if j['chunk'] else '')] + [0])
        states = [s for r, s in self.nested(itp, st, 'onInit', [cfg], '')]
        for fd in ((39, 7, 5) if j['others'] else (7,)) if j['open'] else ():
            nxt = []
            for s in states:
                s.mem[p18.SLOT] = s.mem[p18.VALID] = ZERO
                param = p18.SNCT if j['alone'] == (fd == 7) else p18.CMWB
                old = {x[0] for x in s.mon[3]}
                for r, x in self.nested(itp, s, 'onOpen', [C(fd), self.owned(s, 'param', list(param.encode()) + [0]), p18.SLOT, p18.VALID], ''):
                    if fd == 7:
                        self.mine = {y[0] for y in x.mon[3]} - old
                    nxt.append(x)
            states = nxt
        if j['others'] == 2:
            states = [x for s in states for r, x in self.nested(itp, s, 'onClose', [C(39)], '')]
        if not states:
            raise AnalysisError('no connection with compression (%s)' % self.what)
        self.fn = 'inFrames' if j['kind'] == 'in' else 'outFrames'
        self.site(None, self.fn)
        for s in states:
            self.expected = frozenset()
            self.expected = frozenset(self.held(s))
            self.put(s, failed=((), (), (), j['last'], False, 0), reads=())
            self.frames(s)
            before = [self.frame(s, k) for k in range(len(j['sizes']))]
            for r, x in self.nested(itp, s, self.fn, [C(7), FRAMES, C(len(j['sizes']))], ''):
                self.judge(itp, x, before)
        self.fn = 'setAllocators'

    def field(self, k, n):
        return F(g('frame%d' % k), FR, self.prog.fidx('wss_frame_t', n))

    def frames(self, st):
        j, m = self.j, st.mem
        for k, n in enumerate(j['sizes']):
            m[I(FRAMES, C(k), ('ptr',))] = g('frame%d' % k)
            s = lambda f, v: m.__setitem__(self.field(k, f), v)
            p = ZERO
            if n:
                p = V('o', (None, ('alloc', '', '', st.mon[1])), 'buffer', 0)
                self.put(st, count=st.mon[1] + 1)
                st.facts[p] = engine.NONNULL
                self.new(st, p, n, 0)
                self.put(st, buf=tuple((o, a, tuple(('b%d' % k, i) for i in range(n)) if o is p else b) for o, a, b in st.mon[0]))
            s('payload', p)
            s('payloadLength', C(n))
            s('applicationDataLength', C(n))
            s('extensionDataLength', ZERO)
            s('rsv1', C(j['mark'] if k == 0 else 0))
            s('rsv2', ZERO)
            s('rsv3', ZERO)
            s('opcode', C(j['op'] if k == 0 else 0))
            s('fin', C(k + 1 == len(j['sizes'])))
            s('mask', C(j['kind'] == 'in'))

    def frame(self, st, k):
        return {n: st.mem.get(self.field(k, n)) for n in ('payload', 'payloadLength', 'applicationDataLength', 'extensionDataLength', 'rsv1', 'rsv2', 'rsv3',
                                                          'opcode', 'fin', 'mask')}

    # -- zlib
    def stream(self, itp, st, ins, ctx, strm):
        f = lambda i, t: itp.load(st, F(strm, ZS, i), ins, ctx, t)
        nin, ain, nout, aout = f(NEXT_IN, ('ptr',)), st.const(f(AVAIL_IN, ('i', 32))), f(NEXT_OUT, ('ptr',)), st.const(f(AVAIL_OUT, ('i', 32)))
        if ain is None or aout is None:
            raise AnalysisError('what zlib is given is not known (%s:%s)' % (ins.fn.file, ins.line))
        if not any(x[0] is strm for x in st.mon[3]):
            self.bad(itp, st, ins, ctx, 'freed', 'a stream is used that is not set up')
            return None
        if strm not in self.mine:
            self.bad(itp, st, ins, ctx, 'other', 'the stream of another connection is used')
            return None
        data = ()
        if ain:
            b, off = self.at(nin)
            bs = self.content(st, b)
            if b in st.mon[2]:
                self.bad(itp, st, ins, ctx, 'freed', 'zlib is given memory that was freed')
                return None
            if bs is None or off is None or off + ain > len(bs):
                self.bad(itp, st, ins, ctx, 'overread', 'zlib is given more than there is')
                return None
            data = tuple(bs[off:off + ain])
        return data, nin, nout, aout

    def emit(self, itp, st, ins, ctx, strm, x, z):
        """writes what fits"""
        data, nin, nout, aout = x
        given, got, pending, last, done, calls = z
        aout &= (1 << 32) - 1
        n = min(aout, len(pending))
        if n:
            b, off = self.at(nout)
            size, bs = self.buffer(st, b)
            if bs is None or off is None:
                raise AnalysisError('where zlib writes is not known (%s:%s)' % (ins.fn.file, ins.line))
            if off + aout > size:
                self.bad(itp, st, ins, ctx, 'overflow', 'zlib is told it may write %d bytes where there are %d' % (aout, size - off))
                return False
            self.write(itp, st, ins, ctx, nout, pending[:n])
        put = lambda i, v, t: itp.store(st, F(strm, ZS, i), v, t)
        put(AVAIL_IN, ZERO, ('i', 32))
        if data:
            b, off = self.at(nin)
            put(NEXT_IN, I(b, C(off + len(data)), p18.BYTE), ('ptr',))
        put(AVAIL_OUT, C(aout - n), ('i', 32))
        if n:
            b, off = self.at(nout)
            put(NEXT_OUT, I(b, C(off + n), p18.BYTE), ('ptr',))
        self.put(st, failed=(given, got + pending[:n], pending[n:], last, done, calls))
        return n > 0

    def c_deflate(self, itp, st, ins, args, ctx):
        x = self.stream(itp, st, ins, ctx, args[0])
        if x is None:
            return []
        self.site(ins, 'deflate')
        fl = st.const(args[1])
        given, got, pending, last, done, calls = st.mon[4]
        if calls > 300:
            self.bad(itp, st, ins, ctx, 'endless', 'zlib is asked for more without end')
            return []
        given += x[0]
        new, room = (), x[3] & (1 << 32) - 1
        rank = lambda f: -9 if f is None else 9 if f == 'reset' else 2 * f - 9 * (f > 4)
        if not pending and not x[0] and rank(fl) <= rank(last):
            return [(C(-5), st)]
        # zlib repeats the mark at the end of a flush when it is called again
        if len(pending) < room:
            if fl != NO and not done:
                new, done = tuple(('z', i) for i in range(self.j['out'])), True
            elif fl in (SYNC, FULL):
                new = (('m', len(got)),)
            if fl in (SYNC, FULL):
                new += TAIL
        aim = pending + new
        r = self.emit(itp, st, ins, ctx, args[0], x, (given, got, aim, None if len(aim) >= room else fl, done, calls + 1))
        return [(ZERO, st)]

    def c_inflate(self, itp, st, ins, args, ctx):
        x = self.stream(itp, st, ins, ctx, args[0])
        if x is None:
            return []
        self.site(ins, 'inflate')
        given, got, pending, last, done, calls = st.mon[4]
        if calls > 300:
            self.bad(itp, st, ins, ctx, 'endless', 'zlib is asked for more without end')
            return []
        if self.j['fail']:
            return [(C(-3), st)]
        if not done:
            pending, done = tuple(('z', i) for i in range(self.j['out'])), True
        r = self.emit(itp, st, ins, ctx, args[0], x, (given + x[0], got, pending, last, done, calls + 1))
        return [(ZERO if r or x[0] else C(-5), st)]

    def c_deflateReset(self, itp, st, ins, args, ctx):
        self.put(st, failed=st.mon[4][:3] + ('reset',) + st.mon[4][4:])
        return [(ZERO, st)]
    c_inflateReset = c_deflateReset

    def c_deflateBound(self, itp, st, ins, args, ctx):
        n = st.const(args[1])
        return [(C(max(n, self.j['out']) + 40), st)] if n is not None else None

    # -- what has to be
    def judge(self, itp, st, before):
        self.done += 1
        j = self.j
        say = lambda rule, msg: self.bad(itp, st, None, None, rule, msg)
        given, got, pending, last, done, calls = st.mon[4]
        after = [self.frame(st, k) for k in range(len(before))]
        pays, ks = [], range(len(before))
        for k in ks:
            f = after[k]
            n = st.const(f['payloadLength']) if f['payloadLength'] is not None else None
            p = f['payload']
            if n is None or p is None or any(f[x] is None for x in f):
                raise AnalysisError('a frame is not known afterwards (%s)' % self.what)
            if f['extensionDataLength'] is not ZERO or st.const(f['applicationDataLength']) != n:
                say('lengths', 'the lengths of a frame do not fit each other')
                return
            bs = ()
            if n:
                b, off = self.at(p)
                c = self.content(st, b)
                if c is None or b in st.mon[2] or off != 0 or len(c) < n:
                    say('freed', 'the payload of a frame is not the memory of its length')
                    return
                bs = tuple(c[:n])
            pays.append(bs)
        held = self.held(st) - {f['payload'] for f in after}
        if held:
            say('leak', 'memory of the message is lost')
        for k in ks:
            if any(before[k][x] is not after[k][x] for x in ('opcode', 'fin', 'mask', 'rsv2', 'rsv3')):
                say('frame', 'more of a frame than its payload is changed')
            if k and st.const(after[k]['rsv1']) != 0:
                say('mark', 'a frame that is not the first is marked')
        mark = st.const(after[0]['rsv1'])
        mark = bool(mark) if mark is not None else None
        whole = tuple((('b%d' % k), i) for k, n in enumerate(j['sizes']) for i in range(n))
        flat = tuple(b for x in pays for b in x)
        alone = not j['open'] or (j['op'] >= 8 if j['kind'] == 'out' else not j['mark']) or j['fail']
        if alone:
            if flat != whole or any(len(x) != n for x, n in zip(pays, j['sizes'])) or mark != bool(j['mark']):
                say('alone', 'a message that is not to be changed is changed')
            if (given or done) and not j['fail']:
                say('alone', 'a message that is not to be changed is given to zlib')
            return
        if given != whole + (TAIL if j['kind'] == 'in' else ()):
            say('input', 'zlib is given %d bytes instead of the %d of the message%s' % (
                len(given), len(whole), ' and the four left off' if j['kind'] == 'in' else '') if len(given) != len(whole) + 4 * (j['kind'] == 'in') else
                'zlib is given other bytes than those of the message%s' % (' and the four left off' if j['kind'] == 'in' else ''))
            return
        if pending:
            say('output', 'not everything zlib has to give is taken')
            return
        if j['kind'] == 'in':
            if mark is not False:
                say('mark', 'a message stays marked as compressed')
            if flat != got:
                say('output', 'the message has %d bytes, zlib gave %d' % (len(flat), len(got)) if len(flat) != len(got) else
                    'the message is not what zlib gave')
            return
        if mark is not True:
            say('mark', 'a compressed message is not marked')
        if j['alone'] and last not in (FULL, 'reset') and got:
            say('context', 'a message is not compressed on its own although that was agreed on')
        if last not in (SYNC, FULL, 'reset') and got:
            say('flush', 'the compressed message is not brought to an end')
            return
        want = (got[:-4] if got[-4:] == TAIL else got) or (0,)
        if flat != want:
            say('output', 'the message has %d bytes, zlib gave %d' % (len(flat), len(want)) if len(flat) != len(want) else
                'the message is not what zlib gave')


def classes(tier):
    out = []

    def job(kind, sizes, n, chunk=0, mark=None, op=1, opened=True, alone=False, fail=False, last=SYNC, others=0):
        mark = int(kind == 'in') if mark is None else mark
        out.append(dict(kind=kind, sizes=sizes, out=n, chunk=chunk, mark=mark, op=op, open=opened, alone=alone, fail=fail, last=last, others=others,
                        text='message %s in frames of %s bytes, %d bytes from zlib%s%s%s%s%s' % (
                            'received' if kind == 'in' else 'sent', '/'.join(map(str, sizes)), n, ', taken %d at a time' % chunk if chunk else '',
                            '' if opened else ', compression not negotiated', '' if mark == (kind == 'in') else ', not marked' if kind == 'in' else ', marked',
                            ', control' if op >= 8 else '', ', compressed on its own' if alone else ', not valid' if fail else ', with other connections' if others else '')))
    shapes = [(1,), (3,), (2, 3), (0, 4), (4, 0), (1, 1, 1), (3, 0, 2), (7, 1, 2, 5)] + ([(0, 0, 1), (16,), (5, 4, 3, 2, 1)] if tier == 'thorough' else [])
    big = 40 if tier == 'thorough' else 24
    for sh in shapes:
        for chunk in (7, 8, 11):
            for n in range(0, big):
                job('in', sh, n, chunk)
                if n:
                    for alone in (0, 1):
                        job('out', sh, n, chunk, alone=alone, last=NO if not alone else FULL)
        for n in (0, 1, 40):
            job('in', sh, n)
        for alone in (0, 1):
            job('out', sh, 9, alone=alone, last=NO)
            if len(sh) == 2:
                # sizes that are not sensible
                for chunk in (1, 2, 5, 6):
                    job('out', sh, 6, chunk, alone=alone, last=NO)
                    job('in', sh, 6, chunk)
        job('in', sh, 5, 8, mark=0)
        job('in', sh, 5, 8, fail=True)
        job('in', sh, 5, 8, opened=False)
        job('out', sh, 5, 8, opened=False)
        for others in (1, 2):
            for alone in (False, True):
                job('in', sh, 20, 8, alone=alone, others=others)
                job('out', sh, 20, 8, alone=alone, others=others, last=NO)
        for op in (8, 9, 10):
            job('out', sh, 5, 8, op=op)
        job('out', sh, 5, 8, op=2)
    for sh in ((0,), (0, 0)):
        for chunk in (0, 7, 8):
            job('in', sh, 0, chunk)
            job('out', sh, 1, chunk, last=NO)
            # nothing comes from zlib if it was flushed before
            job('out', sh, 0, chunk, last=SYNC)
            job('out', sh, 1, chunk, last=FULL, alone=True)
    return out


def check(tier):
    prog = build.program('deflate')
    engine.OFFSETS = True
    all_ = classes(tier)
    n = max(1, len(all_) // 64)
    jobs = [dict(root='setAllocators', name='messages %d' % k, text='', kind='message', jobs=all_[k::n]) for k in range(n)]

    def mk(j):
        m = MessageMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 20000000))
    cov = run.cover()
    cov['messages'] = len(all_)
    return run.reports, cov, ['zlib is taken by its contract: it takes all it is given and gives any number of bytes, as many at a time as there is room for',
                              'memory suffices']
