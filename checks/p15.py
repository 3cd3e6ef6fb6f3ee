"""What a subprotocol sends reaches the addressed client: the bundled subprotocols send to whom they should, and what is handed to the
server's send function is framed, passed through the extensions and queued once for that client."""
import itertools
from common import *
from driver import *
import engine
import interp
import nest
from engine import F, I

SS, HS, XS, MS = 'struct.wss_session_t', 'struct.wss_header_t', 'struct.wss_ext_t', 'struct.wss_message_t'
g = lambda n: V('G', None, '$' + n)
SESSION, HEADER, SSL, RING, MSGS, WORKER, HTTP, HTTPS, FRAMES, OUT = map(g, (
    'session', 'header', 'ssl', 'ring', 'msgs', 'worker', 'http', 'https', 'frames', 'out'))
FD, OPCODE, TEXT, LENGTH, OUTLEN, OFF = (V('s', (None, ('arg', n)), n, 0, b) for n, b in (
    ('fd', 32), ('opcode', 32), ('text', 'p'), ('length', 64), ('outlen', 64), ('off', 64)))
SEND = 'WSS_message_send'


class SendMon(nest.Nest):
    """mon: (events, freed, how it ended)"""
    names = frozenset({'WSS_session_acquire', 'WSS_create_frames', 'WSS_stringify_frames', 'ringbuf_acquire', 'ringbuf_produce', 'WSS_flush',
                       'WSS_free_frame', 'free', 'WSS_malloc'})
    inline_never = frozenset({'log_log', 'WSS_session_jobs_dec', 'WSS_free_frame'})
    OOM = True

    def __init__(self, prog, job):
        nest.Nest.__init__(self, prog)
        self.job = job
        self.done = 0

    def init(self):
        return ((), frozenset(), 'ok')

    def put(self, st, event=None, end=None, freed=None):
        e, f, o = st.mon
        st.mon = (e + (event,) if event else e, f | {freed} if freed is not None else f, end or o)

    def field(self, s, n):
        return F(dict(wss_session_t=SESSION, wss_header_t=HEADER)[s], 'struct.' + s, self.prog.fidx(s, n))

    def setup(self, itp, st, vals, ctx):
        j, m = self.job, st.mem
        vals[0:4] = [FD, OPCODE, TEXT, LENGTH]
        for v in (TEXT, LENGTH, OUTLEN):
            st.facts[v] = engine.NONNULL
        st.facts[OFF] = (0, None, 0, None, frozenset())
        s = lambda n, v: m.__setitem__(self.field('wss_session_t', n), v)
        s('fd', FD)
        s('header', HEADER)
        s('handshaked', C(j['hs']))
        s('ringbuf', RING)
        s('messages', MSGS)
        s('ssl', SSL if j['ssl'] else ZERO)
        s('ssl_connected', C(j['ssl']))
        exts = g('exts')
        m[self.field('wss_header_t', 'ws_extensions')] = exts if j['exts'] else ZERO
        m[self.field('wss_header_t', 'ws_extensions_count')] = C(j['exts'])
        for i in range(j['exts']):
            m[I(exts, C(i), ('ptr',))] = g('used%d' % i)
            m[F(g('used%d' % i), XS, self.prog.fidx('wss_ext_t', 'ext'))] = g('ext%d' % i)
        servers = V('G', None, 'servers')
        if servers in self.prog.gl:
            m[servers] = m[F(servers, 'struct.wss_servers_t', 0)] = HTTP
            m[F(servers, 'struct.wss_servers_t', 1)] = HTTPS

    def bad(self, itp, st, ins, ctx, rule, msg):
        itp.report(rule, ins, ctx, msg + ' (%d frames, %d extensions%s)' % (
            self.job['frames'], self.job['exts'], ', TLS' if self.job['ssl'] else ''), st, key=(rule, ins.line if ins else 0))

    def expected(self):
        n = self.job['frames']
        return ('find', 'frame') + tuple(x for e in range(self.job['exts']) for x in ['all frames to extension %d' % e] + [
            'frame %d to extension %d' % (k, e) for k in range(n)]) + ('stringify', 'put', 'produce', 'flush')

    def icall(self, itp, st, ins, cv, args, ctx):
        s = plugin_slot(self.prog, cv)
        if not s or s[0] != EXT:
            return None
        e = engine.root(cv.b)
        e = e.b[4:] if e.k == 'G' and e.b.startswith('$ext') else '?'
        self.site(ins, 'extension')
        fr = [st.mem.get(I(FRAMES, C(k), ('ptr',))) for k in range(self.job['frames'])]
        if args[0] is not FD:
            self.bad(itp, st, ins, ctx, 'extension', 'an extension is given another connection than the one addressed')
            return []
        if s[1] == 'outframes' and args[1] is FRAMES and st.const(args[2]) == len(fr):
            self.put(st, 'all frames to extension ' + e)
        elif s[1] == 'outframe' and args[1] in fr:
            self.put(st, 'frame %d to extension %s' % (fr.index(args[1]), e))
        else:
            self.bad(itp, st, ins, ctx, 'extension', 'an extension is given something else than the frames of the message')
            return []
        return [(None, st)]

    def call(self, itp, st, ins, name, args, ctx):
        ev, freed, end = st.mon
        if name == 'WSS_session_acquire':
            self.site(ins, 'find')
            if args[0] is not FD:
                self.bad(itp, st, ins, ctx, 'address', 'another connection than the one addressed is looked up')
                return []
            s = st.copy()
            self.put(s, 'find', 'gone')
            self.put(st, 'find')
            return [(SESSION, st), (ZERO, s)]
        if name == 'WSS_create_frames':
            self.site(ins, 'frame')
            if args[1] is not OPCODE or args[2] is not TEXT or args[3] is not LENGTH:
                self.bad(itp, st, ins, ctx, 'content', 'the frames are not made from the type, data and length handed over')
                return []
            s = st.copy()
            itp.store(s, args[4], ZERO, ('ptr',))
            self.put(s, 'frame', 'no frames')
            self.put(st, 'frame')
            itp.store(st, args[4], FRAMES, ('ptr',))
            for k in range(self.job['frames']):
                st.mem[I(FRAMES, C(k), ('ptr',))] = g('frame%d' % k)
            return [(C(self.job['frames']), st), (ZERO, s)]
        if name == 'WSS_stringify_frames':
            self.site(ins, 'stringify')
            if args[0] is not FRAMES or st.const(args[1]) != self.job['frames'] or freed:
                self.bad(itp, st, ins, ctx, 'content', 'not all frames of the message are put on the wire')
                return []
            s = st.copy()
            itp.store(s, args[2], ZERO, ('ptr',))
            self.put(s, 'stringify', 'not encoded')
            itp.store(st, args[2], OUT, ('ptr',))
            self.put(st, 'stringify')
            st.facts[OUTLEN] = engine.NONNULL
            return [(OUTLEN, st), (ZERO, s)]
        if name == 'WSS_stringify_frame':
            return None
        if name == 'ringbuf_acquire':
            self.site(ins, 'acquire')
            if args[0] is not RING or st.const(args[2]) != 1:
                self.bad(itp, st, ins, ctx, 'address', 'not one place in the queue of the addressed connection is asked for')
                return []
            s = st.copy()
            self.put(s, None, 'queue full')
            itp.store(st, args[1], WORKER, ('ptr',))
            st.facts[OFF] = (0, None, 0, None, frozenset())
            return [(OFF, st), (C(-1), s)]
        if name == 'ringbuf_produce':
            self.site(ins, 'produce')
            # the worker is handed over by reference
            w = st.mem.get(args[1])
            if args[0] is not RING or w is not WORKER:
                self.bad(itp, st, ins, ctx, 'address', 'not the place asked for is published')
                return []
            self.put(st, 'produce')
            return [(None, st)]
        if name == 'WSS_flush':
            self.site(ins, 'flush')
            if args[1] is not SESSION or args[0] is not (HTTPS if self.job['ssl'] else HTTP):
                self.bad(itp, st, ins, ctx, 'address', 'not the connection the message is queued for is flushed, or not by its server')
                return []
            self.put(st, 'flush')
            return [(None, st)]
        if name in ('WSS_free_frame',) or name in interp.FREES:
            p = args[0]
            if st.const(p) == 0:
                return [(None, st)]
            self.site(ins, 'free')
            if p in freed:
                self.bad(itp, st, ins, ctx, 'freed', 'something is freed twice')
                return []
            self.put(st, freed=p)
            return [(None, st)]
        if name in interp.ALLOCS:
            s = st.copy()
            self.put(s, None, 'no memory')
            o = itp.newobj(st, ins, ctx, interp.ALLOCS[name])
            st.facts[o] = engine.NONNULL
            return [(o, st), (ZERO, s)]
        return None

    def store(self, itp, st, ins, p, v, ctx):
        if engine.root(p) is not MSGS:
            return
        self.site(ins, 'put')
        x = self.prog.fidx
        m = lambda n: st.mem.get(F(v, MS, x('wss_message_t', n)))
        if p is not I(MSGS, OFF, ('ptr',)):
            self.bad(itp, st, ins, ctx, 'address', 'the message is not put into the place asked for')
        elif v is None or m('msg') is not OUT or m('length') is not OUTLEN or OUT in st.mon[1]:
            self.bad(itp, st, ins, ctx, 'content', 'what is queued is not the encoded message with its length')
        elif st.const(m('framed') or ZERO) != 1:
            self.bad(itp, st, ins, ctx, 'content', 'what is queued is not marked as a message of frames')
        else:
            self.put(st, 'put')

    def ret(self, itp, st, ins, val, ctx):
        if ctx.parent is not None or ins is not None:
            return
        self.done += 1
        ev, freed, end = st.mon
        full = self.expected()
        want = full
        if end == 'gone':
            want = full[:1]
        elif end == 'no frames':
            want = full[:2]
        elif end != 'ok':
            want = full[:full.index('stringify') + 1]
        elif not self.job['hs']:
            want = full[:2]
        if ev != want:
            k = min([i for i in range(min(len(ev), len(want))) if ev[i] != want[i]] or [min(len(ev), len(want))])
            self.bad(itp, st, ins, ctx, 'steps', 'a message is handled differently than expected (%s): %s instead of %s' % (
                end, ev[k] if k < len(ev) else 'the end', want[k] if k < len(want) else 'the end'))
            return
        need = set()
        if 'frame' in ev and end != 'no frames':
            need = {FRAMES} | {g('frame%d' % k) for k in range(self.job['frames'])}
        if 'stringify' in ev and end not in ('not encoded',) and 'put' not in ev:
            need.add(OUT)
        if not need <= freed:
            self.bad(itp, st, ins, ctx, 'leak', 'memory of the message is not freed (%s)' % end)
        if 'put' in ev and OUT in freed:
            self.bad(itp, st, ins, ctx, 'freed', 'a queued message is freed')

    def finish(self, itp):
        return self.done


class TalkMon(nest.Nest):
    """a subprotocol and its clients; mon: (who was sent what by the current message)"""
    names = frozenset({'malloc'})
    inline_never = frozenset({'log_log'})

    def __init__(self, prog, job):
        nest.Nest.__init__(self, prog)
        self.job = job
        self.done = 0
        self.fail = -1

    def init(self):
        return ((), -1)

    def setup(self, itp, st, vals, ctx):
        pass

    def bad(self, itp, st, fn, rule, msg):
        itp.report(rule, None, interp.Ctx(None, None, self.prog.need(fn)), '%s (%s)' % (msg, self.story), st, key=rule)

    def load(self, itp, st, ins, p, v, ctx):
        # a byte of a number
        if ins.ty == ('i', 8):
            b, k = (p.a, p.b) if p.k == 'I' else (p, ZERO)
            w = st.mem.get(b)
            k = st.const(k)
            if w is not None and k is not None and 0 <= k < 4 and st.const(w) is not None:
                return C(engine.sgn(st.const(w) >> (8 * k), 8))
        return None

    def call(self, itp, st, ins, name, args, ctx):
        if name == '$send':
            self.site(ins, 'send')
            fd = st.const(args[0])
            if args[1] is not OPCODE or args[2] is not TEXT or args[3] is not LENGTH:
                itp.report('content', ins, ctx, 'something else than the message received is sent', st)
                return []
            st.mon = (st.mon[0] + (fd,), st.mon[1])
            return [(None, st)]
        if name in interp.ALLOCS:
            if st.mon[1] == 0:
                st.mon = (st.mon[0], -1)
                return [(ZERO, st)]
            if st.mon[1] > 0:
                st.mon = (st.mon[0], st.mon[1] - 1)
            o = itp.newobj(st, ins, ctx, interp.ALLOCS[name])
            st.facts[o] = engine.NONNULL
            return [(o, st)]
        if name in ('memcmp', 'bcmp', 'llvm.memcmp'):
            a, b = (st.mem.get(x) for x in args[:2])
            a, b = (st.const(x) if x is not None else None for x in (a, b))
            if a is not None and b is not None:
                return [(ZERO if a == b else ONE, st)]
        if name.startswith('pthread_') and name not in self.prog.funcs:
            return [(ZERO, st)]
        return None

    def ret(self, itp, st, ins, val, ctx):
        if ins is not None or self.stack:
            return
        mem = st.mem
        for gv, x in self.prog.gl.items():
            if x[1] is not None and not x[2] and x[1][0] in ('zero', 'null'):
                mem[V('Z', gv)] = ONE
        states = [s for r, s in self.nested(itp, st, 'setAllocators', [V('fn', 'WSS_malloc'), V('fn', 'WSS_realloc_normal'), V('fn', 'WSS_free_normal')], '')]
        states = [s for x in states for r, s in self.nested(itp, x, 'onInit', [ZERO, V('fn', '$send')], '')]
        for story in self.job['stories']:
            self.story = ' '.join('%s%d' % x for x in story)
            cur = [(s, frozenset()) for s in states]
            for what, fd in story:
                cur = [y for s, there in cur for y in self.step(itp, s.copy(), there, what, fd)]
                if len(cur) > 16:
                    raise AnalysisError('the table of clients is not followed (%s)' % self.story)
            for s, there in cur:
                out = self.nested(itp, s, 'onDestroy', [], '')
                self.done += bool(out)

    def step(self, itp, st, there, what, fd):
        k = int(what[5:]) if what.startswith('nomem') else -1
        name = dict(connect='onConnect', leave='onClose', message='onMessage').get(what, 'onConnect')
        args = [C(fd)] + dict(onConnect=[g('ip'), C(1), g('path'), ZERO], onClose=[], onMessage=[OPCODE, TEXT, LENGTH])[name]
        st.mon = ((), k)
        self.site(None, what[:5])
        out = []
        for r, s in self.nested(itp, st, name, args, ''):
            sent = s.mon[0]
            if what != 'message':
                if sent:
                    self.bad(itp, s, name, 'sent', 'something is sent although no message was received')
                    continue
                out.append((s, there - {fd} if what == 'leave' else there if k >= 0 and s.mon[1] < 0 else there | {fd}))
                continue
            want = sorted(there - {fd}) if self.job['plugin'] == 'broadcast' else [fd]
            if None in sent:
                raise AnalysisError('the receiver of a message is not known (%s)' % self.story)
            if sorted(sent) != want:
                self.bad(itp, s, name, 'receivers', 'a message of client %d is sent to %s instead of %s' % (fd, list(sent) or 'nobody', want or 'nobody'))
                continue
            out.append((s, there))
        return out

    def finish(self, itp):
        return self.done


def stories(tier):
    """clients that come, fail to come for lack of memory, speak and leave"""
    out = []
    fds = (5, 6, 38)            # 6 and 38 may share a bucket
    n = 6 if tier == 'thorough' else 5

    def grow(story, there):
        if story:
            out.append(tuple(story) + tuple(('message', f) for f in fds[:2]))
        if len(story) == n:
            return
        for f in fds:
            if f in there:
                grow(story + [('leave', f)], there - {f})
                if len(story) < 3:
                    grow(story + [('connect', f)], there)
            else:
                if story and story[-1][0][:5] == 'nomem' and story[-1][1] == f:
                    grow(story + [('leave', f)], there)
                grow(story + [('connect', f)], there | {f})
                if len(story) < 2:
                    for k in range(1 if there else 3):
                        grow(story + [('nomem%d' % k, f)], there)
    grow([], frozenset())
    # so many that the table has to grow
    n = 300 if tier == 'thorough' else 200
    for left in (lambda f: f % 2, lambda f: f % 3 == 0 or f < 60):
        out.append(tuple([('connect', f) for f in range(4, 4 + n)] + [('leave', f) for f in range(4, 4 + n) if left(f)] + [
            ('message', 5), ('message', n + 2), ('connect', 5000), ('message', 70)]))
    return out


def check(tier):
    prog = build.program('server')
    jobs = [dict(root=SEND, name='%s/%d%d%d%d' % (SEND, n, e, s, h), frames=n, exts=e, ssl=s, hs=h)
            for n in (1, 2, 3) for e in (0, 1, 2) for s in (0, 1) for h in (0, 1)]

    def mk(j):
        m = SendMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 400000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['name'] for j, x in run.extra if not x][:1])
    for w in ('find', 'frame', 'stringify', 'put', 'produce', 'flush', 'extension', 'free'):
        if not run.reports and not any(s.endswith(w) for s in run.sites):
            raise AnalysisError('no site found: %s' % w)
    st = stories(tier)
    engine.OFFSETS = True
    try:
        for plugin in ('echo', 'broadcast'):
            prog = build.program(plugin)
            n = 1 if plugin == 'echo' else 100
            ss = st if plugin == 'broadcast' else [x for x in st if len(x) < 5]
            jobs = [dict(root='setAllocators', name=plugin, plugin=plugin, stories=ss[i::n]) for i in range(n)]
            r = explore(prog, lambda j: TalkMon(prog, j), jobs, 20000000, stop=8)
            if not r.reports and any(not x for j, x in r.extra):
                raise AnalysisError('no result: %s' % plugin)
            if not r.reports and not any(s.endswith('send') for s in r.sites):
                raise AnalysisError('no site found: send')
            run.add(r)
    finally:
        engine.OFFSETS = False
    cov = run.cover()
    cov['stories'] = len(st)
    return run.reports, cov, ['frames are made and encoded as P11 says, the queue is taken by its contract']
