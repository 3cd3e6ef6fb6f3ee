"""Connections are ended for being idle exactly when they are: the supervision of the connections and the handling of their events are followed for
all classes of elapsed time and settings."""
from common import *
from driver import *
import engine
import interp
import nest
from engine import F, I

SS, CF, TS = 'struct.wss_session_t', 'struct.wss_config_t', 'struct.timespec'
g = lambda n: V('G', None, '$' + n)
SESSION, HEADER, CONFIG, HTTP, HTTPS, FRAME, TEXT, BYTES, ARGS, ERRNO, EXTS = map(g, (
    'session', 'header', 'config', 'http', 'https', 'frame', 'text', 'bytes', 'args', 'errno', 'exts'))
IDLE, READING, WRITING, CLOSING, CONNECTING = range(5)
STATES = ('idle', 'reading', 'writing', 'closing', 'connecting')
NONE, READ, WRITE = range(3)
LIMIT = 1000
LONG = 6 * 1000 * 3600


class IdleMon(nest.Nest):
    """mon: what was done"""
    names = frozenset({'clock_gettime', 'poll', 'write', 'WSS_disconnect', 'WSS_flush'})
    inline_never = frozenset({
        'log_log', 'WSS_session_all', 'WSS_session_acquire', 'WSS_closing_frame', 'WSS_ping_frame', 'WSS_stringify_frame', 'WSS_stringify_frames',
        'WSS_free_frame', 'WSS_ssl_write', 'WSS_disconnect', 'WSS_flush', 'WSS_session_jobs_dec', 'WSS_read', 'WSS_write', 'WSS_ssl_handshake',
        'WSS_poll_set_read', 'WSS_poll_set_write', 'WSS_connect', 'WSS_malloc', 'rpmalloc_thread_initialize', 'rpmalloc_thread_finalize'})

    def __init__(self, prog, job):
        nest.Nest.__init__(self, prog)
        self.job = job
        self.done = 0

    def init(self):
        return ()

    def did(self, st, *what):
        st.mon = st.mon + what

    def setup(self, itp, st, vals, ctx):
        j, m, x = self.job, st.mem, self.prog.fidx
        s = lambda n, v: m.__setitem__(F(SESSION, SS, x('wss_session_t', n)), v)
        s('fd', C(7))
        s('handshaked', C(j['hs']))
        s('closing', C(j['closing']))
        s('state', C(j['state']))
        s('event', C(NONE))
        s('ssl', g('ssl') if j['tls'] else ZERO)
        s('ssl_connected', C(j['tls']))
        s('header', HEADER)
        s('pong', g('pong') if j['pong'] else ZERO)
        s('pong_length', C(32 * j['pong']))
        m[F(HEADER, 'struct.wss_header_t', x('wss_header_t', 'ws_extensions_count'))] = ONE
        m[F(HEADER, 'struct.wss_header_t', x('wss_header_t', 'ws_extensions'))] = EXTS
        alive = F(SESSION, SS, x('wss_session_t', 'alive'))
        m[F(alive, TS, 0)] = C(5000)
        m[F(alive, TS, 1)] = C(j['frac'] * 1000000)
        c = lambda n, v: m.__setitem__(F(CONFIG, CF, x('wss_config_t', n)), C(engine.sgn(v, 64)))
        for n in ('client', 'read', 'write'):
            c('timeout_' + n, j[n])
        c('timeout_pings', j['pings'])
        for v in (HTTP, HTTPS):
            m[F(v, 'struct.wss_server_t', x('wss_server_t', 'config'))] = CONFIG
        m[F(HTTP, 'struct.wss_server_t', x('wss_server_t', 'ssl_ctx'))] = ZERO
        m[F(HTTPS, 'struct.wss_server_t', x('wss_server_t', 'ssl_ctx'))] = g('ctx')
        servers, state = V('G', None, 'servers'), V('G', None, 'state')
        x = self.prog.fidx
        m[F(servers, 'struct.wss_servers_t', x('wss_servers_t', 'http'))] = HTTP
        m[F(servers, 'struct.wss_servers_t', x('wss_servers_t', 'https'))] = HTTPS
        m[F(state, 'struct.wss_server_state_t', x('wss_server_state_t', 'state'))] = ONE
        # the first member of what is global is read without selecting it
        m[servers], m[state] = HTTP, ONE
        fr = lambda n, v: m.__setitem__(F(FRAME, 'struct.wss_frame_t', x('wss_frame_t', n)), v)
        fr('payload', g('payload'))
        fr('applicationDataLength', C(32))
        fr('payloadLength', C(32))
        fr('extensionDataLength', ZERO)
        if vals:
            vals[0] = ARGS
            a = lambda n, v: m.__setitem__(F(ARGS, 'struct.wss_thread_args_t', x('wss_thread_args_t', n)), v)
            a('fd', C(7))
            a('state', C(j['task']))
            a('server', HTTPS if j['tls'] else HTTP)

    def bad(self, itp, st, ins, ctx, rule, msg):
        itp.report(rule, ins, ctx, '%s (%s)' % (msg, self.job['text']), st, key=(rule, msg))

    def alive(self, st):
        """when the connection was active last, in ms"""
        p = F(SESSION, SS, self.prog.fidx('wss_session_t', 'alive'))
        t = [st.const(st.mem[v]) if v in st.mem else None for v in (F(p, TS, 0), F(p, TS, 1))]
        return None if None in t else t[0] * 1000 + t[1] // 1000000

    def icall(self, itp, st, ins, cv, args, ctx):
        return [(None, st)]

    def call(self, itp, st, ins, name, args, ctx):
        fn = getattr(self, 'c_' + name.replace('.', '_'), None)
        if fn:
            self.site(ins, name)
            return fn(itp, st, ins, args, ctx)
        return None

    def c_clock_gettime(self, itp, st, ins, args, ctx):
        if st.const(args[0]) != 1:
            self.bad(itp, st, ins, ctx, 'clock', 'another clock than the monotonic one is used')
        t = 5000 * 1000 + self.job['frac'] + self.job['ms']
        itp.kill(st, args[1])
        st.mem[F(args[1], TS, 0)] = C(t // 1000)
        st.mem[F(args[1], TS, 1)] = C(t % 1000 * 1000000)
        return [(ZERO, st)]

    def c_poll(self, itp, st, ins, args, ctx):
        if 'poll' in [x[0] for x in st.mon if isinstance(x, tuple)]:
            self.end(itp, st, ins, ctx)
            return []
        self.did(st, ('poll', st.const(args[2])))
        return [(ZERO, st)]

    def c_WSS_session_all(self, itp, st, ins, args, ctx):
        if args[0].k != 'fn':
            raise AnalysisError('what is done with every connection is not known')
        self.did(st, 'all')
        return [(ZERO, s) for r, s in self.nested(itp, st, args[0].a, [SESSION], '')]

    def c_WSS_session_acquire(self, itp, st, ins, args, ctx):
        return [(SESSION, st)]

    def c_WSS_closing_frame(self, itp, st, ins, args, ctx):
        self.did(st, 'frame close %s' % st.const(args[0]))
        return [(FRAME, st)]

    def c_WSS_ping_frame(self, itp, st, ins, args, ctx):
        self.did(st, 'frame ping')
        return [(FRAME, st)]

    def c_WSS_stringify_frame(self, itp, st, ins, args, ctx):
        itp.store(st, args[1], BYTES, ('ptr',))
        return [(C(40), st)]

    def c_WSS_malloc(self, itp, st, ins, args, ctx):
        o = itp.newobj(st, ins, ctx, True)
        st.facts[o] = engine.NONNULL
        return [(o, st)]

    def sent(self, st, what):
        fr = [x for x in st.mon if isinstance(x, str) and x.startswith('frame ')]
        self.did(st, 'send %s' % (fr[-1][6:] if fr else '?') + what)

    def c_write(self, itp, st, ins, args, ctx):
        n = st.const(args[2])
        if engine.root(args[1]) is not BYTES or st.const(args[0]) != 7:
            self.bad(itp, st, ins, ctx, 'send', 'something else than the frame is sent')
        if args[1] is BYTES:
            self.sent(st, '' if not self.job['tls'] else ' in the clear')
        return [(C(n) if n is not None else None, st)]

    def c_WSS_ssl_write(self, itp, st, ins, args, ctx):
        if args[1] is not BYTES or args[0] is not SESSION:
            self.bad(itp, st, ins, ctx, 'send', 'something else than the frame is sent')
        self.sent(st, '' if self.job['tls'] else ' encrypted')
        return [(ONE, st)]

    def c_WSS_disconnect(self, itp, st, ins, args, ctx):
        self.did(st, 'end' if args[1] is SESSION and args[0] is (HTTPS if self.job['tls'] else HTTP) else 'end of another')
        return [(None, st)]

    def c_WSS_free_frame(self, itp, st, ins, args, ctx):
        return [(None, st)]
    c_WSS_flush = c_WSS_session_jobs_dec = c_free = c_rpfree = c_WSS_poll_set_read = c_WSS_poll_set_write = c_WSS_free_frame
    c_rpmalloc_thread_initialize = c_rpmalloc_thread_finalize = c_WSS_free_frame

    def handle(self, st, what):
        s = lambda n: F(SESSION, SS, self.prog.fidx('wss_session_t', n))
        self.did(st, what)
        st.mem[s('event')] = C(self.job['after'])
        return [(None, st)]

    def c_WSS_read(self, itp, st, ins, args, ctx):
        return self.handle(st, 'read')

    def c_WSS_write(self, itp, st, ins, args, ctx):
        return self.handle(st, 'write')

    def c_WSS_ssl_handshake(self, itp, st, ins, args, ctx):
        return self.handle(st, 'handshake')

    # -- what has to be
    def ret(self, itp, st, ins, val, ctx):
        if ctx.parent is None and ins is None and not self.stack:
            self.end(itp, st, ins, ctx)

    def noreturn(self, itp, st, ins, name, ctx):
        if not self.stack:
            self.end(itp, st, ins, ctx)

    def end(self, itp, st, ins, ctx):
        j = self.job
        self.done += 1
        say = lambda rule, msg: self.bad(itp, st, ins, ctx, rule, msg)
        ev = [x for x in st.mon if not isinstance(x, tuple)]
        n = lambda x: ev.count(x)
        ended = n('end')
        if n('end of another') or ended > 1:
            say('ended', 'another connection is ended, or one twice')
            return
        if j['root'] == 'WSS_cleanup':
            polls = [x[1] for x in st.mon if isinstance(x, tuple)]
            want = -1 if j['client'] < 0 else j['client'] // j['pings'] if j['pings'] > 0 else j['client']
            if not polls or n('all') != 1:
                say('supervision', 'the connections are not looked after when it is time')
                return
            # any negative number is endless
            p = polls[0] if polls[0] is None else engine.sgn(polls[0], 32)
            if p is None or (p != want if want >= 0 else p >= 0):
                say('interval', 'the connections are looked after every %s ms instead of every %s ms' % (p, want))
            if not j['hs']:
                if ev != ['all'] and not (ended and ev == ['all', 'end']):
                    say('early', 'something is sent to a connection whose handshake is not complete')
                return
            out = j['client'] >= 0 and j['ms'] >= j['client']
            if out and not ended:
                say('overdue', 'a connection idle for %d ms of %d ms is not ended' % (j['ms'], j['client']))
            elif ended and not out and not j['closing']:
                say('early', 'a connection idle for %d ms of %s ms is ended' % (j['ms'], j['client'] if j['client'] >= 0 else 'unlimited'))
            sends = [x[5:] for x in ev if x.startswith('send ')]
            if j['state'] == WRITING:
                want = []
            elif out:
                want = ['close 1013']
            else:
                want = ['ping'] if j['pings'] > 0 else []
            if sends != want and not (j['closing'] and not sends):
                say('sent', 'a connection idle for %d ms of %s ms is sent %s instead of %s' % (j['ms'], j['client'] if j['client'] >= 0 else 'unlimited',
                    ', '.join(sends) or 'nothing', ', '.join(want) or 'nothing'))
            if self.alive(st) != 5000 * 1000 + j['frac']:
                say('renewed', 'the connection counts as active although nothing was received')
            return
        state = j['state']
        name = {READING: 'read', WRITING: 'write'}.get(state)
        late = name is not None and j[name] >= 0 and j['ms'] >= j[name]
        gone = state == CLOSING or state == IDLE and j['task'] == CLOSING
        what = None if late or gone else name or ('handshake' if j['tls'] else 'read') if state != IDLE else {READING: 'read', WRITING: 'write'}[j['task']]
        done = [x for x in ev if x in ('read', 'write', 'handshake')]
        if late and done or late and not ended:
            say('overdue', 'a connection that waits for %d ms of %d ms to %s goes on' % (j['ms'], j[name], name))
            return
        if not late and not gone and not j['closing'] and ended:
            say('early', 'a connection that waits for %d ms of %s ms is ended' % (j['ms'], j[name] if name else 'unlimited'))
            return
        if done != [what] * (what is not None):
            say('handled', 'the event is handled as %s instead of %s' % (', '.join(done) or 'none', what or 'none'))
            return
        if (gone or j['closing']) and not ended:
            say('ended', 'a connection that is closing is not ended')
        elif not ended and j['after'] != NONE and self.alive(st) != 5000 * 1000 + j['frac'] + j['ms']:
            say('renewed', 'a connection on which something happened does not count as active')

    def finish(self, itp):
        return self.done


def classes(tier):
    out = []

    def job(root, **kw):
        j = dict(root=root, hs=1, tls=0, state=IDLE, closing=0, client=-1, read=-1, write=-1, pings=0, ms=0, frac=0, task=READING, after=READ, pong=0)
        j.update(kw)
        j['text'] = ', '.join('%s=%s' % (k, STATES[v] if k in ('state', 'task') else v) for k, v in kw.items())
        j['name'] = root + '/' + j['text']
        out.append(j)
    fracs = (0, 400, 999)
    for hs in (0, 1):
        for tls in (0, 1):
            for state in (IDLE, READING, WRITING):
                for client in (-1, LIMIT, LONG):
                    for pings in (0, 1, 4):
                        for ms in {0, 1, max(client, 500) - 1, max(client, 500), max(client, 500) + 1, 20 * LONG}:
                            for frac in fracs if tier == 'thorough' or (tls, pings) == (0, 1) else fracs[1:2]:
                                if not hs and (frac != 400 or tls):
                                    continue
                                job('WSS_cleanup', hs=hs, tls=tls, state=state, client=client, pings=pings, ms=ms, frac=frac)
    job('WSS_cleanup', client=LIMIT, pings=2, ms=0, closing=1)
    for state in (IDLE, READING, WRITING):
        for pings in (0, 1):
            for ms in (0, 1):
                job('WSS_cleanup', state=state, client=0, pings=pings, ms=ms)
                job('WSS_cleanup', state=state, client=LIMIT, pings=pings, ms=ms, pong=1)
    for state in (IDLE, READING, WRITING):
        for task in (READING, WRITING):
            for after in (READ, WRITE):
                for hs in (0, 1):
                    for pong in (0, 1):
                        job('WSS_work', hs=hs, pong=pong, state=state, task=task, after=after, ms=LIMIT)
                job('WSS_work', state=state, task=task, after=after, read=0, ms=1)
                job('WSS_work', state=state, task=task, after=after, write=0, ms=1)
    for tls in (0, 1):
        for state in (IDLE, READING, WRITING, CLOSING, CONNECTING):
            for task in (READING, WRITING, CLOSING):
                for after in (NONE, READ, WRITE):
                    for lim in (-1, LIMIT, LONG):
                        for ms in {0, max(lim, 500) - 1, max(lim, 500), max(lim, 500) + 1, 20 * LONG}:
                            for which in ('read', 'write'):
                                for frac in fracs if tier == 'thorough' and not tls else fracs[1:2]:
                                    if tls and state != CONNECTING and tier != 'thorough':
                                        continue
                                    if state in (IDLE, CLOSING, CONNECTING) and (lim == LONG or which == 'write'):
                                        continue
                                    job('WSS_work', tls=tls, state=state, task=task, after=after, ms=ms, frac=frac, **{which: lim})
    return out


def check(tier):
    prog = build.program('server')
    jobs = classes(tier)

    def mk(j):
        m = IdleMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 400000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['name'] for j, x in run.extra if not x][:1])
    cov = run.cover()
    cov['classes'] = len(jobs)
    return run.reports, cov, ['when supervision is due is up to the system', 'times are classes around each limit']
