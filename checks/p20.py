"""The configuration file decides the settings and who may connect: for every class of configuration the settings, the accepted hosts and the accepted
request URIs are computed from the code and compared with what the file says."""
import ctypes
from common import *
from driver import *
import engine
import interp
import p16
import p18
from engine import F, I

g = p16.g
CS, JS, ES, VS = 'struct.wss_config_t', 'struct._json_value', 'struct._json_object_entry', 'struct.wss_server_t'
CONFIG, SERVER, PATH, SSL, SETTINGS = map(g, ('config', 'server', 'path', 'sslctx', 'settings'))
PTR = ('ptr',)
LOAD, FREE, REGEX, FIND = 'WSS_config_load', 'WSS_config_free', 'WSS_http_regex_init', 'json_value_find'
OBJECT, ARRAY, INT, DOUBLE, STRING, BOOL, NULL = range(1, 8)
# what the keys of the file set
KEYS = {('setup', 'favicon'): ('favicon', str), ('setup', 'log_level'): ('log', int)}
for k in ('poll', 'read', 'write', 'client', 'pings'):
    KEYS['setup', 'timeouts', k] = ('timeout_' + k, int)
for k in ('key', 'cert', 'ca_file', 'ca_path', 'dhparam', 'cipher_list', 'cipher_suites', 'compression', 'peer_cert'):
    KEYS['setup', 'ssl', k] = ('ssl_' + k, bool if k in ('compression', 'peer_cert') else str)
for k in ('http', 'https'):
    KEYS['setup', 'port', k] = ('port_' + k, int)
for k in ('buffer', 'thread', 'uri', 'header', 'ringbuffer', 'payload', 'frame'):
    KEYS['setup', 'size', k] = ('size_' + k, int)
KEYS['setup', 'size', 'fragmented'] = ('max_frames', int)
for k in ('workers', 'retries'):
    KEYS['setup', 'pool', k] = ('pool_' + k, int)
LISTS = ('hosts', 'origins', 'paths', 'queries')
PLUGINS = ('subprotocols', 'extensions')
WRONG = (None, 7, 'text', True, 2.5, [], ['text'], {}, {'key': 'x'})


class ConfigMon(p18.ZlibMon):
    """mon as in P18; sent: what happened to the parsed file"""
    fn = FREE

    def prepare(self, itp, st, vals):
        vals[0] = ZERO
        self.nodes = {}
        names = self.prog.fields[CS]
        self.index = {n: i for i, n in names.items()}
        self.defaults = {}
        for n in sorted(names.values()):
            self.defaults[n] = 80 if n == 'port_http' else 443 if n == 'port_https' else 0
        for i, (n, t) in enumerate(sorted({x for x in KEYS.values()}, key=str)):
            if t is int and not n.startswith('port'):
                self.defaults[n] = 700 + i
        for n in LISTS + PLUGINS:
            for x in (n, n + '_length'):
                if x not in self.index:
                    raise AnalysisError('anchor vanished: setting ' + x)
        for n, t in KEYS.values():
            if n not in self.index:
                raise AnalysisError('anchor vanished: setting ' + n)

    # -- the parsed file
    def node(self, v):
        p = g('json%d' % len(self.nodes))
        self.nodes[p] = None
        t = lambda s: self.bytes(s)
        if isinstance(v, bool):
            x = (BOOL, int(v), None)
        elif isinstance(v, int):
            x = (INT, v, None)
        elif isinstance(v, float):
            x = (DOUBLE, 0, None)
        elif isinstance(v, str):
            x = (STRING, len(v), t(v))
        elif v is None:
            x = (NULL, 0, None)
        elif isinstance(v, (list, tuple)):
            kids = [self.node(y) for y in v]
            a = g('items%d' % len(self.nodes))
            self.nodes[a] = [(k,) for k in kids]
            x = (ARRAY, len(v), a)
        else:
            kids = [(t(n), len(n), self.node(y)) for n, y in v.items()]
            a = g('entries%d' % len(self.nodes))
            self.nodes[a] = kids
            x = (OBJECT, len(v), a)
        self.nodes[p] = x
        return p

    def bytes(self, s):
        p = g('name%d' % len(self.texts))
        self.texts[p] = list(s.encode()) + [0]
        return p

    def load(self, itp, st, ins, p, v, ctx):
        b = engine.root(p)
        x = self.nodes.get(b)
        if x is None:
            self.bounds(itp, st, ins, p, ctx)
            return p18.ZlibMon.load(self, itp, st, ins, p, v, ctx)
        fs, at, q = [], 0, p
        while q is not b:
            if q.k == 'F':
                fs.append((q.b if isinstance(q.b, str) else q.c, q.c if isinstance(q.b, str) else q.b))
            elif q.k == 'I':
                at = st.const(q.b)
            else:
                break
            q = q.a
        names = {self.prog.fieldname(s, i) for s, i in fs if s in (JS, ES)}
        if isinstance(x, list):
            if at is None:
                raise AnalysisError('a place of the file is not known (%s:%s)' % (ins.fn.file, ins.line))
            at = engine.sgn(at, 64)
            if not 0 <= at < len(x):
                self.bad(itp, st, ins, ctx, 'bounds', 'the file is read beyond its values')
                raise interp.PathEnd()
            e = x[at]
            if len(e) == 1:
                return e[0]
            return C(e[1]) if 'name_length' in names else e[2] if 'value' in names else e[0]
        if 'type' in names:
            return C(x[0])
        if 'u' not in names:
            return None
        t = ins.ty
        kind = {PTR: (STRING, ARRAY, OBJECT), ('i', 64): (INT,), ('i', 32): (BOOL, STRING, ARRAY, OBJECT)}.get(t, ())
        if x[0] not in kind:
            self.bad(itp, st, ins, ctx, 'type', 'a value of the file is used as something it is not')
            raise interp.PathEnd()
        return x[2] if t == PTR else C(engine.sgn(x[1], t[1]))

    def bounds(self, itp, st, ins, p, ctx):
        if p.k != 'I' and not (ins.op == 'store' and ins.args[0][0] == PTR):
            return
        b, i = (p.a, st.const(p.b)) if p.k == 'I' else (p, 0)
        n, bs = self.buffer(st, b)
        if bs is None or p.k == 'I' and p.c == ('i', 8):
            return
        if b in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'freed memory is used')
            raise interp.PathEnd()
        if i is None:
            raise AnalysisError('a place in a list is not known (%s:%s)' % (ins.fn.file, ins.line))
        i = engine.sgn(i, 64)
        if b.b == 'buffer' and (p.k != 'I' or p.c == PTR) and not 0 <= i * 8 + 8 <= n:
            self.bad(itp, st, ins, ctx, 'bounds', 'place %d of a list of %d is used' % (i, n // 8))
            raise interp.PathEnd()

    def store(self, itp, st, ins, p, v, ctx):
        self.bounds(itp, st, ins, p, ctx)
        t = ins.args[0][0]
        if t == ('i', 8):
            p18.ZlibMon.store(self, itp, st, ins, p, v, ctx)

    # -- what is called
    def c_strload(self, itp, st, ins, args, ctx):
        out = []
        if self.what_fails in (None, 'parse', 'memory'):
            s = st.copy()
            oom, self.oom = self.oom, False
            (o, s), = self.allocate(itp, s, ins, 'WSS_malloc', [C(9)], ctx)
            self.oom = oom
            itp.store(s, args[1], o, PTR)
            out.append((C(8), s))
        else:
            itp.store(st, args[1], ZERO, PTR)
            out.append((ZERO, st))
        return out

    def c_json_parse_ex(self, itp, st, ins, args, ctx):
        self.site(ins, 'parse')
        if self.what_fails == 'parse':
            return [(ZERO, st)]
        self.put(st, sent=st.mon[3] + ('parsed',))
        return [(self.doc, st)]
    c_json_parse = c_json_parse_ex

    def c_json_value_free_ex(self, itp, st, ins, args, ctx):
        self.site(ins, 'release')
        v = args[-1]
        if 'freed' in st.mon[3] or v is not self.doc:
            self.bad(itp, st, ins, ctx, 'freed', 'the parsed file is freed twice')
            return []
        self.put(st, sent=st.mon[3] + ('freed',))
        return [(None, st)]
    c_json_value_free = c_json_value_free_ex

    def c_json_value_find(self, itp, st, ins, args, ctx):
        if ctx is None or not ctx.has(self.prog.need(FIND)):
            return None
        return self.nested(itp, st, FIND, args, 'find')

    def c_log_log(self, itp, st, ins, args, ctx):
        return [(None, st)]

    def c_floor(self, itp, st, ins, args, ctx):
        x = p18.fconst(args[0])
        return None if x is None else [(interp.fval(float(int(x // 1))), st)]

    def c_WSS_realloc(self, itp, st, ins, args, ctx):
        old, n = st.const(args[1]), st.const(args[2])
        q = itp.load(st, args[0], ins, ctx, PTR)
        if old is None or n is None or self.buffer(st, q)[1] is None:
            raise AnalysisError('the size of a list is not known (%s:%s)' % (ins.fn.file, ins.line))
        if q in st.mon[2]:
            self.bad(itp, st, ins, ctx, 'freed', 'freed memory is resized')
            return []
        old = self.buffer(st, q)[0]
        r = self.allocate(itp, st, ins, 'WSS_malloc', [C(n)], ctx)
        for v, s in r:
            self.put(s, freed=s.mon[2] | {q})
            if v is not ZERO:
                for i in range(min(n, old) // 8):
                    x = s.mem.get(I(q, C(i), PTR))
                    if x is not None:
                        s.mem[I(v, C(i), PTR)] = x
            itp.store(s, args[0], v, PTR)
        return r

    def c_regfree(self, itp, st, ins, args, ctx):
        return [(None, st)]

    def c_regcomp(self, itp, st, ins, args, ctx):
        pat, fl = self.cstring(st, args[1], ins), st.const(args[2])
        self.site(ins, 'pattern')
        buf = ctypes.create_string_buffer(256)
        e = p18.LIBC.regcomp(buf, pat, fl)
        if e == 0:
            p18.LIBC.regfree(buf)
        out = []
        if self.oom and st.mon[4] is None and e == 0:
            s = st.copy()
            self.put(s, failed='%s:%s' % (ins.fn.file, ins.line))
            out.append((C(12), s))
        if e == 0:
            self.put(st, reads=st.mon[5] + ((args[0], pat, fl),))
        return [(C(e), st)] + out

    def write(self, itp, st, ins, ctx, p, data):
        b, off = self.at(p)
        if b.k == 'G' and self.buffer(st, b)[1] is None and (b in self.texts or self.prog.string(b) is not None):
            self.bad(itp, st, ins, ctx, 'constant', 'a constant text is written to')
            raise interp.PathEnd()
        return p18.ZlibMon.write(self, itp, st, ins, ctx, p, data)

    # -- stories
    def start(self, itp, st):
        self.defined = st.copy()
        for doc, fails in self.job['docs']:
            self.what = 'configuration %s' % (text(doc) if fails is None else 'that cannot be ' + fails)
            self.what_fails = fails
            n = self.done + len(self.reported)
            self.one(itp, st.copy(), doc)
            if self.done + len(self.reported) == n:
                raise AnalysisError('no result: %s' % self.what)

    def place(self, n):
        return F(CONFIG, CS, self.index[n])

    def field(self, st, n):
        p = self.place(n)
        if self.index[n] == 0 and p not in st.mem:
            p = CONFIG
        v = st.mem.get(p)
        if v is None:
            raise AnalysisError('a setting is not known: ' + n)
        return v

    def one(self, itp, st, doc):
        self.nodes = {}
        self.doc = self.node(doc)
        if self.index.get('string') == 0 or CONFIG not in st.mem:
            st.mem[CONFIG] = ZERO
        for n, v in self.defaults.items():
            st.mem[self.place(n)] = C(v)
        self.texts[PATH] = list(b'conf.json') + [0]
        want = expect(doc, self.defaults) if self.what_fails is None else None
        self.fn = LOAD
        self.oom = True
        self.site(None, 'load')
        for r, s in self.nested(itp, st, LOAD, [CONFIG, PATH], ''):
            self.fn = LOAD
            self.loaded(itp, s, r, want)

    def loaded(self, itp, st, r, want):
        self.done += 1
        failed = st.mon[4]
        when = ' when memory runs out at ' + failed if failed else ''
        say = lambda rule, msg: self.bad(itp, st, None, None, rule, msg + when)
        r = st.const(r)
        if r is None:
            raise AnalysisError('the result is not known (%s)' % self.what)
        if r == 0 and (failed or want is None):
            say('accepted', 'the configuration is accepted')
            return
        if r != 0 and not failed and want is not None:
            say('refused', 'a usable configuration is refused')
            return
        if r == 0:
            for n, v in want.items():
                self.compare_setting(st, n, v, say)
        oom, self.oom = self.oom, False
        if r == 0 and self.job['uri']:
            self.oom = True
            for ssl in (False, True):
                s = st.copy()
                self.put(s, reads=())
                self.uris(itp, s, want, ssl)
            self.oom = False
        self.fn = FREE
        for x, s in self.nested(itp, st, FREE, [CONFIG], ''):
            if self.held(s):
                self.bad(itp, s, None, None, 'leak', 'memory is lost when the configuration is freed' + when)
            if 'parsed' in s.mon[3] and 'freed' not in s.mon[3]:
                self.bad(itp, s, None, None, 'leak', 'the parsed file is not freed' + when)
        self.oom = oom

    def compare_setting(self, st, n, v, say):
        have = self.field(st, n)
        if isinstance(v, list):
            k = st.const(self.field(st, n + '_length'))
            if k is None:
                raise AnalysisError('the number of %s is not known' % n)
            got = []
            for i in range(k):
                x = st.mem.get(I(have, C(i), PTR)) if self.buffer(st, have)[1] is not None and have not in st.mon[2] else None
                if have.k != 'o' or self.buffer(st, have)[0] < 8 * (i + 1):
                    say('list', 'the list of %s is shorter than it says' % n)
                    return
                got.append(self.entry(st, x))
            if len(got) != len(v) or (sorted(got, key=str) != sorted(v, key=str) if n in LISTS else got != v):
                say('list', 'the %s are %s, the file says %s' % (n, ', '.join(map(str, got)) or 'none', ', '.join(map(str, v)) or 'none'))
            if n in PLUGINS:
                return
        elif isinstance(v, tuple):
            have = self.field(st, n)
            got = [self.entry(st, st.mem.get(I(have, C(i), PTR))) for i in range(len(v))]
            if got != list(v):
                say('list', 'the configuration of a plugin is not that of the file')
        elif isinstance(v, str):
            got = self.entry(st, have)
            if got != v:
                say('setting', '%s is %s, the file says %s' % (n, got, v))
        else:
            got = st.const(have)
            if got is None or (got ^ v) & 0xffffffff if n not in ('timeout_client',) else got is None or engine.sgn(got, 64) != v:
                say('setting', '%s is %s, but should be %s' % (n, 'something else' if got is None else engine.sgn(got, 64), v))

    def entry(self, st, p):
        if p is None or st.const(p) == 0:
            return None
        if self.at(p)[0] in st.mon[2]:
            return '(freed)'
        s = self.string(st, p)
        if s is None or not all(isinstance(x, int) for x in s):
            return '(unknown)'
        return bytes(s).decode('latin1')

    def uris(self, itp, st, want, ssl):
        f = lambda n, v: st.mem.__setitem__(F(SERVER, VS, self.prog.fidx('wss_server_t', n)), v)
        st.mem[V('Z', SERVER)] = ONE
        port = want['port_https' if ssl else 'port_http']
        f('config', CONFIG)
        f('port', C(port))
        f('ssl_ctx', SSL if ssl else ZERO)
        f('re', ZERO)
        self.fn = REGEX
        kept = self.held(st)
        self.site(None, 'uri')
        for r, s in self.nested(itp, st, REGEX, [SERVER], ''):
            failed = s.mon[4]
            when = ' when memory runs out at ' + failed if failed else ''
            say = lambda rule, msg: self.bad(itp, s, None, None, rule, msg + when)
            r = s.const(r)
            if r is None:
                raise AnalysisError('the result is not known (%s)' % self.what)
            re = s.mem.get(F(SERVER, VS, self.prog.fidx('wss_server_t', 're')))
            if re is not None and s.const(re) == 0:
                re = None
            some = any(x for n in LISTS if n != 'origins' for x in want[n])
            pats = [x for x in s.mon[5] if x[0] is re] if re is not None else []
            if self.held(s) - kept - {re}:
                say('leak', 'memory is lost when the server is set up')
                continue
            if r != 0:
                if not failed:
                    say('refused', 'the server is not set up for a usable configuration')
                continue
            if failed:
                say('open', 'the server starts without restricting the request URI')
                continue
            if re is None:
                if some:
                    say('open', 'the request URI is not restricted')
                continue
            if not pats:
                say('open', 'the pattern for request URIs is not compiled')
                continue
            if re in s.mon[2]:
                say('freed', 'the pattern for request URIs is freed')
                continue
            buf = ctypes.create_string_buffer(256)
            if p18.LIBC.regcomp(buf, pats[-1][1], pats[-1][2]):
                raise AnalysisError('the pattern is not valid (%s)' % self.what)
            for u, ok in targets(want, ssl, port):
                m = p18.LIBC.regexec(buf, u.encode(), 0, None, 0) == 0
                if m != ok:
                    say('uri', 'the request URI %s is %s' % (u, 'accepted' if m else 'refused'))
                    break
            p18.LIBC.regfree(buf)
        self.fn = LOAD


def text(doc):
    import json
    s = json.dumps(doc)
    return s if len(s) < 70 else s[:66] + '...'


def targets(want, ssl, port):
    """(request URI, whether it is acceptable)"""
    hosts, paths, queries = want['hosts'], want['paths'], want['queries']
    scheme = 'wss' if ssl else 'ws'
    out = [('/', True), ('', False), ('x', False), ('/ no', False)]
    names = [''] + [p for p in paths if p]
    origins = [''] + ['%s://%s%s' % (scheme, h, p) for h in hosts if h for p in ('', ':%d' % port)[:2 if port else 1]]
    asked = [''] + ['?' + q for q in queries if q] + ['?%s&%s' % (a, b) for a in queries if a for b in queries if b]
    for o in origins:
        for p in names:
            for q in asked:
                out.append((o + '/' + p + q, True))
        out += [(o + '/' + p + 'zzz', False) for p in names] if paths else []
        out += [(o + '/' + p + p, False) for p in names if p] + [(o + '/' + p.upper(), False) for p in names if p]
        out += [(o + '/?' + q.upper(), False) for q in queries if q] + [(o + '/?' + '&'.join(q for q in queries if q), True)] * any(queries)
        out += [(o + '/?' + '&'.join([q] * 4), True) for q in queries if q] + [(o + '/?' + q + '?' + q, False) for q in queries if q]
        out += [(o + '/zzz', False), (o + '//', False)] if paths else []
        out += [(o + '/' + p + q + '&zzz=1', False) for p in names for q in asked[1:]]
        out += [(o + '/' + p + '?zzz=1', False) for p in names]
        if o:
            out.append((o, False))
    if any(hosts):
        other = 'ws' if ssl else 'wss'
        h = [x for x in hosts if x][0]
        out += [('%s://%s/' % (other, h), False), ('%s://zzz.example/' % scheme, False), ('%s://%s:1/' % (scheme, h), False),
                ('http://%s/' % h, False), ('%s://zzz.%s/' % (scheme, h), False)]
    return out


def expect(doc, defaults):
    """what the settings are after the file is loaded, None if it has to be refused"""
    out = dict((n, v) for n, v in defaults.items() if n in {x for x, t in KEYS.values()})
    for n, t in KEYS.values():
        if t is str:
            out[n] = None
    for n in LISTS + PLUGINS:
        out[n] = []
    if not isinstance(doc, dict):
        return None
    for n in LISTS:
        v = doc.get(n)
        if isinstance(v, list):
            if not all(isinstance(x, str) for x in v):
                return None
            out[n] = list(v)
    setup = doc.get('setup')
    setup = setup if isinstance(setup, dict) else {}
    for n in PLUGINS:
        v = setup.get(n)
        if not isinstance(v, list):
            continue
        if not all(isinstance(x, dict) and isinstance(x.get('file', ''), str) for x in v):
            return None
        out[n] = [x.get('file') for x in v]
        if v:
            out[n + '_config'] = tuple(x['config'] if isinstance(x.get('config'), str) else None for x in v)
    for path, (n, t) in KEYS.items():
        v = doc
        for k in path:
            v = v.get(k) if isinstance(v, dict) else None
        if v is not None and type(v) is t:
            out[n] = int(v) if t is bool else v
    for n in ('poll', 'read', 'write', 'client'):
        if out['timeout_' + n] < 0:
            out['timeout_' + n] = -1
    if not out['port_http'] and not out['port_https']:
        return None
    ports = [out[n] for n in ('port_http', 'port_https') if out[n]]
    out['hosts'] = out['hosts'] + ['%s:%d' % (h, p) for h in out['hosts'] for p in ports]
    return {n: v for n, v in out.items() if v is not None}


def nest(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def full(reverse):
    doc = {n: ['%s-%d' % (n, i) for i in range(2)] for n in LISTS}
    doc['setup'] = {n: [{'file': '%s%d.so' % (n, i), 'config': n + ' config %d' % i} for i in range(2)] for n in PLUGINS}
    for i, (path, (n, t)) in enumerate(KEYS.items()):
        d = doc
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = True if t is bool else 1000 + i if t is int else 'text %d' % i

    def turn(d):
        return {k: turn(d[k]) for k in reversed(list(d))} if isinstance(d, dict) else d
    return turn(doc) if reverse else doc


def classes(tier):
    out = []

    def job(name, docs, uri=False):
        docs = [d if isinstance(d, tuple) else (d, None) for d in docs]
        n = 12
        for k in range(0, len(docs), n):
            out.append(dict(root=FREE, name='%s/%d' % (name, k), text=name, docs=docs[k:k + n], uri=uri))
    job('whole', [full(False), full(True), {}, {'setup': {}}])
    job('refused', [({}, 'read'), ({}, 'parse'), ([], None), ('x', None), (3, None), (None, None), {'setup': {'port': {'http': 0, 'https': 0}}}])
    job('keys', [nest(p, True if t is bool else 1234 if t is int else 'value') for p, (n, t) in KEYS.items()])
    job('keys', [nest(p, False) for p, (n, t) in KEYS.items() if t is bool] + [nest(p, v) for p, (n, t) in KEYS.items() if n.startswith('timeout')
                                                                               and n != 'timeout_pings' for v in (0, -1, -2, -60000)])
    job('wrong', [nest(p, w) for p, (n, t) in KEYS.items() for w in WRONG if type(w) is not t])
    job('wrong', [nest(p, w) for p in [(n,) for n in LISTS + ('setup',)] + [('setup', n) for n in PLUGINS + ('timeouts', 'ssl', 'port', 'size', 'pool')]
                  for w in WRONG if not isinstance(w, dict) or p[-1] != 'setup'])
    some = lambda n, k: ['%s%d' % (n, i) for i in range(k)]
    for n in LISTS:
        job('list', [{n: some(n, k)} for k in (0, 1, 2, 3, 5)] + [{n: some(n, k) + [w]} for k in (0, 1, 2) for w in (None, 1, [], {})])
    for n in PLUGINS:
        e = lambda i, **kw: dict({'file': '%s%d' % (n, i), 'config': 'c%d' % i}, **kw)
        job('plugins', [{'setup': {n: [e(i) for i in range(k)]}} for k in (0, 1, 2, 3)] + [{'setup': {n: [e(0), w]}} for w in (None, 1, 'x', [], e(1, file=3), e(1, file=None))]
            + [{'setup': {n: [e(0), e(1, config=w), e(2)]}} for w in (None, 3)])
    hosts = [['h'], ['localhost', '127.0.0.1'], ['a.example', 'bb', 'c'], ['', 'x'], ['very-long-name-of-a-host.example.org']]
    ports = [(0, 1), (1, 0), (80, 443), (9, 10), (99, 100), (999, 1000), (9999, 10000), (65535, 65535), (10, 9), (65535, 0), (0, 65535)]
    job('ports', [{'hosts': h, 'setup': {'port': {'http': a, 'https': b}}} for h in hosts for a, b in ports])
    job('ports', [{'hosts': h} for h in hosts + [[], ['']]])
    paths = [[], ['chat'], ['chat', 'a/b'], ['lobby'], [''], ['', 'chat']]
    queries = [[], ['k=v'], ['k=v', 'token=abc'], [''], ['k=v', '']]
    long = [(['aa', 'b', 'cccc'], ['chat', 'lobby', 'r', 'news'], ['k=v', 'token=abc', 'x', 'yy=1'])]
    long += [(['h'], ['a', 'bbbb', 'cc'], []), ([], ['a'], ['long=1', 'b', 'cc']), (['dddd', 'c', 'bb', 'a'], ['p'], ['q'])]
    if tier != 'thorough':
        docs = [(h, p, q) for h in ([], ['h'], ['aa', 'b'], ['']) for p in paths for q in queries if len(h) < 2 or p and q or not p and not q]
    else:
        docs = [(h, p, q) for h in ([], ['h'], ['aa', 'b'], [''], ['', 'x'], ['localhost', '127', 'cc']) for p in paths for q in queries]
    job('uri', [{'hosts': h, 'paths': p, 'queries': q, 'setup': {'port': {'http': a, 'https': b}}}
                for i, (h, p, q) in enumerate(docs + long) for a, b in (ports[2:] if tier == 'thorough' else [ports[2 + i % 9], ports[2 + (i + 4) % 9]])], True)
    return out


def check(tier):
    prog = build.program('server')
    engine.OFFSETS = True
    jobs = classes(tier)

    def mk(j):
        m = ConfigMon(prog, j)
        j['setup'] = m.setup
        return m
    run = Run()
    run.add(explore(prog, mk, jobs, 4000000))
    if not run.reports and any(not x for j, x in run.extra):
        raise AnalysisError('no result: %s' % [j['name'] for j, x in run.extra if not x][:1])
    cov = run.cover()
    cov['configurations'] = sum(len(j['docs']) for j in jobs)
    return run.reports, cov, ['names and values are the enumerated ones', 'the text of the file is taken to be parsed as JSON says',
                              'request URIs are matched by the C library the server uses']
