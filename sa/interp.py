"""The fixpoint interpreter: blocks, calls, loops, joins, libc model."""
import heapq
import struct
import math
import time
import sys
import engine
from engine import (V, C, ZERO, ONE, F, I, State, TOP, NONNULL, root, syms, blurry, binop, icmp, bnot, cast, desc,
                    fjoin, fmeet, fcover, fexcl, const_fact, sgn, uns)
import ir

sys.setrecursionlimit(20000)


START, DEADLINE = time.time(), 780     # a check has 900 s


class PathEnd(Exception):
    """raised by a monitor's deref: the path does not go on"""


class AnalysisError(Exception):
    """the analysis itself could not be carried out (not a verdict)"""


class Program:
    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}
        self.fields = {}
        self.fdom = {}
        self.structs = {}
        self.gl = {}
        for m in mods:
            for n, f in m.funcs.items():
                q = (m.name + ':' + n) if f.internal else n
                f.cname = q
                self.funcs[q] = f
            for s, t in m.structs.items():
                if s not in self.structs or self.structs[s] == ('opaque',):
                    self.structs[s] = t
            for s, fn in m.fieldnames.items():
                self.fields.setdefault(s, fn)
            for s, fd in m.fielddom.items():
                self.fdom.setdefault(s, fd)
            for g, x in m.globals.items():
                k = self.gkey(m, g)
                if k not in self.gl or self.gl[k][1] is None:
                    self.gl[k] = x
        engine.PROG = self
        self._direct = {}
        self._reach = {}
        self._mods = {}
        self._rets = {}
        self._ev = {}

    def gkey(self, m, g):
        return V('G', m.name if '.' in g else None, g)

    def fieldname(self, s, i):
        return self.fields.get(s, {}).get(i, str(i))

    def fidx(self, struct, name):
        s = 'struct.' + struct
        for i, n in self.fields.get(s, {}).items():
            if n == name:
                return i
        raise AnalysisError('anchor vanished: field %s.%s' % (struct, name))

    def func(self, name):
        """by plain name (external or unique static)"""
        if name in self.funcs:
            return self.funcs[name]
        c = [f for q, f in self.funcs.items() if f.name == name]
        if len(c) == 1:
            return c[0]
        return None

    def need(self, name):
        f = self.func(name)
        if f is None:
            raise AnalysisError('anchor vanished: function %s' % name)
        return f

    def string(self, g):
        """bytes of a constant string global, without the NUL"""
        if g.k != 'G':
            return None
        x = self.gl.get(g)
        if x and x[1] and x[1][0] == 'str' and x[2]:
            b = ir.cstr(x[1][1])
            return b[:-1] if b.endswith(b'\0') else b
        if x and x[1] and x[1][0] == 'zero' and x[2] and x[0][0] == 'arr':
            return b''
        return None

    def callee_name(self, mod, x):
        if x[0] == 'g':
            f = mod.funcs.get(x[1])
            if f is not None:
                return f.cname
            return x[1]
        return None

    def direct(self, f):
        """direct callees + address-taken functions"""
        r = self._direct.get(f)
        if r is None:
            calls, taken = set(), set()
            for bn in f.order:
                for ins in f.blocks[bn].insts:
                    if ins.op == 'call':
                        n = self.callee_name(f.mod, ins.extra)
                        if n:
                            calls.add(n)
                    for t, a in ins.args:
                        if a and a[0] == 'g':
                            n = self.callee_name(f.mod, a)
                            if n in self.funcs:
                                taken.add(n)
            r = self._direct[f] = (calls, taken)
        return r

    def reach(self, f):
        """all names transitively callable (incl. address-taken passed on)"""
        r = self._reach.get(f)
        if r is None:
            seen = set()
            st = [f]
            out = set()
            while st:
                g = st.pop()
                if g in seen:
                    continue
                seen.add(g)
                c, t = self.direct(g)
                for n in c | t:
                    out.add(n)
                    h = self.funcs.get(n)
                    if h is not None:
                        st.append(h)
            r = self._reach[f] = (out, seen)
        return r

    def modset(self, f):
        """classes of locations stored to, transitively"""
        r = self._mods.get(f)
        if r is None:
            out = set()
            for g in self.reach(f)[1]:
                out |= self._local_mods(g)
            r = self._mods[f] = frozenset(out)
        return r

    def _local_mods(self, g):
        r = self._ev.get(('m', g))
        if r is not None:
            return r
        out = set()
        types = {}
        for bn in g.order:
            for ins in g.blocks[bn].insts:
                if ins.res is not None:
                    types[ins.res] = ins
        for bn in g.order:
            for ins in g.blocks[bn].insts:
                if ins.op == 'store':
                    d = ins.args[1][1]
                    out |= self._cls(g, types, d, ins.args[0][0])
                elif ins.op in ('cmpxchg', 'atomicrmw'):
                    out |= self._cls(g, types, ins.args[0][1], ins.args[1][0])
                elif ins.op == 'call':
                    n = self.callee_name(g.mod, ins.extra)
                    if n and (n.startswith('llvm.mem') or n in ('memset', 'memcpy', 'memmove', 'strcpy', 'strncpy')):
                        d = ins.args[0][1]
                        out |= {('mem',) + c for c in self._cls(g, types, d, ('i', 8))}
        self._ev[('m', g)] = out
        return out

    def _cls(self, g, types, d, ty, depth=0):
        if d[0] == 'l':
            i = types.get(d[1])
            if i is not None and i.op == 'gep':
                last = self.gep_class(i)
                return {last}
            if i is not None and i.op == 'alloca':
                return set()
            if i is not None and i.op == 'phi' and depth < 3:
                out = set()
                for _, v in i.extra:
                    out |= self._cls(g, types, v, ty, depth + 1)
                return out
            return {('S', ty)}
        if d[0] == 'gep':
            return {('G',)}
        if d[0] == 'g':
            return {('G', d[1])}
        return {('S', ty)}

    def gep_class(self, i):
        st = i.extra
        idx = i.args[1:]
        last = ('I', st)
        t = st
        for (tt, v) in idx[1:]:
            if t[0] == 'struct':
                last = ('F', t[1], v[1])
                s = self.structs.get(t[1])
                t = s[1][v[1]] if s and s[0] == 'lit' and v[1] < len(s[1]) else ('i', 8)
            elif t[0] == 'lit':
                last = ('F', 'lit', v[1])
                t = t[1][v[1]]
            elif t[0] in ('arr', 'vec'):
                if not (v[0] == 'c' and v[1] == 0):
                    last = ('I', t[2])
                t = t[2]
        return last


class Ctx:
    __slots__ = ('parent', 'inst', 'fn', 'depth', 'tab')

    def __init__(self, parent, inst, fn):
        self.parent, self.inst, self.fn = parent, inst, fn
        self.depth = 0 if parent is None else parent.depth + 1
        self.tab = {}

    def child(self, inst, fn):
        k = (inst.id, fn.cname)
        c = self.tab.get(k)
        if c is None:
            c = self.tab[k] = Ctx(self, inst, fn)
        return c

    def has(self, fn):
        c = self
        while c is not None:
            if c.fn is fn:
                return True
            c = c.parent
        return False

    def path(self):
        out = []
        c = self
        while c is not None:
            if c.inst is not None:
                out.append('%s:%s' % (c.parent.fn.name, c.inst.line))
            c = c.parent
        return list(reversed(out))


ALLOCS = {'WSS_malloc': True, 'WSS_calloc': True, 'malloc': False, 'calloc': True, 'rpmalloc': False,
          'rpcalloc': True, 'WSS_copy': False, 'strdup': False}
FROUND = {'ceil': math.ceil, 'floor': math.floor, 'llvm.ceil.f64': math.ceil, 'llvm.floor.f64': math.floor}
FREES = {'free', 'rpfree', 'WSS_free_normal'}
PURE = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strcspn', 'strspn', 'atoi', 'tolower',
        'toupper', 'log10', 'pow', 'htons', 'ntohs', 'htonl', 'ntohl', 'strerror', 'printf', 'puts', 'fprintf', 'rand',
        'isspace', 'isdigit', 'log_log', '__errno_location', '__ctype_b_loc', 'pthread_self', 'abs', 'putchar', 'fputs',
        'llvm.expect.i64', 'srand', 'ERR_get_error', 'ERR_reason_error_string', 'SSL_get_error', 'close', 'nanosleep',
        'write', 'send', 'SSL_write', 'llvm.bswap.i16', 'llvm.bswap.i32', 'llvm.bswap.i64', 'strchr', 'strstr',
        'strrchr', 'memchr', 'access', 'fopen', 'fclose', 'perror', 'inet_addr', 'usleep', 'sleep', 'epoll_ctl'}
NORETURN = {'exit', 'abort', '_exit', 'pthread_exit', '__assert_fail', 'siglongjmp', 'longjmp', 'quick_exit'}
LOCKRET = {'pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_mutex_unlock',
           'pthread_rwlock_unlock', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_wait',
           'pthread_mutex_trylock'}


class Monitor:
    """typestate automaton plugged into the interpreter"""
    name = '?'
    names = frozenset()      # call names that are events
    K = 10
    KHEAD = 2
    KRET = 6
    OOM = True
    # can taking a lock fail?
    LOCKFAIL = True
    # session fields another thread (or a plugin callback) may change at an indirect call
    volatile = ()

    def init(self):
        return None

    def relevant_fn(self, prog, f):
        """does the own body of f contain an event?"""
        r = self._rel.get(f) if hasattr(self, '_rel') else None
        if r is None:
            if not hasattr(self, '_rel'):
                self._rel = {}
            r = self._relevant(prog, f)
            self._rel[f] = r
        return r

    def _relevant(self, prog, f):
        c, t = prog.direct(f)
        if any(n in self.names for n in c):
            return True
        return any(self.interesting(prog, f, ins) for bn in f.order for ins in f.blocks[bn].insts)

    def interesting(self, prog, f, ins):
        return False

    inline_always = frozenset()
    inline_never = frozenset()

    def inline(self, itp, f):
        if f.cname in self.inline_never or f.name in self.inline_never:
            return False
        if f.cname in self.inline_always or f.name in self.inline_always:
            return True
        r = itp.inl.get(f)
        if r is None:
            r = any(self.relevant_fn(itp.prog, g) for g in itp.prog.reach(f)[1])
            if not r:
                n = sum(len(b.insts) for b in f.blocks.values())
                r = n <= 40 and len(itp.prog.reach(f)[1]) <= 3
            itp.inl[f] = r
        return r

    # functions analysed modularly: once per (arguments, monitor state), not per caller memory
    MODSIZE = 150
    MODINT = False
    full = frozenset()

    def modular(self, itp, g):
        if g.cname in self.full or g.name in self.full or (g.internal and not self.MODINT):
            return False
        r = itp.modl.get(g)
        if r is None:
            n = sum(sum(len(b.insts) for b in h.blocks.values()) for h in itp.prog.reach(g)[1])
            r = itp.modl[g] = n > self.MODSIZE
        return r

    # hooks; return None for default handling or a list of (ret, state)
    def call(self, itp, st, ins, name, args, ctx):
        return None

    def post_call(self, itp, st, ins, name, args, ret, ctx):
        pass

    def icall(self, itp, st, ins, callee, args, ctx):
        return None

    def load(self, itp, st, ins, p, v, ctx):
        pass

    def store(self, itp, st, ins, p, v, ctx):
        pass

    def branch(self, itp, st, ins, cond, taken, ctx):
        pass

    def ret(self, itp, st, ins, val, ctx):
        """root return"""

    def fret(self, itp, st, ins, val, ctx, f):
        """any function return"""

    def noreturn(self, itp, st, ins, name, ctx):
        pass

    def deref(self, itp, st, ins, p, ctx):
        pass

    def alloc(self, itp, st, ins, obj, ctx):
        pass

    def local(self, itp, st, ins, obj, ctx):
        pass

    def vector(self, itp, st, ins, args, ctx):
        """value of an operation on vectors"""
        return None

    def rename(self, mon, sub):
        return mon

    def edge(self, itp, st, f, dst, ctx):
        """control goes to another block"""

    def changes(self, p):
        """other threads change this location at any time"""
        return False

    def group(self, st):
        """states of different groups are never joined"""
        return self.monkey(st.mon)

    def monkey(self, mon):
        return mon


def vbits(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 'p'
    return None


class Interp:
    def __init__(self, prog, mon, budget=3000000):
        self.prog = prog
        self.mon = mon
        self.inl = {}
        self.modl = {}
        self.memo = {}
        self.steps = 0
        self.blocks_seen = set()
        self.calls_seen = set()
        self.funcs_seen = set()
        self.reports = {}
        self.budget = budget
        self.deadline = START + DEADLINE
        self._loops = {}
        self._vt = {}
        self._alias_cls = {}
        self.summaries = set()

    # -- reporting
    def report(self, rule, ins, ctx, msg, st=None, key=None):
        f = ins.fn if ins is not None else ctx.fn
        k = (rule, f.name, key if key is not None else (ins.line if ins is not None else None))
        if k in self.reports:
            return
        trail = []
        t = st.trail if st is not None else None
        while t is not None and len(trail) < 40:
            trail.append(t[1])
            t = t[0]
        trail.reverse()
        self.reports[k] = dict(rule=rule, file=f.file, line=ins.line if ins is not None else f.line, function=f.name,
                               entry=self.entry, calls=ctx.path() if ctx else [], message=msg, branches=trail[-40:])

    # -- roots
    def run_root(self, f, args=None, setup=None, mon=None):
        if isinstance(f, str):
            f = self.prog.need(f)
        ctx = Ctx(None, None, f)
        self.entry = f.name
        st = State()
        st.env, st.mem, st.facts, st.preds = {}, {}, {}, {}
        st.mon = self.mon.init() if mon is None else mon
        st.trail = None
        st.aux = None
        if args is None:
            args = [None] * len(f.params)
        vals = []
        for i, a in enumerate(args):
            if a is None:
                a = V('s', (ctx, ('arg', f.name, i, i)), 'arg%d' % i, 0, vbits(f.ptypes[i]))
                if f.ptypes[i][0] == 'ptr':
                    st.facts[a] = NONNULL
            vals.append(a)
        if setup:
            setup(self, st, vals, ctx)
        res = self.run(f, vals, st, ctx)
        for rv, s in res:
            self.mon.ret(self, s, None, rv, ctx)
        return res

    # -- loops
    def loop(self, f, h):
        r = self._loops.get((f, h))
        if r is None:
            preds = {}
            for b in f.order:
                for s in f.blocks[b].succs:
                    preds.setdefault(s, []).append(b)
            body = {h}
            st = [p for p in preds.get(h, ()) if p in f.rpo and f.rpo[p] >= f.rpo[h]]
            while st:
                b = st.pop()
                if b in body:
                    continue
                body.add(b)
                st.extend(p for p in preds.get(b, ()) if p in f.rpo)
            r = self._loops[(f, h)] = frozenset(body)
        return r

    def vtypes(self, f):
        r = self._vt.get(f)
        if r is None:
            r = {}
            for p, t in zip(f.params, f.ptypes):
                r[p] = t
            for bn in f.order:
                for ins in f.blocks[bn].insts:
                    if ins.res is not None:
                        r[ins.res] = ins.ty
            self._vt[f] = r
        return r

    def age(self, st, ctx, f, body, head=None):
        """back edge: symbols defined in the loop body become 'old'"""
        cache = {}

        def inloop(v):
            r = cache.get(v)
            if r is None:
                c, iid = v.a[0], v.a[1]
                r = False
                while c is not None:
                    if c is ctx:
                        r = iid[1] == f.name and iid[2] in body
                        break
                    if c.parent is ctx:
                        r = c.inst.block in body and c.inst.fn is f
                        break
                    c = c.parent
                cache[v] = r
            return r

        def livesyms(skip=None):
            live = set()
            for v in st.env.values():
                if v is not skip:
                    live |= syms(v)
            for k, v in st.mem.items():
                live |= syms(k) if k.k != 'Z' else syms(k.a)
                live |= syms(v)
            live |= set(self.mon.mon_syms(st.mon) if hasattr(self.mon, 'mon_syms') else ())
            return live

        def about(k):
            return syms(k[1]) | syms(k[2]) if isinstance(k, tuple) else syms(k)

        live = livesyms()
        present = set(live)
        for k in st.facts:
            present |= syms(k)
        for k in st.preds:
            present |= about(k)
        cur = [s for s in present if s.c == 0 and inloop(s)]
        if not cur:
            return
        m = {s: V(s.k, s.a, s.b, 1, s.d) for s in cur}
        # a value computed from several iterations gets a name of its own
        named = {}
        vt = self.vtypes(f)
        cand = list(st.env.items()) + [(k, v) for k, v in st.mem.items() if k.k == 'o']
        for name, v in cand:
            if v.k != 'e' or not any(s in m and m[s] in live for s in syms(v)):
                continue
            if v not in named:
                p = V('s', (ctx, ('A', head, name)), 'aged', 1, vbits(vt[name]) if vt.get(name) else None)
                if p in livesyms(v):
                    continue
                r = st.rng(v)
                pr = {}
                for k, t in st.preds.items():
                    if isinstance(k, tuple) and (k[1] is v) != (k[2] is v):
                        o = k[2] if k[1] is v else k[1]
                        if p not in syms(o):
                            pr[(k[0], p, o) if k[1] is v else (k[0], o, p)] = t
                st.facts = {k: x for k, x in st.facts.items() if p not in syms(k)}
                st.preds = {k: x for k, x in st.preds.items() if p not in about(k)}
                st.preds.update(pr)
                if r != TOP:
                    st.facts[p] = r
                named[v] = p
            if name in st.env:
                st.env[name] = named[v]
        if named:
            for k, v in st.mem.items():
                if v in named:
                    st.mem[k] = named[v]
            live = livesyms()
        conf, dead = set(), set()
        for o in m.values():
            if o in live:
                conf.add(o)
            elif o in present:
                dead.add(o)
        if dead:
            # of the iteration before the last, and no longer used
            st.facts = {k: x for k, x in st.facts.items() if not syms(k) & dead}
            st.preds = {k: x for k, x in st.preds.items() if not about(k) & dead}
        self.subst(st, m, conf)

    def subst(self, st, m, conf=frozenset()):
        memo = {}
        keys = frozenset(m)

        def sub(v):
            if not isinstance(v, engine.Val):
                return v
            if v in m:
                return m[v]
            if v.k in ('c', 'G', 'fn', 's', 'o'):
                return v
            r = memo.get(v)
            if r is None:
                if v.k == 'Z':
                    r = V('Z', sub(v.a))
                elif not (syms(v) & keys):
                    r = v
                elif v.k == 'F':
                    r = F(sub(v.a), v.b, v.c)
                elif v.k == 'I':
                    r = I(sub(v.a), sub(v.b), v.c)
                else:
                    r = V('e', v.a, sub(v.b), sub(v.c) if v.c is not None else None, v.d)
                memo[v] = r
            return r

        st.env = {k: sub(v) for k, v in st.env.items()}
        mem = {}
        for k, v in st.mem.items():
            nk = sub(k)
            ks = syms(nk.a) if nk.k == 'Z' else syms(nk)
            if ks & conf:
                continue
            if any(s.c and s.k == 's' for s in ks) and nk is not k:
                continue
            mem[nk] = sub(v)
        st.mem = mem
        fa = {}
        for k, f in st.facts.items():
            nk = sub(k)
            if syms(nk) & conf:
                if nk in fa or True:
                    continue
            fa[nk] = f
        st.facts = fa
        pr = {}
        for k, t in st.preds.items():
            if isinstance(k, tuple):
                a, b = sub(k[1]), sub(k[2])
                if (syms(a) | syms(b)) & conf:
                    continue
                pr[(k[0], a, b)] = t
            else:
                nk = sub(k)
                if syms(nk) & conf:
                    continue
                pr[nk] = t
        st.preds = pr
        st.mon = self.mon.rename(st.mon, sub)

    # -- joins
    def join(self, A, B, jk, widen, vt):
        """least general state covering both; jk identifies the join point"""
        R = State()
        R.mon, R.aux, R.trail = A.mon, A.aux, A.trail
        R.facts, R.preds = {}, {}
        pairs = {}
        invA, invB = {}, {}

        def phi(name, a, b, bits):
            if a is b:
                return a
            p = pairs.get((a, b))
            if p is None:
                if bits is None:
                    bits = a.d if a.k == 's' else (b.d if b.k == 's' else None)
                p = V('s', (jk[0], ('J', jk[2], jk[1], name)), 'join', 0, bits)
                pairs[(a, b)] = p
                fa, fb = A.rng(a), B.rng(b)
                f = fjoin(fa, fb)
                if widen and a is p:
                    f = tuple((o if o == n else None) for o, n in zip(fa[:4], f[:4])) + (f[4],)
                if bits == 1 and f == TOP:
                    t = A.truth(a)
                    if t is not None and t is B.truth(b):
                        f = const_fact(1 if t else 0)
                if f != TOP:
                    R.facts[p] = f
                if a.k != 'c':
                    invA.setdefault(a, p)
                if b.k != 'c':
                    invB.setdefault(b, p)
            return p

        R.env = {}
        for k, a in A.env.items():
            b = B.env.get(k)
            if b is None:
                continue
            t = vt.get(k)
            R.env[k] = phi(k, a, b, vbits(t) if t else None)

        def renamer(inv):
            memo = {}

            def r(v):
                x = inv.get(v)
                if x is not None:
                    return x
                if v.k in ('c', 's', 'o', 'G', 'fn'):
                    return v
                x = memo.get(v)
                if x is None:
                    if v.k == 'Z':
                        x = V('Z', r(v.a))
                    elif v.k == 'F':
                        x = F(r(v.a), v.b, v.c)
                    elif v.k == 'I':
                        x = I(r(v.a), r(v.b), v.c)
                    elif v.k == 'e':
                        x = V('e', v.a, r(v.b), r(v.c) if v.c is not None else None, v.d)
                    else:
                        x = v
                    memo[v] = x
                return x
            return r

        rA, rB = renamer(invA), renamer(invB)

        mA, mB = dict(A.mem), dict(B.mem)
        if invA or invB:
            for k, v in A.mem.items():
                nk = rA(k)
                if nk is not k:
                    mA.setdefault(nk, v)
            for k, v in B.mem.items():
                nk = rB(k)
                if nk is not k:
                    mB.setdefault(nk, v)
        R.mem = {}
        for k, a in mA.items():
            b = mB.get(k)
            if b is None:
                # default-zero object content on the other side
                if k.k != 'Z' and self.zdef(mB, k):
                    b = ZERO
                else:
                    continue
            R.mem[k] = phi(k, a, b, None)
        for k, b in mB.items():
            if k not in mA and k.k != 'Z' and self.zdef(mA, k):
                R.mem[k] = phi(k, ZERO, b, None)
        for k, f in A.facts.items():
            if k in R.facts:
                continue
            g = B.facts.get(k)
            if g is None:
                if k.k == 's' and k.a[1][0] == 'J' and k.a[0] is jk[0] and k.a[1][2] == jk[1]:
                    continue
                g = B.rng(k)
            h = fjoin(f, g)
            if h != TOP:
                R.facts[k] = h
        for k, g in B.facts.items():
            if k not in A.facts and k not in R.facts:
                if k.k == 's' and k.a[1][0] == 'J' and k.a[0] is jk[0] and k.a[1][2] == jk[1]:
                    continue
                h = fjoin(A.rng(k), g)
                if h != TOP:
                    R.facts[k] = h

        def ren_preds(P, r):
            out = dict(P)
            for k, t in P.items():
                nk = (k[0], r(k[1]), r(k[2])) if isinstance(k, tuple) else r(k)
                if nk != k:
                    out.setdefault(nk, t)
            return out

        pA = ren_preds(A.preds, rA) if invA else A.preds
        pB = ren_preds(B.preds, rB) if invB else B.preds
        for k, t in pA.items():
            if pB.get(k) is t:
                R.preds[k] = t
        # relations of one side that the joined values of the other side satisfy too
        back = {}
        fwd = ({}, {})
        for (x, y), p in pairs.items():
            back[p] = (x, y)
            fwd[0].setdefault(x, []).append(p)
            fwd[1].setdefault(y, []).append(p)
        for P, O, i in ((A.preds, B, 0), (B.preds, A, 1)):
            for k, t in P.items():
                if not isinstance(k, tuple):
                    continue
                for x in [k[1]] + fwd[i].get(k[1], []):
                    for y in [k[2]] + fwd[i].get(k[2], []):
                        own = (x in back, y in back)
                        if not any(own) or (k[0], x, y) in R.preds:
                            continue
                        if any(back[z][i] is not o if w else z is not o for z, o, w in ((x, k[1], own[0]), (y, k[2], own[1]))):
                            continue
                        u, v = (back[z][1 - i] if o else z for z, o in ((x, own[0]), (y, own[1])))
                        n = [z.d for z in (x, y) if z.k == 's' and isinstance(z.d, int)]
                        if O.cmp(k[0], u, v, n[0] if n else 64) is t:
                            R.preds[(k[0], x, y)] = t
        return R

    def zdef(self, mem, k):
        q = k
        while q.k in ('F', 'I'):
            q = q.a
            if V('Z', q) in mem:
                return True
        return False

    def covered(self, G, S, jk):
        """general state G (with join symbols of point jk) covers S"""
        if G.mon != S.mon or G.aux != S.aux:
            return False
        m = {}

        def isj(v):
            return v.k == 's' and v.a[0] is jk[0] and v.a[1][0] == 'J' and v.a[1][2] == jk[1] and v.c == 0

        for k, g in G.env.items():
            s = S.env.get(k)
            if s is g:
                continue
            if s is None or not isj(g):
                return False
            if m.get(g, s) is not s:
                return False
            m[g] = s
        memo = {}

        def sub(v):
            x = m.get(v)
            if x is not None:
                return x
            if v.k in ('c', 's', 'o', 'G', 'fn'):
                return v
            x = memo.get(v)
            if x is None:
                if v.k == 'Z':
                    x = V('Z', sub(v.a))
                elif v.k == 'F':
                    x = F(sub(v.a), v.b, v.c)
                elif v.k == 'I':
                    x = I(sub(v.a), sub(v.b), v.c)
                elif v.k == 'e':
                    x = V('e', v.a, sub(v.b), sub(v.c) if v.c is not None else None, v.d)
                else:
                    x = v
                memo[v] = x
            return x

        pend = []
        for k, g in G.mem.items():
            nk = sub(k)
            s = S.mem.get(nk)
            if s is None:
                if k.k != 'Z' and self.zdef(S.mem, nk):
                    s = ZERO
                else:
                    return False
            if s is g:
                continue
            if isj(g):
                if m.get(g, s) is not s:
                    return False
                m[g] = s
                memo.clear()
            else:
                pend.append((g, s))
        for g, s in pend:
            if sub(g) is not s:
                return False
        for k, f in G.facts.items():
            if not fcover(f, S.rng(sub(k))):
                return False
        for k, t in G.preds.items():
            nk = (k[0], sub(k[1]), sub(k[2])) if isinstance(k, tuple) else sub(k)
            if nk in S.preds:
                if S.preds[nk] is not t:
                    return False
                continue
            if isinstance(nk, tuple):
                p = {'eq': 'eq', 'ult': 'ult', 'slt': 'slt'}[nk[0]]
                if S.cmp(p, nk[1], nk[2], 64) is not t:
                    return False
            else:
                return False
        return True

    def gc(self, st, keep):
        """drop facts about symbols nothing refers to any more"""
        live = set(keep)
        for v in st.env.values():
            live |= syms(v)
        for k, v in st.mem.items():
            live |= syms(k.a if k.k == 'Z' else k)
            live |= syms(v)
        if hasattr(self.mon, 'mon_syms'):
            live |= set(self.mon.mon_syms(st.mon))
        st.facts = {k: f for k, f in st.facts.items() if syms(k) <= live}
        pr = {}
        for k, t in st.preds.items():
            s = (syms(k[1]) | syms(k[2])) if isinstance(k, tuple) else syms(k)
            if s <= live:
                pr[k] = t
        st.preds = pr

    # -- function fixpoint
    def run(self, f, args, st, ctx, keep=frozenset()):
        self.funcs_seen.add(f.cname)
        st.env = {p: a for p, a in zip(f.params, args)}
        vt = self.vtypes(f)
        pending = {f.entry: [st]}
        heap = [(f.rpo[f.entry], f.entry)]
        seen = {}
        acc = {}
        njoin = {}
        results = []
        while heap:
            _, bn = heapq.heappop(heap)
            states = pending.pop(bn, None)
            if not states:
                continue
            jk = (ctx, bn, f.name)
            head = any(p_ in f.rpo and f.rpo[p_] >= f.rpo[bn] for p_ in self.predmap(f).get(bn, ()))
            multi = len(self.predmap(f).get(bn, ())) > 1
            K = self.mon.KHEAD if head else self.mon.K
            work = []
            for s in states:
                if multi:
                    live = f.livein[bn]
                    phis = [i.res for i in f.blocks[bn].insts if i.op == 'phi']
                    s.env = {k: v for k, v in s.env.items() if k in live or k in phis}
                    self.gc(s, keep)
                mk = self.mon.group(s)
                lst = seen.setdefault(bn, {}).setdefault(mk, [])
                ak = (bn, mk)
                if not multi:
                    work.append(s)
                    continue
                G = acc.get(ak)
                if G is not None and self.covered(G, s, jk):
                    continue
                if any(o.subsumes(s) for o in lst):
                    continue
                if len(lst) < K:
                    lst.append(s.copy())
                    work.append(s)
                    continue
                n = njoin[ak] = njoin.get(ak, 0) + 1
                if G is None:
                    # at a loop head the general state must cover the unrolled ones
                    G = self.join(lst[-1], s, jk, False, vt) if head else s
                else:
                    G = self.join(G, s, jk, head and n > 2, vt)
                acc[ak] = G
                if ak not in work:
                    work.append(ak)
            for w in work:
                if isinstance(w, tuple):
                    w = acc[w].copy()
                self.exec_block(f, bn, w, ctx, pending, heap, results, keep)
        return self.merge_results(results, f, ctx, keep)

    def predmap(self, f):
        r = self._loops.get(('p', f))
        if r is None:
            r = {}
            for b in f.order:
                for s in f.blocks[b].succs:
                    r.setdefault(s, []).append(b)
            self._loops[('p', f)] = r
        return r

    def merge_results(self, results, f, ctx, keep):
        groups = {}
        jk = (ctx, '$ret', f.name)
        vt = {'$ret': f.ret}
        for rv, s in results:
            s.env = {} if rv is None else {'$ret': rv}
            # locals of this activation die
            dead = [k for k in s.mem if self.local_to(k, ctx)]
            for k in dead:
                del s.mem[k]
            self.gc(s, keep)
            c = None
            if rv is not None:
                c = s.const(rv)
                if c is None:
                    c = ('nn',) if s.nonnull(rv) else ('?',)
            groups.setdefault((self.mon.group(s), c), []).append(s)
        out = []
        for g, lst in groups.items():
            keepl = []
            for s in lst:
                if any(o.subsumes(s) for o in keepl):
                    continue
                keepl = [o for o in keepl if not s.subsumes(o)]
                keepl.append(s)
            if len(keepl) > self.mon.KRET:
                a = keepl[0]
                for b in keepl[1:]:
                    a = self.join(a, b, jk, False, vt)
                keepl = [a]
            for s in keepl:
                out.append((s.env.get('$ret'), s))
        return out

    def local_to(self, k, ctx):
        r = root(k.a if k.k == 'Z' else k)
        return r.k == 'o' and r.b == 'alloca' and r.a[0] is ctx

    # -- one block
    def exec_block(self, f, bn, st, ctx, pending, heap, results, keep):
        insts = f.blocks[bn].insts
        self.blocks_seen.add((f.cname, bn))
        stack = [(0, st)]
        while stack:
            i, st = stack.pop()
            n = len(insts)
            while i < n:
                ins = insts[i]
                self.steps += 1
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op == 'call':
                    r = self.do_call(f, ins, st, ctx, keep)
                    if r is None:
                        i += 1
                        continue
                    # list of states
                    for s in r[1:]:
                        stack.append((i + 1, s))
                    if not r:
                        break
                    st = r[0]
                    i += 1
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable'):
                    self.terminator(f, bn, ins, st, ctx, pending, heap, results)
                    break
                if op == 'select':
                    c = self.ev(f, ins.args[0][1], st, ctx)
                    t = st.truth(c)
                    a = self.ev(f, ins.args[1][1], st, ctx)
                    b = self.ev(f, ins.args[2][1], st, ctx)
                    if t is None and a is not b:
                        s2 = st.copy()
                        if s2.assume(c, False):
                            s2.env[ins.res] = b
                            stack.append((i + 1, s2))
                        if not st.assume(c, True):
                            break
                        t = True
                    st.env[ins.res] = a if t or t is None else b
                    i += 1
                    continue
                try:
                    self.simple(f, ins, st, ctx)
                except PathEnd:
                    break
                i += 1
        if self.steps > self.budget or time.time() > self.deadline:
            raise AnalysisError('step budget exceeded in %s (entry %s)' % (f.name, self.entry))

    def ev(self, f, x, st, ctx, ty=None):
        k = x[0]
        if k == 'l':
            v = st.env.get(x[1])
            if v is None:
                v = V('s', (ctx, ('undef', f.name, f.entry, x[1])), 'undef', 0, None)
            return v
        if k == 'c':
            return C(x[1])
        if k in ('null', 'zero'):
            return ZERO
        if k == 'g':
            n = x[1]
            fn = f.mod.funcs.get(n)
            if fn is not None:
                return V('fn', fn.cname)
            if n in f.mod.decls:
                return V('fn', n)
            return self.prog.gkey(f.mod, n)
        if k == 'gep':
            b = self.ev(f, x[2], st, ctx)
            return self.gep(b, x[1], [self.ev(f, y, st, ctx) for y in x[3]])
        if k == 'cast':
            return self.ev(f, x[2], st, ctx)
        if k == 'fp':
            try:
                return fval(struct.unpack('>d', bytes.fromhex(x[1][2:]))[0] if x[1].startswith('0x') else float(x[1]))
            except (ValueError, struct.error):
                pass
        return V('s', (ctx, ('undef', f.name, f.entry, 'undef')), 'undef', 0, None)

    def gep(self, p, st, idx):
        p = I(p, idx[0], st)
        t = st
        for v in idx[1:]:
            if t[0] == 'struct':
                n = v.a
                p = F(p, t[1], n)
                s = self.prog.structs.get(t[1])
                t = s[1][n] if s and s[0] == 'lit' and n < len(s[1]) else ('i', 8)
            elif t[0] == 'lit':
                p = F(p, 'lit', v.a)
                t = t[1][v.a]
            elif t[0] in ('arr', 'vec'):
                p = I(p, v, t[2])
                t = t[2]
            else:
                p = I(p, v, t)
        return p

    def sym(self, ins, ctx, prov, ty, extra=None):
        return V('s', (ctx, ins.id) if extra is None else (ctx, ins.id, extra), prov, 0, vbits(ty) if ty else None)

    def fresh(self, st, ins, ctx, prov, ty, extra=None):
        """a new symbol for this site; an older one of the same name (site re-executed without a back edge) is dropped"""
        return self.sym(ins, ctx, prov, ty, extra)

    def simple(self, f, ins, st, ctx):
        op = ins.op
        if op == 'gep':
            b = self.ev(f, ins.args[0][1], st, ctx)
            st.env[ins.res] = self.gep(b, ins.extra, [self.ev(f, a[1], st, ctx) for a in ins.args[1:]])
        elif op == 'load':
            p = self.ev(f, ins.args[0][1], st, ctx)
            self.mon.deref(self, st, ins, p, ctx)
            if self.mon.changes(p):
                v = self.anew(st, p, ins, ctx)
            else:
                v = self.load(st, p, ins, ctx)
            w = self.mon.load(self, st, ins, p, v, ctx)
            st.env[ins.res] = v if w is None else w
        elif op == 'store':
            v = self.ev(f, ins.args[0][1], st, ctx)
            p = self.ev(f, ins.args[1][1], st, ctx)
            self.mon.deref(self, st, ins, p, ctx)
            self.mon.store(self, st, ins, p, v, ctx)
            self.store(st, p, v, ins.args[0][0])
            if self.mon.changes(p):
                st.mem.pop(p, None)
        elif op == 'bin':
            t = ins.args[0][0]
            a = self.ev(f, ins.args[0][1], st, ctx)
            b = self.ev(f, ins.args[1][1], st, ctx)
            if t[0] == 'i':
                ca, cb = st.const(a), st.const(b)
                r = binop(ins.extra, C(ca) if ca is not None and a.k != 'c' else a,
                          C(cb) if cb is not None and b.k != 'c' else b, t[1])
                if r is not None and depth(r) > 6:
                    r = self.abstracted(st, r, ins, ctx)
            else:
                r = fbin(ins.extra, a, b) or self.mon.vector(self, st, ins, [a, b], ctx)
            st.env[ins.res] = r if r is not None else self.sym(ins, ctx, ins.extra, ins.ty)
        elif op == 'icmp':
            t = ins.args[0][0]
            a = self.ev(f, ins.args[0][1], st, ctx)
            b = self.ev(f, ins.args[1][1], st, ctx)
            bits = t[1] if t[0] == 'i' else 64
            if t[0] in ('i', 'ptr'):
                v = icmp(ins.extra, a, b, bits)
                tr = st.truth(v)
                st.env[ins.res] = (ONE if tr else ZERO) if tr is not None else v
            else:
                st.env[ins.res] = self.sym(ins, ctx, 'vcmp', ins.ty)
        elif op == 'cast':
            a = self.ev(f, ins.args[0][1], st, ctx)
            ft, tt = ins.args[0][0], ins.ty
            r = None
            if ft[0] in ('i', 'ptr') and tt[0] in ('i', 'ptr'):
                fb = ft[1] if ft[0] == 'i' else 64
                tb = tt[1] if tt[0] == 'i' else 64
                if a.k == 'e' and a.a == 'icmp' or a.k == 'e' and a.d == 1:
                    tr = st.truth(a)
                    if tr is not None:
                        a = ONE if tr else ZERO
                elif a.k == 'e' and fb <= 32 and st.const(a) is not None:
                    a = C(st.const(a))
                r = cast(ins.extra, a, fb, tb)
                if r is not None and depth(r) > 6:
                    r = self.abstracted(st, r, ins, ctx)
            elif ft[0] == 'vec' and ins.extra == 'bitcast':
                r = a
            else:
                r = fcast(ins.extra, a, st, ft, tt)
            st.env[ins.res] = r if r is not None else self.sym(ins, ctx, ins.extra, ins.ty)
        elif op == 'alloca':
            o = V('o', (ctx, ins.id), 'alloca', 0)
            dead = [k for k in st.mem if root(k.a if k.k == 'Z' else k) is o]
            for k in dead:
                del st.mem[k]
            st.env[ins.res] = o
            self.mon.local(self, st, ins, o, ctx)
        elif op == 'insertelement' or op == 'extractelement':
            r = self.mon.vector(self, st, ins, [self.ev(f, a[1], st, ctx) for a in ins.args], ctx)
            st.env[ins.res] = r if r is not None else self.sym(ins, ctx, op, ins.ty)
        elif op in ('cmpxchg', 'atomicrmw'):
            p = self.ev(f, ins.args[0][1], st, ctx)
            self.mon.deref(self, st, ins, p, ctx)
            v = None
            if op == 'atomicrmw' and ins.extra == 'xchg':
                v = self.ev(f, ins.args[1][1], st, ctx)
            self.mon.store(self, st, ins, p, v, ctx)
            self.kill(st, p)
            r = self.sym(ins, ctx, op, ins.ty)
            if self.mon.changes(p):
                self.unknown(st, r)
                self.mon.load(self, st, ins, p, r, ctx)
            st.env[ins.res] = r
        elif op == 'freeze':
            st.env[ins.res] = self.ev(f, ins.args[0][1], st, ctx)
        elif ins.res is not None:
            st.env[ins.res] = self.sym(ins, ctx, op, ins.ty)

    def abstracted(self, st, r, ins, ctx):
        s = self.sym(ins, ctx, 'expr', ins.ty)
        f = st.rng(r)
        if f != TOP:
            st.facts[s] = f
        else:
            st.facts.pop(s, None)
        return s

    # -- memory
    def load(self, st, p, ins, ctx, ty=None):
        ty = ty or ins.ty
        v = st.mem.get(p)
        if v is not None:
            return v
        if p.k != 'Z' and self.zdef0(st.mem, p):
            return ZERO
        r = root(p)
        if r.k == 'G':
            g = self.prog.gl.get(r)
            if g is not None and g[1] is not None and g[2]:
                c = self.const_load(p, g, r)
                if c is not None:
                    return c
        v = V('s', (ctx, ins.id), p, 0, vbits(ty))
        if p.k == 'F':
            dom = self.prog.fdom.get(p.b, {}).get(p.c)
            if dom:
                lo, hi = dom[0], dom[-1]
                f = (lo, hi, lo if lo >= 0 else None, hi if lo >= 0 else None,
                     frozenset(n for n in range(lo, hi) if n not in dom) if hi - lo < 64 else frozenset())
                st.facts[v] = f
        if not blurry(p):
            st.mem[p] = v
        return v

    def unknown(self, st, v):
        st.facts.pop(v, None)
        for q in [q for q in st.preds if any(v in syms(x) for x in (q[1:] if isinstance(q, tuple) else (q,)))]:
            del st.preds[q]
        for q in [q for q in st.facts if q.k == 'e' and v in syms(q)]:
            del st.facts[q]

    def anew(self, st, p, ins, ctx):
        """value of a location that other threads change at any time"""
        st.mem.pop(p, None)
        v = self.sym(ins, ctx, p, ins.ty)
        self.unknown(st, v)
        return v

    def zdef0(self, mem, p):
        q = p
        while True:
            if V('Z', q) in mem:
                return True
            if q.k not in ('F', 'I'):
                return False
            q = q.a

    def const_load(self, p, g, r):
        path = []
        q = p
        while q is not r:
            path.append(q)
            q = q.a
        path.reverse()
        x = g[1]
        for e in path:
            if e.k == 'F':
                i = e.c
            elif e.b.k == 'c':
                i = e.b.a
            else:
                return None
            if x[0] == 'agg' and 0 <= i < len(x[1]):
                x = x[1][i][1]
            elif x[0] == 'str':
                b = ir.cstr(x[1])
                if 0 <= i < len(b):
                    x = ('c', sgn(b[i], 8))
                else:
                    return None
            elif x[0] == 'zero':
                pass
            else:
                return None
        if x[0] == 'c':
            return C(x[1])
        if x[0] in ('null', 'zero'):
            return ZERO
        if x[0] == 'g':
            m = [m for m in self.prog.mods if m.name == r.a] or self.prog.mods
            for mm in m:
                if x[1] in mm.funcs:
                    return V('fn', mm.funcs[x[1]].cname)
                if x[1] in mm.globals:
                    return self.prog.gkey(mm, x[1])
            return V('fn', x[1])
        return None

    def cls(self, p, ty):
        if p.k == 'F':
            return ('F', p.b, p.c)
        if p.k == 'I':
            return ('I', p.c)
        if p.k == 'G':
            return ('G', p.b)
        return ('S', None)

    def store(self, st, p, v, ty):
        self.alias_kill(st, p)
        if not blurry(p):
            st.mem[p] = v

    def alias_kill(self, st, p):
        c = self.cls(p, None)
        rp = root(p)
        dead = None
        for q in st.mem:
            if q is p or q.k == 'Z':
                continue
            if p.k == 'F' and (q.k != 'F' or q.c != p.c or q.b != p.b):
                # a longer path below p? (struct store) - not produced by scalar stores
                continue
            if p.k == 'I':
                if q.k != 'I' or q.c != p.c:
                    # element 0 of an array has the array's own address
                    if not (root(q) is rp and q.k != 'F'):
                        continue
            if p.k not in ('F', 'I'):
                if q.k == 'F' or (q.k == 'I' and root(q) is not rp):
                    continue
            rq = root(q)
            if rq is rp:
                if self.distinct(p, q):
                    continue
            else:
                if rp.k == 'G' or (rp.k == 'o' and not rp.c):
                    continue
                if rq.k == 'G' or (rq.k == 'o' and not rq.c):
                    continue
                if (p.k not in ('F', 'I') or q.k not in ('F', 'I')) and not (p.k == 's' and q.k == 's'):
                    continue
            if dead is None:
                dead = []
            dead.append(q)
        if dead:
            for q in dead:
                del st.mem[q]

    def distinct(self, p, q):
        """same root: definitely different locations?"""
        a, b = [], []
        while p.k in ('F', 'I'):
            a.append(p)
            p = p.a
        while q.k in ('F', 'I'):
            b.append(q)
            q = q.a
        a.reverse()
        b.reverse()
        n = max(len(a), len(b))
        for i in range(n):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x is None or y is None:
                z = x or y
                if z.k == 'I' and z.b.k == 'c' and z.b.a != 0:
                    return True
                if z.k == 'F':
                    return False
                return False
            if x is y:
                continue
            if x.k == 'F' and y.k == 'F':
                if x.b == y.b and x.c != y.c:
                    return True
                if x.b == y.b and x.c == y.c:
                    continue
                return False
            if x.k == 'I' and y.k == 'I' and x.c == y.c:
                if x.b is y.b and not blurry(x.b):
                    continue
                if x.b.k == 'c' and y.b.k == 'c':
                    return True
                a0, ca = engine.split_add(x.b)
                b0, cb = engine.split_add(y.b)
                if a0 is b0 and ca != cb and not blurry(a0):
                    return True
                return False
            # a field of element 0 and another element
            e, g = (x, y) if x.k == 'I' else (y, x)
            if e.k == 'I' and g.k == 'F' and e.b.k == 'c' and e.b.a != 0 and e.c == ('struct', g.b):
                return True
            return False
        return False

    def kill(self, st, p):
        """contents of *p and everything below become unknown"""
        dead = []
        for q in st.mem:
            x = q.a if q.k == 'Z' else q
            while True:
                if x is p:
                    dead.append(q)
                    break
                if x.k not in ('F', 'I'):
                    break
                x = x.a
        if self.zdef0(st.mem, p):
            # must not fall back to the zero default
            r = p
            while True:
                z = V('Z', r)
                if z in st.mem:
                    dead.append(z)
                if r.k not in ('F', 'I'):
                    break
                r = r.a
        for q in set(dead):
            st.mem.pop(q, None)

    def havoc_args(self, st, args):
        for a in args:
            if a is None or a.k == 'c':
                continue
            r = root(a)
            if r.k == 'o' and r.b == 'alloca':
                self.kill(st, a if a.k == 'F' else r)
            elif a.k in ('I', 'F'):
                self.kill(st, a)
            elif r.k == 'o':
                self.kill(st, a)

    def havoc_classes(self, st, classes, args):
        roots = {root(a) for a in args if a is not None}
        dead = set()
        hasS = {c[1] for c in classes if c[0] == 'S'}
        memc = any(c[0] == 'mem' for c in classes)
        for q in st.mem:
            if q.k == 'Z':
                r = root(q.a)
                if r in roots:
                    dead.add(q)
                continue
            r = root(q)
            if r.k == 'o' and r.b == 'alloca' and r not in roots:
                continue
            c = self.cls(q, None)
            if c in classes or ('mem',) + c in classes:
                dead.add(q)
            elif c[0] == 'I' and ('mem',) + c in classes:
                dead.add(q)
            elif c[0] == 'S' and hasS:
                dead.add(q)
            elif c[0] == 'G' and c in classes:
                dead.add(q)
            elif r in roots and r.k == 'o' and (hasS or memc) and c[0] != 'F':
                dead.add(q)
            elif c[0] == 'F' and hasS and any(root(a) is r and a is q for a in args if a is not None):
                dead.add(q)
        for q in dead:
            st.mem.pop(q, None)

    # -- calls
    def do_call(self, f, ins, st, ctx, keep):
        """None: handled in place; else list of successor states"""
        x = ins.extra
        args = [self.ev(f, a[1], st, ctx) for a in ins.args]
        if x[0] == 'asm':
            if ins.res:
                st.env[ins.res] = self.sym(ins, ctx, 'asm', ins.ty)
            return None
        cv = self.ev(f, x, st, ctx)
        if cv.k == 'fn':
            name = cv.a
        else:
            name = None
        self.calls_seen.add(ins.id)
        if name is not None and name.startswith('llvm.') and not name.startswith('llvm.mem'):
            if name.startswith('llvm.expect'):
                st.env[ins.res] = args[0]
            elif name in FROUND and args and fconst(args[0]) is not None:
                st.env[ins.res] = fval(float(FROUND[name](fconst(args[0]))))
            elif name.startswith(('llvm.fmuladd.', 'llvm.fma.')) and all(fconst(a) is not None for a in args[:3]):
                x = [fconst(a) for a in args]
                st.env[ins.res] = fval(x[0] * x[1] + x[2])
            elif ins.res:
                st.env[ins.res] = self.sym(ins, ctx, name, ins.ty)
            return None
        if name is None:
            r = self.mon.icall(self, st, ins, cv, args, ctx)
            if r is None:
                r = self.default_icall(st, ins, cv, args, ctx)
            return self.finish(ins, r)
        r = self.mon.call(self, st, ins, name, args, ctx)
        if r is not None:
            return self.finish(ins, r)
        if name in NORETURN:
            self.mon.noreturn(self, st, ins, name, ctx)
            return []
        r = self.model(f, st, ins, name, args, ctx)
        if r is None:
            g = self.prog.funcs.get(name)
            if g is not None:
                if self.mon.inline(self, g) and not ctx.has(g) and ctx.depth < 14:
                    if self.mon.modular(self, g):
                        r = self.modular_call(st, ins, g, args, ctx)
                    else:
                        r = self.inline_call(f, st, ins, g, args, ctx, keep)
                else:
                    r = self.summary_call(st, ins, g, args, ctx)
            else:
                if name not in PURE:
                    self.havoc_args(st, args)
                r = [(self.retsym(st, ins, ctx, name), st)]
        for rv, s in r:
            self.mon.post_call(self, s, ins, name, args, rv, ctx)
        return self.finish(ins, r)

    def retsym(self, st, ins, ctx, name):
        if ins.res is None:
            return None
        s = self.sym(ins, ctx, name + '()', ins.ty)
        st.facts.pop(s, None)
        return s

    def finish(self, ins, r):
        out = []
        for rv, s in r:
            if ins.res is not None:
                if rv is None:
                    rv = V('s', ('x', ins.id), 'void', 0, None)
                s.env[ins.res] = rv
            out.append(s)
        return out

    def default_icall(self, st, ins, cv, args, ctx):
        self.havoc_args(st, args)
        self.havoc_volatile(st)
        return [(self.retsym(st, ins, ctx, desc(cv)), st)]

    def havoc_volatile(self, st):
        vs = self.mon.volatile
        if vs:
            for q in [q for q in st.mem if q.k == 'F' and (q.b, q.c) in vs]:
                del st.mem[q]

    def inline_call(self, f, st, ins, g, args, ctx, keep):
        env = st.env
        k2 = set(keep)
        for v in env.values():
            k2 |= syms(v)
        c2 = ctx.child(ins, g)
        # missing/extra args (K&R style prototypes)
        a2 = list(args[:len(g.params)])
        while len(a2) < len(g.params):
            a2.append(self.sym(ins, ctx, 'noarg', None, len(a2)))
        s = st.copy()
        # activation records of an earlier call from the same site are gone
        res = self.run(g, a2, s, c2, frozenset(k2))
        out = []
        for rv, s in res:
            s.env = dict(env)
            self.mon.fret(self, s, ins, rv, c2, g)
            out.append((rv, s))
        return out

    def modular_call(self, st, ins, g, args, ctx):
        a2 = []
        ents = {}
        facts = {}
        for i in range(len(g.params)):
            a = args[i] if i < len(args) else self.sym(ins, ctx, 'noarg', None, i)
            c = st.const(a)
            if c is not None:
                a = C(c)
            a2.append(a)
            if a.k == 'c':
                continue
            fa = st.rng(a)
            if g.ptypes[i][0] == 'ptr':
                if fexcl(fa, 0):
                    facts[a] = NONNULL
            r = root(a)
            if r.k == 'o' and r.b == 'alloca':
                for k, v in st.mem.items():
                    kk = k.a if k.k == 'Z' else k
                    if root(kk) is r:
                        ents[k] = v
                        if v.k not in ('c', 'o', 'fn', 'G') and fexcl(st.rng(v), 0):
                            facts[v] = NONNULL
        extra = self.mon.project(self, st, g, a2) if hasattr(self.mon, 'project') else None
        if extra:
            ents.update(extra)
        for k, v in ents.items():
            if v.k not in ('c', 'fn', 'G'):
                c = st.const(v)
                if c is not None:
                    ents[k] = C(c)
                elif extra and k in extra and fexcl(st.rng(v), 0):
                    facts[v] = NONNULL
        key = (g, tuple(a2), st.mon, tuple(sorted(((k.n, v.n) for k, v in ents.items()))),
               tuple(sorted((k.n, f[2] == 1) for k, f in facts.items())))
        res = self.memo.get(key)
        c2 = ctx.child(ins, g)
        if res is None:
            s = State()
            s.env, s.mem, s.facts, s.preds = {}, dict(ents), dict(facts), {}
            s.mon, s.aux, s.trail = st.mon, st.aux, st.trail
            k2 = set()
            for a in a2:
                k2 |= syms(a)
            rr = self.run(g, a2, s, c2, frozenset(k2))
            res = {}
            roots = {root(k.a if k.k == 'Z' else k) for k in ents} | {root(a) for a in a2 if root(a).k == 'o' and root(a).b == 'alloca'}
            for rv, s in rr:
                rc = None
                if rv is not None:
                    c = s.const(rv)
                    if c is not None:
                        rc = ('c', c)
                    elif rv.k == 'fn' or (root(rv).k in ('s', 'o') and any(root(rv) is root(a) for a in a2)):
                        rc = ('v', rv)
                    elif rv.k != 'c' and self.mon_mentions(s.mon, rv):
                        rc = ('m', s.rng(rv), rv)
                    else:
                        rc = ('f', s.rng(rv))
                outm = []
                for k, v in s.mem.items():
                    kk = k.a if k.k == 'Z' else k
                    if k in ents or root(kk) in roots and root(kk).k == 'o' and root(kk).b == 'alloca':
                        c = s.const(v)
                        if c is not None:
                            outm.append((k, ('c', c)))
                        elif ents.get(k) is v:
                            outm.append((k, ('v', v)))
                        else:
                            outm.append((k, ('f', s.rng(v), v)))
                outm.sort(key=lambda x: x[0].n)
                rk = (s.mon, rc, tuple(outm))
                if rk not in res:
                    res[rk] = s.trail
            res = [(m, rc, om, tr) for (m, rc, om), tr in res.items()]
            self.memo[key] = res
        out = []
        n = len(res)
        for j, (m, rc, om, tr) in enumerate(res):
            s = st if j == n - 1 else st.copy()
            self.havoc_classes(s, self.prog.modset(g), a2)
            s.mon = m
            if tr is not None:
                s.trail = tr
            for k in [k for k in s.mem if k in ents]:
                s.mem.pop(k, None)
            for i, (k, v) in enumerate(om):
                if v[0] == 'c':
                    s.mem[k] = C(v[1])
                elif v[0] == 'v':
                    s.mem[k] = v[1]
                else:
                    x = V('s', (ctx, ins.id, ('out', i)), k, 0, v[2].d if v[2].k == 's' else None)
                    s.facts[x] = v[1]
                    s.mem[k] = x
            rv = None
            if rc is not None:
                if rc[0] == 'c':
                    rv = C(rc[1])
                elif rc[0] == 'v':
                    rv = rc[1]
                else:
                    rv = self.retsym(s, ins, ctx, g.name) if ins.res is not None else None
                    if rv is not None and rc[1] != TOP:
                        s.facts[rv] = rc[1]
                    if rv is not None and rc[0] == 'm':
                        # the monitor knows the returned value by the callee's name
                        m_ = {rc[2]: rv}
                        memo_ = {}
                        s.mon = self.mon.rename(s.mon, lambda v: engine.subst_val(v, m_, memo_))
            self.mon.fret(self, s, ins, rv, c2, g)
            out.append((rv, s))
        return out

    def mon_mentions(self, mon, v):
        probe = V('s', ('probe', 0), 'probe', 0, None)
        memo = {}
        return self.mon.rename(mon, lambda x: engine.subst_val(x, {v: probe}, memo)) != mon

    def summary_call(self, st, ins, g, args, ctx):
        self.summaries.add(g.cname)
        self.havoc_classes(st, self.prog.modset(g), args)
        rv = None
        if ins.res is not None:
            rv = self.retsym(st, ins, ctx, g.name)
            rs = self.ret_consts(g)
            if rs is not None and rs:
                fa = None
                for n in rs:
                    c = const_fact(n, 32)
                    fa = c if fa is None else fjoin(fa, c)
                st.facts[rv] = fa
        return [(rv, st)]

    def ret_consts(self, g):
        r = self.prog._rets.get(g, 0)
        if r != 0:
            return r
        vals = set()
        ok = True
        types = {}
        for bn in g.order:
            for i in g.blocks[bn].insts:
                if i.res is not None:
                    types[i.res] = i

        def walk(v, d):
            nonlocal ok
            if v[0] == 'c':
                vals.add(v[1])
            elif v[0] == 'null':
                vals.add(0)
            elif v[0] == 'l' and v[1] in types and types[v[1]].op == 'phi' and d < 6:
                for _, y in types[v[1]].extra:
                    walk(y, d + 1)
            else:
                ok = False
        for bn in g.order:
            for i in g.blocks[bn].insts:
                if i.op == 'ret' and i.args:
                    walk(i.args[0][1], 0)
        r = vals if ok else None
        self.prog._rets[g] = r
        return r

    # -- library model
    def newobj(self, st, ins, ctx, zero):
        o = V('o', (ctx, ins.id), 'heap', 0)
        for k in [k for k in st.mem if root(k.a if k.k == 'Z' else k) is o]:
            del st.mem[k]
        if zero:
            st.mem[V('Z', o)] = ONE
        return o

    def model(self, f, st, ins, name, args, ctx):
        base = name
        if base in ALLOCS:
            out = []
            if self.mon.OOM:
                s2 = st.copy()
                out.append((ZERO, s2))
            o = self.newobj(st, ins, ctx, ALLOCS[base])
            out.insert(0, (o, st))
            self.mon.alloc(self, st, ins, o, ctx)
            return out
        if base in ('WSS_realloc', 'WSS_realloc_normal', 'realloc', 'rprealloc'):
            out = []
            if self.mon.OOM:
                s2 = st.copy()
                if base == 'WSS_realloc':
                    self.store(s2, args[0], ZERO, ('ptr',))
                out.append((ZERO, s2))
            o = self.newobj(st, ins, ctx, False)
            old = st.mem.get(args[0]) if base == 'WSS_realloc' else args[0]
            if old is not None and old is not o and old is not ZERO:
                # contents are carried over
                for k in list(st.mem):
                    kk = k.a if k.k == 'Z' else k
                    if root(kk) is root(old) and k.k != 'Z' and old.k in ('s', 'o'):
                        nk = self.rebase(kk, root(old), o)
                        if nk is not None:
                            st.mem[nk] = st.mem[k]
            self.mon.alloc(self, st, ins, o, ctx)
            out.insert(0, (o, st))
            return out
        if base in FREES:
            return [(None, st)]
        if base in FROUND and args and fconst(args[0]) is not None:
            return [(fval(float(FROUND[base](fconst(args[0])))), st)]
        if base.startswith('llvm.memset') or base == 'memset':
            p = args[0]
            self.kill(st, p)
            if args[1] is ZERO and root(p).k in ('o', 's', 'G') and not blurry(p):
                st.mem[V('Z', p)] = ONE
            return [(p, st)]
        if base.startswith('llvm.memcpy') or base.startswith('llvm.memmove') or base in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'sprintf', 'snprintf'):
            src = args[1]
            if base.startswith('llvm.memcpy') and len(args) > 2 and args[2].k == 'c':
                items = []
                for k, v in st.mem.items():
                    if k.k == 'Z':
                        continue
                    nk = self.rebase(k, src, args[0])
                    if nk is not None:
                        items.append((nk, v))
                self.kill(st, args[0])
                for nk, v in items:
                    st.mem[nk] = v
            else:
                self.kill(st, args[0])
            if base in ('sprintf', 'snprintf'):
                return [(self.retsym(st, ins, ctx, base), st)]
            return [(args[0], st)]
        if base in LOCKRET:
            rv = ZERO if ins.res is None or ins.res not in f.usedres else None
            if not self.mon.LOCKFAIL and 'try' not in name:
                rv = ZERO
            if rv is not None:
                return [(ZERO if ins.res else None, st)]
            s2 = st.copy()
            r = self.retsym(s2, ins, ctx, name)
            s2.facts[r] = (1, None, 1, None, frozenset((0,)))
            return [(ZERO, st), (r, s2)]
        return None

    def rebase(self, k, a, b):
        chain = []
        q = k
        while q is not a:
            if q.k not in ('F', 'I'):
                return None
            chain.append(q)
            q = q.a
        r = b
        for e in reversed(chain):
            r = F(r, e.b, e.c) if e.k == 'F' else I(r, e.b, e.c)
        return r

    # -- terminators
    def terminator(self, f, bn, ins, st, ctx, pending, heap, results):
        op = ins.op
        if op == 'ret':
            rv = self.ev(f, ins.args[0][1], st, ctx) if ins.args else None
            results.append((rv, st))
            return
        if op == 'unreachable':
            return
        if op == 'br':
            if len(ins.extra) == 1:
                self.edge(f, bn, ins.extra[0], st, ctx, pending, heap)
                return
            c = self.ev(f, ins.args[0][1], st, ctx)
            t = st.truth(c)
            a, b = ins.extra
            if a == b:
                self.edge(f, bn, a, st, ctx, pending, heap)
                return
            if t is not None:
                self.mon.branch(self, st, ins, c, t, ctx)
                self.edge(f, bn, a if t else b, st, ctx, pending, heap)
                return
            s2 = st.copy()
            if st.assume(c, True):
                st.trail = (st.trail, '%s:%s T' % (f.name, ins.line))
                self.mon.branch(self, st, ins, c, True, ctx)
                self.edge(f, bn, a, st, ctx, pending, heap)
            if s2.assume(c, False):
                s2.trail = (s2.trail, '%s:%s F' % (f.name, ins.line))
                self.mon.branch(self, s2, ins, c, False, ctx)
                self.edge(f, bn, b, s2, ctx, pending, heap)
            return
        if op == 'switch':
            t, cx = ins.args[0]
            c = self.ev(f, cx, st, ctx)
            d, cases = ins.extra
            k = st.const(c, t[1])
            if k is not None:
                for n, tgt in cases:
                    if uns(n, t[1]) == uns(k, t[1]):
                        self.edge(f, bn, tgt, st, ctx, pending, heap)
                        return
                self.edge(f, bn, d, st, ctx, pending, heap)
                return
            rest = st.copy()
            alive = True
            for n, tgt in cases:
                s = st.copy()
                if s.assume_cmp('eq', c, C(n), t[1]):
                    s.trail = (s.trail, '%s:%s case %d' % (f.name, ins.line, n))
                    self.edge(f, bn, tgt, s, ctx, pending, heap)
                if alive and not rest.assume_cmp('ne', c, C(n), t[1]):
                    alive = False
            if alive:
                rest.trail = (rest.trail, '%s:%s default' % (f.name, ins.line))
                self.edge(f, bn, d, rest, ctx, pending, heap)

    def edge(self, f, src, dst, st, ctx, pending, heap):
        blk = f.blocks[dst]
        new = {}
        for ins in blk.insts:
            if ins.op != 'phi':
                break
            for pb, x in ins.extra:
                if pb == src:
                    v = self.ev(f, x, st, ctx)
                    if x[0] == 'undef':
                        v = V('s', (ctx, ins.id), 'undef', 0, vbits(ins.ty))
                    new[ins.res] = v
                    break
        if new:
            st.env.update(new)
        self.mon.edge(self, st, f, dst, ctx)
        if f.rpo[dst] <= f.rpo[src]:
            live = f.livein[dst]
            st.env = {k: v for k, v in st.env.items() if k in live or k in new}
            self.age(st, ctx, f, self.loop(f, dst), dst)
        lst = pending.get(dst)
        if lst is None:
            pending[dst] = [st]
            heapq.heappush(heap, (f.rpo[dst], dst))
        else:
            lst.append(st)


def fconst(v):
    if v.k == 'G' and isinstance(v.b, tuple) and v.b[0] == 'fp':
        return v.b[1]
    return None


def fval(x):
    return V('G', None, ('fp', x))


def fcast(op, a, st, ft, tt):
    """conversions of floating point constants"""
    if op in ('uitofp', 'sitofp') and ft[0] == 'i':
        c = st.const(a)
        if c is not None:
            return fval(float(uns(c, ft[1]) if op == 'uitofp' else sgn(c, ft[1])))
    elif op in ('fptoui', 'fptosi') and tt[0] == 'i':
        x = fconst(a)
        if x is not None and abs(x) < 1 << 62:
            return C(int(x))
    elif op in ('fpext', 'fptrunc'):
        return a if fconst(a) is not None else None
    return None


def fbin(op, a, b):
    x, y = fconst(a), fconst(b)
    if x is None or y is None:
        return None
    try:
        return fval({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]())
    except (KeyError, ZeroDivisionError, OverflowError):
        return None


def depth(v, d=0):
    if v.k == 'e' and d < 8:
        return 1 + max(depth(v.b, d + 1), depth(v.c, d + 1) if v.c is not None else 0)
    return 0
