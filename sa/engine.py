"""Path-sensitive dataflow (property simulation) over LLVM IR.

An abstract state is (SSA environment, memory facts by access path, value facts,
branch facts, monitor state).  States are propagated through the control-flow
graph to a fixpoint; at every block they are subsumed / joined per monitor state
(Das, Lerner, Seigle 2002).  Calls into functions that matter are analysed in
context; every other call is replaced by its effect summary (mod set + return
set).  Objects follow the recency abstraction: the object most recently produced
by an allocation site is tracked exactly, older ones are summarised.
No solver, no concrete execution.
"""
import heapq
import ir

U64 = 1 << 64


# --------------------------------------------------------------------------
# values (hash-consed)
class Val:
    __slots__ = ('k', 'a', 'b', 'c', 'd', 'ctx', 'n', '_root', '_syms')

    def __repr__(self):
        return desc(self)


class Interner:
    def __init__(self):
        self.tab = {}
        self.n = 0

    def __call__(self, k, a=None, b=None, c=None, d=None):
        key = (k, a, b, c, d)
        v = self.tab.get(key)
        if v is None:
            v = Val()
            v.k, v.a, v.b, v.c, v.d = k, a, b, c, d
            v.n = self.n
            v._root = None
            v._syms = None
            self.n += 1
            self.tab[key] = v
        return v


V = Interner()


def C(n):
    return V('c', n)


ZERO = C(0)
ONE = C(1)
# kinds:
#  c   integer constant a (0 is also NULL)
#  s   symbol: a=site key, b=provenance (ptr Val, callee name, ..), c=age (0 current, 1 old), d=bits or 'p'
#  o   object: a=site key, b=kind ('alloca','heap'), c=age
#  G   global: a=(mod or None), b=name
#  fn  function: a=name
#  F   field pointer: a=parent ptr, b=struct, c=idx
#  I   element pointer: a=parent, b=index Val, c=elem type
#  e   expression: a=op, b,c operands, d=bits


def root(p):
    r = p._root
    if r is None:
        q = p
        while q.k in ('F', 'I'):
            q = q.a
        p._root = r = q
    return r


def syms(v):
    """leaf symbols / objects a value is made of"""
    s = v._syms
    if s is None:
        if v.k in ('s', 'o'):
            s = frozenset((v,))
        elif v.k == 'F':
            s = syms(v.a)
        elif v.k == 'I':
            s = syms(v.a) | syms(v.b)
        elif v.k == 'e':
            s = syms(v.b) | (syms(v.c) if v.c is not None else frozenset())
        else:
            s = frozenset()
        v._syms = s
    return s


PROG = None


def fname_of(struct, idx):
    if PROG is not None:
        return PROG.fieldname(struct, idx)
    return str(idx)


def desc(v, depth=0):
    if v is None:
        return '?'
    k = v.k
    if depth > 8:
        return '..'
    if k == 'c':
        return str(v.a)
    if k == 's':
        o = "'" if v.c else ''
        if isinstance(v.b, Val):
            return '*(' + desc(v.b, depth + 1) + ')' + o if v.b.k not in ('F', 'I') else desc(v.b, depth + 1) + o
        return '%s%s' % (v.b, o)
    if k == 'o':
        return '%s@%s%s' % (v.b, v.a[1][1] if isinstance(v.a, tuple) and len(v.a) > 1 and isinstance(v.a[1], tuple) else v.a, "'" if v.c else '')
    if k == 'G':
        return '@' + v.b
    if k == 'fn':
        return '&' + v.a
    if k == 'F':
        return '%s->%s' % (desc(v.a, depth + 1), fname_of(v.b, v.c))
    if k == 'I':
        return '%s[%s]' % (desc(v.a, depth + 1), desc(v.b, depth + 1))
    if k == 'e':
        if v.c is None:
            return '%s(%s)' % (v.a, desc(v.b, depth + 1))
        return '(%s %s %s)' % (desc(v.b, depth + 1), v.a, desc(v.c, depth + 1))
    return k


def F(p, struct, idx):
    return V('F', p, struct, idx)


def is_int_t(t):
    return t[0] == 'i'


# follow the pointer arithmetic by which a table finds the element its handle lies in
OFFSETS = False


def I(p, idx, et):
    if idx is ZERO:
        return p
    if OFFSETS and p.k == 'F' and idx.k == 'e' and idx.a == 'sub' and idx.b is ZERO and idx.c.k == 'e' and \
            idx.c.a == 'offset' and idx.c.b.a == p.b and idx.c.c.a == p.c:
        return p.a
    if OFFSETS and idx.k == 'e' and idx.a == 'offset':
        return F(p, idx.b.a, idx.c.a)
    if p.k == 'I' and p.c == et:
        s = binop('add', p.b, idx, 64)
        return I(p.a, s, et)
    return V('I', p, idx, et)


def sgn(n, bits):
    n &= (1 << bits) - 1
    return n - (1 << bits) if n >> (bits - 1) else n


def uns(n, bits):
    return n & ((1 << bits) - 1)


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, a, b, bits):
    if OFFSETS and op == 'sub' and a.k == 'F' and a.a is b:
        return V('e', 'offset', V('fn', a.b), C(a.c))
    if a.k == 'c' and b.k == 'c' and isinstance(a.a, int) and isinstance(b.a, int):
        x, y = a.a, b.a
        try:
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y
            elif op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'shl':
                r = x << (uns(y, bits) % bits)
            elif op == 'lshr':
                r = uns(x, bits) >> (uns(y, bits) % bits)
            elif op == 'ashr':
                r = x >> (uns(y, bits) % bits)
            elif op == 'udiv' and y:
                r = uns(x, bits) // uns(y, bits)
            elif op == 'urem' and y:
                r = uns(x, bits) % uns(y, bits)
            elif op == 'sdiv' and y:
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'srem' and y:
                r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            else:
                return None
            if bits == 1:
                return C(r & 1)
            return C(sgn(r, bits))
        except Exception:
            return None
    if a.k == 'c' and op in COMM:
        a, b = b, a
    if b.k == 'c':
        n = b.a
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and n == 0:
            return a
        if op == 'mul' and n == 1 or op in ('sdiv', 'udiv') and n == 1:
            return a
        if op in ('mul', 'and') and n == 0:
            return ZERO
        if op == 'and' and n == -1:
            return a
        if op == 'sub':
            return binop('add', a, C(sgn(-n, bits)), bits)
        if op == 'add' and a.k == 'e' and a.a == 'add' and a.c.k == 'c' and a.d == bits:
            return binop('add', a.b, C(sgn(a.c.a + n, bits)), bits)
        if op == 'xor' and bits == 1:
            if a.k == 'e' and a.a == 'xor' and a.c is ONE:
                return a.b
            if a.k == 'e' and a.a == 'icmp':
                return neg_icmp(a)
        if op == 'and' and a.k == 'e' and a.a == 'zext' and (n + 1) & n == 0 and n > 0:
            if (1 << a.c.a) - 1 <= n:
                return a
    if op == 'sub' and a is b:
        return ZERO
    if op == 'sub' and a.k == 'e' and a.a == 'add' and a.d == bits:
        if a.c is b:
            return a.b
        if a.b is b:
            return a.c
    if op == 'xor' and a is b:
        return ZERO
    if op in COMM and b.k != 'c' and a.n > b.n:
        a, b = b, a
    return V('e', op, a, b, bits)


NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
        'ugt': 'ule', 'ule': 'ugt'}
SWAPP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
         'ule': 'uge', 'uge': 'ule'}


def icmp(pred, a, b, bits):
    """-> Val (constant or ('e','icmp',pair,...))"""
    if a.k == 'c' and b.k == 'c':
        return ONE if cmpc(pred, a.a, b.a, bits) else ZERO
    if a.k == 'c' or (b.k != 'c' and a.n > b.n):
        a, b, pred = b, a, SWAPP[pred]
    # strip i1 zext/sext compared with 0/1 etc
    if b.k == 'c' and a.k == 'e' and a.a in ('zext', 'sext') and a.c.a == 1:
        n = b.a
        one = 1 if a.a == 'zext' else -1
        if pred in ('eq', 'ne'):
            if n == 0:
                return a.b if pred == 'ne' else bnot(a.b)
            if n == one:
                return a.b if pred == 'eq' else bnot(a.b)
            return ZERO if pred == 'eq' else ONE
    if b.k == 'c' and a.k == 'e' and a.a == 'zext' and pred in ('eq', 'ne'):
        if 0 <= b.a < (1 << a.c.a):
            return icmp(pred, a.b, C(sgn(b.a, a.c.a)), a.c.a)
        return ZERO if pred == 'eq' else ONE
    if b.k == 'c' and a.k == 'e' and a.a == 'sext' and pred in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
        m = 1 << (a.c.a - 1)
        if -m <= b.a < m:
            return icmp(pred, a.b, b, a.c.a)
    if b.k == 'c' and a.k == 'e' and a.a == 'add' and a.c.k == 'c' and pred in ('eq', 'ne'):
        return icmp(pred, a.b, C(sgn(b.a - a.c.a, bits)), bits)
    if b.k == 'c' and a.k == 'e' and a.a == 'xor' and a.c.k == 'c' and pred in ('eq', 'ne') and a.d == bits and bits > 1:
        return icmp(pred, a.b, C(sgn(b.a ^ a.c.a, bits)), bits)
    if b.k == 'c' and bits == 1 and pred in ('eq', 'ne'):
        v = (b.a & 1) == (1 if pred == 'eq' else 0)
        return a if v else bnot(a)
    if a is b and not blurry(a):
        return ONE if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else ZERO
    if a.k in ('o', 'G', 'fn') or b.k in ('o', 'G', 'fn') or a.k in ('F', 'I') or b.k in ('F', 'I'):
        r = ptr_cmp(pred, a, b)
        if r is not None:
            return r
    return V('e', 'icmp', a, b, (pred, bits))


def blurry(v):
    return any(s.c for s in syms(v))


def ptr_cmp(pred, a, b):
    if pred not in ('eq', 'ne'):
        return None
    t = ONE if pred == 'ne' else ZERO
    ra, rb = root(a), root(b)
    if ra.k in ('o', 'G', 'fn') and b is ZERO:
        return t
    if a.k in ('F',) and b is ZERO:
        return t
    if ra.k in ('o', 'G') and rb.k in ('o', 'G') and ra is not rb and not (ra.k == 'o' and ra.c) and not (rb.k == 'o' and rb.c):
        return t
    if a.k == 'fn' and b.k == 'fn' and a is not b:
        return t
    return None


def cmpc(pred, x, y, bits):
    if pred == 'eq':
        return uns(x, bits) == uns(y, bits)
    if pred == 'ne':
        return uns(x, bits) != uns(y, bits)
    if pred[0] == 'u':
        x, y = uns(x, bits), uns(y, bits)
    p = pred[1:]
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]


def bnot(v):
    if v.k == 'c':
        return ZERO if v.a & 1 else ONE
    if v.k == 'e' and v.a == 'icmp':
        return neg_icmp(v)
    if v.k == 'e' and v.a == 'xor' and v.c is ONE:
        return v.b
    return V('e', 'xor', v, ONE, 1)


def neg_icmp(v):
    return V('e', 'icmp', v.b, v.c, (NEGP[v.d[0]], v.d[1]))


def cast(op, v, fb, tb):
    """fb,tb bits"""
    if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
        return v
    if v.k == 'c':
        if op == 'zext':
            return C(sgn(uns(v.a, fb), tb) if tb > 1 else v.a)
        if op == 'sext':
            return C(v.a if fb > 1 else (-(v.a & 1)))
        if op == 'trunc':
            return C(sgn(v.a, tb) if tb > 1 else v.a & 1)
        return None
    if op == 'trunc':
        if v.k == 'e' and v.a in ('zext', 'sext'):
            if v.c.a == tb:
                return v.b
            if v.c.a < tb:
                return V('e', v.a, v.b, v.c, tb)
            return cast('trunc', v.b, v.c.a, tb)
        if v.k == 'e' and v.a in ('add', 'and', 'or', 'xor', 'sub', 'mul') and tb < 64:
            a = cast('trunc', v.b, fb, tb)
            b = cast('trunc', v.c, fb, tb)
            if a is not None and b is not None and (b.k == 'c' or a.k != 'e' or a.a != 'trunc'):
                r = binop(v.a, a, b, tb)
                if r is not None:
                    return r
        return V('e', 'trunc', v, C(fb), tb)
    if op == 'zext':
        if v.k == 'e' and v.a == 'zext':
            return V('e', 'zext', v.b, v.c, tb)
        return V('e', 'zext', v, C(fb), tb)
    if op == 'sext':
        if v.k == 'e' and v.a == 'zext':
            return V('e', 'zext', v.b, v.c, tb)
        if v.k == 'e' and v.a == 'sext':
            return V('e', 'sext', v.b, v.c, tb)
        return V('e', 'sext', v, C(fb), tb)
    return None


# --------------------------------------------------------------------------
# facts: (slo, shi, ulo, uhi, ne) in mathematical integers, None = unbounded
TOP = (None, None, None, None, frozenset())
NONNULL = (None, None, 1, None, frozenset((0,)))


def fmeet(a, b):
    def mx(x, y):
        return y if x is None else x if y is None else max(x, y)

    def mn(x, y):
        return y if x is None else x if y is None else min(x, y)

    r = [mx(a[0], b[0]), mn(a[1], b[1]), mx(a[2], b[2]), mn(a[3], b[3]), a[4] | b[4]]
    return fnorm(r)


def fnorm(r):
    slo, shi, ulo, uhi, ne = r
    # shave excluded constants at the ends
    while slo is not None and slo in ne:
        slo += 1
    while shi is not None and shi in ne:
        shi -= 1
    while ulo is not None and ulo in ne:
        ulo += 1
    while uhi is not None and uhi in ne:
        uhi -= 1
    if slo is not None and shi is not None and slo > shi:
        return None
    if ulo is not None and uhi is not None and ulo > uhi:
        return None
    return (slo, shi, ulo, uhi, ne)


def fjoin(a, b):
    def mn(x, y):
        return None if x is None or y is None else min(x, y)

    def mx(x, y):
        return None if x is None or y is None else max(x, y)

    ne = set()
    for n in a[4] | b[4]:
        if fexcl(a, n) and fexcl(b, n):
            ne.add(n)
    return (mn(a[0], b[0]), mx(a[1], b[1]), mn(a[2], b[2]), mx(a[3], b[3]), frozenset(ne))


def fexcl(f, n):
    if n in f[4]:
        return True
    if f[0] is not None and n < f[0] or f[1] is not None and n > f[1]:
        return True
    if n >= 0 and (f[2] is not None and n < f[2] or f[3] is not None and n > f[3]):
        return True
    return False


def fcover(a, b):
    """a is at least as general as b"""
    if a[0] is not None and (b[0] is None or b[0] < a[0]):
        return False
    if a[1] is not None and (b[1] is None or b[1] > a[1]):
        return False
    if a[2] is not None and (b[2] is None or b[2] < a[2]):
        return False
    if a[3] is not None and (b[3] is None or b[3] > a[3]):
        return False
    for n in a[4]:
        if not fexcl(b, n):
            return False
    return True


def const_fact(n, bits=64):
    return (n, n, uns(n, bits), uns(n, bits), frozenset()) if n < 0 else (n, n, n, n, frozenset())


class State:
    __slots__ = ('env', 'mem', 'facts', 'preds', 'mon', 'trail', 'aux')

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.preds = dict(self.preds)
        s.mon = self.mon
        s.trail = self.trail
        s.aux = self.aux
        return s

    # -- facts
    def rng(self, v, bits=None):
        k = v.k
        if k == 'c':
            return const_fact(v.a, bits or 64)
        if k in ('o', 'G', 'fn'):
            return NONNULL
        f = self.facts.get(v, TOP)
        if k == 's':
            if v.d is not None and v.d != 'p':
                b = v.d
                if b == 1:
                    g = (0, 1, 0, 1, frozenset())
                else:
                    g = (-(1 << (b - 1)), (1 << (b - 1)) - 1, 0, (1 << b) - 1, frozenset())
                f = fmeet(f, g) or f
                # cross-derive
                f = xder(f, b) or f
            return f
        if k in ('F', 'I'):
            r = self.rng(root(v))
            if k == 'F' or root(v).k in ('o', 'G') or fexcl(r, 0):
                return fmeet(f, NONNULL) or f
            return f
        if k == 'e':
            g = TOP
            op = v.a
            if op == 'zext':
                fb = v.c.a
                t = self.truth(v.b) if fb == 1 else None
                x = self.rng(v.b, fb) if t is None else const_fact(1 if t else 0, 64)
                x = xder(x, fb) or x
                lo = x[2] if x[2] is not None else 0
                hi = x[3] if x[3] is not None else (1 << fb) - 1
                g = (lo, hi, lo, hi, frozenset(n for n in x[4] if n >= 0))
            elif op == 'sext':
                x = self.rng(v.b, v.c.a)
                x = xder(x, v.c.a) or x
                g = (x[0], x[1], x[2] if x[0] is not None and x[0] >= 0 else None,
                     x[3] if x[0] is not None and x[0] >= 0 else None, x[4])
            elif op == 'and' and v.c.k == 'c' and isinstance(v.d, int):
                x = self.rng(v.b, v.d)
                x = xder(x, v.d) or x
                m = v.c.a & ((1 << v.d) - 1)
                if x[2] is not None and x[3] is not None and not m & ((1 << (x[2] ^ x[3]).bit_length()) - 1):
                    # only bits that all values share are selected
                    g = const_fact(sgn(x[2] & m, v.d), v.d)
                elif v.c.a >= 0:
                    hi = v.c.a
                    if x[3] is not None and x[2] is not None:
                        hi = min(hi, x[3])
                    g = (0, hi, 0, hi, frozenset())
            elif op == 'icmp' or v.d == 1:
                g = (0, 1, 0, 1, frozenset())
                if op == 'trunc':
                    x = self.rng(v.b, v.c.a)
                    if x[2] is not None and x[3] is not None and x[3] <= 1:
                        g = (x[2], x[3], x[2], x[3], frozenset())
            elif op == 'lshr' and v.c.k == 'c' and v.c.a > 0:
                x = self.rng(v.b, v.d)
                hi = (x[3] if x[3] is not None else (1 << v.d) - 1) >> v.c.a
                g = (0, hi, 0, hi, frozenset())
            elif op in ('urem',) and v.c.k == 'c' and v.c.a > 0:
                g = (0, v.c.a - 1, 0, v.c.a - 1, frozenset())
            elif op in ('add', 'sub', 'mul') and isinstance(v.d, int):
                x, y = self.rng(v.b, v.d), self.rng(v.c, v.d)
                g = arith(op, x, y, v.d)
            elif op == 'shl' and v.c.k == 'c':
                x = self.rng(v.b, v.d)
                if x[2] is not None and x[3] is not None and (x[3] << v.c.a) < (1 << (v.d - 1)):
                    g = (x[2] << v.c.a, x[3] << v.c.a, x[2] << v.c.a, x[3] << v.c.a, frozenset())
            elif op == 'or':
                x, y = self.rng(v.b, v.d), self.rng(v.c, v.d)
                if x[3] is not None and y[3] is not None and max(x[3], y[3]) < (1 << (v.d - 1)):
                    hi = (1 << max(x[3].bit_length(), y[3].bit_length())) - 1
                    lo = max(x[2] or 0, y[2] or 0)
                    g = (lo, hi, lo, hi, frozenset())
            elif op == 'trunc':
                x = self.rng(v.b, v.c.a)
                if x[2] is not None and x[3] is not None and x[3] < (1 << (v.d - 1)):
                    g = (x[2], x[3], x[2], x[3], frozenset(x[4]))
            if f is TOP:
                return g
            return fmeet(f, g) or f
        return f

    def nonnull(self, v):
        if v.k == 'c':
            return v.a != 0
        return fexcl(self.rng(v), 0)

    def isnull(self, v):
        if v.k == 'c':
            return v.a == 0
        r = self.rng(v)
        return r[2] == 0 and r[3] == 0

    def const(self, v, bits=64):
        if v.k == 'c':
            return v.a
        if v.k in ('s', 'e'):
            r = self.rng(v)
            if r[0] is not None and r[0] == r[1]:
                return r[0]
            if r[2] is not None and r[2] == r[3]:
                return r[2]
        return None

    def truth(self, v):
        """value of an i1: True/False/None"""
        if v.k == 'c':
            return bool(v.a & 1)
        if v.k == 'e' and v.a == 'icmp':
            return self.cmp(v.d[0], v.b, v.c, v.d[1])
        if v.k == 'e' and v.a == 'xor' and v.c is ONE:
            t = self.truth(v.b)
            return None if t is None else not t
        if v.k == 'e' and v.a in ('and', 'or') and v.d == 1:
            a, b = self.truth(v.b), self.truth(v.c)
            if v.a == 'and':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        r = self.rng(v)
        if r[0] is not None and r[0] == r[1]:
            return bool(r[0] & 1)
        if r[2] is not None and r[2] == r[3]:
            return bool(r[2] & 1)
        if fexcl(r, 0) and v.k == 's' and v.d == 1:
            return True
        return self.preds.get(v)

    def cmp(self, pred, a, b, bits):
        v = icmp(pred, a, b, bits)
        if v.k == 'c':
            return bool(v.a)
        if v.k != 'e' or v.a != 'icmp':
            return self.truth(v)
        pred, bits = v.d
        a, b = v.b, v.c
        x, y = self.rng(a, bits), self.rng(b, bits)
        r = cmp_rng(pred, x, y)
        if r is not None:
            return r
        # equal-offset comparison: (s+c1) vs (s+c2) only for eq/ne
        if pred in ('eq', 'ne'):
            a0, ca = split_add(a)
            b0, cb = split_add(b)
            if a0 is b0 and a0.k != 'c' and not blurry(a0):
                return (ca == cb) if pred == 'eq' else (ca != cb)
        else:
            a0, ca = split_add(a)
            b0, cb = split_add(b)
            if a0 is b0 and a0.k != 'c' and not blurry(a0):
                # the same when neither can wrap around
                r = self.rng(a0, bits)
                lo, hi = (r[0], r[1]) if pred[0] == 's' else (r[2], r[3])
                if lo is not None and hi is not None:
                    l0, h0 = (-(1 << bits - 1), (1 << bits - 1) - 1) if pred[0] == 's' else (0, (1 << bits) - 1)
                    if l0 <= lo + min(ca, cb) and hi + max(ca, cb) <= h0:
                        return cmpc('s' + pred[1:], ca, cb, 64)
        return self.pred_lookup(pred, a, b)

    def pred_lookup(self, pred, a, b):
        P = self.preds
        if pred in ('eq', 'ne'):
            t = P.get(('eq', a, b))
            if t is None:
                t = P.get(('eq', b, a))
            if t is None:
                for u in ('ult', 'slt'):
                    if P.get((u, a, b)) or P.get((u, b, a)):
                        t = False
            if t is None:
                return None
            return t if pred == 'eq' else not t
        s = pred[0]
        p = pred[1:]
        lt = s + 'lt'
        if p in ('gt', 'le'):
            # a > b  <=> b < a ; a <= b <=> !(b < a)
            t = self._lt(lt, b, a)
            return None if t is None else (t if p == 'gt' else not t)
        t = self._lt(lt, a, b)
        return None if t is None else (t if p == 'lt' else not t)

    def _lt(self, lt, a, b):
        P = self.preds
        t = P.get((lt, a, b))
        if t is not None:
            return t
        if P.get((lt, b, a)):
            return False
        if P.get(('eq', a, b)) or P.get(('eq', b, a)):
            return False
        if P.get((lt, b, a)) is False and (P.get(('eq', a, b)) is False or P.get(('eq', b, a)) is False):
            return True
        return None

    def assume(self, v, t):
        """refine in place; False if contradictory"""
        if v.k == 'c':
            return bool(v.a & 1) == t
        if v.k == 'e' and v.a == 'xor' and v.c is ONE:
            return self.assume(v.b, not t)
        if v.k == 'e' and v.a == 'icmp':
            pred, bits = v.d
            if not t:
                pred = NEGP[pred]
            return self.assume_cmp(pred, v.b, v.c, bits)
        if v.k == 'e' and v.d == 1 and v.a in ('and', 'or'):
            if (v.a == 'and') == t:
                return self.assume(v.b, t) and self.assume(v.c, t)
        cur = self.truth(v)
        if cur is not None and cur != t:
            return False
        if v.k == 's':
            return self.refine(v, const_fact(1 if t else 0))
        if v.k == 'e' and v.a == 'trunc' and v.d == 1:
            # bool loaded as i8: low bit; treat as 0/1
            ok = self.assume_cmp('ne' if t else 'eq', v.b, ZERO, v.c.a)
            if not ok:
                return False
        self.preds[v] = t
        return True

    def assume_cmp(self, pred, a, b, bits):
        v = icmp(pred, a, b, bits)
        if v.k == 'c':
            return bool(v.a)
        if not (v.k == 'e' and v.a == 'icmp'):
            return self.assume(v, True)
        pred, bits = v.d
        a, b = v.b, v.c
        cur = self.cmp(pred, a, b, bits)
        if cur is False:
            return False
        x, y = self.rng(a, bits), self.rng(b, bits)
        nx, ny = refine_cmp(pred, x, y, bits)
        if nx is None or ny is None:
            return False
        if nx is not x and nx != x:
            if not self.refine(a, nx):
                return False
        if ny is not y and ny != y and b.k != 'c':
            if not self.refine(b, ny):
                return False
        if b.k != 'c':
            if pred == 'eq':
                self.preds[('eq', a, b)] = True
            elif pred == 'ne':
                self.preds[('eq', a, b)] = False
            else:
                lt = pred[0] + 'lt'
                p = pred[1:]
                if p == 'lt':
                    self.preds[(lt, a, b)] = True
                elif p == 'ge':
                    self.preds[(lt, a, b)] = False
                elif p == 'gt':
                    self.preds[(lt, b, a)] = True
                else:
                    self.preds[(lt, b, a)] = False
        return True

    def refine(self, v, f):
        if v.k == 'c':
            return not fexcl(f, v.a)
        n = fmeet(self.facts.get(v, TOP), f)
        if n is None:
            return False
        if v.k == 's' and isinstance(v.d, int) and v.d > 1:
            n = xder(n, v.d)
            if n is None:
                return False
        if fmeet(n, self.rng(v)) is None:
            return False
        self.facts[v] = n
        if v.k == 'e':
            op = v.a
            if op == 'zext':
                fb = v.c.a
                lo, hi = n[2], n[3]
                g = (None, None, lo, hi, frozenset(x for x in n[4] if 0 <= x < (1 << fb)))
                if lo is not None and lo >= (1 << fb):
                    return False
                if hi is not None and hi < (1 << (fb - 1)) and fb > 1:
                    g = (0 if lo is None else lo, hi, lo, hi, g[4])
                return self.refine(v.b, g)
            if op == 'sext':
                return self.refine(v.b, (n[0], n[1], None, None, n[4]))
            if op == 'and' and v.c.k == 'c' and n[2] is not None and n[2] == n[3] and False:
                pass
            if op == 'add' and v.c.k == 'c':
                c = v.c.a
                if n[0] is not None and n[1] is not None and abs(n[0]) < (1 << 30) and abs(n[1]) < (1 << 30) and abs(c) < (1 << 30):
                    return self.refine(v.b, (n[0] - c, n[1] - c, None, None, frozenset()))
            if op == 'trunc' and v.d == 1:
                pass
        return True

    def subsumes(self, o):
        """self (more general) covers o; same mon"""
        if self.mon != o.mon or self.aux != o.aux:
            return False
        for k, v in self.env.items():
            if o.env.get(k) is not v:
                return False
        om = o.mem
        for k, v in self.mem.items():
            if om.get(k) is not v:
                return False
        of = o.facts
        for k, f in self.facts.items():
            if not fcover(f, of.get(k, TOP) if k in of else o.rng(k)):
                return False
        op = o.preds
        for k, t in self.preds.items():
            if op.get(k) is not t:
                return False
        return True


def split_add(v):
    if v.k == 'e' and v.a == 'add' and v.c.k == 'c':
        return v.b, v.c.a
    return v, 0


def xder(f, b):
    """derive signed from unsigned bounds and back, b bits"""
    slo, shi, ulo, uhi, ne = f
    h = 1 << (b - 1)
    if b == 1:
        return f
    if uhi is not None and uhi < h:
        slo = max(slo, ulo or 0) if slo is not None else (ulo or 0)
        shi = min(shi, uhi) if shi is not None else uhi
    if slo is not None and slo >= 0:
        ulo = max(ulo, slo) if ulo is not None else slo
        if shi is not None:
            uhi = min(uhi, shi) if uhi is not None else shi
    if ulo is not None and ulo >= h:
        shi = min(shi, -1) if shi is not None else -1
        slo2 = ulo - (1 << b)
        slo = max(slo, slo2) if slo is not None else slo2
    return fnorm([slo, shi, ulo, uhi, ne])


def arith(op, x, y, bits):
    lo = hi = None
    M = 1 << (bits - 1)
    if None not in (x[0], x[1], y[0], y[1]):
        if op == 'add':
            lo, hi = x[0] + y[0], x[1] + y[1]
        elif op == 'sub':
            lo, hi = x[0] - y[1], x[1] - y[0]
        else:
            c = [x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]]
            lo, hi = min(c), max(c)
        if -M <= lo and hi < M:
            if lo >= 0:
                return (lo, hi, lo, hi, frozenset())
            return (lo, hi, None, None, frozenset())
    return TOP


def cmp_rng(pred, x, y):
    if pred in ('eq', 'ne'):
        r = None
        if x[0] is not None and x[0] == x[1] and y[0] is not None and y[0] == y[1]:
            r = x[0] == y[0]
        if r is None:
            if x[2] is not None and x[2] == x[3] and y[2] == x[2] and y[3] == x[2]:
                r = True
            elif (x[1] is not None and y[0] is not None and x[1] < y[0]) or (x[0] is not None and y[1] is not None and x[0] > y[1]):
                r = False
            elif (x[3] is not None and y[2] is not None and x[3] < y[2]) or (x[2] is not None and y[3] is not None and x[2] > y[3]):
                r = False
            elif y[0] is not None and y[0] == y[1] and fexcl(x, y[0]):
                r = False
            elif x[0] is not None and x[0] == x[1] and fexcl(y, x[0]):
                r = False
        if r is None:
            return None
        return r if pred == 'eq' else not r
    i = 0 if pred[0] == 's' else 2
    xl, xh, yl, yh = x[i], x[i + 1], y[i], y[i + 1]
    p = pred[1:]
    if p in ('gt', 'ge'):
        xl, xh, yl, yh = yl, yh, xl, xh
        p = {'gt': 'lt', 'ge': 'le'}[p]
    if p == 'lt':
        if xh is not None and yl is not None and xh < yl:
            return True
        if xl is not None and yh is not None and xl >= yh:
            return False
    else:
        if xh is not None and yl is not None and xh <= yl:
            return True
        if xl is not None and yh is not None and xl > yh:
            return False
    return None


def refine_cmp(pred, x, y, bits):
    if pred == 'eq':
        m = fmeet(x, y)
        return m, m
    if pred == 'ne':
        nx, ny = x, y
        if y[0] is not None and y[0] == y[1]:
            nx = fnorm([x[0], x[1], x[2], x[3], x[4] | {y[0]}])
        if x[0] is not None and x[0] == x[1]:
            ny = fnorm([y[0], y[1], y[2], y[3], y[4] | {x[0]}])
        return nx, ny
    i = 0 if pred[0] == 's' else 2
    p = pred[1:]
    swap = p in ('gt', 'ge')
    if swap:
        x, y = y, x
        p = {'gt': 'lt', 'ge': 'le'}[p]
    d = 1 if p == 'lt' else 0
    nx, ny = list(x), list(y)
    if y[i + 1] is not None:
        b = y[i + 1] - d
        nx[i + 1] = b if nx[i + 1] is None else min(nx[i + 1], b)
    if x[i] is not None:
        b = x[i] + d
        ny[i] = b if ny[i] is None else max(ny[i], b)
    elif i == 2:
        ny[i] = max(ny[i] or 0, d)
    if i == 2 and nx[2] is None:
        nx[2] = 0
    nx, ny = fnorm(nx), fnorm(ny)
    return (ny, nx) if swap else (nx, ny)


def subst_val(v, m, memo):
    """v with the symbols of m replaced"""
    if not isinstance(v, Val):
        return v
    if v in m:
        return m[v]
    if v.k in ('c', 'G', 'fn', 's', 'o'):
        return v
    r = memo.get(v)
    if r is None:
        if v.k == 'Z':
            r = V('Z', subst_val(v.a, m, memo))
        elif v.k == 'F':
            r = F(subst_val(v.a, m, memo), v.b, v.c)
        elif v.k == 'I':
            r = I(subst_val(v.a, m, memo), subst_val(v.b, m, memo), v.c)
        else:
            r = V('e', v.a, subst_val(v.b, m, memo), subst_val(v.c, m, memo) if v.c is not None else None, v.d)
        memo[v] = r
    return r
