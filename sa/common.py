"""Facts about this code base shared by the checks: plugin interface, lock classes, session fields."""
from interp import *
import driver

PLUGINS = ('echo', 'broadcast', 'deflate')
# slot of the plugin structure -> symbol the plugin exports for it
SUBPROTO_SLOTS = {'alloc': 'setAllocators', 'init': 'onInit', 'connect': 'onConnect', 'message': 'onMessage',
                  'write': 'onWrite', 'close': 'onClose', 'destroy': 'onDestroy'}
EXT_SLOTS = {'alloc': 'setAllocators', 'init': 'onInit', 'open': 'onOpen', 'inframe': 'inFrame',
             'inframes': 'inFrames', 'outframe': 'outFrame', 'outframes': 'outFrames', 'close': 'onClose',
             'destroy': 'onDestroy'}
SUBPROTO, EXT = 'wss_subprotocol_t', 'wss_extension_t'


def short(s):
    return s[7:] if s.startswith('struct.') else s


def plugin_slot(prog, cv):
    """(struct, slot) when a called function pointer was loaded from a plugin structure"""
    if cv.k == 's' and isinstance(cv.b, engine.Val) and cv.b.k == 'F':
        s = short(cv.b.b)
        if s in ('wss_subprotocol_t', 'wss_extension_t', 'wss_subprotocol', 'wss_extension'):
            return (SUBPROTO if 'subprotocol' in s else EXT), prog.fieldname(cv.b.b, cv.b.c)
    return None


def fname(prog, p):
    """'struct.field' of a location"""
    if p.k == 'F':
        return '%s.%s' % (short(p.b), prog.fieldname(p.b, p.c))
    return None


def lock_class(prog, p, pre=''):
    n = fname(prog, p)
    if n:
        return pre + n
    if p.k == 'G':
        return '%s%s' % (pre, p.b if p.a is None else '%s:%s' % (p.a, p.b))
    return pre + desc(p)


def delta(st, p, v):
    """constant by which a store of v changes *p, if v is the old value plus a constant"""
    if v is None:
        return None
    old = st.mem.get(p)
    if old is None:
        return None
    if old.k == 'c' and v.k == 'c':
        return v.a - old.a
    a, c = engine.split_add(v)
    b, d = engine.split_add(old)
    if a is b:
        r = c - d
        return r if r < (1 << 31) else r - (1 << 32)
    return None


def icall_field(prog, f, ins):
    """(struct, field) a called function pointer is loaded from, syntactically"""
    if ins.op != 'call' or ins.extra[0] != 'l':
        return None
    t = prog._ev.get(('d', f))
    if t is None:
        t = prog._ev[('d', f)] = {i.res: i for bn in f.order for i in f.blocks[bn].insts if i.res is not None}
    d = t.get(ins.extra[1])
    n = 0
    while d is not None and d.op == 'cast' and d.args[0][1][0] == 'l' and n < 4:
        d = t.get(d.args[0][1][1])
        n += 1
    if d is None or d.op != 'load':
        return None
    p = d.args[0][1]
    if p[0] == 'g':
        return ('G', p[1])
    if p[0] == 'l' and p[1] in t and t[p[1]].op == 'gep':
        c = prog.gep_class(t[p[1]])
        if c[0] == 'F':
            return (short(c[1]), prog.fieldname(c[1], c[2]))
    return None


def is_plugin_icall(prog, f, ins):
    x = icall_field(prog, f, ins)
    return x is not None and x[0] in (SUBPROTO, EXT)


def project_fields(prog, st, args, names):
    """memory entries of the given fields reachable from the arguments"""
    out = {}
    todo = [a for a in args if a.k != 'c']
    seen = set(todo)
    while todo:
        b = todo.pop()
        for k, v in st.mem.items():
            if k.k == 'F' and k.a is b and fname(prog, k) in names:
                out[k] = v
                if v.k not in ('c', 'G', 'fn') and v not in seen:
                    seen.add(v)
                    todo.append(v)
    return out


def consts_of(prog, f, v, depth=0):
    """constants an operand of f can be (through merges, casts and the call sites of f), None if it cannot be told"""
    if v[0] == 'c':
        return {v[1]}
    if v[0] != 'l' or depth > 8:
        return None
    d = None
    for bn in f.order:
        for i in f.blocks[bn].insts:
            if i.res == v[1]:
                d = i
    if d is not None:
        ops = [y for _, y in d.extra] if d.op == 'phi' else [d.args[1][1], d.args[2][1]] if d.op == 'select' else \
              [d.args[0][1]] if d.op == 'cast' else None
        if ops is None:
            return None
        rs = [consts_of(prog, f, o, depth + 1) for o in ops if o[0] not in ('undef', 'poison')]
    elif v[1] in f.params:
        n = f.params.index(v[1])
        rs = []
        for g in prog.funcs.values():
            if f.cname in prog.direct(g)[1]:
                return None
            for bn in g.order:
                for i in g.blocks[bn].insts:
                    if i.op == 'call' and prog.callee_name(g.mod, i.extra) == f.cname:
                        rs.append(consts_of(prog, g, i.args[n][1], depth + 1))
    else:
        return None
    if not rs or any(r is None for r in rs):
        return None
    return set().union(*rs)


def stored_consts(prog, struct, field):
    """constants the program stores in a field, None if it cannot be told"""
    k = prog.fidx(struct, field)
    out = set()
    for f in prog.funcs.values():
        t = {i.res: i for bn in f.order for i in f.blocks[bn].insts if i.res is not None}
        for bn in f.order:
            for i in f.blocks[bn].insts:
                if i.op == 'store' and i.args[1][1][0] == 'l':
                    d = t.get(i.args[1][1][1])
                    if d is not None and d.op == 'gep':
                        c = prog.gep_class(d)
                        if c[0] == 'F' and short(c[1]) == struct and c[2] == k:
                            r = consts_of(prog, f, i.args[0][1])
                            if r is None:
                                return None
                            out |= r
    return out or None
