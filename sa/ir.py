"""Parser for the textual LLVM IR that clang 18 emits for /repo's C sources.

Only the subset that -O0 (+ mem2reg) C code produces is modelled; anything
unknown is kept as an opaque instruction with its operands (never dropped).
"""
import re

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<punct>\.\.\.|[\[\]{}()<>,=*:|])
''', re.X)

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'noalias', 'returned', 'immarg', 'inreg', 'nofree', 'allocptr', 'allocalign',
               'sret', 'byval', 'align', 'dereferenceable', 'dereferenceable_or_null', 'noreturn', 'dead_on_unwind', 'writable', 'nest', 'swiftself', 'range', 'initializes'}
LINKAGE = {'private', 'internal', 'dso_local', 'external', 'global', 'constant', 'unnamed_addr',
           'local_unnamed_addr', 'common', 'weak', 'linkonce_odr', 'hidden', 'default', 'available_externally',
           'linkonce', 'weak_odr', 'dso_preemptable', 'protected', 'thread_local', 'localexec', 'initialexec',
           'localdynamic', 'externally_initialized', 'extern_weak', 'appending'}


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class P:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), ' '.join(t[1] for t in self.t)))
        self.i += 1


def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n


# ---- types -----------------------------------------------------------------
# ('i',bits) ('ptr',) ('void',) ('f',name) ('struct',name) ('lit',[types]) ('arr',n,t) ('vec',n,t) ('fn',..) ('md',) ('label',)
def ptype(p):
    v = p.next()
    if re.fullmatch(r'i\d+', v):
        t = ('i', int(v[1:]))
    elif v == 'ptr':
        t = ('ptr',)
    elif v == 'void':
        t = ('void',)
    elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
        t = ('f', v)
    elif v == 'metadata':
        t = ('md',)
    elif v == 'label':
        t = ('label',)
    elif v == 'opaque':
        t = ('opaque',)
    elif v == '[':
        n = int(p.next())
        p.expect('x')
        e = ptype(p)
        p.expect(']')
        t = ('arr', n, e)
    elif v == '<':
        if p.peek() == '{':
            t = ptype(p)
            p.expect('>')
        else:
            n = int(p.next())
            p.expect('x')
            e = ptype(p)
            p.expect('>')
            t = ('vec', n, e)
    elif v == '{':
        el = []
        while p.peek() != '}':
            el.append(ptype(p))
            p.accept(',')
        p.expect('}')
        t = ('lit', tuple(el))
    elif v.startswith('%'):
        t = ('struct', unq(v))
    else:
        raise SyntaxError('type %r in %r' % (v, ' '.join(x[1] for x in p.t)))
    while p.peek() == '(':  # function type
        p.next()
        args = []
        while p.peek() != ')':
            if p.accept('...'):
                args.append(('...',))
            else:
                args.append(ptype(p))
            p.accept(',')
        p.expect(')')
        t = ('fn', t, tuple(args))
    return t


CE_OPS = {'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'trunc', 'zext', 'sext', 'icmp',
          'select', 'mul', 'xor', 'and', 'or', 'addrspacecast'}


def pvalue(p, ty):
    """-> value tuple: ('l',name) ('g',name) ('c',int,bits) ('null',) ('undef',) ('gep',srcty,base,idx) ('cast',op,v) ..."""
    v = p.peek()
    k = p.kind()
    if k == 'name':
        p.next()
        return ('l', unq(v)) if v[0] == '%' else ('g', unq(v))
    if k == 'num':
        p.next()
        if ty[0] == 'i':
            return ('c', int(v))
        return ('fp', v)
    if k == 'str':
        p.next()
        return ('str', v)
    if v == 'true':
        p.next()
        return ('c', 1)
    if v == 'false':
        p.next()
        return ('c', 0)
    if v in ('null',):
        p.next()
        return ('null',)
    if v in ('undef', 'poison'):
        p.next()
        return ('undef',)
    if v == 'zeroinitializer':
        p.next()
        return ('zero',)
    if v == 'none':
        p.next()
        return ('undef',)
    if v == 'getelementptr':
        p.next()
        p.accept('inbounds')
        p.expect('(')
        st = ptype(p)
        p.expect(',')
        pt = ptype(p)
        base = pvalue(p, pt)
        idx = []
        while p.accept(','):
            if p.accept('inrange'):
                pass
            it = ptype(p)
            idx.append(pvalue(p, it))
        p.expect(')')
        return ('gep', st, base, tuple(idx))
    if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.next()
        p.expect('(')
        t1 = ptype(p)
        x = pvalue(p, t1)
        p.expect('to')
        t2 = ptype(p)
        p.expect(')')
        return ('cast', v, x, t1, t2)
    if v in CE_OPS:
        p.next()
        while p.peek() != '(':
            p.next()
        d = 0
        parts = []
        while True:
            x = p.next()
            parts.append(x)
            if x == '(':
                d += 1
            if x == ')':
                d -= 1
                if d == 0:
                    break
        return ('ceop', v, ' '.join(parts))
    if v in ('[', '{', '<'):
        opn = p.next()
        cls = {'[': ']', '{': '}', '<': '>'}[opn]
        if opn == '<' and p.peek() == '{':
            r = pvalue(p, ty)
            p.expect('>')
            return r
        el = []
        while p.peek() != cls:
            t = ptype(p)
            el.append((t, pvalue(p, t)))
            p.accept(',')
        p.expect(cls)
        return ('agg', tuple(el))
    if v == 'asm':
        p.next()
        while p.kind() == 'word':
            p.next()
        a = p.next()
        p.expect(',')
        b = p.next()
        return ('asm', a)
    raise SyntaxError('value %r in %r' % (v, ' '.join(x[1] for x in p.t)))


def skip_attrs(p):
    while True:
        v = p.peek()
        if v in PARAM_ATTRS:
            p.next()
            if v in ('align',):
                if p.kind() == 'num':
                    p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        else:
            return


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'dbg', 'id', 'line', 'fn', 'block')

    def __init__(self, op, res, ty, args, extra, dbg):
        self.op, self.res, self.ty, self.args, self.extra, self.dbg = op, res, ty, args, extra, dbg
        self.id = None
        self.line = None

    def __repr__(self):
        return '%s=%s %s %s' % (self.res, self.op, self.args, self.extra)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'idx')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = ()


class Func:
    __slots__ = ('name', 'params', 'blocks', 'order', 'entry', 'mod', 'dbg', 'file', 'line', 'internal', 'ret', 'cname',
                 'ptypes', 'rpo', 'livein', 'usedres')


class Mod:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.fieldnames = {}
        self.fielddom = {}
        self.fieldptr = {}
        self.md = {}


CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
         'fptrunc', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
          'fsub', 'fmul', 'fdiv', 'frem'}
FLAGW = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'disjoint', 'nneg'}
DBGRE = re.compile(r', !dbg !(\d+)')


def parse_inst(line):
    dbg = None
    m = DBGRE.search(line)
    if m:
        dbg = int(m.group(1))
    # cut trailing metadata (never inside an instruction operand, except dbg intrinsics which are skipped earlier)
    k = line.find(', !')
    if k >= 0:
        line = line[:k]
    p = P(tokenize(line))
    res = None
    if p.kind() == 'name' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call':
        while p.peek() in FLAGW or p.peek() in PARAM_ATTRS or p.peek() in ('ccc', 'fastcc', 'coldcc'):
            if p.peek() in FLAGW or p.peek() in ('ccc', 'fastcc', 'coldcc'):
                p.next()
            else:
                skip_attrs(p)
        rt = ptype(p)
        if rt[0] == 'fn':
            rt = rt[1]
        callee = pvalue(p, ('ptr',))
        p.expect('(')
        args = []
        while p.peek() != ')':
            t = ptype(p)
            if t == ('md',):
                # skip until , or )
                while p.peek() not in (',', ')'):
                    p.next()
                args.append((t, ('undef',)))
            else:
                skip_attrs(p)
                args.append((t, pvalue(p, t)))
            p.accept(',')
        return Inst('call', res, rt, args, callee, dbg)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        t = ptype(p)
        p.expect(',')
        pt = ptype(p)
        v = pvalue(p, pt)
        return Inst('load', res, t, [(pt, v)], None, dbg)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        pt = ptype(p)
        d = pvalue(p, pt)
        return Inst('store', None, t, [(t, v), (pt, d)], None, dbg)
    if op == 'getelementptr':
        p.accept('inbounds')
        st = ptype(p)
        p.expect(',')
        pt = ptype(p)
        b = pvalue(p, pt)
        idx = []
        while p.accept(','):
            t = ptype(p)
            idx.append((t, pvalue(p, t)))
        return Inst('gep', res, ('ptr',), [(pt, b)] + idx, st, dbg)
    if op == 'alloca':
        t = ptype(p)
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = ptype(p)
                n = (nt, pvalue(p, nt))
        return Inst('alloca', res, ('ptr',), [n] if n else [], t, dbg)
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, [], [unq(p.next())], dbg)
        t = ptype(p)
        c = pvalue(p, t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return Inst('br', None, None, [(t, c)], [a, b], dbg)
    if op == 'switch':
        t = ptype(p)
        c = pvalue(p, t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while p.peek() != ']':
            ct = ptype(p)
            cv = pvalue(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())))
        return Inst('switch', None, None, [(t, c)], (d, cases), dbg)
    if op == 'ret':
        t = ptype(p)
        if t == ('void',):
            return Inst('ret', None, t, [], None, dbg)
        return Inst('ret', None, t, [(t, pvalue(p, t))], None, dbg)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGW:
            p.next()
        pred = p.next()
        t = ptype(p)
        a = pvalue(p, t)
        p.expect(',')
        b = pvalue(p, t)
        return Inst(op, res, ('i', 1), [(t, a), (t, b)], pred, dbg)
    if op in BINOPS:
        while p.peek() in FLAGW:
            p.next()
        t = ptype(p)
        a = pvalue(p, t)
        p.expect(',')
        b = pvalue(p, t)
        return Inst('bin', res, t, [(t, a), (t, b)], op, dbg)
    if op in CASTS:
        while p.peek() in FLAGW:
            p.next()
        t = ptype(p)
        a = pvalue(p, t)
        p.expect('to')
        t2 = ptype(p)
        return Inst('cast', res, t2, [(t, a)], op, dbg)
    if op == 'phi':
        while p.peek() in FLAGW:
            p.next()
        t = ptype(p)
        inc = []
        while p.accept('['):
            v = pvalue(p, t)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            p.accept(',')
            inc.append((b, v))
        return Inst('phi', res, t, [], inc, dbg)
    if op == 'select':
        while p.peek() in FLAGW:
            p.next()
        ct = ptype(p)
        c = pvalue(p, ct)
        p.expect(',')
        t = ptype(p)
        a = pvalue(p, t)
        p.expect(',')
        t2 = ptype(p)
        b = pvalue(p, t2)
        return Inst('select', res, t, [(ct, c), (t, a), (t2, b)], None, dbg)
    if op == 'unreachable':
        return Inst('unreachable', None, None, [], None, dbg)
    # generic: collect typed operands where possible
    args = []
    ty = ('opaque',)
    if op in ('cmpxchg', 'atomicrmw'):
        ex = None
        p.accept('weak')
        p.accept('volatile')
        if op == 'atomicrmw':
            ex = p.next()
        while p.i < len(p.t):
            if p.kind() == 'word' and p.peek() in ('acquire', 'release', 'seq_cst', 'monotonic', 'acq_rel', 'align', 'syncscope'):
                break
            t = ptype(p)
            args.append((t, pvalue(p, t)))
            p.accept(',')
        if op == 'cmpxchg':
            ty = ('lit', (args[1][0], ('i', 1)))
        else:
            ty = args[1][0]
        return Inst(op, res, ty, args, ex, dbg)
    if op == 'extractvalue':
        t = ptype(p)
        v = pvalue(p, t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst(op, res, ty, [(t, v)], idx, dbg)
    if op == 'fence':
        return Inst(op, res, None, [], None, dbg)
    if op == 'freeze':
        t = ptype(p)
        return Inst('freeze', res, t, [(t, pvalue(p, t))], None, dbg)
    if op in ('insertelement', 'extractelement'):
        while True:
            t = ptype(p)
            args.append((t, pvalue(p, t)))
            if not p.accept(','):
                break
            if p.kind() != 'word' and p.peek()[:1] == '!':
                break
        if len(args) >= 2:
            ty = args[0][0] if op == 'insertelement' else args[0][0][2]
            return Inst(op, res, ty, args, None, dbg)
    return Inst('opaque:' + op, res, ty, [], line.strip(), dbg)


DEF = re.compile(r'^define ')
MDRE = re.compile(r'^!(\d+) = (distinct )?(.*)$')


def split_md_fields(s):
    """'a: 1, b: !3, name: "x"' -> dict"""
    d = {}
    for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)', s):
        d[m.group(1)] = m.group(2).strip()
    return d


def cstr(tok):
    """c"..." token to bytes"""
    s = tok[2:-1] if tok.startswith('c') else tok[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_module(path, name):
    mod = Mod(name)
    cur = None
    blk = None
    pend = None
    md = mod.md
    with open(path) as fh:
        lines = fh.read().split('\n')
    n = len(lines)
    li = 0
    while li < n:
        line = lines[li]
        li += 1
        if not line:
            continue
        c0 = line[0]
        if cur is not None:
            if c0 == '}':
                cur = None
                continue
            if c0 != ' ':
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', line)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    blk = Block(nm)
                    cur.blocks[nm] = blk
                    cur.order.append(nm)
                continue
            if 'call void @llvm.dbg.' in line or '@llvm.lifetime' in line:
                continue
            if line.lstrip().startswith('switch '):
                while not (line.rstrip().endswith(']') or '  ]' in line):
                    line += ' ' + lines[li]
                    li += 1
            ins = parse_inst(line)
            blk.insts.append(ins)
            continue
        if c0 == '!':
            m = MDRE.match(line)
            if m:
                md[int(m.group(1))] = m.group(3)
            continue
        if c0 == '%':
            m = re.match(r'^(%\S+|%"[^"]*") = type (.*)$', line)
            mod.structs[unq(m.group(1))] = ptype(P(tokenize(m.group(2))))
            continue
        if c0 == '@':
            k = line.find(', !dbg')
            l2 = line[:k] if k >= 0 else line
            p = P(tokenize(l2))
            nm = unq(p.next())
            p.expect('=')
            ext = False
            const = False
            while p.peek() in LINKAGE:
                w = p.next()
                if w == 'external':
                    ext = True
                if w == 'constant':
                    const = True
                if p.peek() == '(' and w == 'thread_local':
                    p.next(); p.next(); p.next()
            ty = ptype(p)
            init = None
            if not ext and p.peek() not in (None, ','):
                try:
                    init = pvalue(p, ty)
                except SyntaxError:
                    init = None
            mod.globals[nm] = (ty, init, const, ext)
            continue
        if c0 == 'd' and (line.startswith('define ') or line.startswith('declare ')):
            isdef = line.startswith('define ')
            dbg = None
            m = re.search(r'!dbg !(\d+)', line)
            if m:
                dbg = int(m.group(1))
            internal = ' internal ' in line
            p = P(tokenize(line))
            p.next()
            while p.peek() in LINKAGE or p.peek() in PARAM_ATTRS:
                if p.peek() in LINKAGE:
                    p.next()
                else:
                    skip_attrs(p)
            rt = ptype(p)
            nm = unq(p.next())
            p.expect('(')
            params = []
            while p.peek() != ')':
                if p.accept('...'):
                    continue
                t = ptype(p)
                skip_attrs(p)
                pn = None
                if p.kind() == 'name':
                    pn = unq(p.next())
                params.append((t, pn))
                p.accept(',')
            if not isdef:
                mod.decls[nm] = (rt, [t for t, _ in params])
                continue
            f = Func()
            f.name = nm
            f.params = [pn if pn is not None else str(i) for i, (t, pn) in enumerate(params)]
            f.ptypes = [t for t, _ in params]
            f.ret = rt
            f.blocks = {}
            f.order = []
            f.mod = mod
            f.dbg = dbg
            f.internal = internal
            f.file = None
            f.line = None
            mod.funcs[nm] = f
            cur = f
            # implicit entry label
            blk = Block(str(len(params)) if all(pn is None or pn.isdigit() for _, pn in params) else 'entry')
            f.blocks[blk.name] = blk
            f.order.append(blk.name)
            f.entry = blk.name
            continue
    finish(mod)
    return mod


def finish(mod):
    md = mod.md
    # source positions
    locs = {}
    sps = {}
    files = {}
    for k, v in md.items():
        if v.startswith('!DIFile'):
            d = split_md_fields(v)
            files[k] = d.get('filename', '""')[1:-1]

    def sp(k, depth=0):
        v = md.get(k, '')
        d = split_md_fields(v)
        return d

    for f in mod.funcs.values():
        if f.dbg is not None:
            d = sp(f.dbg)
            f.file = files.get(int(d['file'][1:]), '?') if 'file' in d else '?'
            f.line = int(d.get('line', '0'))
        for bn in f.order:
            b = f.blocks[bn]
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = tuple(t.extra)
            elif t.op == 'switch':
                b.succs = tuple(dict.fromkeys([t.extra[0]] + [x for _, x in t.extra[1]]))
            for i, ins in enumerate(b.insts):
                ins.id = (mod.name, f.name, bn, i)
                ins.fn = f
                ins.block = bn
                if ins.dbg is not None:
                    if ins.dbg not in locs:
                        v = md.get(ins.dbg, '')
                        m = re.search(r'line: (\d+)', v)
                        locs[ins.dbg] = int(m.group(1)) if m else None
                    ins.line = locs[ins.dbg]
        f.usedres = set()
        for bn in f.order:
            for ins in f.blocks[bn].insts:
                for x in uses(ins):
                    f.usedres.add(x)
        f.rpo = rpo(f)
        f.livein = liveness(f)
    # struct field names from debug info
    comp = {}
    tdef = {}
    for k, v in md.items():
        if v.startswith('!DICompositeType') and ('DW_TAG_structure_type' in v or 'DW_TAG_union_type' in v):
            comp[k] = split_md_fields(v)
        elif v.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
            d = split_md_fields(v)
            if d.get('baseType', 'null') != 'null' and 'name' in d:
                tdef.setdefault(int(d['baseType'][1:]), d['name'][1:-1])
    for k, d in comp.items():
        names = []
        if 'name' in d:
            names.append(d['name'][1:-1])
        elif k in tdef:
            names.append(tdef[k])
        if not names or 'elements' not in d:
            continue
        el = md.get(int(d['elements'][1:]), '')
        mem = []
        for m in re.finditer(r'!(\d+)', el):
            e = split_md_fields(md.get(int(m.group(1)), ''))
            bt = e.get('baseType', 'null')
            mem.append((int(e.get('offset', '0')), e['name'][1:-1] if 'name' in e else '<anon>',
                        int(bt[1:]) if bt.startswith('!') else None))
        kind = 'union' if 'union' in md[k][:60] else 'struct'
        nm = kind + '.' + names[0]
        if nm in mod.structs and nm not in mod.fieldnames:
            mod.fieldnames[nm] = field_names(mod, nm, mem)
            by = {}
            for o, n, b in mem:
                by.setdefault(o // 8, b)
            mod.fielddom[nm] = {i: domain(md, by.get(o)) for i, o in enumerate(offsets(mod, nm))}


def domain(md, k):
    """values an enum / bool typed member may hold, else None"""
    for _ in range(8):
        if k is None:
            return None
        v = md.get(k, '')
        if v.startswith('!DIBasicType'):
            return (0, 1) if 'DW_ATE_boolean' in v else None
        d = split_md_fields(v)
        if 'DW_TAG_enumeration_type' in v and 'elements' in d:
            out = []
            for m in re.finditer(r'!(\d+)', md.get(int(d['elements'][1:]), '')):
                e = split_md_fields(md.get(int(m.group(1)), ''))
                if 'value' in e:
                    out.append(int(e['value']))
            return tuple(sorted(out)) or None
        if 'DW_TAG_typedef' in v or 'DW_TAG_const' in v or 'DW_TAG_volatile' in v:
            bt = d.get('baseType', 'null')
            k = int(bt[1:]) if bt.startswith('!') else None
            continue
        return None
    return None


def sizeof(mod, t):
    """(size, align) in bytes"""
    k = t[0]
    if k == 'i':
        s = 1
        while s * 8 < t[1]:
            s *= 2
        return s, min(s, 16)
    if k == 'ptr':
        return 8, 8
    if k == 'f':
        return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16)}.get(t[1], (8, 8))
    if k == 'arr':
        s, a = sizeof(mod, t[2])
        return s * t[1], a
    if k == 'vec':
        s, a = sizeof(mod, t[2])
        return s * t[1], s * t[1]
    if k == 'struct':
        st = mod.structs.get(t[1])
        if st is None or st[0] == 'opaque':
            return 0, 1
        return sizeof(mod, st)
    if k == 'lit':
        off, al = 0, 1
        for e in t[1]:
            s, a = sizeof(mod, e)
            al = max(al, a)
            off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    return 0, 1


def offsets(mod, nm):
    st = mod.structs[nm]
    if st[0] != 'lit':
        return []
    off = 0
    out = []
    for e in st[1]:
        s, a = sizeof(mod, e)
        off = (off + a - 1) // a * a
        out.append(off)
        off += s
    return out


def field_names(mod, nm, mem):
    offs = offsets(mod, nm)
    by = {}
    for o, n, s in mem:
        by.setdefault(o // 8, n)
    return {i: by.get(o, '<%d>' % i) for i, o in enumerate(offs)}


def uses(ins):
    out = []

    def v(x):
        if x is None:
            return
        if x[0] == 'l':
            out.append(x[1])
        elif x[0] == 'gep':
            v(x[2])
            for y in x[3]:
                v(y)
        elif x[0] == 'cast':
            v(x[2])
        elif x[0] == 'agg':
            for _, y in x[1]:
                v(y)

    for a in ins.args:
        v(a[1])
    if ins.op == 'call':
        v(ins.extra)
    if ins.op == 'phi':
        for _, x in ins.extra:
            v(x)
    if ins.op.startswith('opaque:'):
        for m in re.finditer(r'%(\d+|[-a-zA-Z$._][-a-zA-Z$._0-9]*)', ins.extra):
            if m.group(1) != ins.res:
                out.append(m.group(1))
    return out


def rpo(f):
    seen = set()
    out = []
    st = [(f.entry, iter(f.blocks[f.entry].succs))]
    seen.add(f.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            out.append(n)
            st.pop()
    out.reverse()
    return {b: i for i, b in enumerate(out)}


def liveness(f):
    use, deff = {}, {}
    phiuse = {}
    for bn in f.order:
        u, d = set(), set()
        for ins in f.blocks[bn].insts:
            if ins.op == 'phi':
                for pb, x in ins.extra:
                    if x[0] == 'l':
                        phiuse.setdefault(pb, set()).add(x[1])
            else:
                for x in uses(ins):
                    if x not in d:
                        u.add(x)
            if ins.res is not None:
                d.add(ins.res)
        use[bn], deff[bn] = u, d
    live = {bn: set(use[bn]) for bn in f.order}
    ch = True
    while ch:
        ch = False
        for bn in reversed(f.order):
            o = set(phiuse.get(bn, ()))
            for s in f.blocks[bn].succs:
                o |= live[s]
            # results of phis in succ are defs there; livein excludes them because deff has them
            nl = use[bn] | (o - deff[bn])
            if nl != live[bn]:
                live[bn] = nl
                ch = True
    return live
