"""Running out of memory is survived: every allocation may fail, and no path may then use a null pointer."""
from common import *
from driver import *
import engine
import interp

ALLOCS = set(interp.ALLOCS) | {'WSS_realloc', 'WSS_realloc_normal', 'realloc', 'rprealloc', 'strdup', 'strndup'}
# function: (pointer argument, argument that must not be zero for it to be used)
USES = {'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'memset': ((0, 2),), 'memcmp': ((0, 2), (1, 2)), 'strlen': ((0, None),),
        'strcmp': ((0, None), (1, None)), 'strncmp': ((0, 2), (1, 2)), 'strcasecmp': ((0, None), (1, None)),
        'strncasecmp': ((0, 2), (1, 2)), 'strchr': ((0, None),), 'strrchr': ((0, None),), 'strstr': ((0, None), (1, None)),
        'strcpy': ((0, None), (1, None)), 'strncpy': ((0, 2), (1, 2)), 'strcat': ((0, None), (1, None)), 'sprintf': ((0, None), (1, None)),
        'atoi': ((0, None),), 'strtol': ((0, None),), 'strdup': ((0, None),), 'strtok_r': ((1, None),), 'fclose': ((0, None),),
        'pthread_mutex_lock': ((0, None),), 'pthread_mutex_unlock': ((0, None),), 'pthread_mutex_init': ((0, None),),
        'regcomp': ((0, None),), 'regexec': ((0, None),), 'pthread_mutex_destroy': ((0, None),), 'pthread_rwlock_init': ((0, None),)}


# explored by themselves, not again from their callers
APART = ('WSS_config_load', 'json_parse_ex', 'json_value_free_ex')


class NullMon(Monitor):
    """mon: None, or (mode, place of the allocation that failed); once: only that one, ever: all later ones too"""
    names = frozenset(ALLOCS | set(USES))
    LOCKFAIL = False
    OOM = False
    K, KHEAD, KRET = 8, 2, 4
    inline_never = frozenset({'log_log', 'log_set_lock', 'utf8_check', 'WSS_malloc', 'WSS_calloc', 'WSS_realloc', 'WSS_free', 'SHA1', 'SHA1Transform', 'hex_value'})

    def __init__(self, prog, job=None):
        self.prog = prog
        self.sites = set()
        self.inline_never = self.inline_never | {f for f in APART if job and job['root'] != f}

    def interesting(self, prog, f, ins):
        return ins.op in ('load', 'store') and False

    def init(self):
        return None

    def call(self, itp, st, ins, name, args, ctx):
        base = name
        if base.startswith('llvm.mem'):
            base = base.split('.')[1]
        for i, n in USES.get(base, ()):
            if i < len(args) and self.null(st, args[i]):
                if n is not None and n < len(args) and st.const(args[n]) == 0:
                    continue
                self.bad(itp, st, ins, ctx, 'passes a null pointer to %s' % base)
                return []
        if name not in ALLOCS:
            return None
        return self.allocation(itp, st, ins, name, args, ctx)

    def icall(self, itp, st, ins, cv, args, ctx):
        # the allocators a plugin was given: pointers that start out as those of the C library
        p = cv.b if cv.k == 's' and isinstance(cv.b, engine.Val) else None
        r = engine.root(p) if p is not None else None
        g = self.prog.gl.get(r) if r is not None and r.k == 'G' else None
        if not g or not g[1]:
            return None
        f = itp.const_load(p, g, r)
        if f is None and p is r and g[1][0] == 'agg':
            f = itp.const_load(engine.F(p, None, 0), g, r)
        if f is not None and f.k == 'fn' and f.a in ALLOCS:
            return self.allocation(itp, st, ins, f.a, args, ctx)
        return None

    def allocation(self, itp, st, ins, name, args, ctx):
        self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, name))
        place = '%s:%s in %s' % (short_file(ins.fn.file), ins.line, ins.fn.cname)
        out = []
        if st.mon is None or st.mon[0] == 'ever':
            for mode in (('once', 'ever') if st.mon is None else ('ever',)):
                s = st.copy()
                if st.mon is None:
                    s.mon = (mode, place)
                if name in ('WSS_realloc',):
                    itp.store(s, args[0], ZERO, ('ptr',))
                out.append((ZERO, s))
        if st.mon is None or st.mon[0] == 'once':
            r = itp.model(ctx.fn, st, ins, name, args, ctx)
            if r is None:
                v = itp.retsym(st, ins, ctx, name)
                st.facts[v] = engine.NONNULL
                r = [(v, st)]
            out = r + out
        return out

    def null(self, st, p):
        while p.k in ('F', 'I'):
            p = p.a
        return st.const(p) == 0

    def noreturn(self, itp, st, ins, name, ctx):
        if st.mon and name in ('exit', '_exit', '_Exit', 'abort', 'quick_exit', '__assert_fail'):
            itp.report('exit', ins, ctx, 'ends the server after the allocation at %s failed' % st.mon[1], st)

    def deref(self, itp, st, ins, p, ctx):
        if self.null(st, p):
            self.bad(itp, st, ins, ctx, 'uses a null pointer')
            raise interp.PathEnd

    def bad(self, itp, st, ins, ctx, msg):
        f = '' if st.mon else 'unrelated-'
        itp.report(f + 'null', ins, ctx, msg + (' after the allocation at %s failed%s' % (
            st.mon[1], '' if st.mon[0] == 'once' else ', as all later ones') if st.mon else ''), st,
                   (ins.line, st.mon is None, st.mon is not None and st.mon[1].endswith(' in ' + ins.fn.cname)))


def short_file(f):
    return f.split('/')[-1]


def check(tier):
    run = Run()
    progs = build.programs(('server', 'deflate', 'echo', 'broadcast'))
    for name, prog in sorted(progs.items()):
        mon = NullMon(prog)
        run.add(explore(prog, lambda j: NullMon(prog, j), relevant_roots(prog, mon) + [f for f in APART if f in prog.funcs], 20000000))
    # pointers that are null without any failure rest on an invariant the analysis does not see: in such a function
    # only the failure of one of its own allocations counts
    other = {(r['file'], r['function']) for r in run.reports if r['rule'].startswith('unrelated')}
    reports = [r for r in run.reports if not r['rule'].startswith('unrelated') and
               ((r['file'], r['function']) not in other or ' in %s failed' % r['function'].split(':')[-1] in r['message'])]
    if not run.sites:
        raise AnalysisError('no allocation found')
    cov = run.cover()
    cov['functions_with_own_failures_only'] = sorted(f for _, f in other)
    return reports, cov, [
        'an allocation is a call of the wrappers or of the C library function; the C library\'s and the plugin loader\'s own '
        'allocations, which the process cannot see, are taken to succeed or to report failure through their results',
        'a null pointer counts when it is used at a constant offset or handed to a string or memory function; what '
        'zlib and OpenSSL do with the null they are given is theirs',
        'a failed allocation is one that fails alone, or the first after which all fail',
    ]
