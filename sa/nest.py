"""Monitors that let the functions of the program be called from inside an analysis: stories of several calls, one after or within another."""
import engine
from engine import ZERO
from interp import Monitor, Ctx


class Nest(Monitor):
    LOCKFAIL = False
    OOM = False
    K = KHEAD = KRET = 1 << 20
    MODSIZE = 1 << 30

    def __init__(self, prog):
        self.prog = prog
        self.sites = set()
        self.stack = []         # kinds of the activations
        self.exits = []         # where the innermost activation ended its thread
        self.keep = frozenset()

    def group(self, st):
        return st.mon

    def modular(self, itp, g):
        return False

    def inline(self, itp, f):
        return f.cname not in self.inline_never

    def site(self, ins, what):
        if ins is not None:
            self.sites.add('%s:%s %s' % (ins.fn.file, ins.line, what))

    def nested(self, itp, st, name, args, kind):
        """[(result, state)] of a call"""
        f = self.prog.need(name)
        env = st.env
        keep = set(self.keep)
        for v in list(env.values()) + list(args):
            keep |= engine.syms(v)
        old, self.keep = self.keep, frozenset(keep)
        self.stack.append(kind)
        olde, self.exits = self.exits, []
        args = (list(args) + [ZERO] * len(f.params))[:len(f.params)]
        res = itp.run(f, args, st.copy(), Ctx(None, None, f), self.keep)
        res = res + [(None, s) for s in self.exits]
        self.exits = olde
        self.stack.pop()
        self.keep = old
        for r, s in res:
            s.env = dict(env)
        return res
