"""Jobs on sessions: a session is used only while it cannot be freed, every job is released once, freed exactly once."""
from common import *
from driver import *
from sess import SessMon, S


def session_callbacks(prog):
    out = set()
    for f in prog.funcs.values():
        for bn in f.order:
            for i in f.blocks[bn].insts:
                if i.op == 'call':
                    n = prog.callee_name(f.mod, i.extra)
                    if n == 'WSS_session_all':
                        c = prog.callee_name(f.mod, i.args[0][1])
                        if c:
                            out.add(c)
    return out


def check(tier):
    prog = build.program('server')
    cbs = session_callbacks(prog)
    run = explore(prog, lambda j: SessMon(prog), relevant_roots(prog, SessMon(prog), cbs | {'main'}))
    for c in cbs:
        if c not in run.funcs:
            raise AnalysisError('the callback %s was not reached from any thread' % c)
    cov = run.cover()
    if not run.reports and cov['rule_instances'] < 150:
        raise AnalysisError('only %d uses of sessions found' % cov['rule_instances'])
    cov['explanation'] = ('on every path of every thread each session is followed with the number of jobs the thread holds on '
                          'it and whether the thread is the one that disconnects it; every use, registration, release, wait '
                          'and free is checked against that')
    return run.reports, cov, ['locking a valid mutex succeeds', 'main() frees the remaining sessions after every thread was joined']
