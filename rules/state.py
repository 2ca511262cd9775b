"""Order of saving, collecting and forgetting in the daemon, and what must hold each time it goes to sleep; decided path by path on the main loop and on the functions that forget crontabs."""
from sa.engine import Engine, Rule, Outcome, av_const, INF, av_has
from sa import core
from sa.build import AnalysisBroken
from .common import ext, gvar, fld, holds, relations, gterm, reaching

WAITS = {'waitpid', 'wait', 'wait3', 'wait4'}
def nullarg(eng, env, fr, i, n=0):
    a = eng.av(eng.ev(i.args[n], env, fr), env)
    return a == av_const(0)

class Forget(Rule):
    """q: 'D' some ended job may not be on disk | ('F', term) the crontab `term` is on disk | 'A' everything is on disk"""
    name = 'save before forget'
    max_states = 24
    def __init__(self, p): self.n = 0; self.load = p.reaches(None, lambda i: ext(p, i, {'opendir'}))
    def is_event(self, prog, i): return i.op == 'call' and i.cname in ('save_file', 'delete_file') or ext(prog, i, WAITS)
    def enter(self, prog, f): return not f.noreturn and f.name not in self.load and f.name not in ('save_file', 'delete_file') and f.name not in ('wait_all', 'wait_chld')
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        if i.cname == 'save_file':
            t = eng.ev(i.args[0], env, fr)
            return [Outcome('A' if eng.av(t, env) == av_const(0) else q if q == 'A' else 'F')]
        if i.cname == 'delete_file':
            self.n += 1
            if q in ('D', 'N'): eng.report(i, 'a crontab is forgotten although jobs may have ended since its state was last saved: they would be run again after a restart', eng.trace, key='%s:forget' % eng.entry)
            return [Outcome('A' if q == 'A' else 'D')]
        if ext(eng.prog, i, WAITS) or i.cname in ('wait_all', 'wait_chld'):
            if q == 'N': eng.report(i, 'waits for the running jobs before the first save: if the daemon is killed meanwhile everything since the last save is lost', eng.trace, key='%s:wait' % eng.entry)
            return [Outcome('D')]
        return None

class SaveAll(Rule):
    """save_file(NULL): q = 'start' | 'more' a crontab not yet saved | 'saved' | 'end'"""
    name = 'save all'
    max_states = 8
    def __init__(self): self.n = 0
    def is_event(self, prog, i): return (i.op == 'load' and (gvar(i.ops[0]) == 'file_base' or fld(i.ops[0], 'cf_next'))) or (i.op == 'call' and i.cname == 'save_file_safe')
    def enter(self, prog, f): return not f.noreturn and f.name != 'save_file_safe'
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and (gvar(i.ops[0]) == 'file_base' or fld(i.ops[0], 'cf_next')):
            if q == 'more': eng.report(i, 'saving everything skips a crontab', eng.trace, key='save_all:skips')
            if gvar(i.ops[0]) != 'file_base' and q == 'start': eng.report(i, 'saving everything does not begin with the first crontab', eng.trace, key='save_all:first')
            return [Outcome('end', ret=av_const(0)), Outcome('more', ret=(1, INF, frozenset()))]
        if i.op == 'call' and i.cname == 'save_file_safe':
            self.n += 1
            return [Outcome('saved', ret=(-1, 0, frozenset()))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        if q != 'end': eng.report(inst, 'saving everything stops before the last crontab', eng.trace, key='save_all:stops')

class Periodic(Rule):
    """main loop: q = (saved|notdue|'' , 'run' first turn?)"""
    name = 'periodic save'
    max_states = 16
    def __init__(self, p): self.load = p.reaches(None, lambda i: ext(p, i, {'opendir', 'fork'})); self.n = 0; self.saves = 0; self.lims = 0
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ('save_file', 'check_lavg', 'next_wake_time') or ext(prog, i, SLEEPS))
    def enter(self, prog, f): return not f.noreturn and f.name not in self.load and f.name not in ('save_file', 'check_lavg', 'next_wake_time', 'select_call')
    def is_now(self, eng, env, t): return t == gterm(env, 'now') and t is not None
    def on_branch(self, eng, q, env, i, fr, succ):
        n = gterm(env, 'now')
        if n is None or q[0] == 'saved': return q
        for p, a, b in relations(env):
            if (b == n and p in ('sgt', 'ugt') and a[0] != 'c'): return (('notdue', a), q[1])
            if (a == n and p in ('slt', 'ult') and b[0] != 'c'): return (('notdue', b), q[1])
        return q
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        if i.cname == 'save_file':
            if eng.av(eng.ev(i.args[0], env, fr), env) == av_const(0): self.saves += 1; return [Outcome(('saved', q[1]))]
            return [Outcome(q)]
        if i.cname in ('check_lavg', 'next_wake_time'):
            t = eng.ev(i.args[0], env, fr)
            if q[1]:
                self.lims += 1
                if isinstance(q[0], tuple) and q[0][1] != t:
                    return [Outcome(((''), True))]
            return None
        if ext(eng.prog, i, SLEEPS) or i.cname == 'select_call':
            self.n += 1
            if q[1] and q[0] == '': eng.report(i, 'the main loop goes back to sleep without having saved the state of the jobs and without knowing that the next saving date is still to come', eng.trace, key='main_loop:periodic')
            return [Outcome(('', True))]
        return None
SLEEPS = {'select', 'pselect', 'poll', 'ppoll', 'sleep', 'nanosleep', 'usleep'}

class Wake(Rule):
    """q = (wake time fresh?, serial queue drained?, first turn?)"""
    name = 'wake time and serial queue'
    max_states = 24
    def __init__(self, p):
        self.p = p; self.n = 0
        sched = lambda i: i.op == 'store' and (fld(i.ops[1], 'cl_nextexe') or gvar(i.ops[1]) == 'queue_base' or fld(i.ops[1], 'j_next'))
        grow = lambda i: i.op == 'store' and gvar(i.ops[1]) in ('serial_num', 'serial_running')
        self.sched_i = sched; self.grow_i = grow
        self.sched = p.reaches(None, sched); self.grow = p.reaches(None, grow)
        self.wake = p.reaches(None, lambda i: i.op == 'call' and i.cname == 'next_wake_time')
        self.slp = p.reaches(None, lambda i: ext(p, i, SLEEPS)) - p.reaches(None, lambda i: ext(p, i, {'fork'}))
    def is_event(self, prog, i): return (i.op == 'call' and (i.cname == 'next_wake_time' or ext(prog, i, SLEEPS))) or self.sched_i(i) or self.grow_i(i) or (i.op == 'load' and gvar(i.ops[0]) == 'serial_num')
    def enter(self, prog, f): return not f.noreturn and (f.name == 'main_loop' or f.name in self.wake or (f.name in self.slp and f.name not in self.sched) or f.name in self.helpers)
    def drained(self, env):
        n, r, m = (gterm(env, g) for g in ('serial_num', 'serial_running', 'serial_max_running'))
        if n is not None and eng_max(self.eng, n, env) <= 0: return True
        return r is not None and m is not None and holds(env, r, '>=', m)
    def on_branch(self, eng, q, env, i, fr, succ):
        self.eng = eng
        if not q[1] and self.drained(env): return (q[0], True, q[2])
        return q
    def on_inst(self, eng, q, env, i, fr):
        if self.sched_i(i): q = (False, q[1], q[2]); return [Outcome(q)]
        if self.grow_i(i): q = (q[0], False, q[2]); return [Outcome(q)]
        if i.op != 'call': return None
        if i.cname == 'next_wake_time': return [Outcome((True, q[1], q[2]))]
        if ext(eng.prog, i, SLEEPS) or i.cname == 'select_call':
            self.n += 1
            if q[2]:
                if not q[0]: eng.report(i, 'the daemon goes to sleep on a wake time computed before the schedule was changed', eng.trace, key='main_loop:stale')
                if not q[1]: eng.report(i, 'the daemon goes to sleep although a serial job could be started', eng.trace, key='main_loop:serial')
            return [Outcome((True, False, True))]
        t = eng.prog.target(i)
        if t is not None and not self.enter(eng.prog, t):
            a = t.name in self.sched; b = t.name in self.grow
            if a or b: return [Outcome((q[0] and not a, q[1] and not b, q[2]))]
        return None
def eng_max(eng, t, env): return eng.av(t, env)[1]

def saving(ctx):
    """Rule: a function that forgets crontabs first saves all that collecting children may have changed; saving everything visits every crontab; the main loop saves everything whenever the saving date is reached."""
    p = ctx.prog('fcron')
    for f in ('save_file', 'delete_file', 'save_file_safe', 'main_loop'): p.func(f)
    requested = {'synchronize_dir', 'synchronize_file', 'read_file'}   # removal asked for by the user, or replacement by a new version
    roots = ['xexit', 'reload_all']
    for r in roots: ctx.need('delete_file' in {f.name for f in p.closure([p.func(r)])}, '%s does not forget the crontabs' % r)
    def covered(f, seen=()):
        if f in requested or f in roots: return True
        cs = {c.fn.name for c in p.callers.get(f, [])} - set(seen)
        return bool(cs) and all(covered(c, seen + (f,)) for c in cs)
    direct = [f.name for f in p.funcs.values() if any(i.op == 'call' and i.cname == 'delete_file' for i in f.insts())]
    roots += [f for f in direct if not covered(f)]
    for r in roots:
        ru = Forget(p); e = Engine(p, ru); e.entry = r; e.run(r, 'N' if p.func(r).noreturn else 'D'); ctx.engine(e, 'forget:' + r)
        ctx.ob('%s: saved before forgotten' % r, True, '', '%d removals' % ru.n)
    ru = SaveAll(); e = Engine(p, ru); f = p.func('save_file')
    from sa.engine import Env
    env = Env(); env.bind[((f.name,), 'A0')] = ('c', 0)
    e.run('save_file', 'start', env); ctx.engine(e, 'save_file(NULL)'); ctx.need(ru.n, 'save_file saves nothing')
    ru = Periodic(p); e = Engine(p, ru); e.run('main_loop', ('', False)); ctx.engine(e, 'main_loop')
    ctx.need(ru.n, 'the main loop does not sleep')
    ctx.ob('main loop saves', ru.saves > 0, 'main_loop', 'the main loop never saves everything')
    # leaving the daemon on request saves
    wt = reaching(p, lambda i: i.op == 'call' and i.cname == 'save_file', name=True)
    xe = [i for i in p.callers.get('xexit', []) if i.fn.name != 'xexit']
    ctx.ob('xexit saves', 'xexit' in wt, 'xexit', 'the daemon exits without saving')

def wake(ctx):
    """Rule: on every path to a sleep of the main loop, the wake time was computed after the last change of the schedule, and the serial queue is empty or as many serial jobs run as allowed."""
    p = ctx.prog('fcron')
    for f in ('next_wake_time', 'main_loop', 'run_serial_job', 'check_lavg'): p.func(f)
    ru = Wake(p)
    main = {i.cname for i in p.func('main_loop').insts() if i.op == 'call' and p.target(i) is not None}
    # helpers of the main loop alone which test or drain the serial queue
    ru.helpers = {n for n in main if all(c.fn.name == 'main_loop' for c in p.callers.get(n, [])) and
                  any((i.op == 'call' and i.cname == 'run_serial_job') or (i.op == 'load' and gvar(i.ops[0]) == 'serial_num') for i in p.func(n).insts())
                  and n not in ('test_jobs',)}
    e = Engine(p, ru); e.run('main_loop', (True, False, False)); ctx.engine(e, 'main_loop')
    ctx.need(ru.n, 'the main loop does not sleep')
    ctx.ob('sleeps examined', True, '', '%d abstract arrivals at a sleep' % ru.n)
