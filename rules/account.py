"""Conservation of the job counters, decided per entry function over every path and every combination of the options serial, serial_once and lavg (helpers are entered in context)."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, ORIG, av_has, Env
from sa import core, opts
from sa.build import AnalysisBroken
from .common import ext, fld, gvar, opt_byte, Opts, delta

NAMES = ('serial', 'serial_once', 'lavg')
LISTF = {'exe_list_add': ('exe', 1), 'exe_list_remove_cur': ('exe', -1), 'lavg_list_add_line': ('lavg', 1), 'lavg_list_add': ('lavg', 1),
         'lavg_list_remove_cur': ('lavg', -1), 'exe_list_add_line': ('exe', 1)}
GLOB = {'serial_running': 'srun', 'lavg_serial_running': 'lrun', 'serial_num': 'snum'}
def cls(o):
    s, once, l = o
    return 'S' if once or (s and not l) else 'L' if s and l else ''

class Acc(Rule):
    """q = (current option values, option values at the start of the episode, imbalance of each counter, line|noline|?)"""
    name = 'job accounting'
    max_states = 10
    def __init__(self, table, root, opaque, check, combos, dele=False):
        self.o = Opts(table, NAMES); self.root = root; self.opaque = opaque; self.check = check; self.combos = combos; self.extra = 0; self.dele = dele
    def start(self, o, ln='?', num=0): 
        c = [0] * len(K); c[IX['num']] = num
        return (o, o, tuple(c), ln)
    def is_event(self, prog, i):
        if i.op == 'store':
            return fld(i.ops[1], 'cl_numexe') or fld(i.ops[1], 'cf_running') or fld(i.ops[1], 'e_line') or gvar(i.ops[1]) in GLOB or slot(i)
        return i.op == 'call' and (i.cname in LISTF or ext(prog, i, {'fork', 'vfork', 'waitpid', 'wait', 'wait3', 'wait4'}))
    def enter(self, prog, f): return f.name not in self.opaque and f.name not in LISTF
    def bump(self, q, **ks):
        c = list(q[2])
        for k, d in ks.items():
            for kk, f in EFF[k].items():
                if f == 'S': f = -1 if cls(q[1]) == 'S' else 0
                elif f == 'L': f = -1 if cls(q[1]) == 'L' else 0
                n = IX[kk]; c[n] = max(-5, min(5, c[n] + f * d))
        return (q[0], q[1], tuple(c), q[3])
    def on_inst(self, eng, q, env, i, fr):
        self.o.fr = fr
        if i.op in ('load', 'store'):
            b = opt_byte(i)
            if b is not None and b >= 0:
                if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, q[0]))]
                t = eng.ev(i.ops[0], env, fr); p = eng.ptr(eng.ev(i.ops[1], env, fr))
                def forget(e, en, p=p): en.mem.pop(p, None); en._k = None; return True
                return [Outcome((self.o.after_store(t, b, q[0]),) + q[1:], refine=forget)]
        if i.op == 'load':
            if fld(i.ops[0], 'e_line') and q[3] != '?':
                p = eng.ptr(eng.ev(i.ops[0], env, fr)); v = env.mem.get(p)
                if v is None: return [Outcome(q, ret=(1, INF, frozenset()) if q[3] == 'line' else av_const(0))]
            return None
        if i.op == 'store':
            if fld(i.ops[1], 'cl_numexe'): k = 'num'
            elif fld(i.ops[1], 'cf_running'): k = 'file'
            elif gvar(i.ops[1]) in GLOB: k = GLOB[gvar(i.ops[1])]
            elif slot(i):
                a = eng.av(eng.ev(i.ops[0], env, fr), env)
                return [Outcome(self.bump(q, slot=-1 if a == av_const(0) else 1))]
            elif fld(i.ops[1], 'e_line') and self.dele:
                a = eng.av(eng.ev(i.ops[0], env, fr), env)
                return [Outcome(self.bump(q, exe=-1))] if a == av_const(0) else None
            else: return None
            d = delta(eng, env, i, fr)
            if d is None or d[0] != 'd':
                eng.report(i, 'the %s is overwritten instead of being adjusted' % TXT[k], eng.trace, key='%s:%s:overwritten' % (self.root, k)); return [Outcome(q)]
            return [Outcome(self.bump(q, **{k: d[1]}))]
        if i.op != 'call': return None
        n = i.cname
        if ext(eng.prog, i, {'fork', 'vfork'}):
            return [Outcome(q, ret=av_const(-1)), Outcome(self.bump(q, proc=1), ret=(1, INF, frozenset()))]
        if ext(eng.prog, i, {'waitpid', 'wait', 'wait3', 'wait4'}):
            self.close(eng, q, i)
            out = [Outcome(self.start(q[0]), ret=(-INF, 0, frozenset()))]
            for ln in ('line', 'noline'):
                for o in self.combos: out.append(Outcome(self.start(o, ln), ret=(1, INF, frozenset())))
            return out
        if n in LISTF:
            if n in ('lavg_list_add_line', 'lavg_list_add'):
                return [Outcome(q, ret=av_const(0)), Outcome(self.bump(q, lavg=1), ret=(1, INF, frozenset()))]
            if n == 'exe_list_add_line':
                a = eng.av(eng.ev(i.args[1], env, fr), env)
                return [Outcome(self.bump(q, proc=-1) if a == av_const(0) else self.bump(q, proc=-1, exe=1), ret=(1, INF, frozenset()))]
            if n == 'exe_list_add': return [Outcome(self.bump(q, exe=1, proc=-1), ret=(1, INF, frozenset()))]
            if n == 'exe_list_remove_cur':
                return [Outcome(q[:3] + ('?',)) if q[3] == 'noline' else Outcome(self.bump(q, exe=-1)[:3] + ('?',))]
            if n == 'lavg_list_remove_cur': return [Outcome(self.bump(q, lavg=-1))]
        return None
    def label(self, o): return '+'.join(n for n, v in zip(NAMES, o) if v) or 'plain'
    def close(self, eng, q, i):
        """end of an episode: every counter moved by exactly what happened"""
        self.extra += 1
        for k in self.check:
            d = q[2][IX[k]]
            if d: eng.report(i, 'job with options [%s]: the %s is off by %+d' % (self.label(q[1]), TXT[k], d), eng.trace, key='%s:%s:%s' % (self.root, k, self.label(q[1])))
    def on_exit(self, eng, q, env, inst, fr):
        self.close(eng, q, inst)
def slot(i):
    """store into an element of the serial queue"""
    b, st = core.steps(i.ops[1])
    return getattr(b, 'op', None) == 'load' and gvar(b.ops[0]) == 'serial_array' and i.ops[0].type.kind == 12
# counters kept in q: each is (the program's counter) - (what the queues and the running list say)
K = ('num', 'file', 'srun', 'lrun', 'proc', 'qlen')
IX = {k: n for n, k in enumerate(K)}
EFF = {'num': {'num': 1}, 'file': {'file': 1}, 'srun': {'srun': 1}, 'lrun': {'lrun': 1}, 'snum': {'num': -1, 'qlen': 1}, 'slot': {'qlen': -1},
       'lavg': {'num': -1}, 'exe': {'num': -1, 'file': -1, 'srun': 'S', 'lrun': 'L'}, 'proc': {'proc': 1}}
TXT = {'num': 'number of pending or running executions of the job', 'file': 'number of running jobs of the crontab', 'srun': 'number of running serial jobs',
       'lrun': 'number of running lavg serial jobs', 'snum': 'number of jobs in the serial queue', 'proc': 'number of processes missing from the list of running processes', 'qlen': 'length of the serial queue'}

def accounting(ctx):
    """Rule: over one start / queueing / removal / termination, the changes of the per-job count, the per-crontab count, the serial and lavg-serial counts equal the changes of the queues and of the list of running processes."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work)
    allc = [(s, o, l) for s, o, l in product((0, 1), repeat=3) if not (o and l)]
    for n in LISTF:
        if n != 'lavg_list_add': p.func(n)
    for g in GLOB: ctx.need(any(i.op == 'store' and gvar(i.ops[1]) == g for f in p.funcs.values() for i in f.insts()), 'counter %s is never written' % g)
    ctx.need(any(i.op == 'store' and slot(i) for f in p.funcs.values() for i in f.insts()), 'no store into the serial queue found')
    full = K
    runs = [
     ('run_normal_job', [(0, 0, 0)], full, set()),
     ('run_serial_job', [(1, 0, 0), (1, 1, 0), (0, 1, 0)], full, set()),
     ('add_serial_job', allc, full, set()),
     ('add_lavg_job', allc, full, {'move_time_to', 'set_next_exe'}),
     ('check_lavg', [(0, 0, 1), (1, 0, 1)], full, {'set_next_exe', 'move_time_to', 'next_wake_time'}),
     ('wait_chld', None, full, {'run_serial_job'}),
     ('wait_all', None, full, set()),
     ('delete_file', allc, ('srun', 'lrun', 'qlen'), set()),
    ]
    jobs = []
    def mk(root, r, q, env=None):
        def f():
            e = Engine(p, r)
            if root not in e.relevant: raise AnalysisBroken('%s contains no accounting event' % root)
            e.run(root, q, env); return e
        return f
    for root, combos, check, opaque in runs:
        p.func(root)
        for o in (combos or [(0, 0, 0)]):
            r = Acc(t, root, opaque, check, allc, root == 'delete_file')
            jobs.append(('%s[%s]' % (root, r.label(o) if combos else 'any'), mk(root, r, r.start(o, 'line' if root == 'delete_file' else '?'))))
    # start-up: the count read from disk is replaced by what is queued again
    f = p.func('set_next_exe_startup'); C = core_consts(ctx)
    step = numexe_step(p)
    for name in ('CONTEXT_BOOT', 'CONTEXT_DEFAULT', 'CONTEXT_RESUME'):
        for o in allc:
            for n0 in (0, 1):
                r = Acc(t, 'set_next_exe_startup(%s)' % name, {'set_next_exe', 'set_next_exe_notrun', 'mail_notrun', 'insert_nextexe', 'move_time_to'}, ('num', 'file', 'srun', 'lrun', 'qlen'), allc)
                fr = (f.name,); env = Env()
                env.bind[(fr, 'A1')] = ('c', C[name])
                env.mem[('p', ('s', fr, 'A0'), (step,))] = ('c', n0)
                jobs.append(('%s[%s,numexe=%d]' % (r.root, r.label(o), n0), mk(f.name, r, r.start(o, '?', n0 if name != 'CONTEXT_RESUME' else 0), env)))
    for label, n in ctx.engines(jobs):
        if not n: raise AnalysisBroken('%s: no episode was closed' % label)
        ctx.ob('%s: balanced' % label, True, '', '%d episodes' % n)
    once(ctx, p, t, allc)
    routing(ctx, p, t, allc)

def once(ctx, p, t, allc):
    """serial_once is never set on a job waiting on the load average (the counters rely on it)"""
    class R(Rule):
        name = 'serial_once'; max_states = 10
        def __init__(self): self.o = Opts(t, NAMES); self.extra = 0
        def is_event(self, prog, i): return i.op == 'store' and opt_byte(i) == t['serial_once'][0]
        def on_inst(self, eng, q, env, i, fr):
            self.o.fr = fr
            b = opt_byte(i) if i.op in ('load', 'store') else None
            if b is None or b < 0: return None
            if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, q))]
            n = self.o.after_store(eng.ev(i.ops[0], env, fr), b, q)
            self.extra += 1
            if n[1] and n[2] and not (q[1] and q[2]): eng.report(i, 'serialonce is set on a job that runs through the load average queue', eng.trace)
            p0 = eng.ptr(eng.ev(i.ops[1], env, fr))
            def forget(e, en): en.mem.pop(p0, None); en._k = None; return True
            return [Outcome(n, refine=forget)]
    jobs = []
    for f in ('set_next_exe_startup',):
        for o in allc:
            def mk(o=o, f=f):
                e = Engine(p, R()); e.run(f, o); return e
            jobs.append(('serialonce:%s%s' % (f, o), mk))
    for label, n in ctx.engines(jobs): pass

ROUTE = {'run_normal_job': lambda s, l: not s and not l, 'add_serial_job': lambda s, l: s and not l, 'add_lavg_job': lambda s, l: l}
def routing(ctx, p, t, allc):
    """which queue a due job goes to"""
    class R(Rule):
        name = 'routing'; max_states = 10
        def __init__(self, o): self.o = Opts(t, NAMES); self.vals = o; self.extra = 0
        def is_event(self, prog, i): return i.op == 'call' and i.cname in ROUTE
        def enter(self, prog, f): return f.name not in ROUTE
        def on_inst(self, eng, q, env, i, fr):
            self.o.fr = fr
            if i.op == 'load':
                b = opt_byte(i)
                return [Outcome(q, refine=self.o.refine_load(i, b, self.vals))] if b is not None and b >= 0 else None
            if i.op == 'call' and i.cname in ROUTE:
                self.extra += 1; s, o, l = self.vals
                if not ROUTE[i.cname](s, l): eng.report(i, 'a job with serial=%d lavg=%d is handed to %s' % (s, l, i.cname), eng.trace)
                return [Outcome(q)]
            return None
    roots = sorted({i.fn.name for n in ROUTE for i in p.callers.get(n, ())} - {'set_next_exe_startup'} - set(ROUTE))
    ctx.need(roots, 'no caller of the queueing functions')
    jobs = []
    for f in roots:
        for o in allc:
            if o[1]: continue
            def mk(f=f, o=o):
                e = Engine(p, R(o)); e.run(f, 0); return e
            jobs.append(('routing:%s serial=%d lavg=%d' % (f, o[0], o[2]), mk))
    for label, n in ctx.engines(jobs): ctx.ob(label, True, '', '%d calls on paths' % n)

def numexe_step(p):
    for f in p.funcs.values():
        for i in f.insts():
            if i.op in ('load', 'store'):
                s = core.field_of(i.ops[-1] if i.op == 'load' else i.ops[1])
                if s and s[2] == 'cl_numexe': return s
def core_consts(ctx):
    from sa.build import probe_consts
    c = probe_consts(ctx.work, ['global.h', 'database.h', 'fcron.h'], ['CONTEXT_BOOT', 'CONTEXT_DEFAULT', 'CONTEXT_RESUME'])
    ctx.need(len(c) == 3, 'CONTEXT_* constants not found')
    return c
