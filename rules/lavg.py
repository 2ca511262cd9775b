"""When jobs waiting on the load average are started or dropped: exhaustive over the truth values of the conditions the decision depends on, each decided over all paths of the function serving the load average queue."""
import re
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core, opts
from .common import ext, fld, gvar, Val, reaching

NOW = 1000
class Queue(Val):
    """one job in the queue. q = (state, running serial jobs looked at, place of the load, jobs behind this one not looked at yet): state in: in the queue / ran: started, still in the queue / res: rescheduled / gone"""
    name = 'load average queue'
    max_states = 4
    def setup(self, p, lavg, until_phase): self.lavg = lavg; self.forks = p.reaches(None, lambda i: ext(p, i, {'fork'})); self.bad = {}; self.ends = set()
    def is_event(self, prog, i):
        if i.op == 'load': return gvar(i.ops[0]) in ('lavg_serial_running',) or (core.field_of(i.ops[0]) or (0, 0, 0))[2] in self.fields or fld(i.ops[0], 'num_entries')
        return i.op == 'call' and (i.cname in ('u_list_first', 'u_list_next', 'u_list_remove_cur', 'getloadavg') )
    def enter(self, prog, f): return f.name not in self.forks and f.name not in self.resched and not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        st, fresh, avg, more = q
        if i.op == 'load':
            g = gvar(i.ops[0])
            if g == 'lavg_serial_running': return [Outcome((st, True, avg, more), ret=av_const(self.lsr))]
            if g == 'serial_max_running': return [Outcome(q, ret=av_const(2))]
            if g == 'now': return [Outcome(q, ret=av_const(NOW))]
            if fld(i.ops[0], 'num_entries'): return [Outcome((st, fresh, avg, more and st != 'gone'), ret=av_const(0 if st == 'gone' else 1))]
            if i.type.kind in (2, 3) and avg is not None:
                p = eng.ptr(eng.ev(i.ops[0], env, fr))
                if p[1] == avg and p not in env.mem:
                    ix = p[2][-1][1] if p[2] and p[2][-1][0] == 'i' else 0
                    if ix is not None and ix < 3: return [Outcome(q, term=('c', self.lavg[ix]), setmem=[(p, ('c', self.lavg[ix]))])]
            return self.loads(eng, q, env, i, fr)
        if i.op != 'call': return None
        n = i.cname
        if n == 'getloadavg':
            b = eng.ptr(eng.ev(i.args[0], env, fr))[1]
            return [Outcome((st, fresh, b, more), ret=av_const(3))]
        if n in ('u_list_first', 'u_list_next'):
            if st in ('ran', 'res'): eng.report(i, 'the job was %s but stays in the load average queue' % ('started' if st == 'ran' else 'dropped'), eng.trace, key='lavg:%s:not-removed' % st)
            if n == 'u_list_first':
                if more: self.early(eng, i)
                return [Outcome((st, False, avg, True), ret=(1, INF, frozenset()))] if st == 'in' else [Outcome((st, False, avg, False), ret=av_const(0))]
            return [Outcome((st, False, avg, False), ret=av_const(0))]
        if n == 'u_list_remove_cur':
            if st == 'in': eng.report(i, 'the job leaves the load average queue without having been started or rescheduled', eng.trace, key='lavg:lost')
            return [Outcome(('gone', fresh, avg, more))]
        t = eng.prog.target(i)
        if t is not None and t.name in self.forks and t.name not in self.resched:
            if st != 'in': eng.report(i, 'a job is started which is not waiting any more', eng.trace, key='lavg:twice')
            self.ends.add('run')
            if self.lim is not None and not fresh: eng.report(i, 'the number of running serial jobs was not looked at since the previous job of the queue', eng.trace, key='lavg:stale-limit')
            return [Outcome(('ran', fresh, avg, more))]
        if t is not None and t.name in self.resched:
            self.ends.add('notice' if t.name == 'set_next_exe_notrun' else 'drop')
            return [Outcome(('res', fresh, avg, more))]
        return None
    def early(self, eng, i): eng.report(i, 'the jobs behind the one looked at are left in the load average queue without being looked at', eng.trace, key='lavg:scan')
    def on_exit(self, eng, q, env, inst, fr):
        if q[3]: self.early(eng, inst)
        if q[0] in ('ran', 'res'): eng.report(inst, 'the job was %s but stays in the load average queue' % ('started' if q[0] == 'ran' else 'dropped'), eng.trace, key='lavg:%s:not-removed' % q[0])
        if q[0] == 'in': self.ends.add('wait')

def queue(ctx):
    """Rule: with one job in the queue, for every combination of (waiting limit passed or not, runs when late, serial, room for a serial job, and/or, each threshold unused/above/not above the current load), the function starts it, drops and reschedules it, or leaves it there exactly as documented, and removes it from the queue exactly when it started or dropped it."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); root = 'check_lavg'; p.func(root)
    resched = {f for f in ('set_next_exe', 'set_next_exe_notrun') if p.func(f)}
    OPT = ('land', 'serial', 'run_if_late', 'td', 'notice_notrun')
    for o in OPT: ctx.need(o in t or o == 'td', 'no accessor is_%s' % o)
    names = {n: t[n] for n in t}
    jobs = []; want = {}
    def mk(opt, fields, lavg, lsr):
        def f():
            r = Queue(names, opt, fields); r.setup(p, lavg, True); r.resched = resched; r.lsr = lsr; r.lim = True if opt.get('serial') and fields['l_until'] == 0 else None
            e = Engine(p, r); e.run(root, ('in', False, None, False), Env()); r.extra = sorted(r.ends); return e
        return f
    LV = [2, 4, 6]          # current load averages; thresholds are stored times 10
    def th(c): return [0 if x == 0 else (L * 10 + (5 if x == 1 else -5 if x == 2 else 0)) for x, L in zip(c, LV)]
    def add(label, opt, fields, lsr, w): want[label] = w; jobs.append((label, mk(opt, fields, LV, lsr)))
    # the waiting limit
    for until, rf, lu, late, td, nn in product((0, 60), (1, 3), (0, 500, 1500), (0, 1), (0, 1), (0, 1)):
        if until == 0 and lu and rf != 1: continue       # such an entry is never queued
        opt = {'land': 1, 'serial': 0, 'run_if_late': late, 'freq': 1 - td, 'notice_notrun': nn}
        fields = {'cl_until': until, 'cl_runfreq': rf, 'l_until': lu, 'cl_lavg': [1, 0, 0]}
        w = 'wait' if lu == 0 or lu > NOW else 'run' if late else 'notice' if td and nn else 'drop'
        add('until=%d runfreq=%d limit=%s runiflate=%d td=%d notice=%d' % (until, rf, {0: 'none', 500: 'passed', 1500: 'future'}[lu], late, td, nn), opt, fields, 0, w)
    # the thresholds
    for land, serial, lsr, c in product((0, 1), (0, 1), (0, 1, 2), product((0, 1, 2, 3), repeat=3)):
        if not any(c) or (serial == 0 and lsr == 1): continue
        opt = {'land': land, 'serial': serial, 'run_if_late': 1, 'freq': 0, 'notice_notrun': 0}
        fields = {'cl_until': 0, 'cl_runfreq': 1, 'l_until': 0, 'cl_lavg': th(c)}
        ok = (all(x in (0, 1) for x in c) if land else any(x == 1 for x in c)) and not (serial and lsr >= 2)
        add('%s serial=%d running=%d thresholds=%s' % ('and' if land else 'or', serial, lsr, ''.join('-<>='[x] for x in c)), opt, fields, lsr, 'run' if ok else 'wait')
    for label, got in ctx.engines(jobs): ctx.ob(label + ' -> ' + want[label], got == [want[label]], root, 'the job is expected to %s, the code does: %s (%s)' % (want[label], ', '.join(got) or 'nothing', label))

# ---------------------------------------------------------------- due jobs and admission
from .account import slot
class Flow(Val):
    """q = (phase, events so far, option values): what happens to one due job"""
    name = 'job flow'
    max_states = 6
    LIST = {'lavg_list_add_line', 'lavg_list_add'}
    OPAQUE = {'mail_notrun', 'mail_notrun_time_t', 'set_next_exe', 'set_next_exe_notrun', 'insert_nextexe', 'job_queue_remove', 'run_queue_job', 'switch_timezone', 'switch_back_timezone', 'move_time_to', 'mktime_no_dst'}
    def setup(self, full=False, fails=False): self.out = set(); self.full = full; self.fails = fails; self.mk = None; return self
    def is_event(self, prog, i):
        if i.op == 'store': return fld(i.ops[1], 'cl_numexe') or fld(i.ops[1], 'cl_remain') or fld(i.ops[1], 'l_until') or slot(i)
        if i.op == 'load': return gvar(i.ops[0]) == 'queue_base'
        return i.op == 'call' and (i.cname in self.OPAQUE or i.cname in self.LIST)
    def enter(self, prog, f): return f.name not in self.OPAQUE and f.name not in self.LIST and not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        ph, ev, ov = q; self.o.fr = fr
        def nx(e, **k): return [Outcome((ph, ev + (e,) if len(ev) < 8 else ev, ov), **k)]
        if i.op in ('load', 'store'):
            b = opt_byte(i)
            if b is not None and b >= 0:
                if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, ov))]
                t = eng.ev(i.ops[0], env, fr); p = eng.ptr(eng.ev(i.ops[1], env, fr))
                def forget(e, en, p=p): en.mem.pop(p, None); en._k = None; return True
                return [Outcome((ph, ev, self.o.after_store(t, b, ov)), refine=forget)]
        if i.op == 'load':
            g = gvar(i.ops[0])
            if g in self.globs: return [Outcome(q, term=('c', self.globs[g]), setmem=[(('p', ('g', g), ()), ('c', self.globs[g]))])] if ('p', ('g', g), ()) not in env.mem else None
            if g == 'queue_base':
                if ph == 'queued': return [Outcome(q, ret=(1, INF, frozenset()))]
                return [Outcome(q, ret=av_const(0))]
            return self.loads(eng, q, env, i, fr)
        if i.op == 'store':
            if fld(i.ops[1], 'cl_remain') or fld(i.ops[1], 'l_until'):
                a = eng.av(eng.ev(i.ops[0], env, fr), env); n = 'remain' if fld(i.ops[1], 'cl_remain') else 'until'
                e = tuple(x for x in ev if x[0] != n) + ((n, a[0] if a[0] == a[1] else None),)
                return [Outcome((ph, e, ov))]
            if slot(i):
                a = eng.av(eng.ev(i.ops[0], env, fr), env)
                return nx(('serial',)) if a != av_const(0) else None
            if fld(i.ops[1], 'cl_numexe'):
                a = eng.av(eng.ev(i.ops[0], env, fr), env)
                e = tuple(x for x in ev if x[0] != 'numexe') + (('numexe', a[0] if a[0] == a[1] else None),)
                return [Outcome((ph, e, ov))]
            return None
        if i.op != 'call': return None
        n = i.cname
        if n in ('mktime_no_dst', 'mktime') : return [Outcome(q, ret=av_const(self.mk))] if self.mk is not None else None
        if n == 'run_queue_job': return nx(('run',), ret=av_const(self.OKV) if not self.fails else (-INF, INF, frozenset([self.OKV])))
        if n in self.LIST: return nx(('full',), ret=av_const(0)) if self.full else nx(('lavg',), ret=(1, INF, frozenset()))
        if n in ('mail_notrun', 'mail_notrun_time_t'): return nx(('mail',))
        if n in ('set_next_exe', 'set_next_exe_notrun'): return [Outcome(('done', ev + (('resched',),), ov))]
        if n == 'job_queue_remove': return [Outcome(('done', ev + (('dequeue',),), ov))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        d = {x[0]: x[1] for x in q[1] if len(x) == 2}
        self.out.add((tuple(x[0] for x in q[1] if len(x) == 1), tuple(sorted(d.items(), key=str)), tuple(zip(self.o.names, q[2]))))
    def final(self): self.extra = sorted(self.out, key=str)

from .common import opt_byte
def okval(p):
    """value of OK: what run_queue_job returns when it appended to the list of running jobs"""
    from sa.ir import Inst
    f = p.func('run_queue_job'); vals = set()
    class R(Rule):
        name = 'ok'
        def is_event(self, prog, i): return i.op == 'call' and i.cname in ('exe_list_add', 'exe_list_add_line')
        def enter(self, prog, f): return False
        def on_inst(self, eng, q, env, i, fr): return [Outcome('added')] if self.is_event(eng.prog, i) else None
    r = R(); e = Engine(p, r)
    for q, env, rv, tr, inst in e.run('run_queue_job', '-'):
        a = e.av(rv, env) if rv is not None else None
        if q == 'added' and a and a[0] == a[1]: vals.add(a[0])
    return vals

def flow_run(p, t, root, q0, opt, fields, globs, okv, full=False, fails=False, mk=None, bind=None):
    def f():
        r = Flow(t, opt, fields).setup(full, fails); r.globs = globs; r.OKV = okv; r.mk = mk
        e = Engine(p, r); env = Env(); fr = (root,)
        e.run(root, (q0, (), r.ov), env); r.final(); return e
    return f

def due(ctx):
    """Rule: for one job at the head of the schedule and every combination of due/not due, runs left to skip, lavg, serial, runonce, already run: what test_jobs does with it (skip count, start or queue, mark as run, reschedule or remove) is exactly the documented outcome, in that order."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); root = 'test_jobs'; p.func(root)
    ok = okval(p); ctx.need(len(ok) == 1, 'run_queue_job has no single success value'); ok = ok.pop()
    jobs = []; want = []
    for due_, rem, fq, lavg, ser, once, has in product((500, NOW, NOW + 1), (0, 1, 2, 3), (1, 5), (0, 1), (0, 1), (0, 1), (0, 1)):
        opt = {'lavg': lavg, 'serial': ser, 'runonce': once, 'hasrun': has}
        fields = {'cl_nextexe': due_, 'cl_remain': rem, 'cl_runfreq': fq, 'cl_numexe': 0, 'cl_until': 0}
        label = 'nextexe=%s remain=%d runfreq=%d lavg=%d serial=%d runonce=%d hasrun=%d' % ({500: 'past', NOW: 'now'}.get(due_, 'future'), rem, fq, lavg, ser, once, has)
        if due_ > NOW: w = ((), None, has)
        else:
            run = rem <= 1; h = 1 if run else has
            ev = (('lavg' if lavg else 'serial' if ser else 'run'),) if run else ()
            ev += ('dequeue',) if once and h else ('resched',)
            w = (ev, fq if run else rem - 1, h)
        want.append((label, w)); jobs.append((label, flow_run(p, t, root, 'queued', opt, fields, {'now': NOW, 'serial_num': 0, 'serial_array_size': 10, 'serial_queue_max': 20, 'debug_opt': 0}, ok)))
    for (label, w), (_, got) in zip(want, ctx.engines(jobs)):
        g = {(ev, dict(d).get('remain'), dict(o)['hasrun']) for ev, d, o in got}
        ctx.ob('%s -> %s' % (label, w), g == {w}, root, 'expected (actions, skip count, has run) = %s, the code does %s (%s)' % (w, sorted(g, key=str), label))

def admission(ctx):
    """Rule: for each way to start or queue a job and every combination of executions pending, 'several' option, room in the queue, waiting limit, strict: the job is accepted (once) or refused exactly as documented, the refusal because of a full queue is reported when asked for, and the waiting limit recorded is the documented one."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work)
    ok = okval(p); ctx.need(len(ok) == 1, 'run_queue_job has no single success value'); ok = ok.pop()
    jobs = []; want = []
    def add(label, w, *a, **k): want.append((label, w)); jobs.append((label, flow_run(p, t, *a, **k)))
    G = {'now': NOW, 'serial_num': 0, 'serial_array_size': 10, 'serial_queue_max': 20, 'serial_array_index': 0, 'debug_opt': 0}
    base = {'exe_sev': 0, 'serial_sev': 0, 'lavg_sev': 0, 'strict': 0, 'notice_notrun': 0, 'run_if_late': 0}
    for num, sev in product((0, 1, 2, 254, 255), (0, 1)):
        acc = num == 0 or (sev and num < 255); lab = 'pending=%d several=%d' % (num, sev)
        for fails in (0, 1):
            add('run_normal_job %s fork=%s' % (lab, 'fails' if fails else 'ok'), (('run',) if acc else (), None if not acc else num if fails else num + 1, None, None), 'run_normal_job', '', dict(base, exe_sev=sev), {'cl_numexe': num}, G, ok, fails=fails)
        for full, nn in product((0, 1, 2), (0, 1)):     # room, array to be enlarged, full
            g = dict(G, serial_num=[0, 10, 20][full], serial_array_size=[10, 10, 20][full])
            ev = () if not acc else (('mail',) if nn else ()) if full == 2 else ('serial',)
            add('add_serial_job %s queue=%s notice=%d' % (lab, ('free', 'array full', 'full')[full], nn), (ev, num + 1 if ev == ('serial',) else None, None, None), 'add_serial_job', '', dict(base, serial_sev=sev, notice_notrun=nn), {'cl_numexe': num}, g, ok)
        for full, nn in product((0, 1), (0, 1)):
            ev = () if not acc else ('full',) + (('mail',) if nn else ()) if full else ('lavg',)
            add('add_lavg_job %s queue=%s notice=%d' % (lab, ('free', 'full')[full], nn), (ev, num + 1 if ev == ('lavg',) else None, 0 if ev == ('lavg',) else None, 1 if ev == ('lavg',) else None), 'add_lavg_job', '',
                dict(base, lavg_sev=sev, notice_notrun=nn), {'cl_numexe': num, 'cl_until': 0, 'cl_runfreq': 1}, G, ok, full=full)
    for until, strict, rf, end in product((0, 60, 600), (0, 1), (1, 3), (NOW + 30, NOW + 100, NOW + 600)):
        if strict and rf == 1:
            e = NOW + until if until and NOW + until < end else end; late = 1 if until and NOW + until < end else 0
        else: e = NOW + until if until else 0; late = 1
        add('add_lavg_job until=%d strict=%d runfreq=%d interval ends in %d' % (until, strict, rf, end - NOW), (('lavg',), 1, e, late), 'add_lavg_job', '',
            dict(base, strict=strict), {'cl_numexe': 0, 'cl_until': until, 'cl_runfreq': rf, 'cf_tzdiff': 0, 'cl_nextexe': NOW}, G, ok, mk=end)
    for (label, w), (_, got) in zip(want, ctx.engines(jobs)):
        # a count stored back unchanged equals no change
        num = int(re.search(r'pending=(\d+)|$', label).group(1) or 0); w = (w[0], num if w[1] is None else w[1]) + w[2:]
        g = {(ev, dict(d).get('numexe', num), dict(d).get('until'), dict(o)['run_if_late'] if w[3] is not None else None) for ev, d, o in got}
        ctx.ob('%s -> %s' % (label, w), g == {w}, label.split()[0], 'expected (actions, pending count, waiting limit, run when late) = %s, the code does %s (%s)' % (w, sorted(g, key=str), label))
