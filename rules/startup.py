"""What becomes of each job when fcron starts, reads a new crontab or the machine resumes."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core, opts
from .common import ext, fld, gvar, Opts, opt_byte

NOW, SLEEP, LINE, FILE, SHELL = 1000000, 700, 710001, 710002, 710003
class Start(Rule):
    """one job with known attributes. q = (options, what is done)"""
    name = 'startup'
    max_states = 8
    EV = {'add_lavg_job', 'add_serial_job', 'insert_nextexe', 'set_next_exe', 'set_next_exe_notrun', 'mail_notrun', 'mail_notrun_time_t', 'job_queue_remove', 'run_normal_job', 'run_serial_job'}
    def __init__(self, table, names, fields): self.o = Opts(table, names); self.f = fields; self.out = set(); self.root = 'set_next_exe_startup'
    def is_event(self, prog, i): return i.op == 'call' and i.cname in self.EV or i.op == 'store' and (core.field_of(i.ops[1]) or (0, 0, 0))[2] in self.f
    def enter(self, prog, f): return f.name not in self.EV and not f.noreturn and not (f.file or '').endswith('log.c')
    def val(self, env, n):
        v = env.mem.get(('p', ('c', LINE), (('f', 'cl_t', n),)))
        return v[1] if v is not None and v[0] == 'c' else '?'
    def on_inst(self, eng, q, env, i, fr):
        ov, acts = q; self.o.fr = fr
        if i.op in ('load', 'store'):
            b = opt_byte(i)
            if b is not None and b >= 0:
                p = eng.ptr(eng.ev(i.ops[-1] if i.op == 'load' else i.ops[1], env, fr))
                if p[1] != ('c', LINE): return None
                if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, ov))]
                t = eng.ev(i.ops[0], env, fr)
                def forget(e, en, p=p): en.mem.pop(p, None); en._k = None; return True
                return [Outcome((self.o.after_store(t, b, ov), acts), refine=forget)]
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); g = gvar(i.ops[0])
            if p in env.mem: return None
            f = core.field_of(i.ops[0]); v = None
            if g == 'now': v = NOW
            elif g == 'debug_opt': v = 0
            if v is None: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op != 'call' or i.cname not in self.EV: return None
        n = i.cname; o = dict(zip(self.o.names, ov)); a = eng.ev(i.args[0], env, fr)
        if a != ('c', LINE): eng.report(i, '%s() is called for something else than the job' % n, eng.trace, key='start:other'); return None
        c = [eng.av(eng.ev(x, env, fr), env) for x in i.args[1:]]
        arg = c[0][0] if c and c[0][0] == c[0][1] else None
        if n in ('add_lavg_job', 'add_serial_job'): act = (n, '' if any(x[0][:4] == 'add_' for x in acts) else self.val(env, 'cl_numexe'), o['serial_once'] if n == 'add_serial_job' else 0)
        elif n == 'insert_nextexe': act = (n, self.val(env, 'cl_nextexe'))
        elif n == 'set_next_exe': act = (n, arg if self.f['cl_runfreq'] == 1 and o.get('freq') == 0 else '')
        elif n == 'set_next_exe_notrun': act = (n, arg)
        elif n == 'mail_notrun_time_t': act = ('mail', arg, c[1][0] if c[1][0] == c[1][1] else None)
        elif n == 'mail_notrun': act = ('mail', arg, 'tm')
        else: act = (n,)
        sm = []
        if n in ('set_next_exe', 'set_next_exe_notrun'): sm = [(('p', ('c', LINE), (('f', 'cl_t', 'cl_nextexe'),)), ('s', ('next',), n))]
        return [Outcome((ov, acts + (act,)), setmem=sm or None)] if len(acts) < 8 else None
    def on_exit(self, eng, q, env, inst, fr):
        ov = q[0]
        self.out.add((tuple(sorted((k, v) for k, v in zip(self.o.names, ov) if k in ('hasrun', 'serial_once'))), q[1], self.val(env, 'cl_numexe'), self.val(env, 'cl_remain'), self.val(env, 'cl_nextexe')))

def expect(K, o, f, ctxt, new, sleep):
    """documented behaviour -> (hasrun, serial_once, set of actions, numexe, remain, nextexe)"""
    o = dict(o); f = dict(f); A = []; once = o['serial_once']
    if ctxt != K['CONTEXT_RESUME'] and f['cl_numexe']:
        f['cl_numexe'] = 0
        if o['runatreboot']: pass
        elif o['lavg']:
            if not o['strict']: A.append(('add_lavg_job', 0, 0))
        elif o['serial'] or once: A.append(('add_serial_job', 0, once))
        else: once = 1; A.append(('add_serial_job', 0, 1))
    if ctxt == K['CONTEXT_BOOT'] or (ctxt == K['CONTEXT_DEFAULT'] and o['volatile']) or (ctxt == K['CONTEXT_RESUME'] and o['runatresume']): o['hasrun'] = 0
    rearm = (ctxt == K['CONTEXT_BOOT'] and o['runatreboot']) or (ctxt == K['CONTEXT_RESUME'] and o['runatresume'])
    nx = f['cl_nextexe']
    if o['runonce'] and o['hasrun']: pass
    elif not o['freq']:
        if rearm:
            nx = NOW
            if o['notice_notrun'] and f['cl_runfreq'] == 1: A.append(('set_next_exe_notrun', K['SYSDOWN_RUNATREBOOT'])); nx = '?'
            elif o['notice_notrun']: A.append(('mail', K['SYSDOWN'], f['cl_nextexe']))
            A.append(('insert_nextexe', nx))
        elif nx <= NOW:
            td = K['NO_GOTO'] if f['cl_runfreq'] == 1 else ''
            if nx == 0: A.append(('set_next_exe', td)); nx = '?'
            elif f['cl_runfreq'] == 1 and o['notice_notrun']: A.append(('set_next_exe_notrun', K['SYSDOWN'])); nx = '?'
            elif o['bootrun'] and not new and f['cl_runfreq'] != 1:
                if f['cl_remain'] > 1: f['cl_remain'] -= 1
                else:
                    f['cl_remain'] = f['cl_runfreq']
                    ne = '' if A else f['cl_numexe']
                    if o['lavg']: A.append(('add_lavg_job', ne, 0))
                    else: once = 1; A.append(('add_serial_job', ne, 1))
                A.append(('set_next_exe', td)); nx = '?'
            else:
                A.append(('set_next_exe', td)); 
                if o['notice_notrun']: A.append(('mail', K['SYSDOWN'], nx))
                nx = '?'
        elif ctxt != K['CONTEXT_RESUME']: A.append(('insert_nextexe', nx))
    else:
        tf = f['cl_timefreq'] if f['cl_timefreq'] >= 1 else 86400
        if rearm: nx = NOW
        elif new or o['volatile'] or (ctxt == K['CONTEXT_BOOT'] and (o['rebootreset'] or o['runonce'])): nx = K['TIME_T_MAX'] if f['cl_first'] == K['LONG_MAX'] else NOW + f['cl_first']
        elif nx != K['LONG_MAX']:
            nx += sleep
            if nx < NOW: nx = NOW if ctxt == K['CONTEXT_RESUME'] else NOW + tf
            elif nx > K['TIME_T_MAX']: nx = NOW + tf
        A.append(('insert_nextexe', nx))
    return (o['hasrun'], once, A, f['cl_numexe'], f['cl_remain'], nx)

NAMES = ['freq', 'runatreboot', 'runatresume', 'runonce', 'hasrun', 'volatile', 'bootrun', 'rebootreset', 'notice_notrun', 'lavg', 'serial', 'serial_once', 'strict']
def startup(ctx):
    """Rule: for every combination of context (machine booted, fcron started or crontab loaded, resume) and of the attributes the decision depends on, what is done with the job on every path is what the documentation says: put in which queue, scheduled when, notice sent, marks changed."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); root = 'set_next_exe_startup'; p.func(root)
    ctx.need(all(n in t for n in NAMES), 'option accessors missing')
    K = opts.consts(ctx.work, ['CONTEXT_BOOT', 'CONTEXT_DEFAULT', 'CONTEXT_RESUME', 'SYSDOWN', 'SYSDOWN_RUNATREBOOT', 'NO_GOTO', 'NO_GOTO_LOG', 'STD', 'TIME_T_MAX', 'LONG_MAX'], ('global.h', 'database.h'))
    B, D, R = K['CONTEXT_BOOT'], K['CONTEXT_DEFAULT'], K['CONTEXT_RESUME']; jobs = []; want = {}
    base = dict(cl_nextexe=NOW + 50, cl_numexe=0, cl_remain=0, cl_runfreq=0, cl_timefreq=60, cl_first=40, cl_shell=SHELL, cl_file=FILE)
    def add(ctxt, new=0, sleep=SLEEP, fields=(), **opt):
        o = {n: 0 for n in NAMES}; o.update(opt); f = dict(base); f.update(fields); s = NOW if new else sleep
        if not o['freq'] and f['cl_runfreq'] == 0: f['cl_runfreq'] = 3
        label = '%s%s, options %s, %s' % ({B: 'boot', D: 'start', R: 'resume'}[ctxt], ' new crontab' if new else '', ' '.join(n for n in NAMES if o[n]) or 'none', ' '.join('%s=%d' % (k[3:], v) for k, v in f.items() if v != base[k]) or 'default')
        if label in want: return
        def fn():
            r = Start(t, NAMES, f); e = Engine(p, r); env = Env()
            for k, v in (('A0', LINE), ('A1', ctxt), ('A2', s)): env.bind[((root,), k)] = ('c', v)
            for k, v in f.items(): env.mem[('p', ('c', LINE), (('f', 'cl_t', k),))] = ('c', v)
            e.run(root, (tuple(o[n] for n in NAMES), ()), env); r.extra = (sorted(r.out, key=str)); return e
        want[label] = expect(K, o, f, ctxt, new, s); jobs.append((label, fn))
    for c in (B, D, R):
        for rb, lv, st, se, so, ne in product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 2)): add(c, fields={'cl_numexe': ne}, runatreboot=rb, lavg=lv, strict=st, serial=se, serial_once=so)
        for vo, rr, ro, hr, fq, rb in product((0, 1), repeat=6): add(c, volatile=vo, runatresume=rr, runonce=ro, hasrun=hr, freq=fq, runatreboot=rb)
        for rb, rr, no, rf, ne, new in product((0, 1), (0, 1), (0, 1), (1, 3), (0, NOW - 10, NOW, NOW + 1), (0, 1)): add(c, new, runatreboot=rb, runatresume=rr, notice_notrun=no, fields={'cl_runfreq': rf, 'cl_nextexe': ne})
        for no, rf, new, rem, lv, once, ser, ne in product((0, 1), (1, 3), (0, 1), (0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 5)): add(c, new, bootrun=1, notice_notrun=no, lavg=lv, runonce=once, serial=ser, fields={'cl_runfreq': rf, 'cl_nextexe': NOW - 10, 'cl_remain': rem, 'cl_numexe': ne})
        for rb, rr, vo, re, on, new in product((0, 1), repeat=6):
            for first in (40, K['LONG_MAX']): add(c, new, freq=1, runatreboot=rb, runatresume=rr, volatile=vo, rebootreset=re, runonce=on, fields={'cl_first': first})
        for ne, tf, sl in product((NOW - 300, NOW - 699, NOW - 701, NOW + 50, K['LONG_MAX'], K['TIME_T_MAX'] - 100), (60, 0, -5), (SLEEP, 0)): add(c, 0, sl, freq=1, fields={'cl_nextexe': ne, 'cl_timefreq': tf})
    for label, got in ctx.engines(jobs):
        hr, once, A, ne, rem, nx = want[label]
        ctx.ob(label + ': decided', bool(got), root, 'no outcome for: ' + label)
        for opt, acts, gne, grem, gnx in got:
            opt = dict(opt)
            # the time a job is inserted with is what counts, whatever the order of the other steps
            norm = sorted((('insert_nextexe', '?') if a == ('insert_nextexe', '?') else ('set_next_exe', K['NO_GOTO']) if a == ('set_next_exe', K['NO_GOTO_LOG']) else ('mail', a[1]) if a[0] == 'mail' and a[2] == 'tm' else a for a in acts), key=str)
            exp = sorted((('mail', a[1]) if a[0] == 'mail' and any(x[0] == 'mail' and x[2:] == ('tm',) for x in acts) else a for a in A), key=str)
            ctx.ob(label + ': done', norm == exp, root, 'expected %s, the code does %s (%s)' % (exp, norm, label))
            ctx.ob(label + ': state', (gne == ne or gne == '?' and any(a[0].startswith('add_') for a in acts)) and (grem, opt['hasrun']) == (rem, hr) and (opt['serial_once'] == once) and (nx == '?' or gnx == nx), root, 'expected pending %s, runs to skip %s, has run %s, serial once %s, next execution %s; the code leaves %s (%s)' % (ne, rem, hr, once, nx, (gne, grem, opt['hasrun'], opt['serial_once'], gnx), label))
