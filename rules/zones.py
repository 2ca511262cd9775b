"""Time zones: the dates of a job are those of its own zone, and the zone of the daemon is back afterwards."""
from sa.engine import Engine, Outcome, av_const, Env
from sa import opts
from .common import ext, fld, gvar, Val

N, A, B = 0, 81001, 81002           # no TZ; the zone of the daemon; the zone of the job
COPY = 10000                        # the same name kept elsewhere
START = 83001                       # what getenv("TZ") gives at startup
T, NOW, M, DIFF = 1000000, 700000, 5000000, 2
CLOCK = {'localtime', 'localtime_r', 'mktime'}
ENV = {'getenv', 'setenv', 'unsetenv', 'putenv'}
def zone(v): return v[1] - COPY if v[0] == 'c' and v[1] > 90000 else v[1] if v[0] == 'c' else None
def word(v): return v[1] if v[0] == 'str' else None

class Zone(Val):
    """q = (zone in force, zone of the job, asked for the date at T in the time of the job?, date given by mktime?, dead end?)"""
    name = 'time zone'
    max_states = 16
    td = 1
    def setup(self, orig, oname, tz, to, conv, dates, diff): self.diff = diff; self.orig = orig; self.oname = oname; self.tz = tz; self.to = to; self.conv = conv; self.dates = dates; self.n = 0; self.ends = 0; self.kept = 0; return self
    def is_event(self, prog, i):
        if i.op == 'store': return fld(i.ops[1], 'cl_nextexe') or fld(i.ops[1], 'l_until')
        if i.op == 'load': return False
        return ext(prog, i, CLOCK | ENV | {'tzset'}) or i.op == 'call' and i.cname in self.conv
    def enter(self, prog, f): return f.name in self.to and not f.noreturn
    def clock(self, eng, i, q, n):
        z, w = q[0], self.tz or self.orig
        if n[:2] == 'mk' and not q[1] and self.diff: eng.report(i, 'the date is not worked out from the time of the job (the time of the system less tzdiff)', eng.trace, key='diff:in:%s' % i.fn.name)
        self.n += 1
        if z != w and self.td: eng.report(i, '%s() is asked for a date %s' % (n, 'in another zone than the one of the job' if self.tz else 'in a zone left over, not in the one of the daemon'), eng.trace, key='tz:%s' % i.fn.name)
    def on_inst(self, eng, q, env, i, fr):
        z, seen, made = q
        if i.op == 'load':
            g = gvar(i.ops[0])
            if g in self.oname: return [Outcome(q, term=('c', self.orig))]
            if g == 'now': return [Outcome(q, term=('c', NOW))]
            f = [x for x in ('cl_tz', 'cf_tzdiff', 'cl_nextexe') if fld(i.ops[0], x)]
            if not f: return self.loads(eng, q, env, i, fr)
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if f[0] == 'cl_tz': return [Outcome(q, term=('c', self.tz))]
            if f[0] == 'cf_tzdiff': return [Outcome(q, term=('c', DIFF))]
            return [Outcome(q, term=('c', T))] if p not in env.mem else None
        if i.op == 'store':
            if made and self.dates and (fld(i.ops[1], 'cl_nextexe') or fld(i.ops[1], 'l_until')):
                v = eng.ev(i.ops[0], env, fr); self.kept += 1
                if v != ('c', M + DIFF * 3600) and v[0] == 'c' and v[1] != NOW + 5: eng.report(i, 'tzdiff is not put back in the date found: %d for %d' % (v[1], M + DIFF * 3600), eng.trace, key='diff:out:%s' % i.fn.name)
                if v[0] != 'c': eng.report(i, 'the date found is not the one kept', eng.trace, key='diff:other:%s' % i.fn.name)
            return None
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]
        if n in self.conv:
            self.clock(eng, i, q, n); t = eng.prog.target(i)
            if n in self.conv[1:] : return [Outcome(q)]
            return [Outcome((z, seen, 1), term=('c', M))]
        if not ext(eng.prog, i, CLOCK | ENV | {'strcmp'}): return None
        if n in ('localtime', 'localtime_r'):
            if not made: self.clock(eng, i, q, n)      # afterwards: for a message
            v = env.mem.get(eng.ptr(a[0]))
            return [Outcome((z, 1 if seen or v == ('c', T - DIFF * 3600) or v == ('c', NOW - DIFF * 3600) else 0, made))]
        if n == 'mktime': self.clock(eng, i, q, n); return [Outcome((z, seen, 1), term=('c', M))]
        if n == 'strcmp':
            x, y = zone(a[0]), zone(a[1])
            return [Outcome(q, ret=av_const(0 if x == y else 1))] if x in (A, B) and y in (A, B) else None
        if n == 'getenv' and word(a[0]) == 'TZ': return [Outcome(q, term=('c', z + COPY if z else 0))]
        if n == 'unsetenv' and word(a[0]) == 'TZ': return [Outcome((N, seen, made), ret=av_const(0))]
        if n == 'setenv' and word(a[0]) == 'TZ':
            if a[2] == ('c', 0) and z: return [Outcome(q, ret=av_const(0))]
            v = zone(a[1])
            if not v: eng.report(i, 'TZ is set to no name of a zone', eng.trace, key='set:%s' % i.fn.name); return [Outcome(q, dead=True)]
            return [Outcome((v, seen, made), ret=av_const(0))]
        if n == 'putenv': eng.report(i, 'TZ is set by putenv(), not followed', eng.trace, key='put:%s' % i.fn.name)
        return None
    def on_exit(self, eng, q, env, inst, fr):
        self.ends += 1
        if q[0] != self.orig: eng.report(inst, 'the daemon goes on in the time zone of a job: %s' % fr[0], eng.trace, key='back:%s' % fr[0])

class Keep(Val):
    """main of the daemon: what holds the zone it was started in"""
    name = 'zone at startup'
    max_states = 20
    def is_event(self, prog, i): return ext(prog, i, ENV)
    def enter(self, prog, f): return f.name in self.to and not f.noreturn and f.name not in self.work
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        t = eng.prog.target(i); n = i.cname
        if t is not None and t.name in self.work:
            self.held.append({k[1][1] for k, v in env.mem.items() if k[0] == 'p' and k[1][0] == 'g' and not k[2] and v == ('c', START)}); return [Outcome(q, dead=True)]
        if t is not None and t.name not in self.to and any(ext(eng.prog, x, {'strdup', 'malloc'}) for x in t.insts()) and eng.ev(i.args[0], env, fr) == ('c', START) if i.args else False: return [Outcome(q, term=('c', START))]
        if not ext(eng.prog, i, ENV | {'strdup'}): return None
        a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'strdup' and a[0] == ('c', START): return [Outcome(q, term=('c', START))]
        if n == 'getenv' and word(a[0]) == 'TZ': return [Outcome(q, term=('c', START if not q else 0))]
        if n in ('setenv', 'unsetenv') and word(a[0]) == 'TZ': return [Outcome('changed')]
        return None

def zones(ctx):
    """Rule: the value of TZ is kept by main, in a variable, before the daemon starts its work. From each function which changes TZ for a job, for every zone of the daemon (none, one) and of the job (none, the same, another), on every path: TZ is the zone of the job, or of the daemon if it has none, at each date asked for; TZ is what it was when the function returns; the time the date is worked out from is the time of the system less tzdiff hours, and the date kept is the one found plus tzdiff hours."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work)
    log = {f.name for f in p.funcs.values() if (f.file or '').endswith('log.c')}
    turn = p.reaches(None, lambda i: ext(p, i, {'setenv', 'unsetenv', 'putenv'}))
    dates = p.reaches(None, lambda i: ext(p, i, CLOCK)) - log
    work = p.reaches(None, lambda i: ext(p, i, {'opendir', 'scandir', 'select', 'poll', 'ppoll', 'pselect'})) - {'main'}
    near = p.reaches(None, lambda i: ext(p, i, ENV)) - log - {'main'}
    def start():
        r = Keep(t); r.work = work; r.to = ({'main'} | near) - work; r.held = []; e = Engine(p, r); e.run('main', ''); r.extra = [sorted(x) for x in r.held]; return e
    held = dict(ctx.engines([('main of the daemon', start)]))['main of the daemon']
    ctx.need(held, 'no path of main of the daemon to its work found')
    orig = set(held[0]).intersection(*held)
    ctx.ob('main keeps the zone it was started in', bool(orig), 'main', 'the daemon does not keep the value of TZ it was started with, before its work')
    if not orig: return
    roots = [f for f in ('set_next_exe', 'set_next_exe_notrun', 'add_lavg_job', 'mail_notrun_time_t', 'mail_notrun') if p.func(f)]
    ctx.need(roots, 'no function which works out dates')
    conv = ['mktime_no_dst'] if p.func('mktime_no_dst') else ['mktime']
    move = sorted(f for f in dates if p.func(f) and f not in turn and f not in conv and f not in roots and not p.func(f).noreturn and f in ('move_time_to',))
    jobs = []
    OPT = {n: v for n, v in (('td', 1), ('strict', 1), ('random', 0)) if n in t}
    to = turn & dates | {f.name for f in p.funcs.values() if any(ext(p, i, {'getenv', 'setenv', 'unsetenv'}) for i in f.insts()) and f.name not in log} | set(roots)
    for root in roots:
        for o in (N, A):
            for z in (N, A, B):
                for td in ((1, 0) if root == 'set_next_exe' else (1,)):
                    def f(root=root, o=o, z=z, td=td):
                        r = Zone(t, dict(OPT, td=td), {'cl_runfreq': 1, 'cl_until': 0, 'cl_jitter': 0}).setup(o, orig, z, to, conv + move, td == 1 and root in ('set_next_exe', 'add_lavg_job'), td == 1 and not root.startswith('mail'))
                        r.td = td; e = Engine(p, r); e.run(root, (o, 0, 0), Env()); r.extra = (r.n, r.ends, r.kept); return e
                    jobs.append(('%s: daemon %s, job %s%s' % (root, ('without TZ', 'with TZ')[o != N], {N: 'without timezone', A: 'in the same zone', B: 'in another zone'}[z], '' if td else ', uptime'), f))
    for lab, (n, ends, kept) in ctx.engines(jobs):
        ctx.ob(lab + ': followed', n > 0 and ends > 0, lab.split(':')[0], 'no date asked for, or no end found')
        if lab.startswith(('set_next_exe:', 'add_lavg_job')) and 'uptime' not in lab: ctx.ob(lab + ': date kept', kept > 0, lab.split(':')[0], 'no date is kept')
