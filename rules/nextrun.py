"""When a job with time fields runs next: the first minute after now its fields allow."""
import calendar, datetime as dt
from sa.engine import Engine, Outcome, av_const, Env
from sa import opts, core
from .common import ext, fld, gvar, Val

TM, NOW, MK = 84001, 700000, 5000000
F = ['tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday']
TAB = ['cl_mins', 'cl_hrs', 'cl_days', 'cl_mons', 'cl_dow']
OPAQUE = {'insert_nextexe', 'switch_timezone', 'switch_back_timezone', 'send_msg_fd', 'send_msg_fd_debug', 'mail_notrun'}

class Next(Val):
    """q = 0; the date handed to the conversion is collected"""
    name = 'next execution'
    max_states = 3000
    def setup(self, start, tabs): self.start = start; self.tabs = tabs; self.got = []; self.gave = 0; self.lost = 0; self.n = 0; return self
    def is_event(self, prog, i):
        if i.op == 'load': return False
        return ext(prog, i, {'localtime', 'localtime_r', 'mktime'}) or i.op == 'call' and i.cname in ('mktime_no_dst', 'get_nb_mdays', 'set_wday', 'is_leap_year', 'memcpy') or i.op == 'store' and fld(i.ops[1], 'cl_nextexe') or i.op == 'store' and (core.field_of(i.ops[1]) or (0, 0, ''))[2].startswith('tm_')
    def enter(self, prog, f): return f.name not in OPAQUE and not f.noreturn and not (f.file or '').endswith('log.c') and f.name != 'mktime_no_dst'
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            g = gvar(i.ops[0])
            if g == 'now': return [Outcome(q, term=('c', NOW))]
            if g in ('debug_opt', 'first_sleep'): return [Outcome(q, term=('c', 0))]
            f = core.field_of(i.ops[0])
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if self.lost: return [Outcome(q, dead=True)]      # written in a way these values cannot be followed: not decided
            for t in TAB:
                self.n += any(s[0] == 'f' and s[2] == t for s in p[2])
                if self.n > 30000: self.lost = 1; return [Outcome(q, dead=True)]
                if any(s[0] == 'f' and s[2] == t for s in p[2]):
                    ix = p[2][-1][1] if p[2][-1][0] == 'i' else 0
                    if not isinstance(ix, int): return None
                    b = self.tabs[t]; return [Outcome(q, term=('c', sum(1 << k for k in range(8) if ix * 8 + k in b)))]
            if f is not None and f[2] in F[1:] and p[1] != ('c', TM) or any(s[0] == 'f' and s[2] in TAB for s in p[2]):
                self.n += 1; v = env.mem.get(p, ('?',))
                if self.n > 30000 or f is not None and f[2] in F[1:] and v[0] != 'c': self.lost = 1; self.why = (i.loc, i.fn.name, p, v); return [Outcome(q, dead=True)]
            if f is not None and f[2] in ('cf_tzdiff', 'cl_tz'): return [Outcome(q, term=('c', 0))]
            if p[1] == ('c', TM) and f is not None and f[2] in F: return [Outcome(q, term=('c', self.start[F.index(f[2])]))]
            return self.loads(eng, q, env, i, fr)
        if i.op != 'call': return None
        n = i.cname
        if ext(eng.prog, i, {'localtime_r'}):
            d = eng.ptr(eng.ev(i.args[1], env, fr)); self.gave += 1
            return [Outcome(q, term=eng.ev(i.args[1], env, fr), setmem=[(('p', d[1], d[2] + st), ('c', v)) for f, v in zip(F, self.start) for st in self.paths(eng, f)])]
        if ext(eng.prog, i, {'localtime'}): return [Outcome(q, term=('c', TM))]
        if n.startswith(('memcpy', 'llvm.memcpy', 'memmove')):
            a = [eng.ev(x, env, fr) for x in i.args[:2]]
            if a[1] == ('c', TM) or eng.ptr(a[1])[1] == ('c', TM):
                d = eng.ptr(a[0]); self.gave += 1
                return [Outcome(q, setmem=[(('p', d[1], d[2] + st), ('c', v)) for f, v in zip(F, self.start) for st in self.paths(eng, f)])]
            return None
        if n == 'mktime_no_dst' or ext(eng.prog, i, {'mktime'}):
            d = eng.ptr(eng.ev(i.args[0], env, fr)); v = {}
            for f in F:
                for st in self.paths(eng, f):
                    x = env.mem.get(('p', d[1], d[2] + st))
                    if x is not None: v[f] = x
            q = tuple(v[f][1] if f in v and v[f][0] == 'c' else None for f in F[1:6]); return [Outcome(q, term=('c', MK), setmem=[(('p', d[1], d[2] + st), v[f]) for f in v for st in self.paths(eng, f)])]
        return None
    def on_exit(self, eng, q, env, inst, fr): self.got.append(q)
    def paths(self, eng, f):
        s = [('f', x, f) for x in ('tm',)]
        return [(x,) for x in s] + ([()] if f == 'tm_sec' else [])

def first(start, tabs, dayand):
    """the oracle: the first minute, not before the start, which the fields allow"""
    t = dt.datetime(start[5] + 1900, start[4] + 1, start[3], start[2], start[1])
    end = t + dt.timedelta(days=366 * 9)
    while t < end:
        if t.month - 1 not in tabs['cl_mons']: t = (t.replace(day=1, hour=0, minute=0) + dt.timedelta(days=32)).replace(day=1); continue
        wd = (t.weekday() + 1) % 7; a, b = t.day in tabs['cl_days'], wd in tabs['cl_dow']
        if not ((a and b) if dayand else (a or b)): t = t.replace(hour=0, minute=0) + dt.timedelta(days=1); continue
        if t.hour not in tabs['cl_hrs']: t = t.replace(minute=0) + dt.timedelta(hours=1); continue
        if t.minute not in tabs['cl_mins']: t += dt.timedelta(minutes=1); continue
        return (t.minute, t.hour, t.day, t.month - 1, t.year - 1900)

ALL = {'cl_mins': set(range(60)), 'cl_hrs': set(range(24)), 'cl_days': set(range(1, 32)), 'cl_mons': set(range(12)), 'cl_dow': set(range(8))}
def cases():
    """(name, start, tables, dayand)"""
    d = lambda y, mo, da, h, m: (y, mo, da, h, m)
    def T(**k): return dict(ALL, **{'cl_' + a: set(b) for a, b in k.items()})
    out = []
    def add(n, at, t, da=1): out.append((n, at, t, da))
    add('every minute', (2026, 5, 10, 7, 30), T())
    add('a later minute', (2026, 5, 10, 7, 30), T(mins=[45]))
    add('the minute is over', (2026, 5, 10, 7, 30), T(mins=[15]))
    add('the last minute of the day', (2026, 5, 10, 23, 59), T(mins=[0, 58]))
    add('minute 59', (2026, 5, 10, 22, 10), T(mins=[59], hrs=[23]))
    add('a later hour', (2026, 5, 10, 7, 30), T(mins=[10, 40], hrs=[9, 20]))
    add('the same hour, minute over', (2026, 5, 10, 9, 41), T(mins=[10, 40], hrs=[9, 20]))
    add('the hour is over', (2026, 5, 10, 21, 30), T(mins=[10], hrs=[9, 20]))
    add('next day from the last of a month', (2026, 4, 30, 21, 30), T(mins=[10], hrs=[9]))
    add('next day from the last of the year', (2026, 12, 31, 21, 30), T(mins=[10], hrs=[9]))
    add('next year', (2026, 3, 1, 0, 0), T(mins=[5], hrs=[6], days=[7], mons=[1]))
    add('the month is now', (2026, 3, 7, 6, 6), T(mins=[5], hrs=[6], days=[7], mons=[2]))
    add('the month is now, later', (2026, 3, 5, 6, 6), T(mins=[5], hrs=[6], days=[7], mons=[2]))
    add('day 31 in a short month', (2026, 4, 2, 5, 5), T(mins=[0], hrs=[0], days=[31]))
    add('day 29 of February', (2026, 2, 2, 5, 5), T(mins=[0], hrs=[0], days=[29], mons=[1]))
    add('day 30 after February', (2026, 1, 31, 5, 5), T(mins=[0], hrs=[0], days=[30]))
    add('Monday', (2026, 11, 20, 6, 0), T(mins=[30], hrs=[5], dow=[1]))
    add('Sunday', (2026, 11, 20, 6, 0), T(mins=[30], hrs=[5], dow=[0, 7]))
    add('today by its day of week', (2026, 11, 20, 6, 0), T(mins=[30], hrs=[7], dow=[5]))
    add('Friday 13', (2026, 11, 20, 6, 0), T(mins=[30], hrs=[7], days=[13], dow=[5]))
    add('Friday 13, dayor', (2026, 11, 20, 8, 0), T(mins=[30], hrs=[7], days=[13], dow=[5]), 0)
    add('the day comes before the day of week, dayor', (2026, 11, 10, 8, 0), T(mins=[30], hrs=[7], days=[12], dow=[5]), 0)
    add('Sunday or a day, dayor', (2026, 11, 20, 8, 0), T(mins=[30], hrs=[7], days=[28], dow=[0, 7]), 0)
    add('day 31 or Monday at the end of April, dayor', (2026, 4, 28, 8, 0), T(mins=[30], hrs=[7], days=[31], dow=[1]), 0)
    add('days 30 and 31 at the end of February, dayor', (2027, 2, 24, 8, 0), T(mins=[30], hrs=[7], days=[30, 31], dow=[3]), 0)
    add('Friday after the month, dayor', (2026, 4, 28, 8, 0), T(mins=[30], hrs=[7], days=[27], dow=[5], mons=[3, 7]), 0)
    add('end of the year, dayor', (2026, 12, 30, 8, 0), T(mins=[30], hrs=[7], days=[3], dow=[6]), 0)
    add('month over, dayor', (2026, 6, 28, 8, 0), T(mins=[30], hrs=[7], days=[3], dow=[6], mons=[0]), 0)
    add('hours over on the last day, other months', (2026, 6, 30, 8, 0), T(mins=[30, 31], hrs=[7], mons=[5, 8]))
    add('later month, then its first days do not do', (2026, 6, 30, 8, 50), T(mins=[30, 31], hrs=[7, 3], days=[30, 15], mons=[8], dow=[3]))
    return out

FREQ = ('freq_mins', 'freq_hrs', 'freq_days', 'freq_mons', 'freq_dow', 'freq_periodically', 'freq_mid')
def begin(t, flags):
    """first beginning of a period after the minute before t (the run was then)"""
    ran = t - dt.timedelta(minutes=1); mid = 'freq_mid' in flags; x = t
    while True:
        if 'freq_hrs' in flags: ok = x.minute == (30 if mid else 0)
        elif 'freq_days' in flags: ok = x.minute == 0 and x.hour == (12 if mid else 0)
        elif 'freq_dow' in flags: ok = x.minute == 0 and x.hour == 0 and x.weekday() == (3 if mid else 0)
        else: ok = x.minute == 0 and x.hour == 0 and x.day == (15 if mid else 1)
        if ok: return x
        x += dt.timedelta(minutes=1)
def leave(t, tabs, dayand, flags):
    """first minute from t on which is not in the same interval"""
    ig = lambda f: f in flags
    n = 0
    while n < 600000:
        a = ig('freq_days') or t.day in tabs['cl_days']; b = ig('freq_dow') or (t.weekday() + 1) % 7 in tabs['cl_dow']
        if not ((ig('freq_mins') or t.minute in tabs['cl_mins']) and (ig('freq_hrs') or t.hour in tabs['cl_hrs']) and ((a and b) if dayand else (a or b)) and (ig('freq_mons') or t.month - 1 in tabs['cl_mons'])): return t
        t += dt.timedelta(minutes=1); n += 1

def pcases():
    """%-lines: (name, run at, tables, dayand, options)"""
    out = []; d = lambda *a: a
    def T(**k): return dict(ALL, **{'cl_' + a: set(b) for a, b in k.items()})
    def add(n, at, t, fl, da=1): out.append((n, at, t, da, tuple('freq_' + x for x in fl.split())))
    add('between 8 and 18', (2026, 5, 10, 9, 30), T(hrs=range(8, 19)), '')
    add('between 8 and 18, at 9:59', (2026, 5, 10, 9, 59), T(hrs=range(8, 19)), '')
    add('between 8 and 18, at 18:59', (2026, 5, 10, 18, 59), T(hrs=range(8, 19)), '')
    add('between 22 and 6, at 23:59', (2026, 5, 10, 23, 59), T(hrs=[22, 23, 0, 1, 2, 3, 4, 5, 6]), '')
    add('between 22 and 6, end of the year', (2026, 12, 31, 23, 59), T(hrs=[22, 23, 0, 1, 2, 3, 4, 5, 6]), '')
    add('between 22 and 6, end of a month', (2026, 4, 30, 23, 58), T(hrs=[22, 23, 0, 1, 2, 3, 4, 5, 6]), '')
    add('minutes 10 to 40', (2026, 5, 10, 9, 20), T(mins=range(10, 41)), '')
    add('minutes 10 to 40, at the last', (2026, 5, 10, 9, 40), T(mins=range(10, 41)), '')
    add('one minute, ignored', (2026, 5, 10, 9, 20), T(mins=[20], hrs=range(8, 11)), 'mins')
    add('one minute, ignored, late', (2026, 5, 10, 9, 59), T(mins=[20], hrs=range(8, 11)), 'mins')
    add('one minute, one hour, days', (2026, 5, 10, 4, 20), T(mins=[20], hrs=[4], days=range(9, 13)), 'mins hrs')
    add('one minute, one hour, days of week', (2026, 11, 20, 4, 20), T(mins=[20], hrs=[4], dow=[5, 6]), 'mins hrs')
    add('one day', (2026, 5, 10, 4, 20), T(mins=[20], hrs=[4], days=[10], mons=[4, 5, 8]), 'mins hrs days dow')
    add('either day, dayor', (2026, 11, 20, 4, 20), T(mins=[20], hrs=[4], days=[21, 25], dow=[5]), 'mins hrs', 0)
    add('hour mid, at the last minute of the period', (2026, 5, 10, 7, 29), T(mins=[5, 35]), 'hrs periodically mid')
    for n, at in (('', (2026, 5, 10, 9, 20)), (', at the end of an hour', (2026, 5, 10, 9, 59)), (', at the end of a day', (2026, 5, 10, 23, 59)), (', at the end of a month', (2026, 4, 30, 23, 59)), (', at the end of the year', (2026, 12, 31, 23, 59)), (', in the last days of the year', (2026, 12, 30, 13, 31)), (', in February', (2027, 2, 27, 11, 59)), (', on a Thursday', (2026, 11, 19, 12, 0)), (', on a Wednesday night', (2026, 11, 18, 23, 59)), (', at the middle of the month', (2026, 11, 14, 23, 59)), (', on a Sunday', (2026, 11, 29, 23, 58))):
        for k in ('hrs', 'days', 'dow', 'mons'):
            for mid in ('', ' mid'): add({'hrs': 'hour', 'days': 'day', 'dow': 'week', 'mons': 'month'}[k] + mid + n, at, T(mins=[5, 35], hrs=[3, 14]) if k != 'hrs' else T(mins=[5, 35]), k + ' periodically' + mid)
    return out

def nextrun(ctx):
    """Rule: for a job with time fields and each of the listed contents of its fields and dates, all paths of set_next_exe are followed with those values from the date localtime() gives to the date handed to mktime(): it is the first one, not before the start (the next minute where the current one is over; the next period, or the end of the interval, for a %-line), allowed by the month, the day of month and the day of week (both, or either with dayor), the hour and the minute."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); root = 'set_next_exe'
    ctx.need(p.func(root) and all(n in t for n in ('td', 'dayand', 'random') + FREQ), 'set_next_exe or option accessors missing')
    STD = opts.consts(ctx.work, ['STD', 'NO_GOTO'], ('global.h', 'database.h')); jobs = []; want = {}
    todo = [(c, (2, 'STD'), ()) for c in cases()] + [(c, (2, 'NO_GOTO'), ()) for c in cases()] + [(c, (1, 'NO_GOTO'), ()) for c in cases()] + [(c[:4], (1, 'STD'), c[4]) for c in pcases()]
    for (name, (y, mo, da, h, m), tabs, dayand), (freq, o), flags in todo:
        at = dt.datetime(y, mo, da, h, m); start = (0, m, h, da, mo - 1, y - 1900, (at.weekday() + 1) % 7)
        nx = at + dt.timedelta(minutes=1 if o == 'STD' or freq != 1 else 0)
        if freq == 1 and o == 'STD': nx = begin(nx, flags) if 'freq_periodically' in flags else leave(nx, tabs, dayand, flags)
        s2 = (0, nx.minute, nx.hour, nx.day, nx.month - 1, nx.year - 1900)
        lab = '%s %s (%s, from %s)' % ('&' if freq == 2 else '%', name, o, at); want[lab] = first(s2, tabs, dayand)
        def f(start=start, tabs=tabs, dayand=dayand, freq=freq, o=o, flags=flags):
            r = Next(t, dict({'td': 1, 'random': 0, 'dayand': dayand}, **{x: int(x in flags) for x in FREQ}), {'cl_runfreq': freq, 'cl_jitter': 0}).setup(start, tabs); e = Engine(p, r); env = Env(); env.bind[((root,), 'A1')] = ('c', STD[o])
            e.run(root, 0, env); g = sorted({x for x in r.got if x != 0}, key=str); r.extra = (g, r.lost or len(g) > 1); return e
        jobs.append((lab, f))
    for lab, (got, lost) in ctx.engines(jobs):
        if lost: ctx.ob(lab + ': not decided', True, root, str(lost)); continue
        w = want[lab]; txt = lambda x: 'no date' if x is None or None in x else '%04d-%02d-%02d %02d:%02d' % (x[4] + 1900, x[3] + 1, x[2], x[1], x[0])
        ctx.ob(lab + ': followed', len(got) > 0, root, 'no date is found')
        for g in got: ctx.ob(lab, g == w, root, 'should run next at %s, is set to %s: %s' % (txt(w), txt(g), lab))
