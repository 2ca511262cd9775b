"""Options of a crontab: what each of them does to the attributes of an entry."""
from sa import core
from sa.engine import Rule, Outcome, av_const, Env, Engine
from sa.build import AnalysisBroken
from sa import opts
from .common import ext, opt_byte, gvar
CL, CF, STR, RUNAS, PW, OLD, TXT = 0xC1000000, 0xCF000000, 0xD100, 0xF001, 0xE000, 0xD200, 0xA0000000
BOOL = {  # option: {accessor: value when the option is true}
 's': {'serial': 1}, 'serial': {'serial': 1}, 'serialonce': {'serial_sev': 0}, 'lavgonce': {'lavg_sev': 0}, 'exesev': {'exe_sev': 1}, 'b': {'bootrun': 1}, 'bootrun': {'bootrun': 1},
 'rebootreset': {'rebootreset': 1}, 'runatreboot': {'runatreboot': 1}, 'runatresume': {'runatresume': 1}, 'runonce': {'runonce': 1}, 'strict': {'strict': 1}, 'noticenotrun': {'notice_notrun': 1},
 'lavgand': {'land': 1}, 'lavgor': {'land': 0}, 'erroronlymail': {'erroronlymail': 1}, 'dayand': {'dayand': 1}, 'dayor': {'dayand': 0}, 'nolog': {'nolog': 1}, 'volatile': {'volatile': 1},
 'stdout': {'stdout': 1}, 'random': {'random': 1}, 'm': {'mail': 1}, 'mail': {'mail': 1}, 'forcemail': {'mailzerolength': 1}, 'reset': {}}
ALSO = {('m', 0): {'mailzerolength': 0}, ('mail', 0): {'mailzerolength': 0}, ('forcemail', 1): {'mail': 1}}
PERIOD = {'mins': '', 'hours': 'freq_mins', 'days': 'freq_mins freq_hrs', 'mons': 'freq_mins freq_hrs freq_days', 'dow': 'freq_mins freq_hrs freq_days freq_mons',
 'hourly': 'freq_hrs freq_periodically', 'daily': 'freq_days freq_periodically', 'monthly': 'freq_mons freq_periodically', 'weekly': 'freq_dow freq_periodically',
 'midhourly': 'freq_hrs freq_periodically freq_mid', 'middaily': 'freq_days freq_periodically freq_mid', 'nightly': 'freq_days freq_periodically freq_mid', 'midmonthly': 'freq_mons freq_periodically freq_mid', 'midweekly': 'freq_dow freq_periodically freq_mid'}
NUM = {  # option: (field, lowest value, highest documented, decimals)
 'jitter': ('cl_jitter', 0, 255, 0), 'r': ('cl_runfreq', 2, 65535, 0), 'runfreq': ('cl_runfreq', 2, 65535, 0), 'tzdiff': ('cf_tzdiff', 0, 24, 0), 'n': ('cl_nice', 0, 20, 0), 'nice': ('cl_nice', 0, 20, 0),
 'lavg1': (('cl_lavg', 0), 0, 255, 1), 'lavg5': (('cl_lavg', 1), 0, 255, 1), 'lavg15': (('cl_lavg', 2), 0, 255, 1), 'lavg': (('cl_lavg', None), 0, 255, 1)}
TIME = {'f': 'cl_first', 'first': 'cl_first', 'u': 'cl_until', 'until': 'cl_until'}
TEXT = {'timezone': 'cl_tz', 'mailfrom': 'cl_mailfrom', 'mailto': 'cl_mailto', 'runas': 'cl_runas'}
DEFAULTS = dict(bootrun=0, dayand=1, erroronlymail=0, exe_sev=0, mailzerolength=0, land=1, mail=1, nolog=0, notice_notrun=0, random=0, rebootreset=0, runatreboot=0, runatresume=0, runonce=0, serial=0, stdout=0, strict=1, volatile=0, lavg=0,
 freq_mins=0, freq_hrs=0, freq_days=0, freq_mons=0, freq_dow=0, freq_periodically=0, freq_mid=0)
ALIAS = {'land': ('lor', 0), 'dayand': ('dayor', 0)}
class Opt(Rule):
    """q = (matched, arguments read, option bytes, ((field, value), ...), need_correction)"""
    name = 'option'
    max_states = 600
    def __init__(self, tab, name, vals=(1,), uid=0, runfreq=0, need=0, init=0, lavg=(0, 0, 0), size=16):
        self.t = tab; self.o = name; self.vals = vals; self.uid = uid; self.rf = runfreq; self.need = need; self.init = init; self.lavg = lavg; self.size = size
        self.buf = None; self.acc = set(); self.refused = 0; self.where = None
    def q0(self): return (False, (), (self.init,) * self.size, (), self.need)
    def bit(self, acc):
        s = 1
        if acc not in self.t and acc in ALIAS: acc, s = ALIAS[acc]; s = 0
        if acc not in self.t: raise AnalysisBroken('no accessor is_%s in option.h' % acc)
        b, m, sense = self.t[acc]
        return b, m, sense if s else 1 - sense
    def is_event(self, prog, i):
        if i.op == 'call': return ext(prog, i, {'strcmp', 'strcasecmp', 'getuid', 'getpwnam', 'memset', 'bzero', 'strlen', 'llvm.memset.p0.i64'}) or i.cname in ('option_strlen', 'get_bool', 'get_num', 'get_time', 'strndup2', 'strdup2')
        return i.op in ('store', 'load') and (core.field_of(i.ops[0 if i.op == 'load' else 1]) is not None or gvar(i.ops[0 if i.op == 'load' else 1]) is not None)
    def enter(self, prog, f): return not f.noreturn and f.name not in ('error', 'error_e', 'warn', 'explain', 'debug', 'free_safe')
    def where_is(self, eng, t):
        """(object, field, index) of an address in the entry or its file"""
        p = eng.ptr(t)
        if p[1][0] != 'c' or p[1][1] not in (CL, CF): return None
        f = [s for s in p[2] if s[0] == 'f']; x = [s[1] for s in p[2] if s[0] == 'i']
        return (p[1][1], f[-1][2] if f else None, x[-1] if x else 0)
    def put(self, q, f, v): return q[:3] + (tuple(sorted([x for x in q[3] if x[0] != f] + [(f, v)], key=str)),) + q[4:]
    def on_inst(self, eng, q, env, i, fr):
        num = lambda k: (lambda v: int(v[0]) if v[0] == v[1] else None)(eng.av(eng.ev(i.args[k], env, fr), env))
        if i.op == 'load':
            w = self.where_is(eng, eng.ev(i.ops[0], env, fr))
            if w is None:
                g = gvar(i.ops[0])
                if g == 'runas': return [Outcome(q, term=('c', RUNAS))]
                if g == 'need_correction': return [Outcome(q, term=('c', q[4]))]
                if g == 'rootuid': return [Outcome(q, term=('c', 0))]
                if g == 'debug_opt': return [Outcome(q, term=('c', 0))]
                return None
            o, f, x = w; d = dict(q[3])
            if f == 'cl_option': return [Outcome(q, term=('c', q[2][x]))] if x is not None and x < self.size else None
            if f == 'cl_file': return [Outcome(q, term=('c', CF))]
            if f == 'cl_lavg':
                return [Outcome(q, term=('c', d.get((f, x), self.lavg[x])))] if x is not None else None
            if f == 'cl_runfreq': return [Outcome(q, term=('c', d.get(f, self.rf)))]
            if f in ('cl_tz', 'cl_mailfrom', 'cl_mailto', 'cl_runas') and '*' not in d: return [Outcome(q, term=('c', d.get(f, OLD)))]
            if f in d and isinstance(d[f], int): return [Outcome(q, term=('c', d[f]))]
            return None
        if i.op == 'store':
            a = eng.ev(i.ops[1], env, fr); w = self.where_is(eng, a)
            if w is None:
                if gvar(i.ops[1]) == 'need_correction':
                    v = eng.ev(i.ops[0], env, fr); return [Outcome(q[:4] + (v[1] if v[0] == 'c' else None,))]
                if q[0] and self.buf is not None and eng.ptr(a)[:2] == self.buf[:2]: self.finish(eng, q, False, i); return [Outcome(q, dead=True)]
                return None
            o, f, x = w; v = eng.ev(i.ops[0], env, fr); r = eng.av(v, env); n = int(r[0]) if r[0] == r[1] else '?'
            if f == 'cl_option':
                if x is None or x >= self.size or n == '?': eng.report(i, 'an option is changed to an unknown value', eng.trace); return [Outcome(q)]
                return [Outcome(q[:2] + (q[2][:x] + (n & 255,) + q[2][x + 1:],) + q[3:])]
            if n != '?' and i.ops[0].type.kind in ('int', 8):      # what the field can hold
                wd = i.ops[0].type.width
                n &= (1 << wd) - 1
                if f in ('cl_nice', 'cf_tzdiff') and n >> (wd - 1): n -= 1 << wd
            return [Outcome(self.put(q, (f, x) if f == 'cl_lavg' else f, n))]
        if i.op != 'call': return None
        n = i.cname
        if n in ('strcmp', 'strcasecmp') and eng.prog.target(i) is None:
            s = [core.const_str(a) for a in i.args[:2]]; k = 0 if s[0] is None else 1
            if s[1 - k] is None or s[k] is not None: return None
            self.buf = eng.ptr(eng.ev(i.args[k], env, fr)); hit = s[1 - k] == self.o
            return [Outcome((q[0] or hit,) + q[1:], ret=av_const(0 if hit else 1))]
        if n in ('memset', 'bzero') or n and n.startswith('llvm.memset'):
            a = eng.ev(i.args[0], env, fr); p = eng.ptr(a)
            if q[0] and self.buf is not None and p[:2] == self.buf[:2]: self.finish(eng, q, False, i); return [Outcome(q, dead=True)]
            if p[1] == ('c', CL) and not p[2]: return [Outcome(q[:2] + ((0,) * self.size, (('*', 0),)) + q[4:])]
            if self.where_is(eng, a) and self.where_is(eng, a)[1] == 'cl_option': return [Outcome(q[:2] + ((0,) * self.size,) + q[3:])]
            return None
        if n == 'get_bool':
            return [Outcome(q, term=('c', 0)), Outcome((q[0], q[1] + (('b', self.vals[0]),)) + q[2:], term=('c', TXT + 4096 * len(q[1])), setmem=[(eng.ptr(eng.ev(i.args[1], env, fr)), ('c', self.vals[0]))])]
        if n == 'get_num':
            k = sum(1 for x in q[1] if x[0] == 'n'); v = self.vals[min(k, len(self.vals) - 1)]; mx = num(2)
            out = [Outcome(q, term=('c', 0))]
            if mx is not None and v <= mx and k < 4: out.append(Outcome((q[0], q[1] + (('n', v, mx, num(3)),)) + q[2:], term=('c', TXT + 4096 * len(q[1])), setmem=[(eng.ptr(eng.ev(i.args[1], env, fr)), ('c', v))]))
            return out
        if n == 'get_time':
            v = self.vals[0]; out = [Outcome(q, term=('c', 0))]; w = eng.ev(i.args[1], env, fr); x = self.where_is(eng, w)
            if v or num(2) != 0:
                q2 = (q[0], q[1] + (('t', v),)) + q[2:]
                out.append(Outcome(self.put(q2, x[1], v) if x else q2, term=('c', TXT + 4096 * len(q[1])), setmem=[] if x else [(eng.ptr(w), ('c', v))]))
            return out
        if n == 'option_strlen':          # the length of the same text
            return [Outcome((x,) + q[1:], term=('c', int(x[1:]))) for x in ((q[0],) if isinstance(q[0], str) else ('L0', 'L1', 'L5', 'L300'))]
        if n == 'strndup2': return [Outcome((q[0], q[1] + (('s',),)) + q[2:], term=('c', STR))]
        if n == 'strdup2':
            t = eng.ev(i.args[0], env, fr)
            return [Outcome(q, term=t)] if t in (('c', STR), ('c', RUNAS), ('c', 0)) else None
        if n == 'getuid': return [Outcome(q, term=('c', self.uid))]
        if n == 'getpwnam': return [Outcome(q, term=('c', 0)), Outcome(q, term=('c', PW))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env) if eng.rv is not None else None; v = ('c', 0) if a is not None and a[0] == a[1] == 0 else ('c', 1)
        self.finish(eng, q, v == ('c', 0), inst)
    # ---------------------------------------------------------------- what is documented
    DBG = 0
    def fail(self, eng, inst, msg): eng.report(inst, 'option %s: %s' % (self.o, msg), eng.trace, key='option %s: %s' % (self.o, msg))
    def expect(self, args, uid=None):
        """list of acceptable (bits {accessor: value}, fields {field: value}, must be reported) for these arguments; empty: must be refused"""
        o = self.o; v = [a[1] for a in args if len(a) > 1]; kinds = ''.join(a[0] for a in args)
        if o in BOOL:
            if kinds not in ('', 'b'): return []
            b = v[0] if v else 1
            if o == 'reset': return [('reset' if b else {}, {}, 0)]
            d = {a: (x if b else 1 - x) for a, x in BOOL[o].items()}; d.update(ALSO.get((o, b), {})); return [(d, {}, 0)]
        if o in NUM:
            f, lo, hi, dec = NUM[o]
            if o == 'lavg':
                if kinds != 'nnn': return []
                return [({'lavg': int(any(v))}, {('cl_lavg', k): x for k, x in enumerate(v)}, 0)]
            if kinds != 'n' or not lo <= v[0] <= hi or o in ('r', 'runfreq') and self.rf == 1: return []
            if o.startswith('lavg'):
                l = list(self.lavg); l[f[1]] = v[0]; return [({'lavg': int(any(l))}, {f: v[0]}, 0)]
            if f == 'cl_nice': return [({}, {f: v[0]}, 0)] + ([({}, {f: -v[0]}, 0)] if self.uid == 0 else [({}, {f: 0}, 1)])
            if f == 'cf_tzdiff': return [({}, {f: v[0]}, 0), ({}, {f: -v[0]}, 0)]
            return [({}, {f: v[0]}, 0)]
        if o in TIME: return [({}, {TIME[o]: v[0]}, 0)] if kinds == 't' else []
        if o == 'runas':
            if kinds != 's': return []
            return [({}, {}, 1)] + ([({}, {'cl_runas': STR}, 0)] if self.uid == 0 else [])
        if o == 'mailto': return [({'mail': 1}, {'cl_mailto': STR}, 0)] if kinds == 's' else [({'mail': 0, 'mailzerolength': 0}, {}, 0)] if kinds == '' else []
        if o in TEXT: return [({}, {TEXT[o]: STR if kinds == 's' else 0}, 0)] if kinds in ('s', '') else []
        if o in PERIOD:
            if self.rf != 1: return [({}, {}, 1)] if not args else []
            return [({a: 1 for a in PERIOD[o].split()}, {}, 0)] if not args else []
        return [({}, {}, 1)]      # unknown
    def finish(self, eng, q, null, inst):
        m, args, by, log, need = q; d = dict(log)
        if null:
            self.refused += 1
            if need != 1: self.fail(eng, inst, 'refused without reporting that the crontab must be corrected')
        for f in ('cl_runas', 'cl_mailto'):
            if d.get(f, 1) == 0 or '*' in d and f not in d: self.fail(eng, inst, 'the entry is left without %s' % {'cl_runas': 'run-as account', 'cl_mailto': 'mail address'}[f]); return
        if null: return
        ex = self.expect(args)
        if not ex: self.fail(eng, inst, 'accepted with %s' % (self.words(args) or 'no argument')); return
        bad = None
        for bits, fields, rep in ex:
            want = list(self.q0()[2])
            if bits == 'reset':
                e = self.default(by, d); 
                if e is None and need == self.need: self.acc.add('reset'); return
                bad = bad or e or 'a correct option is reported as to be corrected'; continue
            for a, x in bits.items():
                b, mk, sense = self.bit(a); want[b] = want[b] | mk if bool(x) == bool(sense) else want[b] & ~mk
            got = {f: x for f, x in d.items() if not (isinstance(x, int) and x == (self.lavg[f[1]] if isinstance(f, tuple) else self.rf if f == 'cl_runfreq' else None) and f not in fields)}
            fl = dict(fields)
            e = None
            for k in range(self.size):
                if by[k] != want[k]:
                    e = 'with %s: %s' % (self.words(args) or 'no argument', ', '.join('%s is %d' % (a, int(bool(by[b] & mk) == bool(s))) for a, (b, mk, s) in sorted(self.t.items()) if b == k and (by[k] ^ want[k]) & mk) or 'an unknown option bit changes')
                    break
            if e is None and got != fl:
                x = [f for f in set(got) | set(fl) if got.get(f, '-') != fl.get(f, '-')]
                e = 'with %s: %s' % (self.words(args) or 'no argument', ', '.join('%s becomes %s, not %s' % (self.fname(f), self.val(got.get(f, '-')), self.val(fl.get(f, '-'))) for f in sorted(x, key=str)))
            if e is None and (need != self.need if not rep else need != 1): e = 'reported as to be corrected although it is correct' if not rep else 'not done, and not reported as to be corrected'
            if e is None: self.acc.add((tuple(sorted(fields.items(), key=str)), rep, ''.join(a[0] for a in args))); return
            bad = bad or e
        self.fail(eng, inst, bad)
    def default(self, by, d):
        if '*' not in d: return 'the attributes are not cleared'
        for f, x in d.items():
            if f in ('*', 'cl_file'): continue
            if f in ('cl_runas', 'cl_mailto'):
                if x != RUNAS: return '%s is not the owner' % f
            elif x != 0 and not (f == 'cl_first' and x in UNSET): return '%s becomes %s' % (self.fname(f), self.val(x))
        if d.get('cl_file') != CF: return 'the file of the entry is lost'
        for a, x in self.dflt.items():
            b, m, s = self.bit(a)
            if (bool(by[b] & m) == bool(s)) != bool(x): return 'default of %s is %d' % (a, 1 - x)
        return None
    def fname(self, f): return '%s[%s]' % f if isinstance(f, tuple) else f
    def val(self, v): return {STR: 'the text', 0: '0', '-': 'unchanged', RUNAS: 'the owner', CF: 'its file'}.get(v, v)
    def words(self, args): return ', '.join({'b': lambda a: 'true' if a[1] else 'false', 'n': lambda a: 'number %d' % a[1], 't': lambda a: 'time %d' % a[1], 's': lambda a: 'a text'}[a[0]](a) for a in args)
UNSET = (-1, 2**64 - 1, 2**32 - 1)   # no first execution given
def env0():
    e = Env(); e.bind[(('read_opt',), 'A1')] = ('c', CL); return e
def documented(ctx):
    """Rule: for each documented option (and an unknown one), each class of argument, entry or periodical entry, root or not, correct or faulty crontab so far, attributes all set or all clear: on every path of the reading of options, the option is accepted exactly when it is documented to be, and then exactly the documented attributes of the given entry have the documented values; otherwise the crontab is marked as to be corrected. An entry is never left without run-as account or mail address. Words of booleans, units of times and ranges of numbers are read as documented, and no number exceeds what its attribute can hold."""
    p = ctx.prog('fcrontab'); tab = opts.simple(ctx.work)
    C = opts.consts(ctx.work, ['SERIAL_ONCE', 'LAVG_ONCE', 'OPTION_SIZE']); size = C['OPTION_SIZE']
    dflt = dict(DEFAULTS); dflt['serial_sev'] = 0 if C['SERIAL_ONCE'] >= 1 else 1; dflt['lavg_sev'] = 1 if C['LAVG_ONCE'] == 0 else 0
    for f in ('read_opt', 'get_bool', 'get_num', 'get_time'): ctx.need(f in p.funcs, 'no function %s' % f)
    jobs = []
    def job(label, wants, *a, **k):
        def th():
            r = Opt(tab, *a, size=size, **k); r.dflt = dflt; e = Engine(p, r); e.run('read_opt', r.q0(), env0()); r.extra = (r.acc, r.refused); return e
        jobs.append((label, th, wants))
    for init in (0, 255):
        for need in (0, 1):
            if need and init: continue
            if need and ctx.tier != 'thorough':      # after an error: texts, and one of each other kind
                for o in TEXT:
                    for uid in (0, 1000): job('%s, uid %d' % (o, uid), ({'s'} | ({('value', STR)} if not uid else set())) if o == 'runas' else {'s', ''}, o, init=init, need=need, uid=uid)
                job('runonce(1)', {'b', ''}, 'runonce', (1,), init=init, need=need); job('first(777)', {'t'}, 'first', (777,), init=init, need=need); job('unknown option', set(), 'nosuchoption', init=init, need=need)
                continue
            for o in BOOL:
                for b in (0, 1):
                    if need and b: continue
                    job('%s(%d)' % (o, b), {'b', ''} if o != 'reset' else {'reset'} if b else set(), o, (b,), init=init, need=need)
            for o, f in TIME.items():
                for v in (0, 777) if not need else (777,): job('%s(%d)' % (o, v), {'t'}, o, (v,), init=init, need=need)
            for o in TEXT:
                for uid in (0, 1000): job('%s, uid %d' % (o, uid), ({'s'} | ({('value', STR)} if not uid else set())) if o == 'runas' else {'s', ''}, o, init=init, need=need, uid=uid)
            for o in PERIOD:
                for rf in (0, 1, 5) if not need and not init else (1,): job('%s, runfreq %d' % (o, rf), {''}, o, init=init, need=need, runfreq=rf)
            for o in ('nosuchoption', ''): job('unknown "%s"' % o, set(), o, init=init, need=need); job('unknown "%s" in a periodical entry' % o, set(), o, init=init, need=need, runfreq=1)
    for o, (f, lo, hi, dec) in NUM.items():
        for v in sorted({0, 1, 2, hi, hi + 1} | ({24, 25, 100} if ctx.tier == 'thorough' else {24})):
            for uid in (0, 1000) if f == 'cl_nice' else (0,):
                for rf in (0, 1) if f == 'cl_runfreq' else (0,):
                    for lav in ((0, 0, 0), (7, 7, 7)) + (((7, 0, 0), (0, 7, 0), (0, 0, 7)) if v == 0 and o != 'lavg' else ()) if o.startswith('lavg') else ((0, 0, 0),):
                        ok = lo <= v <= hi and not (rf == 1)
                        w = {'n' if o != 'lavg' else 'nnn'} if ok else set()
                        if f in ('cl_nice', 'cf_tzdiff') and ok: w = w | {('value', v), ('value', -v if not uid else 0)}
                        job('%s(%d), uid %d, runfreq %d, lavg %s' % (o, v, uid, rf, lav), w, o, (v,) if o != 'lavg' else (v, 3, 200), uid=uid, runfreq=rf, lavg=lav)
    job('lavg(0,0,0)', {'nnn'}, 'lavg', (0,), lavg=(7, 7, 7)); job('lavg(0,0,9)', {'nnn'}, 'lavg', (0, 0, 9))
    for (label, th, wants), (l2, (acc, ref)) in zip(jobs, ctx.engines([j[:2] for j in jobs])):
        kinds = {a[2] for a in acc if isinstance(a, tuple)} | {('value', x) for a in acc if isinstance(a, tuple) for f, x in a[0]} | {a for a in acc if not isinstance(a, tuple)}
        for w in wants: ctx.ob('%s: accepted %s' % (label, {'': 'without argument', 'b': 'with a boolean', 'n': 'with a number', 't': 'with a time', 's': 'with a text', 'nnn': 'with 3 numbers'}.get(w, w)), w in kinds, 'fileconf.c', 'option %s is never accepted, although it is documented' % label)
        if ref is not None and not wants: ctx.ob('%s: handled' % label, ref or acc, 'fileconf.c', 'no outcome')
    from . import text
    text.words(ctx, p)
