"""Lines of a crontab: what each of them becomes."""
from sa import core, opts
from sa.engine import Rule, Outcome, av_const, Env, Engine
from sa.build import AnalysisBroken
from .common import ext, gvar
from .text import bits, ISF
CL, CF, TXT, CTY, CMD, OLD, RUNAS, DEF, VAL, LINES, DUP = 0xC1000000, 0xCF000000, 0xA0000000, 0xCB000000, 0xD1000000, 0xD200, 0xF001, 0xDE000000, 0xDA000000, 0xAA000000, 0xDB000000
TABLES = {'cl_mins': 60, 'cl_hrs': 24, 'cl_days': 32, 'cl_mons': 12, 'cl_dow': 8}
FULL = {f: (1 << n) - 1 for f, n in TABLES.items()}
READERS = {'read_opt', 'get_time', 'get_num', 'read_field', 'check_username', 'get_command', 'read_word', 'dups_cl', 'free_line', 'get_string', 'env_list_setenv', 'strdup2', 'strdup'}
QUIET = ('error', 'error_e', 'warn', 'explain', 'debug')
class Line(Rule):
    """q = (segments of the text read, what was done, option bytes, ((field, value), ...), need_correction, entry: '' 'new' 'linked' 'freed', command empty?)"""
    name = 'line'
    max_states = 400
    def __init__(self, tab, root, segs, vals=(), init=0, f0=(), optset=(), tables=None, short=None, size=16, runfreq=0, reset=False):
        self.t = tab; self.root = root; self.segs = segs; self.vals = vals; self.init = init; self.f0 = dict(f0); self.optset = optset; self.tables = tables or {}; self.short = short; self.size = size; self.rf = runfreq; self.reset = reset
        self.out = []
    def q0(self): return (0, (), (self.init,) * self.size, (), 0, '', None)
    def setbits(self, ob, accs):
        ob = list(ob)
        for acc, v in accs:
            if acc not in self.t: raise AnalysisBroken('no accessor is_%s in option.h' % acc)
            b, m, sense = self.t[acc]; on = bool(v) == bool(sense); ob[b] = ob[b] | m if on else ob[b] & ~m & 255
        return tuple(ob)
    def is_event(self, prog, i):
        if i.op == 'call': return i.cname in READERS or ext(prog, i, {'strcmp', 'strlen', 'memset', 'bzero', 'free', 'isdigit', 'isalnum', 'isspace', 'isalpha', '__ctype_b_loc', 'llvm.memset.p0.i64'}) or i.cname in ('free_safe',)
        return i.op in ('load', 'store')
    def enter(self, prog, f): return not f.noreturn and f.name not in QUIET and f.name not in READERS
    def obj(self, eng, t):
        p = eng.ptr(t)
        if p[1] == ('g', 'default_line'): p = (p[0], ('c', DEF), p[2])
        if p[1][0] != 'c' or p[1][1] not in (CL, CF, DEF): return None
        f = [s for s in p[2] if s[0] == 'f']; x = [s[1] for s in p[2] if s[0] == 'i']
        return (p[1][1], f[-1][2] if f else None, x[-1] if x else 0)
    def off(self, eng, t, base, span=0x1000000):
        p = eng.ptr(t)
        if p[1][0] != 'c' or not isinstance(p[1][1], int) or not base <= p[1][1] < base + span: return None
        k = p[1][1] - base
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return '?'
            k += s[1]
        return k
    def put(self, q, f, v): return q[:3] + (tuple(sorted([x for x in q[3] if x[0] != f] + [(f, v)], key=str)),) + q[4:]
    def done(self, q, *ev): return q[:1] + (q[1] + (ev,),) + q[2:]
    def bad(self, eng, i, msg): eng.report(i, '%s: %s' % (self.root, msg), eng.trace, key='%s: %s' % (self.root, msg))
    def local(self, eng, t):
        """offset in a local array of characters"""
        p = eng.ptr(t)
        if p[1][0] != 'a': return None
        k = 0
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return None
            k += s[1]
        return (p[1], k)
    def at(self, eng, i, q, t, what):
        """the reader is given the text it has to read: where the last one stopped, blanks skipped or not"""
        k = self.off(eng, t, TXT); n = q[0]
        if k is None or k == '?': self.bad(eng, i, '%s does not read the text of the line' % what); return
        s, o = divmod(k, 4096)
        if self.root == 'read_env' and s == n == 0 and o == len(self.segs[0]): return
        want = {j for j in range(len(self.segs[n]) + 1) if not self.segs[n][:j].strip(' \t@&%')} if n < len(self.segs) else {0}
        if s != n or o not in want: self.bad(eng, i, '%s reads from character %d of part %d of the line instead of where the text before it ends' % (what, o, s))
    def ok(self, q): return (q[0] + 1,) + q[1:]
    def nxt(self, q): return ('c', TXT + 4096 * (q[0] + 1))
    def fail(self, q): return q[:4] + (1,) + q[5:]
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            a = eng.ev(i.ops[0], env, fr)
            k = self.off(eng, a, TXT)
            if k is not None:
                if k == '?': return None
                s, o = divmod(k, 4096)
                if s >= len(self.segs) or o > len(self.segs[s]): self.bad(eng, i, 'the text is read past its end'); return [Outcome(q, dead=True)]
                t = self.segs[s] + (self.segs[s + 1] if s + 1 < len(self.segs) else '')
                return [Outcome(q, term=('c', ord(t[o]) if o < len(t) else 0))]
            k = self.off(eng, a, CMD)
            if k is not None: return [Outcome(q, term=('c', 0 if q[6] or k == '?' or k > 3 else 120))]
            k = self.off(eng, a, VAL)
            if k is not None: return [Outcome(q, term=('c', 0 if q[6] or k == '?' or k > 3 else 120))]
            p = eng.ptr(a)
            if p[1] == ('c', CTY) and not p[2]: return [Outcome(q, term=('c', CTY + 0x10000))]
            if p[1] == ('c', CTY + 0x10000):
                k = self.off(eng, a, CTY + 0x10000); return [Outcome(q, term=('c', bits(k)))] if k not in ('?', None) else None
            w = self.obj(eng, a); d = dict(q[3])
            if w is None:
                g = gvar(i.ops[0])
                if g == 'need_correction': return [Outcome(q, term=('c', q[4]))]
                if g == 'debug_opt': return [Outcome(q, term=('c', 0))]
                l = self.local(eng, a)
                if l and i.type.kind == 8 and i.type.width == 8 and self.short is not None and ('word',) in q[1]: return [Outcome(q, term=('c', ord((self.short + '\0')[l[1]])))] if l[1] <= len(self.short) else None
                if l and i.type.kind == 8 and i.type.width == 8 and ('buf', l[1]) in d: return [Outcome(q, term=('c', d[('buf', l[1])]))]
                return None
            o, f, x = w
            if o == CL and q[5] == 'freed': self.bad(eng, i, 'the entry is used after it was released')
            if f == 'cl_option': return [Outcome(q, term=('c', q[2][x]))] if x is not None and x < self.size else None
            if f in TABLES: return [Outcome(q, term=('c', d.get((f, x), 0)))] if x is not None else None
            if f == 'cf_line_base': return [Outcome(q, term=('c', d.get(f, OLD)))]
            if f in d and isinstance(d[f], int): return [Outcome(q, term=('c', d[f]))]
            if '*' in d and f: return [Outcome(q, term=('c', 0))]
            if f in self.f0: return [Outcome(q, term=('c', self.f0[f]))]
            if f == 'cl_file': return [Outcome(q, term=('c', CF))]
            if f == 'cl_runfreq': return [Outcome(q, term=('c', self.rf))]
            return None
        if i.op == 'store':
            a = eng.ev(i.ops[1], env, fr); v = eng.ev(i.ops[0], env, fr); w = self.obj(eng, a); r = eng.av(v, env); n = int(r[0]) if r[0] == r[1] else '?'
            if w is None:
                if gvar(i.ops[1]) == 'need_correction': return [Outcome(q[:4] + (n,) + q[5:])]
                l = self.local(eng, a)
                if l and i.ops[0].type.kind == 8 and i.ops[0].type.width == 8 and self.root == 'read_env': return [Outcome(self.put(q, ('buf', l[1]), n))] if n != '?' else None
                return None
            o, f, x = w
            if o == CL and q[5] in ('freed',): self.bad(eng, i, 'the entry is changed after it was released')
            if f == 'cl_option':
                if x is None or x >= self.size or n == '?': self.bad(eng, i, 'an option is changed to an unknown value'); return [Outcome(q)]
                q = q[:2] + (q[2][:x] + (n & 255,) + q[2][x + 1:],) + q[3:]; return [Outcome(q)]
            if f in TABLES:
                if x is None or n == '?' or x * 8 >= TABLES[f]: self.bad(eng, i, 'the table %s is changed out of its bounds' % f); return [Outcome(q)]
                return [Outcome(self.put(q, (f, x), n & 255))]
            if f == 'cf_line_base':
                if n != CL: self.bad(eng, i, 'the list of entries gets something else than the new entry'); return [Outcome(q)]
                if q[5] != 'new': self.bad(eng, i, 'an entry is added to the list %s' % ('twice' if q[5] == 'linked' else 'after it was released' if q[5] == 'freed' else 'which does not exist'))
                q = q[:5] + ('linked',) + q[6:]
            if n != '?' and i.ops[0].type.kind == 8 and i.ops[0].type.width < 64: n &= (1 << i.ops[0].type.width) - 1
            return [Outcome(self.put(q, f, n))]
        if i.op != 'call': return None
        n = i.cname; A = lambda k: eng.ev(i.args[k], env, fr)
        num = lambda k: (lambda v: int(v[0]) if v[0] == v[1] else None)(eng.av(A(k), env))
        if n == 'dups_cl':
            if q[5]: self.bad(eng, i, 'more than one entry is made of a line')
            if gvar(i.args[0]) != 'default_line' and core.steps(i.args[0])[0].name != 'default_line': self.bad(eng, i, 'the entry is not made from the default options')
            return [Outcome(q[:5] + ('new',) + q[6:], term=('c', CL))]
        if n in ('free_line', 'free', 'free_safe'):
            t = A(0)
            if t == ('c', CL):
                if q[5] == 'linked': self.bad(eng, i, 'an entry of the list is released')
                if q[5] == 'freed': self.bad(eng, i, 'an entry is released twice')
                return [Outcome(q[:5] + ('freed',) + q[6:], term=('c', 0))]
            return [Outcome(q, term=('c', 0))]
        if n == 'read_opt':
            self.at(eng, i, q, A(0), n)
            if A(1) != ('c', CL): self.bad(eng, i, 'options are read into something else than the new entry')
            g = self.done(self.ok(q), 'opt'); ob = self.reset[0] if self.reset else g[2]
            if self.reset: g = g[:3] + (self.reset[1],) + g[4:]
            g = g[:2] + (self.setbits(ob, self.optset),) + g[3:]
            if 'opt_runfreq' in self.f0: g = self.put(g, 'cl_runfreq', self.f0['opt_runfreq'])
            return [Outcome(self.fail(q), term=('c', 0)), Outcome(g, term=self.nxt(q))]
        if n == 'get_time':
            self.at(eng, i, q, A(0), n); k = sum(1 for e in q[1] if e[0] in ('time', 'num')); v = self.vals[k] if k < len(self.vals) else 0; w = self.obj(eng, A(1)); z = num(2)
            out = [Outcome(self.fail(q), term=('c', 0))]
            if v or z: out.append(Outcome(self.put(self.done(self.ok(q), 'time', w[1] if w else '?', z), w[1] if w else '?', v), term=self.nxt(q), setmem=[] if w else [(eng.ptr(A(1)), ('c', v))]))
            return out
        if n == 'get_num':
            self.at(eng, i, q, A(0), n); k = sum(1 for e in q[1] if e[0] in ('time', 'num')); v = self.vals[k] if k < len(self.vals) else 0
            out = [Outcome(self.fail(q), term=('c', 0))]
            if num(2) is not None and v <= num(2): out.append(Outcome(self.done(self.ok(q), 'num', num(2)), term=self.nxt(q), setmem=[(eng.ptr(A(1)), ('c', v))]))
            return out
        if n == 'read_field':
            self.at(eng, i, q, A(0), n); w = self.obj(eng, A(1)); f = w[1] if w and w[0] == CL else None; mx = num(2)
            if f not in TABLES: self.bad(eng, i, 'a field is read into something else than the new entry'); return [Outcome(self.fail(q), term=('c', 0))]
            g = self.done(self.ok(q), 'field', f); v = self.tables.get(f, FULL[f])
            for b in range((TABLES[f] + 7) // 8): g = self.put(g, (f, b), v >> (8 * b) & 255)
            return [Outcome(self.fail(q), term=('c', 0)), Outcome(g, term=self.nxt(q))]
        if n == 'check_username':
            self.at(eng, i, q, A(0), n)
            if A(2) != ('c', CL): self.bad(eng, i, 'a run-as account is read into something else than the new entry')
            return [Outcome(self.done(self.ok(q), 'user'), term=self.nxt(q))]
        if n == 'get_command':
            self.at(eng, i, q, A(0), n)
            return [Outcome(self.done(self.ok(q), 'cmd')[:6] + (e,), term=('c', CMD)) for e in (0, 1)]
        if n == 'read_word':
            self.at(eng, i, q, A(0), n)
            return [Outcome(self.done(self.ok(q), 'word'), term=self.nxt(q))]
        if n == 'get_string':
            self.at(eng, i, q, A(0), n)
            return [Outcome(q, term=('c', 0))] + [Outcome(self.done(self.ok(q), 'val')[:6] + (e,), term=('c', VAL)) for e in (0, 1)]
        if n in ('strdup2', 'strdup'): return [Outcome(q, term=('c', DUP))] if A(0) == ('c', VAL) else None
        if n == 'env_list_setenv':
            s = self.text(eng, A(1), q); v = A(2)
            return [Outcome(self.done(q, 'setenv', s, v == ('c', VAL), num(3)), ret=None)]
        if n == 'strcmp' and eng.prog.target(i) is None:
            s = [core.const_str(a) for a in i.args[:2]]; k = 0 if s[0] is None else 1; c = s[1 - k]
            if c is None: return None
            t = A(k)
            if t in (('c', CMD), ('c', VAL)): x = '' if q[6] else 'xxxx'
            elif self.short is not None: l = self.local(eng, t); x = self.short[l[1]:] if l and l[1] <= len(self.short) else None
            else: x = self.text(eng, t, q)
            return [Outcome(q, ret=av_const((x > c) - (x < c)))] if x is not None else None
        if n == 'strlen':
            if A(0) in (('c', CMD), ('c', VAL)): return [Outcome(q, term=('c', 0 if q[6] else 4))]
            x = self.short if self.short is not None else self.text(eng, A(0), q)
            return [Outcome(q, term=('c', len(x)))] if x is not None else None
        if n in ('memset', 'bzero') or n and n.startswith('llvm.memset'):
            if eng.ptr(A(0)) == ('p', ('c', CL), ()) and self.root == 'init_default_line' and (n == 'bzero' or num(1) == 0): return [Outcome(q[:2] + ((0,) * self.size, (('*', 0),)) + q[4:])]
            if eng.ptr(A(0))[1] == ('c', CL): self.bad(eng, i, 'the entry is cleared'); return [Outcome(q)]
            return [Outcome(q[:3] + (tuple(x for x in q[3] if not (isinstance(x[0], tuple) and x[0][0] == 'buf')),) + q[4:])]
        if n == '__ctype_b_loc': return [Outcome(q, term=('c', CTY))]
        if n in ISF:
            v = num(0); return [Outcome(q, term=('c', 1 if bits(v) & ISF[n] else 0))] if v is not None else None
        return None
    def text(self, eng, t, q):
        """the string in a local array"""
        l = self.local(eng, t)
        if l is None: return None
        d = dict(q[3]); s = ''; k = l[1]
        while d.get(('buf', k), 0) not in (0, '?'): s += chr(d[('buf', k)]); k += 1
        return s
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env) if eng.rv is not None else (0, 0)
        self.out.append((q, int(a[0]) if a[0] == a[1] else '?'))
def run(p, r, root):
    e = Engine(p, r); env = Env()
    env.bind[((root,), 'A0')] = ('c', TXT)
    env.bind[((root,), 'A1')] = ('c', CF)
    e.run(root, r.q0(), env); r.extra = (r.out, [x[1] for x in e.reports.values()]); return e
def run0(p, r):
    e = Engine(p, r); env = Env()
    env.bind[((r.root,), 'A0')] = ('c', CL); env.bind[((r.root,), 'A1')] = ('c', CF)
    e.run(r.root, r.q0()[:3] + ((('cl_first', 77),),) + r.q0()[4:], env); return e
class W:
    """a kind of line: its text, what the readers find in it and what must come out of it"""
    def __init__(self, root, name, segs, events=None, bits=(), fields=None, opts_=(), rv=None, **kw):
        self.root, self.name, self.segs, self.events, self.bits, self.fields, self.opts, self.rv, self.kw = root, name, segs, events, bits, fields or {}, opts_, rv, kw
def words():
    B = lambda **k: {f: (FULL[f] if v == '*' else v) for f, v in k.items()}
    once = lambda o: ((('freq', 1), (o, 1), ('runonce', 1), ('volatile', 0)), {'cl_runfreq': 0, 'cl_first': 0, 'cl_timefreq': (1 << 63) - 1})
    td = lambda **k: ((('td', 1),), B(**k))
    return {'reboot': once('runatreboot'), 'resume': once('runatresume'),
            'yearly': td(cl_mins=1, cl_hrs=1, cl_days=2, cl_mons=1, cl_dow='*'), 'annually': td(cl_mins=1, cl_hrs=1, cl_days=2, cl_mons=1, cl_dow='*'),
            'monthly': td(cl_mins=1, cl_hrs=1, cl_days=2, cl_mons='*', cl_dow='*'), 'weekly': td(cl_mins=1, cl_hrs=1, cl_days='*', cl_mons='*', cl_dow=1 | 128),
            'daily': td(cl_mins=1, cl_hrs=1, cl_days='*', cl_mons='*', cl_dow='*'), 'midnight': td(cl_mins=1, cl_hrs=1, cl_days='*', cl_mons='*', cl_dow='*'),
            'hourly': td(cl_mins=1, cl_hrs='*', cl_days='*', cl_mons='*', cl_dow='*')}
F5 = tuple(('field', f) for f in TABLES)
UC = (('user',), ('cmd',))
PART = {'cl_mins': 0x21, 'cl_hrs': 6, 'cl_days': 0x12, 'cl_mons': 5, 'cl_dow': 2}
def worlds(thorough):
    out = []
    # every so often
    for init in (0, 255):
        for v in (1, 20, 1 << 40):
            out.append(W('read_freq', '@freq', ['@ 20 ', 'c'], (('time', 'cl_timefreq', 0),) + UC, (('freq', 1),), {'cl_runfreq': 0, 'cl_timefreq': v, 'cl_first': v}, vals=(v,), init=init, blank=True))
        for first, v in ((0, 20), (7, 1), (100, 20), (1 << 40, 5)):
            out.append(W('read_freq', '@first freq', ['@10 ', '20 ', 'c'], (('time', 'cl_first', 1), ('time', 'cl_timefreq', 0)) + UC, (('freq', 1),), {'cl_runfreq': 0, 'cl_timefreq': v, 'cl_first': first}, vals=(first, v), init=init))
        for reset in (0, 1):
            out.append(W('read_freq', '@options freq', ['@opt ', '20 ', 'c'], (('opt',), ('time', 'cl_timefreq', 0)) + UC, (('freq', 1), ('serial', 1)), {'cl_runfreq': 0, 'cl_timefreq': 20, 'cl_first': 20}, vals=(20,), init=init, optset=(('serial', 1), ('td', 1)), reset=bool(reset)))
        out.append(W('read_freq', '@freq 0', ['@ 0 ', 'c'], None, vals=(0, 0), init=init, blank=True))
    # at given times
    for init in (0, 255):
        for rf in (0, 2, 9):
            out.append(W('read_arys', 'times', ['1 ', '2 ', '3 ', '4 ', '5 ', 'c'], F5 + UC, (('td', 1),), dict(PART, cl_remain=rf, cl_runfreq=rf), init=init, tables=PART, runfreq=rf))
            out.append(W('read_arys', '& times', ['& 1 ', '2 ', '3 ', '4 ', '5 ', 'c'], F5 + UC, (('td', 1),), dict(PART, cl_remain=rf, cl_runfreq=rf), init=init, tables=PART, runfreq=rf))
            for reset in (0, 1):
                out.append(W('read_arys', '&options times', ['&opt ', '1 ', '2 ', '3 ', '4 ', '5 ', 'c'], (('opt',),) + F5 + UC, (('td', 1), ('lavg', 1)), dict(PART, cl_remain=0 if reset else rf, cl_runfreq=0 if reset else rf), init=init, tables=PART, runfreq=rf, optset=(('lavg', 1), ('freq', 1)), reset=bool(reset)))
            out.append(W('read_arys', '&options runfreq times', ['&opt ', '1 ', '2 ', '3 ', '4 ', '5 ', 'c'], (('opt',),) + F5 + UC, (('td', 1),), dict(PART, cl_remain=3, cl_runfreq=3), init=init, tables=PART, runfreq=rf, optset=(('freq', 1),), f0=(('opt_runfreq', 3),)))
        for v in (0, 1, 2, 3, 65535):
            out.append(W('read_arys', '&%d times' % v, ['&9 ', '1 ', '2 ', '3 ', '4 ', '5 ', 'c'], None if v < 2 else (('num', 65535),) + F5 + UC, (('td', 1),), dict(PART, cl_remain=v, cl_runfreq=v), init=init, tables=PART, vals=(v,)))
    # once per period
    for opt, k in (('freq_mins', 0), ('freq_hrs', 1), ('freq_days', 2), ('freq_mons', 3), ('freq_dow', 2)):
        for reset in (0, 1):
            tb = {f: PART[f] if n < k else FULL[f] for n, f in enumerate(TABLES)}
            out.append(W('read_period', '%%%s' % opt, ['%opt '] + ['1 '] * k + ['c'], (('opt',),) + F5[:k] + UC, (('td', 1), ('freq_periodically', 1), (opt, 1)), dict(tb, cl_remain=1, cl_runfreq=1), tables=PART, optset=(('freq', 1), ('freq_periodically', 1), (opt, 1)), reset=bool(reset)))
    names = list(TABLES); per = dict(zip(names, ('freq_mins', 'freq_hrs', 'freq_days', 'freq_mons', 'freq_dow')))
    from itertools import product
    for m in range(32):
        tb = {f: PART[f] if m >> n & 1 else FULL[f] for n, f in enumerate(names)}
        for skip in ((), ('cl_mins',), ('cl_hrs',), ('cl_days',), ('cl_mons',), ('cl_dow',), ('cl_mins', 'cl_hrs')) if not thorough else [tuple(f for n, f in enumerate(names) if s >> n & 1) for s in range(32)]:
            for dayand in (0, 1):
                r = {f for f in names if tb[f] != FULL[f] and f not in skip}
                some = bool(r & {'cl_mins', 'cl_hrs', 'cl_mons'}) or bool(r & {'cl_days', 'cl_dow'}) and (dayand or r >= {'cl_days', 'cl_dow'})
                os_ = (('freq', 1), ('freq_periodically', 0)) + tuple((per[f], int(f in skip)) for f in names) + (('dayand', dayand),)
                out.append(W('read_period', '%%options restricted=%s intervals of=%s day%s' % (','.join(f for n, f in enumerate(names) if m >> n & 1) or 'none', ','.join(skip) or 'none', 'and' if dayand else 'or'), ['%opt ', '1 ', '2 ', '3 ', '4 ', '5 ', 'c'],
                             (('opt',),) + F5 + UC if some else None, tuple(x for x in os_ if x[0] not in ('freq',)) + (('td', 1),), dict(tb, cl_remain=1, cl_runfreq=1), tables=tb, optset=os_))
    # shortcuts
    for w, (b, f) in words().items():
        for init in (0, 255):
            out.append(W('read_shortcut', '@' + w, ['@' + w, ' c'], (('word',),) + UC, b, f, rv='yes', short=w, init=init))
            out.append(W('read_shortcut', '@%s without space' % w, ['@' + w, '(c'], None, rv='yes', short=w, init=init))
    for w in ('', 'rebo', 'rebootx', 'serial', 'REBOOT', '10', 'dailyx', 'hour', 'resumed'):
        out.append(W('read_shortcut', '@%s (not a shortcut)' % w, ['@' + w, ' c'], 'other', rv=0, short=w))
    return out
def entries(ctx):
    """Rule: for each kind of line (@, &, plain, % and @shortcut), each result its readers can give and each choice of options and fields below: if any reader fails, the command is empty or the line has no meaning, no entry is added and a correction is asked for; otherwise exactly one entry, made from the default options with what was read in the documented order, is added once to the list, and its kind, times, skipped runs and options are those documented."""
    p = ctx.prog('fcrontab'); t = opts.simple(ctx.work)
    for n in ('read_freq', 'read_arys', 'read_period', 'read_shortcut', 'read_env', 'read_file', 'dups_cl', 'read_opt', 'get_command', 'check_username'): ctx.need(n in p.funcs, 'no function %s' % n)
    size = opts.consts(ctx.work, ['OPTION_SIZE'])['OPTION_SIZE']
    ctx.need('init_default_line' in p.funcs, 'no function init_default_line')
    e = run0(p, Line(t, 'init_default_line', [''], size=size, init=255)); ctx.need(len(set(e.rule.out)) == 1, 'init_default_line has %d outcomes: %s' % (len(set(e.rule.out)), e.rule.out[:3])); q = e.rule.out[0][0]
    for m in e.reports.values(): ctx.ob('defaults: %s' % m[1], False, 'init_default_line', m[1])
    d = dict(q[3]); init = (q[2], tuple(x for x in q[3] if x[0] != '*') + tuple((f, 0) for f in ('cl_runfreq', 'cl_remain', 'cl_first', 'cl_timefreq') if f not in d))
    ctx.ob('defaults: file', d.get('cl_file') == CF, 'init_default_line', 'an entry with the default options belongs to no file'); ctx.funcs |= e.visited
    V = worlds(ctx.tier == 'thorough'); jobs = []
    for k, w in enumerate(V):
        def th(w=w):
            k = {x: y for x, y in w.kw.items() if x not in ('blank',)}
            if k.get('reset'): k['reset'] = init
            r = Line(t, w.root, w.segs, size=size, **k)
            return run(p, r, w.root)
        jobs.append((('%s %d' % (w.name, k)), th))
    for w, (lab, (out, reps)) in zip(V, ctx.engines(jobs)):
        n = '%s: %s' % (w.root, w.name)
        for m in reps: ctx.ob('%s: %s' % (n, m), False, w.root, '%s (line %s)' % (m, w.name))
        good = [(q, rv) for q, rv in out if q[5] == 'linked']; lost = [(q, rv) for q, rv in out if q[5] != 'linked']
        want = w.events if isinstance(w.events, tuple) else None
        ctx.ob('%s ends' % n, bool(out), w.root, 'no way through %s' % w.root)
        if want is not None: ctx.ob('%s added' % n, bool(good), w.root, 'line %s is never added' % w.name)
        for q, rv in good:
            if want is None: ctx.ob('%s not added' % n, False, w.root, 'line %s is added though it %s' % (w.name, 'is not a shortcut' if w.events == 'other' else 'is wrong')); continue
            ev = tuple(e for e in q[1] if e != ('skip',))
            ctx.ob('%s reads' % n, ev == want, w.root, 'line %s is added after reading %s, expected %s' % (w.name, ev, want))
            ctx.ob('%s no correction' % n, q[4] == 0, w.root, 'line %s is added but a correction is asked for' % w.name)
            d = dict(q[3]); r = Line(t, w.root, w.segs, size=size)
            ctx.ob('%s command' % n, d.get('cl_shell') == CMD and not q[6], w.root, 'line %s is added with %s command' % (w.name, 'an empty' if q[6] else 'another'))
            ctx.ob('%s list' % n, d.get('cl_next') == OLD, w.root, 'line %s is added and the entries before it are lost' % w.name)
            ctx.ob('%s file' % n, d.get('cl_file') == CF, w.root, 'line %s is added for another file' % w.name)
            for f, v in w.fields.items():
                if f in TABLES:
                    g = sum(d.get((f, b), 0) << 8 * b for b in range((TABLES[f] + 7) // 8)); m = FULL[f] & (~1 if f == 'cl_days' else -1)
                    ctx.ob('%s %s' % (n, f), g & m == v & m and g & ~FULL[f] == 0, w.root, 'line %s: %s is %s, expected %s' % (w.name, f, [b for b in range(64) if g >> b & 1], [b for b in range(64) if v >> b & 1]))
                else:
                    g = d.get(f, w.kw.get('runfreq', 0) if f in ('cl_runfreq', 'cl_remain') else None)
                    ctx.ob('%s %s' % (n, f), g == v, w.root, 'line %s: %s is %s, expected %s' % (w.name, f, g, v))
            ob = init[0] if w.kw.get('reset') else (w.kw.get('init', 0),) * size
            ob = r.setbits(r.setbits(ob, w.kw.get('optset', ())), w.bits)
            bad = [o for o, (b, m, s) in t.items() if (q[2][b] ^ ob[b]) & m]
            ctx.ob('%s options' % n, q[2] == ob, w.root, 'line %s: option%s %s not as documented' % (w.name, 's' if len(bad) > 1 else '', ', '.join(bad) or 'bits'))
            if w.rv == 'yes': ctx.ob('%s value' % n, rv not in (0, '?'), w.root, 'line %s is added and then read as another kind of line' % w.name)
        for q, rv in lost:
            if w.events == 'other':
                ctx.ob('%s left alone' % n, q[4] == 0 and rv == 0, w.root, 'line %s %s' % (w.name, 'is not left to be read as another kind of line' if rv else 'asks for a correction')); continue
            ctx.ob('%s corrected' % n, q[4] == 1, w.root, 'line %s is skipped without asking for a correction (after reading %s)' % (w.name, q[1]))
            if w.rv == 'yes': ctx.ob('%s value' % n, rv not in (0, '?'), w.root, 'line %s is refused and then read as another kind of line' % w.name)
            if want is not None: ctx.ob('%s kept' % n, not (q[1] == want and not q[6]), w.root, 'line %s is refused though nothing in it is wrong' % w.name)
    variables(ctx, p, t, size)
    lines(ctx, p)
def variables(ctx, p, t, size):
    names = ['FOO', 'A', 'F_1', 'USER', 'LOGNAME', 'MAILTO', 'MAILFROM', 'MAILT', 'MAILTOX', 'MAILFROMX', 'USERX', 'LOGNAM', 'SHELL', 'HOME', 'user', 'mailto', 'PATH']
    V = [(n, sep, init) for n in names for sep in ('=', ' = ', '\t=\t') for init in (0, 255)] + [(n, None, 0) for n in ('', '=', '=x', 'FOO', 'FOO ', 'FOO bar', 'F-O=x', ' FOO', ';', '?=1', 'FOO b=c')]
    def job(n, sep, init): return lambda: run(p, Line(t, 'read_env', [n + (sep or ''), 'v'] if sep else [n], size=size, init=init), 'read_env')
    for (n, sep, init), (lab, (out, reps)) in zip(V, ctx.engines([('variable "%s" %d' % (n + (sep or ''), init), job(n, sep, init)) for n, sep, init in V])):
        k = 'variable "%s%s"' % (n, (sep or '').replace('\t', ' '))
        for m in reps: ctx.ob('%s: %s' % (k, m), False, 'read_env', m)
        got = set()
        for q, rv in out:
            d = dict(q[3]); new = [e for e in q[1] if e[0] == 'setenv']; ctx.ob(k + ' entries', not q[5], 'read_env', '%s adds an entry' % k)
            ch = tuple(sorted((f, v) for f, v in d.items() if isinstance(f, str))); read = ('val',) in q[1]; res = (tuple(new), ch, tuple(o for o, (b, m, s) in sorted(t.items()) if (q[2][b] ^ init) & m), q[4]); got.add((read, q[6]))
            mail = t['mail']; flip = lambda o, on: bool(init & t[o][1]) != (bool(on) == bool(t[o][2]))
            if sep is None or not read: w = ((), (), (), 1)
            elif n in ('USER', 'LOGNAME'): w = ((), (), (), 0)
            elif n == 'MAILFROM': w = ((), (('cl_mailfrom', DUP),), (), 0)
            elif n == 'MAILTO' and q[6]: w = ((), (), tuple(o for o in ('mail', 'mailzerolength') if flip(o, 0)), 0)
            elif n == 'MAILTO': w = ((), (('cl_mailto', DUP),), tuple(o for o in ('mail',) if flip(o, 1)), 0)
            else: w = ((('setenv', n, True, 1),), (), (), 0)
            ctx.ob('%s value %s' % (k, 'wrong' if not read else 'empty' if q[6] else 'given'), res == w, 'read_env', '%s with %s: (variables set, default values set, default options changed, correction) are %s, expected %s' % (k, 'a wrong value' if not read else 'an empty value' if q[6] else 'a value', res, w))
        ctx.ob(k + ' outcomes', got == ({(True, 0), (True, 1), (False, None)} if sep else {(False, None)}), 'read_env', '%s: %s' % (k, got))
class File(Rule):
    """q = (lines read, what was done with them, need_correction, number of the line, list of files, entries' file made?)"""
    name = 'file'
    max_states = 600
    KIND = {'read_shortcut', 'read_freq', 'read_arys', 'read_period', 'read_env'}
    def __init__(self, text, okv, errv, eofv): self.text = text; self.v = {'ok': okv, 'long': errv, 'eof': eofv}; self.out = []
    def is_event(self, prog, i):
        if i.op == 'call': return i.cname in self.KIND or i.cname in ('get_line', 'read_opt', 'init_default_line', 'env_list_init', 'strdup2', 'alloc_safe') or ext(prog, i, {'fdopen', 'rewind', 'calloc', 'malloc', 'fflush', 'strcmp', '__ctype_b_loc', 'isdigit', 'bzero', 'memset', 'free'})
        return i.op in ('load', 'store')
    def enter(self, prog, f): return not f.noreturn and f.name not in QUIET and f.name not in self.KIND and f.name not in ('get_line', 'read_opt', 'init_default_line', 'env_list_init', 'strdup2')
    def bad(self, eng, i, msg): eng.report(i, 'read_file: ' + msg, eng.trace, key='read_file: ' + msg)
    def local(self, eng, t):
        p = eng.ptr(t)
        if p[1][0] != 'a': return None
        k = 0
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return None
            k += s[1]
        return k
    def on_inst(self, eng, q, env, i, fr):
        n, ev, need, line, fb, cur = q
        if i.op in ('load', 'store'):
            o = i.ops[0 if i.op == 'load' else 1]; a = eng.ev(o, env, fr); g = gvar(o); p = eng.ptr(a)
            if i.op == 'load':
                if g == 'need_correction': return [Outcome(q, term=('c', need))]
                if g == 'line': return [Outcome(q, term=('c', line))]
                if g == 'file_base': return [Outcome(q, term=('c', fb))]
                if g == 'debug_opt': return [Outcome(q, term=('c', 0))]
                if p[1] == ('c', CTY) and not p[2]: return [Outcome(q, term=('c', CTY + 0x10000))]
                if p[1][0] == 'c' and p[1][1] == CTY + 0x10000 and p[2] and p[2][-1][0] == 'i' and p[2][-1][1] is not None: return [Outcome(q, term=('c', bits(p[2][-1][1])))]
                if p[1] == ('c', RST): return [Outcome(q, term=('c', cur[1]))] if cur and cur[0] == 'rest' else None
                k = self.local(eng, a)
                if k is not None and i.type.kind == 8 and i.type.width == 8 and n:
                    t = self.text[n - 1][0]
                    if cur and cur[0] == 'w' and k in dict(cur[1]): return [Outcome(q, term=('c', dict(cur[1])[k]))]
                    if k > len(t): self.bad(eng, i, 'text behind the line is read'); return [Outcome(q, dead=True)]
                    return [Outcome(q, term=('c', ord(t[k]) if k < len(t) else 0))]
                return None
            v = eng.av(eng.ev(i.ops[0], env, fr), env); x = int(v[0]) if v[0] == v[1] else '?'
            if g == 'need_correction': return [Outcome((n, ev, x, line, fb, cur))]
            if g == 'line': return [Outcome((n, ev, need, x if x != '?' else line, fb, cur))]
            if g == 'file_base': return [Outcome((n, ev + (('linked', x == CF),), need, line, x, cur))]
            k = self.local(eng, a)
            if k is not None and i.ops[0].type.kind == 8 and i.ops[0].type.width == 8 and n: return [Outcome((n, ev, need, line, fb, ('w', tuple(sorted({**dict(cur[1] if cur and cur[0] == 'w' else ()), k: x}.items())))))] if x != '?' else None
            if p[1] == ('c', CF):
                f = [s for s in p[2] if s[0] == 'f']
                if f and f[-1][2] == 'cf_next': return [Outcome((n, ev + (('next', x == OLD),), need, line, fb, cur))]
                if f and f[-1][2] == 'cf_user': return [Outcome((n, ev + (('user', x == DUP),), need, line, fb, cur))] if x == DUP else None
            return None
        if i.op != 'call': return None
        c = i.cname; A = lambda k: eng.ev(i.args[k], env, fr)
        if c == 'get_line':
            if self.local(eng, A(0)) != 0: self.bad(eng, i, 'a line is not read into the start of the buffer')
            if n >= len(self.text): self.bad(eng, i, 'the file is read after its end'); return [Outcome(q, dead=True)]
            r = self.text[n][1]
            return [Outcome((n + 1, ev, 1 if r == 'long' else need, line, fb, None), term=('c', self.v[r]))]
        if c == 'init_default_line':
            if core.strip(i.args[0]).name != 'default_line' if hasattr(core.strip(i.args[0]), 'name') else True: self.bad(eng, i, 'the default options are not reset')
            return [Outcome((n, ev + (('defaults',),), need, line, fb, cur))]
        if c == 'strdup2': return [Outcome(q, term=('c', DUP))] if gvar(core.strip(i.args[0]).ops[0] if getattr(core.strip(i.args[0]), 'op', '') == 'load' else i.args[0]) == 'user' else None
        if c in ('calloc', 'malloc', 'alloc_safe'): return [Outcome(q, term=('c', CF))]
        if c == 'env_list_init': return [Outcome(q, ret=(1, 1 << 40, frozenset()))]
        if c == 'fdopen': return [Outcome(q, term=('c', 0)), Outcome((n, ev + (('open',),), need, line, fb, cur), term=('c', 0xF11E))]
        if c == 'rewind': return [Outcome((n, ev + (('rewind',),), need, line, fb, cur))]
        if c == '__ctype_b_loc': return [Outcome(q, term=('c', CTY))]
        if c in ISF:
            v = eng.av(A(0), env); return [Outcome(q, term=('c', 1 if bits(int(v[0])) & ISF[c] else 0))] if v[0] == v[1] else None
        if c in self.KIND or c == 'read_opt':
            k = self.local(eng, A(0)); t = self.text[n - 1][0] if n else ''
            if not n or k != len(t) - len(t.lstrip(' \t')): self.bad(eng, i, '%s is not given the start of the line' % c)
            if n and self.text[n - 1][1] == 'long': self.bad(eng, i, 'what was read of a line which is too long is used')
            d = (n, ev + ((c, n - 1),), need, line, fb, cur); e = d[:2] + (1,) + d[3:]
            if c == 'read_opt':
                if gvar(i.args[1]) != 'default_line' and getattr(core.strip(i.args[1]), 'name', '') != 'default_line': self.bad(eng, i, 'the options of a !-line are not used for the lines behind it')
                return [Outcome(e, term=('c', 0))] + [Outcome(d[:1] + (d[1] + (('trailing',),) * bool(x),) + d[2:5] + (('rest', x),), term=('c', RST)) for x in (0, 120)]
            if A(1) != ('c', CF): self.bad(eng, i, '%s is not given the file' % c)
            if c == 'read_shortcut':
                yes = t.lstrip().startswith('@re')
                return [Outcome(x, term=('c', 1)) for x in (d, e)] if yes else [Outcome(d, term=('c', 0))]
            return [Outcome(x, ret=None) for x in (d, e)]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env) if eng.rv is not None else (0, 0)
        self.out.append((q, int(a[0]) if a[0] == a[1] else '?'))
KINDS = [('', ()), ('#x', ()), (' \t# 1', ()), ('@10 x', ('read_shortcut', 'read_freq')), (' @ser 1 x', ('read_shortcut', 'read_freq')), ('@reboot x', ('read_shortcut',)), ('&1 * * * * x', ('read_arys',)), ('  &x', ('read_arys',)), ('%h 1', ('read_period',)), ('\t%', ('read_period',)), ('!a', ('read_opt',)), (' !', ('read_opt',)),
         ('0 * * * * x', ('read_arys',)), ('5', ('read_arys',)), ('9 x', ('read_arys',)), ('* x', ('read_arys',)), (' * x', ('read_arys',)), ('A=b', ('read_env',)), (' a', ('read_env',)), ('_A=1', ('read_env',)), (';', ('read_env',)), ('/x', ('read_env',)), (':', ('read_env',)), ('"', ('read_env',)), ('-1', ('read_env',)), ('+', ('read_env',))]
RST = 0xAB000000
def lines(ctx, p):
    okv, errv, eofv = ret_values(ctx, p)
    V = []
    for t, k in KINDS:
        V.append([(t, 'eof')]); V.append([(t, 'ok'), ('', 'eof')])
        for t2, k2 in KINDS if ctx.tier == 'thorough' else [KINDS[n] for n in (0, 3, 5, 6, 8, 10, 17)]: V.append([(t, 'ok'), (t2, 'ok'), ('#', 'eof')])
        V.append([('1 x', 'long'), (t, 'ok'), ('', 'eof')])
    K = dict(KINDS)
    def job(v):
        def th():
            r = File(v, okv, errv, eofv); e = Engine(p, r); env = Env(); e.run('read_file', (0, (), 1, 7, OLD, None), env); r.extra = (r.out, [x[1] for x in e.reports.values()]); return e
        return th
    for v, (lab, (out, reps)) in zip(V, ctx.engines([('file %s' % v, job(v)) for v in V])):
        n = 'file of %s' % ', '.join('"%s"%s' % (t.replace('\t', ' '), '' if r == 'ok' else ' (too long)' if r == 'long' else ' (end)') for t, r in v)
        for m in reps: ctx.ob('%s: %s' % (n, m), False, 'read_file', m)
        opened = 0
        for q, rv in out:
            if ('open',) not in q[1]: ctx.ob(n + ' not opened', rv == errv and ('linked', True) not in q[1], 'read_file', '%s: a file which cannot be opened is used' % n); continue
            opened += 1
            want = tuple((r, j) for j, (t, s) in enumerate(v) if s != 'long' for r in K.get(t, ()))
            got = tuple(e for e in q[1] if e[0].startswith('read_')); rest = [e for e in q[1] if not e[0].startswith('read_')]
            ctx.ob(n + ' lines', got == want and q[0] == len(v), 'read_file', '%s: the lines are given to %s, expected %s' % (n, got, want))
            ctx.ob(n + ' answer', (rv == okv) == (q[2] == 0) and rv not in (errv, '?'), 'read_file', '%s: the answer is %s %s' % (n, rv, 'though a correction is needed' if q[2] else 'though everything was right'))
            ctx.ob(n + ' listed', rest.count(('linked', True)) == 1 and ('linked', False) not in rest and ('next', True) in rest and rest.index(('next', True)) < rest.index(('linked', True)), 'read_file', '%s: the file is not added to the list of files' % n)
            ctx.ob(n + ' user', rest.count(('user', True)) == 1 and ('user', False) not in rest, 'read_file', '%s: the file does not get its user' % n)
            ctx.ob(n + ' defaults', ('defaults',) in rest and q[1].index(('defaults',)) < min([q[1].index(e) for e in got] or [99]) and rest.count(('defaults',)) == 1, 'read_file', '%s: lines are read before the default options are set' % n)
            ctx.ob(n + ' trailing', ('trailing',) not in rest or q[2] == 1, 'read_file', '%s: text behind the options of a !-line is ignored without asking for a correction' % n)
            if not any(r for t, r in v if r == 'long') and not want: ctx.ob(n + ' right', rv == okv, 'read_file', '%s: the answer is %s for a file without entries' % (n, rv))
        ctx.ob(n + ' read', opened > 0, 'read_file', '%s: is never read' % n)
class Get(Rule):
    """q = (characters read, buffer, line number, need_correction)"""
    name = 'get_line'
    max_states = 4000
    def __init__(self, text, size): self.text = text; self.size = size; self.out = []
    def is_event(self, prog, i): return i.op == 'call' and ext(prog, i, {'getc', 'fgetc', '_IO_getc', 'getc_unlocked'}) or i.op in ('load', 'store')
    def enter(self, prog, f): return not f.noreturn and f.name not in QUIET
    def on_inst(self, eng, q, env, i, fr):
        n, buf, line, need = q
        if i.op not in ('load', 'store', 'call') or i.op == 'call' and not self.is_event(eng.prog, i): return None
        if i.op == 'call':
            if n > len(self.text): eng.report(i, 'the file is read after its end', eng.trace, key='get_line: after the end'); return [Outcome(q, dead=True)]
            return [Outcome((n + 1, buf, line, need), term=('c', ord(self.text[n]) if n < len(self.text) else -1))]
        o = i.ops[0 if i.op == 'load' else 1]; a = eng.ev(o, env, fr); g = gvar(o); p = eng.ptr(a)
        v = eng.av(eng.ev(i.ops[0], env, fr), env) if i.op == 'store' else None
        if g == 'line': return [Outcome(q, term=('c', line))] if v is None else [Outcome((n, buf, int(v[0]), need))]
        if g == 'need_correction': return [Outcome(q, term=('c', need))] if v is None else [Outcome((n, buf, line, int(v[0])))]
        if p[1][0] == 'c' and TXT - 4096 <= p[1][1] < TXT + 4096:
            k = p[1][1] - TXT
            for s in p[2]: k = k + s[1] if s[0] == 'i' and s[1] is not None and k is not None else None
            if k is None or not 0 <= k < self.size: eng.report(i, 'character %s of a buffer of %d is %s' % (k, self.size, 'read' if v is None else 'written'), eng.trace, key='get_line: outside the buffer'); return [Outcome(q, dead=True)]
            if v is None: return [Outcome(q, term=('c', buf[k]))]
            return [Outcome((n, buf[:k] + (int(v[0]) & 255 if v[0] == v[1] else 63,) + buf[k + 1:], line, need))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env); self.out.append((q, int(a[0]) if a[0] == a[1] else '?'))
def ret_values(ctx, p):
    """Rule: get_line puts the characters up to the end of the line, with continued lines joined, into its buffer, and tells apart a line, the end of the file and a line which is too long (which is skipped to its end and asks for a correction)"""
    ctx.need('get_line' in p.funcs, 'no function get_line')
    V = []; S = 6
    for body in ('', 'a', 'ab', 'abcd', '\\', 'a\\b', '\\\\', ' '):
        for end in ('\n', '') if body[-1:] != '\\' else ('',): V.append((body + end + 'zz' * bool(end), body, len(body) + 1, 0, 'eof' if not end else 'ok'))
    for parts in (('a', 'b'), ('', 'b'), ('ab', 'cd'), ('a', ''), ('a', 'b', 'c')):
        for end in ('\n', ''):
            t = '\\\n'.join(parts) + end; V.append((t + 'zz' * bool(end), ''.join(parts), len(t) + (not end), len(parts) - 1, 'eof' if not end else 'ok'))
    for body in ('abcde', 'abcdef', 'abcdefghi', 'abcde\\', 'abc\\\ndefgh'):
        for end in ('\n', ''): V.append((body + end + 'zz' * bool(end), None, None, None, 'long'))
    def job(t):
        def th():
            r = Get(t, S); e = Engine(p, r); env = Env(); env.bind[(('get_line',), 'A0')] = ('c', TXT); env.bind[(('get_line',), 'A1')] = ('c', S)
            e.run('get_line', (0, (99,) * S, 7, 0), env); r.extra = (r.out, [x[1] for x in e.reports.values()]); return e
        return th
    vals = {'ok': set(), 'eof': set(), 'long': set()}
    for (t, body, used, lines_, kind), (lab, (out, reps)) in zip(V, ctx.engines([('get_line %r' % v[0], job(v[0])) for v in V])):
        n = 'line %r' % t
        for m in reps: ctx.ob('%s: %s' % (n, m), False, 'get_line', '%s: %s' % (n, m))
        ctx.ob(n + ' one outcome', len(out) == 1, 'get_line', '%s: %d outcomes' % (n, len(out)))
        for (k, buf, line, need), rv in out:
            vals[kind].add(rv); got = bytes(buf).split(b'\0')[0].decode('latin1')
            if kind == 'long':
                e = t.index('z') if 'z' in t else len(t) + 1
                ctx.ob(n + ' too long', need == 1, 'get_line', '%s: a line which is too long asks for no correction' % n)
                ctx.ob(n + ' skipped', k == e, 'get_line', '%s: %d characters are read instead of %d' % (n, k, e)); continue
            ctx.ob(n + ' text', got == body, 'get_line', '%s: the line read is %r, expected %r' % (n, got, body))
            ctx.ob(n + ' position', k == used, 'get_line', '%s: %d characters are read instead of %d' % (n, k, used))
            ctx.ob(n + ' number', line == 7 + lines_ and need == 0, 'get_line', '%s: the number of the line grows by %d, correction %d' % (n, line - 7, need))
    ctx.ob('outcomes of get_line are told apart', all(len(x) == 1 for x in vals.values()) and len({y for x in vals.values() for y in x}) == 3, 'get_line', 'return values are %s' % vals)
    return tuple(sorted(vals[k], key=str)[0] for k in ('ok', 'long', 'eof'))
