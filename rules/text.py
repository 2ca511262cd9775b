"""Readers of the words, numbers and fields of a crontab."""
import ctypes
from sa import core
from sa.engine import Rule, Outcome, av_const, Env, Engine, INF
from sa.build import AnalysisBroken
from .common import ext, gvar
TXT, OUT, NAM, STRS, TAB, CTY = 0xA0000000, 0xB0000000, 0xBA000000, 0xBB000000, 0xC2000000, 0xCB000000
def bits(c):
    ch = chr(c) if 0 <= c < 128 else ''; r = 0
    if not ch: return 0
    if 'A' <= ch <= 'Z': r |= 256 | 1024
    if 'a' <= ch <= 'z': r |= 512 | 1024
    if ch in '0123456789': r |= 2048
    if ch in '0123456789abcdefABCDEF': r |= 4096
    if ch in ' \t\n\v\f\r': r |= 8192
    if 32 <= c < 127: r |= 16384
    if 32 < c < 127: r |= 32768
    if ch in ' \t': r |= 1
    if c < 32 or c == 127: r |= 2
    if r & (1024 | 2048): r |= 8
    elif 32 < c < 127: r |= 4
    return r
ISF = {'isalpha': 1024, 'isdigit': 2048, 'isalnum': 8, 'isspace': 8192, 'isupper': 256, 'islower': 512}
class Text(Rule):
    """a reader on a text whose cells are characters or numbers (int: the character; ('n', v): a number of value v, read by get_num).  q = (value read, table of bits, need_correction)"""
    name = 'text'
    max_states = 400
    def __init__(self, cells, names=(), nbits=None, root='', numfn=None):
        self.cells = cells; self.names = names; self.nbits = nbits; self.out = []; self.numfn = numfn
    def is_event(self, prog, i):
        if i.op == 'call': return self.numfn is not None and i.cname == self.numfn or prog.target(i) is None and i.cname in ('strncmp', 'strcmp', 'strncasecmp', 'strcasecmp', 'strlen', '__ctype_b_loc', 'tolower', 'toupper', '__ctype_tolower_loc', '__ctype_toupper_loc') + tuple(ISF)
        return i.op in ('load', 'store')
    def enter(self, prog, f): return not f.noreturn
    def off(self, eng, t, base):
        """offset into one of the objects, None if elsewhere, '?' if unknown"""
        p = eng.ptr(t)
        if p[1][0] != 'c' or not isinstance(p[1][1], int) or not base <= p[1][1] < base + 0x1000000: return None
        k = p[1][1] - base
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return '?'
            k += s[1]
        return k
    def cell(self, k, q=()): return dict(q[3:]).get(k, self.cells[k]) if 0 <= k < len(self.cells) else None
    def string(self, eng, v, env, fr, q=()):
        """the constant characters a pointer points to"""
        s = core.const_str(v)
        if s is not None: return s + '\0'
        t = eng.ev(v, env, fr)
        k = self.off(eng, t, STRS)
        if k is not None and k != '?': return self.names[k // 256][k % 256:] + '\0'
        k = self.off(eng, t, TXT)
        if k is not None and k != '?': return ''.join(chr(c) if isinstance(c, int) else '0' for c in [self.cell(j, q) for j in range(k, len(self.cells))])
        return None
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            a = eng.ev(i.ops[0], env, fr)
            k = self.off(eng, a, TXT)
            if k is not None:
                c = self.cell(k, q) if k != '?' else None
                if c is None: eng.report(i, 'the text is read past its end', eng.trace, key='text: read past its end'); return [Outcome(q, dead=True)]
                return [Outcome(q, term=('c', c if isinstance(c, int) else 48 + c[1] % 10))]
            if self.off(eng, a, OUT) == 0: return [Outcome(q, term=('c', q[0]))] if q[0] is not None else None
            k = self.off(eng, a, NAM)
            if k is not None and k != '?': return [Outcome(q, term=('c', STRS + 256 * k if k < len(self.names) else 0))]
            k = self.off(eng, a, STRS)
            if k is not None and k != '?':
                s = self.names[k // 256] + '\0'; return [Outcome(q, term=('c', ord(s[k % 256])))]
            k = self.off(eng, a, TAB)
            if k is not None:
                if k == '?' or not 0 <= 8 * k < self.nbits: eng.report(i, 'a bit out of the table is used', eng.trace, key='field: out of the table'); return [Outcome(q, dead=True)]
                return [Outcome(q, term=('c', q[1] >> (8 * k) & 255))]
            p = eng.ptr(a)
            if p[1] == ('c', CTY) and not p[2]: return [Outcome(q, term=('c', CTY + 0x10000))]
            if p[1] == ('c', CTY + 0x10000):
                k = self.off(eng, a, CTY + 0x10000); return [Outcome(q, term=('c', bits(k)))] if k != '?' else None
            if p[1] == ('c', CTY + 0x20000) and not p[2]: return [Outcome(q, term=('c', CTY + 0x30000))]
            if p[1] == ('c', CTY + 0x30000):
                k = self.off(eng, a, CTY + 0x30000); return [Outcome(q, term=('c', ord(chr(k).lower())))] if k != '?' else None
            g = gvar(i.ops[0])
            if g == 'debug_opt': return [Outcome(q, term=('c', 0))]
            return None
        if i.op == 'store':
            a = eng.ev(i.ops[1], env, fr); v = eng.ev(i.ops[0], env, fr); r = eng.av(v, env); n = int(r[0]) if r[0] == r[1] else None
            if self.off(eng, a, OUT) == 0: return [Outcome((n,) + q[1:])]
            k = self.off(eng, a, TAB)
            if k is not None:
                if k == '?' or not 0 <= 8 * k < self.nbits or n is None: eng.report(i, 'a bit out of the table is set', eng.trace, key='field: out of the table'); return [Outcome(q, dead=True)]
                t = q[1] & ~(255 << (8 * k)) | (n & 255) << (8 * k)
                if t >> self.nbits: eng.report(i, 'a bit out of the table is set', eng.trace, key='field: out of the table')
                return [Outcome((q[0], t) + q[2:])]
            k = self.off(eng, a, TXT)
            if k is not None:
                if k == '?' or self.cell(k) is None: eng.report(i, 'the text is written past its end', eng.trace, key='text: written past its end'); return [Outcome(q, dead=True)]
                return [Outcome(q[:3] + tuple(sorted({**dict(q[3:]), k: n}.items())))] if n is not None else [Outcome(q, dead=True)]
            if gvar(i.ops[1]) == 'need_correction': return [Outcome(q[:2] + (n,) + q[3:])]
            return None
        if i.op != 'call': return None
        n = i.cname
        if self.numfn and n == self.numfn:
            k = self.off(eng, eng.ev(i.args[0], env, fr), TXT); c = self.cell(k) if k not in (None, '?') else None
            mx = eng.av(eng.ev(i.args[2], env, fr), env)[1]
            w = eng.ev(i.args[1], env, fr)
            if isinstance(c, tuple):
                return [Outcome(q, term=('c', TXT + k + 1), setmem=[(eng.ptr(w), ('c', c[1]))])] if c[1] <= mx else [Outcome(q, term=('c', 0))]
            if k in (None, '?') or c is None: return [Outcome(q, term=('c', 0))]
            return [Outcome(q, term=('c', TXT + k), setmem=[(eng.ptr(w), ('c', 0))])] if not bits(c) & 1024 else [Outcome(q, term=('c', 0))]
        if eng.prog.target(i) is not None: return None
        if n in ('strncmp', 'strcmp', 'strncasecmp', 'strcasecmp'):
            s = [self.string(eng, a, env, fr, q) for a in i.args[:2]]
            if None in s: return None
            if 'case' in n: s = [x.lower() for x in s]
            lim = eng.av(eng.ev(i.args[2], env, fr), env)[0] if n.startswith('strn') else 10**6
            x, y = [a.split('\0')[0][:int(lim)] if '\0' in a or len(a) >= lim else None for a in s]
            if x is None or y is None: return None
            return [Outcome(q, ret=av_const((x > y) - (x < y)))]
        if n == 'strlen':
            s = self.string(eng, i.args[0], env, fr, q)
            return [Outcome(q, term=('c', len(s.split('\0')[0])))] if s is not None and '\0' in s else None
        if n == '__ctype_b_loc': return [Outcome(q, term=('c', CTY))]
        if n == '__ctype_tolower_loc': return [Outcome(q, term=('c', CTY + 0x20000))]
        if n in ISF or n in ('tolower', 'toupper'):
            a = eng.av(eng.ev(i.args[0], env, fr), env)
            if a[0] != a[1]: return None
            c = int(a[0])
            return [Outcome(q, term=('c', (1 if bits(c) & ISF[n] else 0) if n in ISF else ord(chr(c).lower() if n == 'tolower' else chr(c).upper())))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        k = self.off(eng, eng.rv, TXT) if eng.rv is not None else None
        a = eng.av(eng.rv, env) if eng.rv is not None else None
        self.out.append((None if a is not None and a[0] == a[1] == 0 else k if k is not None else '?',) + q[:3])
def cells(s): return [ord(c) for c in s] + [0]
def run(p, root, r, args, q0=(None, 0, 0)):
    e = Engine(p, r); env = Env()
    for k, v in args.items(): env.bind[((root,), 'A%d' % k)] = ('c', v)
    e.run(root, q0, env); r.extra = sorted(set(r.out), key=str); return e
def words(ctx, p):
    """booleans, times and numbers as documented"""
    jobs = []
    for w, b in (('true', 1), ('yes', 1), ('1', 1), ('false', 0), ('no', 0), ('0', 0), ('on', None), ('off', None), ('True', None), ('tru', None), ('2', None), ('', None), ('-1', None), ('y', None), ('n', None), ('f', None)):
        for after in ')', '', ' x': jobs.append((('get_bool', w + after, len(w), b, b is not None), lambda w=w + after: run(p, 'get_bool', Text(cells(w)), {0: TXT, 1: OUT})))
    M = 60
    for w, v in (('5)', 300), ('5s)', 5), ('3m)', 3 * 4 * 7 * 24 * 3600), ('2w)', 2 * 7 * 86400), ('7d)', 7 * 86400), ('4h)', 4 * 3600), ('1h10)', 3600 + 10 * M), ('12h02)', 12 * 3600 + 2 * M), ('1m2w3d4h5s)', ((4 + 2) * 7 + 3) * 86400 + 4 * 3600 + 5), ('10 x', 600), ('3x)', None), ('x)', None), ('3.5h)', None), ('-3)', None), ('5', None)):
        jobs.append((('get_time', w, None, v, v is not None), lambda w=w: run(p, 'get_time', Text(cells(w)), {0: TXT, 1: OUT, 2: 0})))
    for w, z in (('0)', 0), ('0)', 1), ('0s)', 0), ('0s)', 1)): jobs.append((('get_time', w, None, 0, bool(z)), lambda w=w, z=z: run(p, 'get_time', Text(cells(w)), {0: TXT, 1: OUT, 2: z})))
    for w, mx, dec, v in (('0)', 59, 0, 0), ('7)', 59, 0, 7), ('59 ', 59, 0, 59), ('60 ', 59, 0, None), ('100 ', 59, 0, None), ('007)', 59, 0, 7), ('255)', 255, 0, 255), ('256)', 255, 0, None), ('65535)', 65535, 0, 65535), ('65536)', 65535, 0, None), ('99999999999)', 65535, 0, None),
                          ('2)', 255, 1, 20), ('2.3)', 255, 1, 23), ('2.34)', 255, 1, 23), ('2.35)', 255, 1, 24), ('2.399,', 255, 1, 24), ('0.5,', 255, 1, 5), ('25.5)', 255, 1, 255), ('25.6)', 255, 1, None), ('26)', 255, 1, None), ('255)', 255, 1, None), ('0)', 255, 1, 0), ('1.2.3)', 255, 1, None), ('2.)', 255, 1, None), ('.', 255, 1, None), ('1.', 59, 0, None), ('abc', 59, 0, None)):
        jobs.append((('get_num', w, None, v, v is not None), lambda w=w, mx=mx, dec=dec: run(p, 'get_num', Text(cells(w)), {0: TXT, 1: OUT, 2: mx, 3: dec, 4: 0})))
    for (fn, w, n, v, ok), res in ctx.engines(jobs):
        lab = '%s("%s")' % (fn, w)
        ctx.ob('%s: one result' % lab, len({(x[0], x[1]) for x in res}) == 1, fn, '%s: %d results' % (lab, len(res)))
        for at, val, tab, need in res:
            if n is None: n = len(w) - 1
            if ok: ctx.ob('%s is read' % lab, at == n and val == v, fn, '%s %s, expected %s' % (lab, 'is refused' if at is None else 'gives %s and stops after %s characters' % (val, at), v))
            else: ctx.ob('%s is refused' % lab, at is None, fn, '%s is accepted as %s' % (lab, val))
            if fn != 'get_bool' and at is None: ctx.ob('%s is reported' % lab, need == 1, fn, '%s is refused without being reported' % lab)
# ---------------------------------------------------------------- time fields
FIELDS = {'cl_mins': (59, 60, 0, None), 'cl_hrs': (23, 24, 0, None), 'cl_days': (31, 32, 1, None), 'cl_mons': (12, 12, 1, 'mons_ary'), 'cl_dow': (7, 8, 0, 'dows_ary')}
NAMES = {'mons_ary': 'jan feb mar apr may jun jul aug sep oct nov dec'.split(), 'dows_ary': 'sun mon tue wed thu fri sat'.split()}
def select(f, items):
    """bits selected by [(a, b or None, step or None, [removed...])], a None for '*'; None: must be refused; '?': not specified"""
    mx, nb, lo, nm = FIELDS[f]; sh = 1 if f == 'cl_mons' else 0; got = set()
    for a, b, c, rm in items:
        vals = [x for x in (a, b, *rm) if x is not None]
        if any(x > mx or x < (1 if sh else 0) for x in vals) or c is not None and (c == 0 or c > mx): return None
        if a is None: l = list(range(lo, mx + 1, c or 1))
        elif b is None: l = [a]
        elif a <= b: l = list(range(a, b + 1, c or 1))
        else:
            if c not in (None, 1) and f in ('cl_days', 'cl_dow'): return '?'
            n = mx - lo + 1; l = []; x = a
            while x <= (b if x < a else b + n): 
                l.append((x - lo) % n + lo if f != 'cl_dow' else x % 8); x += c or 1
            if f == 'cl_dow': l = [x for x in range(0, 8) if x >= a or x <= b]
        got |= {x - sh for x in l}
        for d in rm:
            got.discard(d - sh)
            if f == 'cl_dow' and d in (0, 7): got -= {0, 7}
    if f == 'cl_dow' and got & {0, 7}: got |= {0, 7}
    return got
def texts(f, thorough):
    """(cells, items): the forms of a field with numbers of representative values"""
    mx, nb, lo, nm = FIELDS[f]; N = lambda v: ('n', v); mid = mx // 2
    B = sorted({0, lo, lo + 1, mid, mx - 1, mx}); S = [None, 1, 2, 3, mx] if thorough else [None, 2, mx]
    out = []
    def add(items, end=' '):
        t = []
        for k, (a, b, c, rm) in enumerate(items):
            if k: t.append(44)
            t.append(42 if a is None else N(a))
            if b is not None: t += [45, N(b)]
            if c is not None: t += [47, N(c)]
            for d in rm: t += [126, N(d)]
        out.append((t + [ord(end), 120, 0], list(items)))
    for v in range(mx + 2): add([(v, None, None, ())])
    for c in [None, 0, 1, 2, 5, mx, mx + 1]: add([(None, None, c, ())]); 
    for d in B: add([(None, None, None, (d,))])
    for a in B:
        for b in B:
            for c in S + ([0, mx + 1] if a == lo else []): add([(a, b, c, ())], '\t' if a == b else ' ')
            for d in (a, b, mid, 0, mx): add([(a, b, None, (d,))])
            if a < b: add([(a, b, None, (a, b))]); add([(a, b, 2, (mid, mx))])
    for a, b in ((lo, mx), (mx, lo), (mid, mid)): add([(a, None, None, ()), (b, None, None, ())]); add([(a, None, None, ()), (lo, mid, None, (mid,)), (mx, None, None, ())]); add([(lo, mid, 2, ()), (mid, mx, None, (mx,)), (b, None, None, ())])
    return out
def printed(t): return ''.join(chr(c) if isinstance(c, int) else str(c[1]) for c in t).split(' ')[0].split('\t')[0]
class Many(Rule): pass
def fields(ctx):
    """Rule: for each time field and every form of its text (single numbers, ranges either way, steps, removed values, lists, '*') with numbers of representative values, the reader sets exactly the bits documented, or refuses; it stops behind the field. For every text whatever, only bits of the table of the field are used, and numbers are within 0 and the limit given. Each field of an entry is read into its own table with its own limit and names, in the documented order; names stand for the documented numbers."""
    p = ctx.prog('fcrontab')
    for n in ('read_field', 'get_num'): ctx.need(n in p.funcs, 'no function %s' % n)
    # names of months and days
    G = p.globals
    for g, want in NAMES.items():
        v = G.get(g); ctx.need(v is not None and v.init is not None, 'no table of names %s' % g)
        got = [core.const_str(x) for x in v.init.ops]
        ctx.ob('names of %s' % g, [x for x in got if x] == want and got[-1:] == [None] and len(got) == len(want) + 1, g, 'names are %s' % got)
    jobs = []
    for f, (mx, nb, lo, nm) in FIELDS.items():
        T = texts(f, ctx.tier == 'thorough')
        for k in range(0, len(T), 40):
            def th(part=T[k:k + 40], mx=mx, nb=nb, nm=nm):
                res = []; e0 = None
                for t, items in part:
                    r = Text(t, nbits=nb, numfn='get_num'); e = run(p, 'read_field', r, {0: TXT, 1: TAB, 2: mx, 3: NAM if nm else 0})
                    res.append((r.extra, [x[1] for x in e.reports.values()])); 
                    if e0 is not None: e.visited |= e0.visited; e.event_sites |= e0.event_sites; e.states += e0.states
                    e.reports = {}; e0 = e
                e0.rule = Many(); e0.rule.extra = res; return e0
            jobs.append(((f, k), th, T[k:k + 40]))
        if nm:
            for num, w in enumerate(NAMES[nm]):
                for t in (w, w.upper(), w.capitalize()):
                    def th(t=t, mx=mx, nb=nb, nm=nm): return run(p, 'read_field', Text(cells(t + ' x'), NAMES[nm], nbits=nb), {0: TXT, 1: TAB, 2: mx, 3: NAM})
                    jobs.append(((f, t), th, num))
            for t in ('xyz x', 'ja x', 'j', 'sx'): jobs.append(((f, t), lambda t=t, mx=mx, nb=nb, nm=nm: run(p, 'read_field', Text(cells(t), NAMES[nm], nbits=nb), {0: TXT, 1: TAB, 2: mx, 3: NAM}), None))
        for t in ('', ';', '5', '5;', '5-', '-', '5-x', '1/2', '5~6', '5-8/', '5-8~', '*/', '*~', '1,,2', '1,'):
            jobs.append(((f, t), lambda t=t, mx=mx, nb=nb, nm=nm: run(p, 'read_field', Text(cells(t + (' x' if t not in ('', '5') else '')), NAMES[nm] if nm else (), nbits=nb), {0: TXT, 1: TAB, 2: mx, 3: NAM if nm else 0}), None if t else set()))
    for (lab, th, want), (l2, res) in zip(jobs, ctx.engines([j[:2] for j in jobs])):
        f = lab[0]
        if isinstance(lab[1], str):
            for at, v, tab, need in res:
                w = want if want is None or isinstance(want, set) else {want} | ({7} if f == 'cl_dow' and want == 0 else set()); g = {b for b in range(64) if tab >> b & 1}
                ctx.ob('%s "%s"' % (f, lab[1]), at is None if w is None else at is not None and g == w, 'read_field', '%s "%s" %s' % (f, lab[1], 'is refused' if at is None else 'selects %s' % sorted(g)))
            ctx.ob('%s "%s" one outcome' % (f, lab[1]), len(res) == 1, 'read_field', '%d outcomes' % len(res))
            continue
        for (t, items), (r, reps) in zip(want, res):
            w = select(f, items); n = 'field %s "%s"' % (f, printed(t))
            if reps: ctx.ob(n, False, 'read_field', '%s: %s' % (n, reps[0])); continue
            ctx.ob('%s one outcome' % n, len(r) == 1, 'read_field', '%s: %d outcomes' % (n, len(r)))
            for at, v, tab, need in r:
                g = {b for b in range(64) if tab >> b & 1}
                if w == '?': continue
                if w is None: ctx.ob('%s refused' % n, at is None, 'read_field', '%s is accepted' % n); continue
                if f == 'cl_days': g.discard(0)
                if f == 'cl_days': w.discard(0)
                key = n if not (f == 'cl_days' and items[0][0] is None and (items[0][2] or 1) > 1) else 'field cl_days "*" with a step'
                ctx.ob(key, at is not None and g == w, 'read_field', '%s %s, expected %s' % (n, 'is refused' if at is None else 'selects %s' % sorted(g), sorted(w)))
                ctx.ob('%s stops behind the field' % n, at is None or t[at] not in (32, 9) and at <= len(t) - 2, 'read_field', '%s: stops at character %s' % (n, at))
    bounds(ctx, p)
class Any(Rule):
    """any text: get_num gives any number within 0..limit; the table may only be used within its bits"""
    name = 'any text'
    intervals = True
    max_states = 300
    def __init__(self, nbits, mx=0): self.nbits = nbits; self.uses = 0; self.limits = (mx - 1, mx, mx + 1, nbits, 2 * mx + 2)
    def is_event(self, prog, i): return i.op == 'call' and i.cname == 'get_num' or i.op in ('load', 'store')
    def enter(self, prog, f): return not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'call' and i.cname == 'get_num':
            w = eng.ptr(eng.ev(i.args[1], env, fr)); mx = int(eng.av(eng.ev(i.args[2], env, fr), env)[1]); s = ('s', ('num',), str(i.n))
            def f(e, en): e.purge(s, en); en.facts[s] = (0, mx, frozenset()); en._k = None; return True
            return [Outcome(q, term=('c', 0)), Outcome(q, ret=(1, INF, frozenset()), refine=f, setmem=[(w, s)])]
        if i.op in ('load', 'store'):
            a = eng.ev(i.ops[0 if i.op == 'load' else 1], env, fr); p = eng.ptr(a)
            if p[1] == ('c', TAB):
                g = i.ops[0 if i.op == 'load' else 1]; self.uses += 1
                x = (0, 0) if g.op != 'gep' else eng.av(eng.ev(g.ops[-1], env, fr), env)
                # the number of the bit, where the byte is computed from it
                v = g.ops[-1] if g.op == 'gep' else None
                while v is not None and getattr(v, 'op', '') in ('sext', 'zext'): v = v.ops[0]
                if v is not None and getattr(v, 'op', '') in ('ashr', 'lshr') and eng.ev(v.ops[1], env, fr) == ('c', 3):
                    y = eng.av(eng.ev(v.ops[0], env, fr), env); ok = y[0] >= 0 and y[1] < self.nbits; what = 'bits %s to %s' % tuple('?' if abs(z) >= INF else int(z) for z in y[:2])
                else: ok = x[0] >= 0 and x[1] * 8 < self.nbits; what = 'bytes %s to %s' % tuple('?' if abs(z) >= INF else int(z) for z in x[:2])
                if not ok: eng.report(i, '%s of a table of %d bits are used' % (what, self.nbits), eng.trace, key='table of %d bits' % self.nbits)
                if i.op == 'load': return [Outcome(q, ret=(0, 255, frozenset()))]
                return [Outcome(q)]
            if i.op == 'load' and gvar(i.ops[0]) == 'debug_opt': return [Outcome(q, term=('c', 0))]
        return None
REST = ('s', ('text',), 'rest')
class Number(Rule):
    """get_num on any text"""
    name = 'any number'
    intervals = geps = True
    # characters of different classes are not mixed
    def merge_key(self, q, env): return tuple(env.facts.get(('op', 'char', t, ('c', 0)), (0, 0))[:2] for t in (REST, ('s', ('get_num',), 'A0')))
    max_states = 60
    def __init__(self, mx): self.mx = mx; self.ok = 0; self.limits = (mx, mx + 1, 10 * mx + 10)
    def is_event(self, prog, i): return i.op in ('load', 'store') or i.op == 'gep' and i.gepty.kind == 8 or i.op == 'call' and i.cname in ('__ctype_b_loc',) + tuple(ISF)
    def enter(self, prog, f): return not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'call' and i.cname == '__ctype_b_loc': return [Outcome(q, term=('c', CTY))]
        if i.op == 'gep':
            if eng.ev(i.ops[0], env, fr) not in (('s', ('get_num',), 'A0'), REST): return None
            # another place of the text: any character is there
            def away(e, en): e.purge(REST, en); e.setbind(i, REST, en, fr); en.facts[REST] = (1, INF, frozenset()); return True
            return [Outcome(q, refine=away)]
        if i.op == 'load':
            a = eng.ev(i.ops[0], env, fr); p = eng.ptr(a)
            if p[1] == ('c', CTY) and not p[2]: return [Outcome(q, term=('c', CTY + 0x10000))]
            if p[1] == ('c', CTY + 0x10000):
                g = i.ops[0]; c = eng.ev(g.ops[-1], env, fr)
                def f(lo, hi):
                    def r(e, en): return e.setav(c, (lo, hi, frozenset()), en) if c[0] != 'c' else lo <= c[1] <= hi
                    return r
                return [Outcome(q, term=('c', v), refine=f(lo, hi)) for lo, hi, v in ((48, 57, bits(53)), (97, 122, bits(98)), (-128, 47, 0), (58, 96, 0), (123, 127, 0))]
            # the text is not changed: the same place has the same character
            if i.type.kind == 8 and i.type.width == 8: return [Outcome(q, term=('op', 'char', a, ('c', 0)))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env)
        if a[0] == a[1] == 0: return
        self.ok += 1; m = env.mem.get(eng.ptr(('s', ('get_num',), 'A1'))); q = eng.av(m, env) if m else (-INF, INF)
        if not (0 <= q[0] and q[1] <= self.mx): eng.report(inst, 'a number from %s to %s is given where the limit is %d' % (q[0], '?' if q[1] >= INF else q[1], self.mx), eng.trace, key='number limit')
class Sites(Rule):
    """the tables the fields of an entry are read into, in order"""
    name = 'fields of an entry'
    max_states = 24
    def __init__(self): self.seqs = set()
    def is_event(self, prog, i): return i.op == 'call' and i.cname == 'read_field'
    def enter(self, prog, f): return not f.noreturn and f.name not in ('read_opt', 'get_num', 'get_time', 'check_username', 'get_command', 'free_line', 'dups_cl', 'error', 'debug')
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'call' and i.cname == 'read_field':
            t = eng.ptr(eng.ev(i.args[1], env, fr)); f = [s[2] for s in t[2] if s[0] == 'f']; mx = eng.av(eng.ev(i.args[2], env, fr), env); g = eng.ev(i.args[3], env, fr)
            g = eng.ptr(g); g = g[1][1] if g[1][0] == 'g' else None
            want = FIELDS.get(f[-1] if f else None)
            if not f or want is None or mx[0] != mx[1] or mx[0] != want[0] or g != want[3]: eng.report(i, 'a field is read into %s with limit %s and names %s' % (f, mx[0], g), eng.trace, key='field of an entry'); return [Outcome(q, term=('c', 0))]
            if list(FIELDS).index(f[-1]) != len(q): eng.report(i, 'field %s is read at place %d' % (f[-1], len(q) + 1), eng.trace, key='order of fields')
            return [Outcome(q, term=('c', 0)), Outcome(q + (f[-1],), ret=(1, INF, frozenset()))]
        return None
    def on_exit(self, eng, q, env, inst, fr): self.seqs.add(q)
def bounds(ctx, p):
    jobs = []
    def go(r, root, binds):
        def th():
            e = Engine(p, r); env = Env()
            for k, v in binds: env.bind[((root,), 'A%d' % k)] = ('c', v)
            e.run(root, (), env); r.extra = (getattr(r, 'uses', 0) or getattr(r, 'ok', 0) or getattr(r, 'seqs', 0), [x[1] for x in e.reports.values()]); return e
        return th
    for f, (mx, nb, lo, nm) in FIELDS.items(): jobs.append(('%s: bits used for any text' % f, go(Any(nb, mx), 'read_field', ((1, TAB), (2, mx)))))
    for mx in (7, 12, 59, 255, 65535):
        for dec in (0, 1): jobs.append(('number within 0 and %d, %d decimals' % (mx, dec), go(Number(mx), 'get_num', ((2, mx), (3, dec), (4, 0)))))
    for root in ('read_arys', 'read_period'):
        ctx.need(root in p.funcs, 'no function %s' % root); jobs.append((root, go(Sites(), root, ())))
    full = tuple(FIELDS)
    for lab, (n, reps) in ctx.engines(jobs):
        ctx.ob(lab, n and not reps, 'fileconf.c', reps[0] if reps else 'nothing of this was found')
        if lab in ('read_arys', 'read_period'):
            ctx.ob('%s reads all fields' % lab, full in n, lab, 'no path reads all fields')
            ctx.ob('%s reads leading fields' % lab, all(s == full[:len(s)] for s in n), lab, 'fields are read as %s' % sorted(n))
