"""Formatted messages: what a format string asks for is what the call gives."""
import re
from sa import core, ir
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import opts
from .common import ext, gvar
LIBC = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'syslog': 1, 'asprintf': 1, '__printf_chk': 1, '__fprintf_chk': 2, '__snprintf_chk': 4, '__sprintf_chk': 3, '__syslog_chk': 2, 'err': 1, 'warn': 0, 'pam_syslog': 2}
SCAN = {'scanf': 0, 'fscanf': 1, 'sscanf': 1, '__isoc99_scanf': 0, '__isoc99_fscanf': 1, '__isoc99_sscanf': 1, '__isoc23_scanf': 0, '__isoc23_fscanf': 1, '__isoc23_sscanf': 1}
BINS = ('fcron', 'fcrontab', 'fcrondyn', 'fcronsighup', 'convert-fcrontab')
CONV = re.compile(r'%(?P<flags>[-+ #0\']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|-?\d*))?(?P<l>hh|h|ll|l|L|j|z|t|q)?(?P<c>.|$)', re.S)
SC = re.compile(r'%(?P<s>\*)?(?P<w>\d+)?(?P<l>hh|h|ll|l|L|j|z|t|q|m)?(?P<c>\[\^?\]?[^\]]*\]|.|$)', re.S)
def wanted(fmt):
    """list of expected argument classes, or a text saying what is wrong with the format"""
    out = []; k = 0
    while True:
        k = fmt.find('%', k)
        if k < 0: return out
        m = CONV.match(fmt, k); k = m.end(); c, l = m['c'], m['l']
        if c == '%': continue
        if m['w'] == '*': out.append('i32')
        if m['p'] == '*': out.append('i32')
        if c in 'diouxX': out.append({'l': 'i64', 'll': 'i64', 'j': 'i64', 'z': 'i64', 't': 'i64', 'q': 'i64'}.get(l, 'i32'))
        elif c == 'c': out.append('i32')
        elif c in 'sp': out.append('ptr')
        elif c in 'eEfFgGaA': out.append('f80' if l == 'L' else 'f64')
        elif c == 'n': return 'the format writes to memory (%n)'
        elif c == 'm': pass
        else: return 'unknown conversion %%%s' % c
def scanned(fmt):
    n = 0; k = 0; unb = False
    while True:
        k = fmt.find('%', k)
        if k < 0: return n, unb
        m = SC.match(fmt, k); k = m.end()
        if m['c'] == '%' or m['s']: continue
        n += 1
        if m['c'][0] in 's[' and not m['w'] and m['l'] != 'm': unb = True
def cls(v):
    k = v.type.kind; k = {12: 'ptr', 11: 'ptr', 8: 'int', 3: 'f64', 2: 'f32', 4: 'f80'}.get(k, k)
    return ('i64' if v.type.width == 64 else 'i32' if v.type.width <= 32 else 'i%d' % v.type.width) if k == 'int' else k
def values(fn, v, seen=()):
    """constants / parameters a pointer may be, flow-insensitively: list of ('str', text), ('null',), ('par', n) or ('?',)"""
    v = core.strip(v)
    s = core.const_str(v)
    if s is not None: return [('str', s)]
    if v in seen: return []
    if v.kind in ('null', 'zero') or v.kind == 'int' and v.v == 0: return [('null',)]
    if v.kind == 'arg': return [('par', v.idx)]
    if v.kind != 'inst': return [('?',)]
    if v.op == 'phi': return [x for o in (v.inc and [a for a, b in v.inc] or v.ops) for x in values(fn, o, seen + (v,))]
    if v.op == 'select': return [x for o in v.ops[1:3] for x in values(fn, o, seen + (v,))]
    if v.op == 'load':
        b = core.strip(v.ops[0])
        if getattr(b, 'op', '') == 'alloca':
            st = [i for i in fn.insts() if i.op == 'store' and core.strip(i.ops[1]) is b]
            if any(o is b for i in fn.insts() for k, o in enumerate(i.ops) if not (i.op == 'load' or i.op == 'store' and k == 1)): return [('?',)]
            return [x for i in st for x in values(fn, i.ops[0], seen + (v,))]
    return [('?',)]
def fixed(f): return len(f.params)
def formatted(ctx):
    """Rule: at each call which formats a message (C library or own variadic function, in every program), each format string the call can get is a known constant and the arguments given are as many as it converts and of the size and kind it reads. The functions which build a log message write only within the buffer they allocate, for every length of the message and of what is appended to it."""
    done = {}; n = 0; uses = set()
    for b in BINS:
        p = ctx.prog(b)
        own = {f.name: len(f.params) - 1 for f in p.funcs.values() if f.vararg and f.params and f.params[-1].type.kind in ('ptr', 12)}
        forw = {}     # function -> {format parameter: [argument classes given with it]}
        todo = []
        def take(i, fn, k, given, what, scan=False):
            nonlocal n
            for v in values(fn, i.args[k]):
                if v[0] == 'par':
                    if fn.vararg and v[1] == own.get(fn.name) and given == 'va': continue
                    todo.append((fn.name, v[1], given, what, i)); continue
                key = (i.loc, what, v)
                if key in done: continue
                n += 1; uses.add((b, i.fn.name)); done[key] = 1
                w = 'call of %s in %s' % (what, i.fn.name)
                if v[0] == 'null': continue
                if v[0] == '?': ctx.ob('%s: format known (%s)' % (w, i.loc), False, i.loc, '%s(): the format is not a constant' % what); continue
                if scan:
                    c, unb = scanned(v[1])
                    ctx.ob('%s "%s": arguments' % (w, v[1][:30]), c == len(given) and all(x == 'ptr' for x in given), i.loc, '%s("%s"): %d conversions, %d arguments' % (what, v[1], c, len(given)))
                    ctx.ob('%s "%s": bounded' % (w, v[1][:30]), not unb, i.loc, '%s("%s"): a string is read without limit' % (what, v[1])); continue
                x = wanted(v[1])
                if isinstance(x, str): ctx.ob('%s "%s"' % (w, v[1][:30]), False, i.loc, '%s("%s"): %s' % (what, v[1], x)); continue
                ctx.ob('%s "%s": number of arguments' % (w, v[1][:30]), len(x) <= len(given) if not isinstance(given, str) else True, i.loc, '%s("%s") in %s: %d arguments needed, %d given' % (what, v[1][:60], i.fn.name, len(x), len(given)))
                bad = [(k, a, g) for k, (a, g) in enumerate(zip(x, given)) if a != g and (a, g) not in (('i32', 'i64'), ('i32', 'ptr'))]   # read as an int: the low half, on this ABI
                ctx.ob('%s "%s": kind of arguments' % (w, v[1][:30]), not bad, i.loc, '%s("%s") in %s: argument %s' % (what, v[1][:60], i.fn.name, ', '.join('%d is %s, the format reads %s' % (k + 1, NAME.get(g, g), NAME.get(a, a)) for k, a, g in bad)))
        for f in p.funcs.values():
            for i in f.insts():
                if i.op != 'call': continue
                t = p.target(i); nme = i.cname
                if t is not None and t.name in own: take(i, f, own[t.name], [cls(a) for a in i.args[fixed(t):]], t.name)
                elif t is None and nme in LIBC: take(i, f, LIBC[nme], [cls(a) for a in i.args[LIBC[nme] + 1:]], nme)
                elif t is None and nme in SCAN: take(i, f, SCAN[nme], [cls(a) for a in i.args[SCAN[nme] + 1:]], nme, True)
        depth = 0
        while todo and depth < 4:
            cur, todo[:] = list(todo), []; depth += 1
            for fname, k, given, what, site in cur:
                for c in p.callers.get(fname, []):
                    if len(c.args) > k: take(c, c.fn, k, given, fname)
    ctx.need(n > 300, 'only %d formatting calls found' % n)
    ctx.stats['formatting calls'] = n; ctx.funcs |= {f for b, f in uses}
    buffer(ctx)
NAME = {'i32': 'an int', 'i64': 'a long', 'ptr': 'a pointer', 'f64': 'a double'}
class Msg(Rule):
    """make_msg: q = (length of the string in the buffer, size)"""
    name = 'message buffer'
    max_states = 200
    def __init__(self, n, m, M): self.n = n; self.m = m; self.M = M; self.ends = 0
    def is_event(self, prog, i): return i.op == 'call' and ext(prog, i, {'vsnprintf', 'strncat', 'strcat', 'strcpy', 'strncpy', 'strlen', 'calloc', 'malloc', 'memcpy', 'snprintf', 'memmove', 'stpcpy'}) or i.op == 'store' and i.ops[0].type.width == 8
    def enter(self, prog, f): return not f.noreturn
    def off(self, eng, t):
        p = eng.ptr(t)
        if p[1] != ('c', 0xB000): return None
        k = 0
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return -1
            k += s[1]
        return k
    def src(self, eng, i, k, env, fr):
        t = eng.ev(i.args[k], env, fr)
        if t == ('c', 0xA000): return self.m
        s = core.const_str(i.args[k])
        if s is None:
            b, st = core.steps(i.args[k])
            if b.kind == 'gvar' and b.init is not None and b.init.kind == 'str': s = b.init.v.split('\0')[0]
        return len(s) if s is not None else None
    def on_inst(self, eng, q, env, i, fr):
        L, S = q; num = lambda k: (lambda v: int(v[0]) if v[0] == v[1] else None)(eng.av(eng.ev(i.args[k], env, fr), env))
        def put(end, what):
            if S is None or end is None or end + 1 > S: eng.report(i, '%s writes %s bytes into a buffer of %s' % (what, '?' if end is None else end + 1, S), eng.trace, key='msg:overflow'); return [Outcome(q, dead=True)]
            return None
        if i.op == 'store':
            o = self.off(eng, eng.ev(i.ops[1], env, fr))
            if o is None: return None
            if not 0 <= o < (S or 0): eng.report(i, 'a byte is written out of the message', eng.trace, key='msg:overflow')
            return [Outcome(q)]
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname
        if n in ('calloc', 'malloc'):
            s = 1
            for k in range(len(i.args)): s = s * num(k) if num(k) is not None and s is not None else None
            return [Outcome((0, s), term=('c', 0xB000)), Outcome(q, term=('c', 0))]
        if n == 'strlen':
            if eng.ev(i.args[0], env, fr) == ('c', 0xA000): return [Outcome(q, ret=av_const(self.m))]
            if self.off(eng, eng.ev(i.args[0], env, fr)) == 0: return [Outcome(q, ret=av_const(L))]
            return None
        o = self.off(eng, eng.ev(i.args[0], env, fr))
        if o is None: return None
        if n == 'vsnprintf':
            z = num(1)
            if z is None or o != 0 or z > (S or 0): eng.report(i, 'vsnprintf() may write %s bytes into a buffer of %s' % (z, S), eng.trace, key='msg:overflow'); return [Outcome(q, dead=True)]
            return [Outcome((min(self.n, z - 1) if self.n >= 0 else 0, S), term=('c', self.n))]
        if n in ('strncat', 'strcat'):
            l = self.src(eng, i, 1, env, fr); z = num(2) if n == 'strncat' else 10**9
            if z is not None and z < 0: z = 10**9
            e = L + min(l, z) if l is not None and z is not None else None
            return put(e, n) or [Outcome((e, S))]
        if n in ('strcpy', 'stpcpy'):
            l = self.src(eng, i, 1, env, fr); e = o + l if l is not None and o >= 0 else None
            return put(e, n) or [Outcome((e, S))]
        if n in ('memcpy', 'memmove', 'strncpy'):
            z = num(2); e = o + z - 1 if z is not None and o >= 0 else None
            return put(e, n) or [Outcome((max(L, e), S))]
        if n == 'snprintf':
            z = num(1); return put(o + z - 1 if z is not None and o >= 0 else None, n) or [Outcome((L, S))]
        return None
    def on_exit(self, eng, q, env, inst, fr): self.ends += 1
def buffer(ctx):
    p = ctx.prog('fcron'); M = opts.consts(ctx.work, ['MAX_MSG'], headers=('global.h', 'log.h'))['MAX_MSG']; T = 14
    for n in (-1, 0, 1, M - 20, M - 3, M - 2, M - 1, M, M + 1, M + 2, M + 500):
        for m in (None, 0, 1, 2, 3, 14, 40):
            r = Msg(n, m or 0, M); e = Engine(p, r); env = Env(); env.bind[(('make_msg',), 'A0')] = ('c', 0 if m is None else 0xA000); e.run('make_msg', (0, None), env)
            ctx.engine(e, 'make_msg', 'message of %d, %s appended' % (n, m)); ctx.ob('message of %d bytes, %s appended' % (n, m), r.ends and not e.reports, 'make_msg', list(e.reports.values())[0][1] if e.reports else 'no outcome')
