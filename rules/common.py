"""Shared building blocks of the rules."""
from sa.engine import Rule, Outcome, av_const, INF, ORIG, TOP, av_has, subs, mentions
from sa import core, opts
from sa.build import AnalysisBroken

def ext(prog, i, names): return i.op == 'call' and i.cname in names and prog.target(i) is None
def fld(ptr, name, struct=None):
    """does this address select field `name` (innermost field)?"""
    f = core.field_of(ptr)
    return f is not None and f[2] == name and (struct is None or f[1] in (struct, 'struct ' + struct))
def gvar(ptr):
    b, p = core.steps(ptr)
    return b.name if b.kind == 'gvar' and not p else None
def opt_byte(i):
    """byte index of cl_option a load/store accesses, else None"""
    p = i.ops[0] if i.op == 'load' else i.ops[1]
    b, st = core.steps(p)
    for n, s in enumerate(st):
        if s[0] == 'f' and s[2] == 'cl_option':
            r = st[n + 1:]
            if not r: return 0
            if len(r) == 1 and r[0][0] == 'i' and r[0][1] is not None: return r[0][1]
            return -1
    return None

class Opts:
    """known values of some option bits of the job under analysis.  state = tuple of (option, 0/1/None)"""
    def __init__(self, table, names):
        self.t = {n: table[n] for n in names}; self.names = list(names)
        for n in names:
            if n not in table: raise AnalysisBroken('no single-bit accessor is_%s in option.h' % n)
    def refine_load(self, i, byte, vals):
        """Outcome.refine: the loaded byte has the known bits"""
        def f(eng, env):
            t = eng.ev(i, env, self.fr)
            for n, v in zip(self.names, vals):
                b, m, sense = self.t[n]
                if b != byte or v is None: continue
                bit = m if (v == 1) == bool(sense) else 0
                if t[0] == 'c':
                    if (t[1] & m) != bit: return False
                    continue
                if not eng.setav(('op', 'and', t, ('c', m)), av_const(bit), env): return False
            return True
        return f
    def after_store(self, term, byte, vals):
        """option values after a store of `term` into byte"""
        set_, clr = 0, 0; t = term
        if t[0] == 'c':
            return tuple((1 if bool(t[1] & self.t[n][1]) == bool(self.t[n][2]) else 0) if self.t[n][0] == byte else v for n, v in zip(self.names, vals))
        ops = []
        while t[0] == 'op' and t[1] in ('or', 'and') and t[3][0] == 'c': ops.append((t[1], t[3][1])); t = t[2]
        out = []
        for n, v in zip(self.names, vals):
            b, m, sense = self.t[n]
            if b == byte:
                for o, c in reversed(ops):
                    if o == 'or' and c & m: v = 1 if sense else 0
                    elif o == 'and' and not c & m: v = 0 if sense else 1
                if not ops: v = None
            out.append(v)
        return tuple(out)

def delta(eng, env, inst, fr):
    """how a store changes the integer it overwrites: ('d',n) | ('c',value) | None"""
    v = eng.ev(inst.ops[0], env, fr); p = eng.ptr(eng.ev(inst.ops[1], env, fr))
    old = env.mem.get(p)
    if old is not None:
        if v == old: return ('d', 0)
        if v[0] == 'op' and v[1] == 'add' and v[2] == old and v[3][0] == 'c': return ('d', v[3][1])
        if v[0] == 'c' and old[0] == 'c': return ('d', v[1] - old[1])
        a = eng.av(old, env)
        if v[0] == 'c' and a[0] == a[1]: return ('d', v[1] - a[0])
        # old = base + k, v = base + m
        if v[0] == 'op' and v[1] == 'add' and v[3][0] == 'c' and old[0] == 'op' and old[1] == 'add' and old[3][0] == 'c' and v[2] == old[2]:
            return ('d', v[3][1] - old[3][1])
        if old[0] == 'op' and old[1] == 'add' and old[3][0] == 'c' and old[2] == v: return ('d', -old[3][1])
    if v[0] == 'c': return ('c', v[1])
    return None

from sa.engine import NEG, SWAP
def relations(env):
    """(pred, x, y) comparisons known to hold on this path"""
    for t, v in env.facts.items():
        if t[0] != 'cmp': continue
        if v == av_const(1): yield (t[1], t[2], t[3])
        elif v == av_const(0): yield (NEG[t[1]], t[2], t[3])
IMPL = {'<': ('slt', 'ult'), '<=': ('slt', 'ult', 'sle', 'ule', 'eq'), '>': ('sgt', 'ugt'), '>=': ('sgt', 'ugt', 'sge', 'uge', 'eq'), '==': ('eq',)}
def holds(env, x, rel, y):
    for p, a, b in relations(env):
        if (a, b) == (x, y) and p in IMPL[rel]: return True
        if (b, a) == (x, y) and SWAP[p] in IMPL[rel]: return True
    return False
def gterm(env, g):
    """term currently held by a scalar global (None if unknown)"""
    return env.mem.get(('p', ('g', g), ()))
def reaching(p, pred, name=False):
    """predicate on call instructions: executes, directly or through callees, an instruction satisfying pred"""
    fs = p.reaches(None, pred)
    if name: return fs
    return lambda i: pred(i) or (i.op == 'call' and p.target(i) is not None and p.target(i).name in fs)

class Val(Rule):
    """Typestate with a fixed valuation of the fields and options the decision depends on: every load of such a field yields its value class, everything else stays unknown."""
    name = 'valuation'
    max_states = 12
    def __init__(self, table, opt=None, fields=None, struct=None):
        opt = opt or {}; self.o = Opts(table, list(opt)); self.ov = tuple(opt.values()); self.fields = fields or {}; self.stop = set(); self.calls = {}
    def value(self, eng, env, i, fr):
        """outcome list for a load this valuation decides, else None"""
        if i.op != 'load': return None
        self.o.fr = fr
        b = opt_byte(i)
        if b is not None and b >= 0 and self.o.names: return self.o.refine_load(i, b, self.ov)
        f = core.field_of(i.ops[0])
        if f is not None and f[2] in self.fields:
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p in env.mem: return None
            v = self.fields[f[2]]
            if isinstance(v, (list, tuple)):
                ix = p[2][-1][1] if p[2] and p[2][-1][0] == 'i' else 0
                if ix is None or ix >= len(v): return None
                v = v[ix]
            return av_const(v)
        return None
    def loads(self, eng, q, env, i, fr):
        r = self.value(eng, env, i, fr)
        if r is None: return None
        return [Outcome(q, refine=r)] if callable(r) else [Outcome(q, term=('c', r[0]), setmem=[(eng.ptr(eng.ev(i.ops[0], env, fr)), ('c', r[0]))])]
