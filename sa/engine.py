"""Path-sensitive typestate engine (property simulation) over LLVM IR.

A rule supplies an automaton; the engine explores every CFG path of an entry function
abstractly: states are (automaton state, facts) where facts are intervals / exclusions on
symbolic terms and a small field-sensitive memory.  Calls to functions that can reach an
event of the rule are explored in context and memoised; every other call havocs what its
effect summary says it may modify.  States are kept apart while few, and joined (facts
intersected, same automaton state only) beyond the bound, so exploration always ends and
never drops a path."""
from collections import deque
from .build import AnalysisBroken
from . import ir, core
from .ir import Inst, Func, NEG, SWAP
from .core import READONLY_EXT, ext_writes, gep_steps, const_str

INF = 1 << 64
ERRNO = ('p', ('g', 'errno'), ())
ORIG = ('o', 'orig')     # pseudo field: the place a value was last loaded from
TOP = (-INF, INF, frozenset())

def av_const(n): return (n, n, frozenset())
def av_meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1]); ne = a[2] | b[2]
    while lo in ne and lo <= hi: lo += 1
    while hi in ne and lo <= hi: hi -= 1
    if lo > hi: return None
    return (lo, hi, frozenset(x for x in ne if lo < x < hi))
def av_join(a, b):
    lo, hi = min(a[0], b[0]), max(a[1], b[1])
    ne = frozenset(x for x in (a[2] | b[2]) if not av_has(a, x) and not av_has(b, x) and lo < x < hi)
    return (lo, hi, ne)
def av_has(a, x): return a[0] <= x <= a[1] and x not in a[2]

def subs(t):
    """immediate sub-terms"""
    k = t[0]
    if k == 'p': return (t[1],)
    if k in ('op', 'cmp'): return t[2:]
    return ()
def tdepth(t): return 1 + max([tdepth(x) for x in subs(t)] or [0])
def mentions(t, sym):
    if t == sym: return True
    return any(mentions(x, sym) for x in subs(t))
def frame_of(t, out):
    if t[0] in ('s', 'a'): out.add(t[1])
    for x in subs(t): frame_of(x, out)

class Env:
    __slots__ = ('bind', 'facts', 'mem', '_k')
    def __init__(self, bind=None, facts=None, mem=None):
        self.bind = bind or {}; self.facts = facts or {}; self.mem = mem or {}; self._k = None
    def copy(self): return Env(dict(self.bind), dict(self.facts), dict(self.mem))
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.bind.items()), frozenset(self.facts.items()), frozenset(self.mem.items()))
        return self._k

class Trace:
    __slots__ = ('loc', 'note', 'prev')
    def __init__(self, loc, note, prev): self.loc = loc; self.note = note; self.prev = prev
    def list(self, n=60):
        out = []; t = self
        while t is not None and len(out) < n: out.append('%s%s' % (t.loc, (' ' + t.note) if t.note else '')); t = t.prev
        return out[::-1]

class Outcome:
    """what an event callback says a call may do: new automaton state, facts on the return value"""
    __slots__ = ('q', 'ret', 'refine', 'dead', 'setmem', 'term')
    def __init__(self, q, ret=None, refine=None, dead=False, setmem=None, term=None):
        self.q = q; self.ret = ret; self.refine = refine; self.dead = dead; self.setmem = setmem; self.term = term

class Rule:
    """Override what you need. q must be hashable."""
    name = 'rule'
    max_states = 48
    geps = False           # on_inst is also called for address computations
    limits = ()            # bounds worth trying before none
    intervals = False      # keep the interval of what was computed from a value when it changes
    max_depth = 40
    def is_event(self, prog, inst): return False          # decides which functions are entered
    def enter(self, prog, func): return True                # may veto inlining (then treated as opaque)
    def on_inst(self, eng, q, env, inst, fr): return None   # -> None | list[Outcome]; called for call/store/load/ret
    def on_branch(self, eng, q, env, inst, fr, succ): return q
    def on_exit(self, eng, q, env, inst, fr): pass          # entry function returns, or process ends
    def on_noreturn(self, eng, q, env, inst, fr): pass
    def origin(self, path): return False                    # remember where values loaded from this place came from
    merge_key = None                                        # optional fn(q, env) -> hashable kept apart on merging

def leaves(prog):
    """small functions that only compute (and may log): entered by every rule, so that extracting an expression into a helper changes nothing"""
    if getattr(prog, '_leaves', None) is None:
        log = {f.name for f in prog.funcs.values() if (f.file or '').endswith('log.c')}
        def close(ok, fine):
            ch = True
            while ch:
                ch = False
                for n in list(ok):
                    if any(i.op == 'call' and not (i.cname or '').startswith('llvm.') and not fine(i, ok) for i in prog.funcs[n].insts()): ok.discard(n); ch = True
            return ok
        def loops(f):
            st = {}
            def dfs(b):
                st[b] = 1
                for s in b.succs:
                    if st.get(s) == 1 or (s not in st and dfs(s)): return True
                st[b] = 2
                return False
            return dfs(f.blocks[0])
        def inok(i, ok): t = prog.target(i); return t is not None and t.name in ok
        a = close({f.name for f in prog.funcs.values() if sum(1 for i in f.insts()) <= 120}, inok)
        def fine(i, ok): t = prog.target(i); return (t.name in ok or t.name in log) if t is not None else i.cname in ('strcmp', 'strcasecmp', 'strlen', 'getpid')
        b = close({f.name for f in prog.funcs.values() if f.name not in log and sum(1 for i in f.insts()) <= 80 and not loops(f)}, fine)
        prog._leaves = a | b
    return prog._leaves

class Engine:
    def __init__(self, prog, rule):
        self.prog = prog; self.rule = rule
        self.relevant = prog.reaches(None, lambda i: rule.is_event(prog, i))
        self.leaf = leaves(prog)
        self.memo = {}; self.reports = {}; self.visited = set(); self.events = 0; self.states = 0; self.event_sites = set()
        self.live_cache = {}; self.active = []
    # ---------- evaluation ----------
    def ev(self, v, env, fr):
        k = v.kind
        if k == 'int': return ('c', v.v if v.v is not None else 0)
        if k == 'fp': return ('c', v.v) if v.v is not None else ('s', 'other', 0)
        if k == 'null': return ('c', 0)
        if k == 'undef': return ('s', 'undef', 0)
        if k == 'func': return ('fn', v.name)
        if k == 'gvar':
            s = const_str(v)
            if s is not None and v.name.startswith(('.str', '__const')) : return ('str', s)
            return ('p', ('g', v.name), ())
        if k == 'cexpr':
            if v.op == 'gep':
                b = self.ev(v.ops[0], env, fr)
                return self.padd(b, gep_steps(v))
            if v.op in ir.CASTS: return self.ev(v.ops[0], env, fr)
            return ('s', 'cexpr', id(v))
        if k == 'arg':
            return env.bind.get((fr, 'A%d' % v.idx), ('s', fr, 'A%d' % v.idx))
        if k == 'inst':
            if v.op == 'alloca': return ('p', ('a', fr, v.n), ())
            return env.bind.get((fr, v.n), ('s', fr, v.n))
        return ('s', 'other', 0)
    def padd(self, b, st):
        st = tuple(s for s in st if not (s[0] == 'i' and s[1] == 0))
        if b[0] == 'p': return ('p', b[1], b[2] + st)
        if b[0] == 'str': return ('s', 'strp', 0)
        if not st: return b
        return ('p', b, st)
    def ptr(self, t):
        """memory path of a pointer term"""
        if t[0] == 'p': return t
        return ('p', t, ())
    def av(self, t, env):
        if t[0] == 'c': return av_const(t[1])
        if t[0] == 'str' or t[0] == 'fn': return (1, INF, frozenset())
        if t[0] == 'p':
            if t[1][0] in ('g', 'a') or t[2]: return (1, INF, frozenset())
            return self.av(t[1], env)
        a = env.facts.get(t, TOP)
        if t[0] == 'cmp':
            b = self.cmp_av(t, env)
            return av_meet(a, b) or b
        if t[0] == 'op':
            o = t[1]
            if o == 'and' and t[3][0] == 'c' and t[3][1] >= 0: a = av_meet(a, (0, t[3][1], frozenset())) or a
            elif o in ('add', 'sub') and t[3][0] == 'c':
                x = self.av(t[2], env); c = t[3][1] if o == 'add' else -t[3][1]
                lo = x[0] + c if x[0] > -INF else -INF; hi = x[1] + c if x[1] < INF else INF
                a = av_meet(a, (lo, hi, frozenset(n + c for n in x[2]))) or a
            elif o in ('add', 'sub', 'mul'):
                b = self.op_av(o, self.av(t[2], env), self.av(t[3], env))
                if b: a = av_meet(a, b) or a
            elif o == 'ashr' and t[3][0] == 'c' and 0 <= t[3][1] < 63:
                x = self.av(t[2], env); k = t[3][1]
                a = av_meet(a, (x[0] >> k if x[0] > -INF else -INF, x[1] >> k if x[1] < INF else INF, frozenset())) or a
            elif o == 'srem' and t[3][0] == 'c' and t[3][1] > 0: a = av_meet(a, (-t[3][1] + 1, t[3][1] - 1, frozenset())) or a
            elif o == 'not':
                x = self.av(t[2], env)
                if x == av_const(0): return av_const(1)
                if not av_has(x, 0): return av_const(0)
                return av_meet(a, (0, 1, frozenset())) or a
        return a
    def op_av(self, o, x, y):
        """interval of x o y, for bounded operands (None: unknown)"""
        if -INF in (x[0], y[0]) or INF in (x[1], y[1]):
            if o == 'add' and x[0] > -INF and y[0] > -INF: return (x[0] + y[0], INF, frozenset())
            if o == 'mul' and x[0] >= 0 and y[0] >= 0: return (x[0] * y[0], INF, frozenset())
            return None
        if o == 'add': return (x[0] + y[0], x[1] + y[1], frozenset())
        if o == 'sub': return (x[0] - y[1], x[1] - y[0], frozenset())
        c = [p * r for p in x[:2] for r in y[:2]]
        return (min(c), max(c), frozenset())
    def cmp_av(self, t, env):
        _, p, x, y = t
        a, b = self.av(x, env), self.av(y, env); B = (0, 1, frozenset())
        T, F = av_const(1), av_const(0)
        if x == y: return T if p in ('eq', 'sle', 'sge', 'ule', 'uge') else F
        if p in ('eq', 'ne'):
            r = None
            if a[0] == a[1] and b[0] == b[1]: r = a[0] == b[0]
            elif av_meet(a, b) is None: r = False
            if r is None: return B
            return T if (r == (p == 'eq')) else F
        if p[0] == 'u':
            if a[0] < 0 or b[0] < 0: return B
            p = 's' + p[1:]
        if p == 'slt': return T if a[1] < b[0] else F if a[0] >= b[1] else B
        if p == 'sle': return T if a[1] <= b[0] else F if a[0] > b[1] else B
        if p == 'sgt': return T if a[0] > b[1] else F if a[1] <= b[0] else B
        if p == 'sge': return T if a[0] >= b[1] else F if a[1] < b[0] else B
        return B
    # ---------- refinement ----------
    def assume(self, t, truth, env):
        """refine env so that boolean/int term t is nonzero (truth) / zero; False if infeasible"""
        a = self.av(t, env)
        if truth and a == av_const(0): return False
        if not truth and not av_has(a, 0): return False
        if t[0] == 'cmp':
            _, p, x, y = t
            if not truth: p = NEG[p]
            if not self.assume_cmp(p, x, y, env): return False
            env.facts[t] = av_const(1 if truth else 0); env._k = None
            return True
        if t[0] == 'op' and t[1] == 'not': return self.assume(t[2], not truth, env)
        return self.setav(t, (TOP[0], TOP[1], frozenset([0])) if truth else av_const(0), env)
    def setav(self, t, av, env):
        if t[0] == 'p':
            if t[1][0] in ('g', 'a') or t[2]: return av_meet((1, INF, frozenset()), av) is not None
            t = t[1]
        if t[0] in ('c', 'str', 'fn'): return av_meet(self.av(t, env), av) is not None
        m = av_meet(self.av(t, env), av)
        if m is None: return False
        env.facts[t] = m; env._k = None
        if t[0] == 'op' and t[1] in ('add', 'sub') and t[3][0] == 'c':
            c = t[3][1] if t[1] == 'add' else -t[3][1]
            return self.setav(t[2], (m[0] - c if m[0] > -INF else -INF, m[1] - c if m[1] < INF else INF, frozenset(n - c for n in m[2])), env)
        if t[0] == 'cmp':
            if m == av_const(0): return self.assume(t, False, env)
            if m == av_const(1): return self.assume(t, True, env)
        return True
    def assume_cmp(self, p, x, y, env):
        a, b = self.av(x, env), self.av(y, env)
        for s, o, pp in ((x, b, p), (y, a, SWAP[p])):
            if pp == 'eq': r = o
            elif pp == 'ne': r = (TOP[0], TOP[1], frozenset([o[0]])) if o[0] == o[1] else TOP
            else:
                u = pp[0] == 'u'
                if u:
                    # unsigned bounds are usable when the other side is known non-negative
                    if o[0] < 0: r = TOP
                    elif pp in ('ult', 'ule'): r = (0, o[1] - (1 if pp == 'ult' else 0) if o[1] < INF else INF, frozenset()) 
                    else:
                        s_av = self.av(s, env)
                        r = (o[0] + (1 if pp == 'ugt' else 0), INF, frozenset()) if s_av[0] >= 0 else TOP
                else:
                    if pp == 'slt': r = (-INF, o[1] - 1 if o[1] < INF else INF, frozenset())
                    elif pp == 'sle': r = (-INF, o[1], frozenset())
                    elif pp == 'sgt': r = (o[0] + 1 if o[0] > -INF else -INF, INF, frozenset())
                    else: r = (o[0], INF, frozenset())
            if r != TOP:
                if not self.setav(s, r, env): return False
        return True
    # ---------- memory ----------
    def purge(self, sym, env):
        """symbol gets a new meaning: forget everything that mentions it"""
        keep = self.rule.intervals
        bs = [(k, self.av(v, env)) for k, v in env.bind.items() if mentions(v, sym)] if keep else []
        ms = [(k, self.av(v, env)) for k, v in env.mem.items() if v[0] != 'p' and mentions(v, sym) and not mentions(k, sym)] if keep else []
        ks = [k for k in env.facts if mentions(k, sym)]
        for k in ks: del env.facts[k]
        ks = [k for k, v in env.mem.items() if mentions(v, sym) or mentions(k, sym)]
        for k in ks: del env.mem[k]
        ks = [k for k, v in env.bind.items() if mentions(v, sym)]
        for k in ks: del env.bind[k]
        # what was computed from it keeps its interval
        for k, a in bs:
            if a[0] > -INF or a[1] < INF: env.facts[('s', k[0], k[1])] = (a[0], a[1], frozenset())
        for k, a in ms:
            n = ('s', ('kept',), repr(k))
            if (a[0] > -INF or a[1] < INF) and not mentions(k, n): self.purge(n, env); env.mem[k] = n; env.facts[n] = (a[0], a[1], frozenset())
        env._k = None
    def kill_path(self, p, env):
        """a store through path p: forget what may alias"""
        b, st = p[1], p[2]
        f = next((s for s in reversed(st) if s[0] == 'f'), None)
        dead = []
        for k in env.mem:
            kb, ks = k[1], k[2]
            if ks and ks[-1][0] == 'o': continue
            if k == p: dead.append(k); continue
            kf = next((s for s in reversed(ks) if s[0] == 'f'), None)
            if kb[0] in ('g', 'a', 'c') and b[0] in ('g', 'a', 'c') and kb != b: continue
            if kb == b:
                # same base: disjoint if the step lists diverge on different fields / constant indices
                dis = False
                for s1, s2 in zip(ks, st):
                    if s1 == s2: continue
                    if s1[0] == 'f' and s2[0] == 'f': dis = True
                    elif s1[0] == 'i' and s2[0] == 'i' and s1[1] is not None and s2[1] is not None: dis = True
                    break
                if dis: continue
                # index 0 is dropped from paths: x[0] vs x[k]
                if len(ks) != len(st) and f == kf:
                    a, c = (ks, st) if len(ks) < len(st) else (st, ks)
                    if c[:len(a)] == a and c[len(a)][0] == 'i' and c[len(a)][1] is not None and len(c) == len(a) + 1: continue
                dead.append(k); continue
            if f is not None and kf is not None:
                if f == kf:
                    # different bases, same field: may alias, unless constant trailing indices differ
                    if st and ks and st[-1] != ks[-1] and (st[-1][0] == 'i' or ks[-1][0] == 'i'): continue
                    dead.append(k)
                continue
            if (f is None) != (kf is None):
                continue            # a field never aliases a plain scalar object (type based)
            # both plain: allocas only alias if escaped through unknown pointers
            if b[0] in ('g', 'a') and kb[0] in ('g', 'a'): continue
            dead.append(k)
        for k in dead: del env.mem[k]
        if dead: env._k = None
    def load(self, pt, env, inst, fr):
        p = self.ptr(pt)
        v = env.mem.get(p)
        if v is not None: return v
        s = ('s', fr, inst.n)
        if mentions(p, s):
            # the pointer is the previous value of this very load (p = p->next in a loop): keep its place by name only
            o = self.origin_of(p, env); self.purge(s, env)
        else:
            o = None; self.purge(s, env)
            if not any(x[0] == 'i' and x[1] is None for x in p[2]):
                env.mem[p] = s; env._k = None
            if self.rule.origin(p): env.mem[('p', s, (ORIG,))] = p; env._k = None
        return s
    def origin_of(self, t, env):
        return env.mem.get(('p', t, (ORIG,)))
    def store(self, pt, val, env):
        p = self.ptr(pt)
        self.kill_path(p, env)
        if not any(x[0] == 'i' and x[1] is None for x in p[2]):
            env.mem[p] = val; env._k = None
    def havoc_ptr(self, t, env):
        p = self.ptr(t); st = p[2]
        dead = [k for k in env.mem if k[1] == p[1] and k[2][:len(st)] == st and not (k[2] and k[2][-1][0] == 'o')]
        for k in dead: del env.mem[k]
        if dead: env._k = None
    def havoc_call(self, call, tgt, env, fr):
        if ERRNO in env.mem: del env.mem[ERRNO]; env._k = None
        if tgt is None:
            for k in ext_writes(call): self.havoc_ptr(self.ev(call.args[k], env, fr), env)
            return
        ms = self.prog.mods(tgt.name)
        fields = {(e[1], e[2]) for e in ms if e[0] == 'field'}; gl = {e[1] for e in ms if e[0] == 'global'}
        dead = []
        for k in env.mem:
            f = next((s for s in reversed(k[2]) if s[0] == 'f'), None)
            if f is not None and (f[1], f[2]) in fields: dead.append(k)
            elif k[1][0] == 'g' and k[1][1] in gl: dead.append(k)
        for k in dead: del env.mem[k]
        if dead: env._k = None
        for e in ms:
            if e[0] == 'arg' and e[1] < len(call.args): self.havoc_ptr(self.ev(call.args[e[1]], env, fr), env)
        if ('any',) in ms:
            for a in call.args:
                t = self.ev(a, env, fr)
                if t[0] == 'p': self.havoc_ptr(t, env)
    # ---------- liveness (for pruning) ----------
    def live(self, f):
        if f.name in self.live_cache: return self.live_cache[f.name]
        use = {}; defs = {}
        for b in f.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op == 'phi': d.add(i.n); continue
                for o in i.ops:
                    x = self._n(o)
                    if x is not None and x not in d: u.add(x)
                    for y in self._deep(o):
                        if y not in d: u.add(y)
                d.add(i.n)
            use[b] = u; defs[b] = d
        lin = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for s in b.succs:
                    out |= lin[s]
                    for i in s.insts:
                        if i.op != 'phi': break
                        for v, pb in i.inc:
                            if pb is b:
                                x = self._n(v)
                                if x is not None: out.add(x)
                n = use[b] | (out - defs[b])
                if n != lin[b]: lin[b] = n; ch = True
        # phis of the block itself are defined at entry: keep them
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'phi': break
                lin[b].add(i.n)
        self.live_cache[f.name] = lin
        return lin
    def _n(self, o):
        if o.kind == 'inst': return o.n
        if o.kind == 'arg': return 'A%d' % o.idx
        return None
    def _deep(self, o):
        return ()
    def prune(self, env, fr, livein, keep=()):
        """drop binds of dead values of the current frame, facts/mem on unreachable symbols"""
        nb = {k: v for k, v in env.bind.items() if k[0] != fr or k[1] in livein or isinstance(k[1], str)}
        roots = set()
        def syms(t):
            if t[0] in ('s', 'a'): roots.add(t)
            for x in subs(t): syms(x)
        def msyms(path):
            syms(path[1])
        for v in nb.values(): syms(v)
        for n in livein: roots.add(('s', fr, n))
        for (f2, n) in list(nb): roots.add(('s', f2, n))
        # frames below the current one stay untouched: their symbols are roots
        act = set(self.active_frames)
        nm = {}
        changed = True
        pend = dict(env.mem)
        while changed:
            changed = False
            for k in list(pend):
                b = k[1]
                bs = b
                ok = b[0] in ('g', 'a') or b in roots or (b[0] == 's' and b[1] != fr and b[1] in act) or (b[0] == 's' and isinstance(b[2], str))
                if b[0] == 'a' and b[1] not in act: ok = False
                if b[0] not in ('g', 'a', 's'): 
                    ok = True
                if ok:
                    nm[k] = pend.pop(k); 
                    n0 = len(roots); syms(nm[k]); changed = changed or len(roots) != n0
        def okfact(t):
            s = []
            def c(t):
                if t[0] == 's': s.append(t)
                for x in subs(t): c(x)
            c(t)
            return all(x in roots or (x[1] != fr and x[1] in act) or isinstance(x[2], str) for x in s)
        nf = {k: v for k, v in env.facts.items() if okfact(k)}
        return Env(nb, nf, nm)
    # ---------- exploration ----------
    def report(self, inst, msg, trace, key=None):
        k = key or (inst.fn.name, inst.n, msg)
        if k not in self.reports: self.reports[k] = (inst, msg, trace)
    def run(self, fname, q0, env=None):
        f = self.prog.func(fname)
        self.active_frames = []
        outs = self.func(f, q0, env or Env(), (f.name,), Trace('%s()' % fname, 'entry', None))
        for q, e, rv, tr, inst in outs:
            self.trace = tr; self.rv = rv
            self.rule.on_exit(self, q, e, inst, (f.name,))
        return outs
    def func(self, f, q0, env0, fr, tr0):
        """explore function body; returns list of (q, env, retterm, trace, retinst)"""
        if len(fr) > self.rule.max_depth: raise AnalysisBroken('call depth bound exceeded in %s' % f.name)
        key = (f.name, fr, q0, env0.key())
        if key in self.memo: return self.memo[key]
        self.visited.add(f.name)
        self.active_frames.append(fr)
        lin = self.live(f)
        seen = {}      # block -> {(q, envkey)}
        store = {}     # block -> list of (q, env)
        joins = {}
        outs = []; outk = set()
        wl = deque()
        def push(b, q, env, tr):
            env = self.prune(env, fr, lin[b])
            k = (q, env.key())
            s = seen.setdefault(b, set())
            if k in s: return
            mk = self.rule.merge_key(q, env) if self.rule.merge_key else None
            grp = store.setdefault(b, {}).setdefault((q, mk), [])
            if len(grp) >= self.rule.max_states:
                # join with an accumulated state
                acc = grp[-1]
                w = joins[(b, q, mk)] = joins.get((b, q, mk), 0) + 1
                j = self.join(acc, env, widen=w > 16)
                if (q, j.key()) in s: return
                grp[-1] = j; env = j; k = (q, j.key())
            else: grp.append(env)
            s.add(k); self.states += 1
            if self.states > 3000000: raise AnalysisBroken('state bound exceeded in rule %s at %s' % (self.rule.name, f.name))
            wl.append((b, q, env, tr))
        push(f.blocks[0], q0, env0.copy(), tr0)
        while wl:
            b, q, env, tr = wl.popleft()
            for (q2, env2, tr2, nb, ret) in self.block(f, b, q, env.copy(), fr, tr):
                if nb is not None: push(nb, q2, env2, tr2)
                else:
                    inst, rv = ret
                    e3 = self.leave(env2, fr, rv)
                    k = (q2, e3.key(), rv)
                    if k not in outk: outk.add(k); outs.append((q2, e3, rv, tr2, inst))
        self.active_frames.pop()
        # bound outcomes
        outs = self.bound_outs(outs)
        self.memo[key] = outs
        return outs
    def bound_outs(self, outs, n=24):
        by = {}
        for o in outs: by.setdefault((o[0], self.rule.merge_key(o[0], o[1]) if self.rule.merge_key else None), []).append(o)
        res = []
        for (q, _), l in by.items():
            if len(l) <= n: res += l; continue
            # group by return-value class
            g = {}
            for o in l:
                a = self.av(o[2], o[1]) if o[2] is not None else None
                c = None if a is None else ('z' if a == av_const(0) else 'nz' if not av_has(a, 0) else ('t',))
                if a is not None and a[0] == a[1]: c = a[0]
                g.setdefault(c, []).append(o)
            for c, l2 in g.items():
                if len(l2) > 4:
                    e = l2[0][1]
                    rv = l2[0][2]
                    for o in l2[1:]:
                        e = self.join(e, o[1])
                        if o[2] != rv: rv = ('s', 'ret', 0)
                    if rv == ('s', 'ret', 0):
                        a = None
                        for o in l2:
                            x = self.av(o[2], o[1]); a = x if a is None else av_join(a, x)
                        e = e.copy(); e.facts[rv] = a
                    res.append((q, e, rv, l2[0][3], l2[0][4]))
                else: res += l2
        return res
    def leave(self, env, fr, rv):
        e = env.copy()
        e.bind = {k: v for k, v in e.bind.items() if k[0] != fr}
        def own(t):
            s = set(); frame_of(t, s); return fr in s
        e.mem = {k: v for k, v in e.mem.items() if not (k[1][0] == 'a' and k[1][1] == fr)}
        e._k = None
        return e
    def limit(self, x): return min([y for y in self.rule.limits if y >= x] or [INF])
    def join(self, a, b, widen=False):
        bind = {k: v for k, v in a.bind.items() if b.bind.get(k) == v}
        mem = {k: v for k, v in a.mem.items() if b.mem.get(k) == v}
        facts = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is not None:
                j = av_join(v, w)
                if widen and j != v:
                    j = (j[0] if j[0] == v[0] else 0 if j[0] >= 0 else -INF, j[1] if j[1] == v[1] else self.limit(j[1]), j[2])
                if j != TOP: facts[k] = j
        # values bound to different constants keep their hull as a fact on the value itself
        for k in {**a.bind, **b.bind}:
            v = a.bind.get(k, ('s', k[0], k[1])); w = b.bind.get(k, ('s', k[0], k[1]))
            if w != v:
                va, vb = self.av(v, a), self.av(w, b); j = av_join(va, vb)
                if widen and j != va: j = (j[0] if j[0] == va[0] else 0 if j[0] >= 0 else -INF, j[1] if j[1] == va[1] else self.limit(j[1]), j[2])
                if j != TOP: facts[('s', k[0], k[1])] = j
        r = Env(bind, facts, mem)
        # a place holding different values keeps what both have in common, under a name of its own
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None or w == v or (k[2] and k[2][-1][0] == 'o'): continue
            va, vb = self.av(v, a), self.av(w, b); j = av_join(va, vb)
            if widen and j != va: j = (j[0] if j[0] == va[0] else 0 if j[0] >= 0 else -INF, j[1] if j[1] == va[1] else self.limit(j[1]), j[2])
            if j == TOP: continue
            s = ('s', ('join',), repr(k))
            if not mentions(k, s): self.purge(s, r); r.mem[k] = s; r.facts[s] = j
        return r
    def opterm(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y,
                     'shl': x << y if 0 <= y < 63 else None, 'ashr': x >> y if 0 <= y < 63 else None, 'lshr': x >> y if 0 <= y < 63 and x >= 0 else None,
                     'sdiv': int(x / y) if y else None, 'srem': x - int(x / y) * y if y else None}.get(op)
            except Exception: r = None
            if r is not None: return ('c', r)
        if a[0] == 'c' and op in ('add', 'mul', 'and', 'or', 'xor'): a, b = b, a
        if op in ('add', 'sub') and b == ('c', 0): return a
        if op in ('add', 'sub') and b[0] == 'c' and a[0] == 'op' and a[1] in ('add', 'sub') and a[3][0] == 'c':
            c = (a[3][1] if a[1] == 'add' else -a[3][1]) + (b[1] if op == 'add' else -b[1])
            return a[2] if c == 0 else ('op', 'add', a[2], ('c', c))
        if op == 'sub' and b[0] == 'c': return ('op', 'add', a, ('c', -b[1]))
        t = ('op', op, a, b)
        if tdepth(t) > 6: return None
        return t
    def block(self, f, b, q, env, fr, tr):
        """yield successors: (q, env, trace, next block or None, (inst, retterm))"""
        work = [(q, env, tr, 0)]
        out = []
        while work:
            q, env, tr, idx = work.pop()
            stop = False
            while idx < len(b.insts):
                i = b.insts[idx]; idx += 1; op = i.op
                if op == 'phi': continue      # bound on the edge
                if op == 'br' or op == 'switch':
                    out += self.branch(i, q, env, tr, fr); stop = True; break
                if op == 'ret':
                    rv = self.ev(i.ops[0], env, fr) if i.ops else None
                    r = self.rule.on_inst(self, q, env, i, fr) if len(fr) >= 1 else None
                    if r: q = r[0].q
                    out.append((q, env, tr, None, (i, rv))); stop = True; break
                if op == 'unreachable': stop = True; break
                if op in ('call', 'store', 'load') or op == 'gep' and self.rule.geps:
                    self.trace = tr
                    r = self.rule.on_inst(self, q, env, i, fr)
                    if r is not None:
                        self.events += 1; self.event_sites.add((i.fn.name, i.n, i.loc))
                        nxt = []
                        for o in r:
                            if o.dead: continue
                            e2 = env.copy()
                            self.effect(i, e2, fr)
                            if o.term is not None: self.setbind(i, o.term, e2, fr)
                            if o.ret is not None:
                                if not self.setav(self.ev(i, e2, fr), o.ret, e2): continue
                            if o.refine is not None and o.refine(self, e2) is False: continue
                            if o.setmem:
                                for p, v in o.setmem: self.store(p, v, e2)
                            nxt.append((o.q, e2, Trace(i.loc, self.ename(i), tr), idx))
                        if op == 'call' and self.prog.is_noreturn(i):
                            for n in nxt: self.trace = n[2]; self.rule.on_noreturn(self, n[0], n[1], i, fr)
                            nxt = []
                        work += nxt; stop = True; break
                    if op == 'gep': self.arith(i, env, fr); continue
                    if op == 'call':
                        t = self.prog.target(i)
                        if t is not None and t.name not in fr and (t.name in self.relevant and self.rule.enter(self.prog, t) or t.name in self.leaf and not t.noreturn):
                            work += [(q2, e2, tr2, idx) for q2, e2, tr2 in self.call(i, t, q, env, fr, tr)]
                            stop = True; break
                        if self.prog.is_noreturn(i):
                            self.trace = tr
                            self.rule.on_noreturn(self, q, env, i, fr); stop = True; break
                    self.effect(i, env, fr)
                    continue
                self.arith(i, env, fr)
            if not stop and idx >= len(b.insts): pass
        return out
    def ename(self, i):
        return (i.cname or '(*)') + '()' if i.op == 'call' else i.op + ' ' + core.field_str(i.ops[-1])
    def setbind(self, i, t, env, fr):
        if t is None: t = ('s', fr, i.n)
        if t == ('s', fr, i.n):
            env.bind.pop((fr, i.n), None)
        else: env.bind[(fr, i.n)] = t
        env._k = None
    def fresh(self, i, env, fr):
        s = ('s', fr, i.n); self.purge(s, env); env.bind.pop((fr, i.n), None); env._k = None
        return s
    def effect(self, i, env, fr):
        if i.op == 'load':
            p = self.ev(i.ops[0], env, fr)
            v = self.load(p, env, i, fr)
            self.setbind(i, v, env, fr)
        elif i.op == 'store':
            self.store(self.ev(i.ops[1], env, fr), self.ev(i.ops[0], env, fr), env)
        elif i.op == 'call':
            t = self.prog.target(i)
            if i.cname == '__errno_location': self.setbind(i, ERRNO, env, fr); return
            self.havoc_call(i, t, env, fr)
            self.fresh(i, env, fr)
    def gsteps(self, i, env, fr):
        st = gep_steps(i)
        if not any(x[0] == 'i' and x[1] is None for x in st): return st
        T = i.gepty; out = []
        for n, v in enumerate(i.ops[1:]):
            if n == 0:
                if v.kind == 'int' and v.v == 0: continue
            elif T.kind == 10: out.append(('f', T.name, core.field_name(T, v.v))); T = T.elems[v.v]; continue
            elif T.kind == 11: T = T.elem
            a = self.av(self.ev(v, env, fr), env)
            out.append(('i', a[0] if a[0] == a[1] else None))
        return out
    def arith(self, i, env, fr):
        op = i.op
        if op == 'gep':
            self.setbind(i, self.padd(self.ev(i.ops[0], env, fr), self.gsteps(i, env, fr)), env, fr); return
        if op in ir.CASTS:
            t = self.ev(i.ops[0], env, fr)
            if op == 'trunc' and i.type.width == 1 and t[0] not in ('cmp',):
                a = self.av(t, env)
                if a[0] == a[1]: t = ('c', a[0] & 1)
                elif not (a[0] >= 0 and a[1] <= 1): t = ('op', 'and', t, ('c', 1)) if tdepth(t) < 6 and t[0] in ('s', 'op') else None
            if op == 'trunc' and t[0] == 'c' and isinstance(t[1], int) and i.type.width in (8, 16, 32) and not -(1 << (i.type.width - 1)) <= t[1] < (1 << (i.type.width - (i.type.width == 32))):
                m = 1 << i.type.width; t = ('c', (t[1] & (m - 1)) - (m if t[1] & (m >> 1) else 0))
            self.setbind(i, t, env, fr); return
        if op == 'icmp':
            a, b = self.ev(i.ops[0], env, fr), self.ev(i.ops[1], env, fr); p = i.pred
            if a[0] == 'c' and b[0] != 'c': a, b, p = b, a, SWAP[p]
            # (bool != 0) -> bool ; (bool == 0) -> !bool
            if b == ('c', 0) and p in ('ne', 'eq') and (a[0] == 'cmp' or (a[0] == 'op' and a[1] == 'not')):
                t = a if p == 'ne' else (('cmp', NEG[a[1]], a[2], a[3]) if a[0] == 'cmp' else a[2])
            else: t = ('cmp', p, a, b)
            av = self.av(t, env)
            if av[0] == av[1]: t = ('c', av[0])
            if tdepth(t) > 7: self.fresh(i, env, fr); return
            self.setbind(i, t, env, fr); return
        if op == 'xor' and i.type.width == 1:
            t = self.ev(i.ops[0], env, fr)
            if t[0] == 'cmp': t = ('cmp', NEG[t[1]], t[2], t[3])
            elif t[0] == 'c': t = ('c', 1 - (t[1] & 1))
            else: t = ('op', 'not', t, t)
            self.setbind(i, t, env, fr); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'srem', 'udiv', 'urem'):
            a, b = self.ev(i.ops[0], env, fr), self.ev(i.ops[1], env, fr)
            t = self.opterm(op, a, b)
            if t is None or mentions(t, ('s', fr, i.n)):
                v = self.op_av(op, self.av(a, env), self.av(b, env)) if op in ('add', 'sub', 'mul') else None
                x = self.fresh(i, env, fr)
                if v and i.type.width >= 32: env.facts[x] = v
            else: self.setbind(i, t, env, fr)
            return
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fmul', 'fadd', 'fsub', 'fcmp'):
            v = [self.av(self.ev(o, env, fr), env) for o in i.ops]
            if all(x[0] == x[1] for x in v):
                v = [x[0] for x in v]
                r = {'fmul': lambda: v[0] * v[1], 'fadd': lambda: v[0] + v[1], 'fsub': lambda: v[0] - v[1]}.get(op, lambda: v[0])()
                if op == 'fcmp': r = None if i.pred is None else int({'eq': v[0] == v[1], 'ne': v[0] != v[1], 'slt': v[0] < v[1], 'sle': v[0] <= v[1], 'sgt': v[0] > v[1], 'sge': v[0] >= v[1]}[i.pred])
                if r is not None: self.setbind(i, ('c', r), env, fr); return
            self.fresh(i, env, fr); return
        if op == 'select':
            c = self.ev(i.ops[0], env, fr); av = self.av(c, env)
            if av == av_const(0): t = self.ev(i.ops[2], env, fr)
            elif not av_has(av, 0): t = self.ev(i.ops[1], env, fr)
            else:
                x, y = self.ev(i.ops[1], env, fr), self.ev(i.ops[2], env, fr)
                if x == y: t = x
                else:
                    s = self.fresh(i, env, fr); a = av_join(self.av(x, env), self.av(y, env))
                    if a != TOP: env.facts[s] = a
                    return
            self.setbind(i, t, env, fr); return
        self.fresh(i, env, fr)
    def edge(self, frm, to, env, fr):
        """bind phis of `to` for the edge frm->to (parallel assignment)"""
        vals = []
        for i in to.insts:
            if i.op != 'phi': break
            v = next((v for v, pb in i.inc if pb is frm), None)
            vals.append((i, self.ev(v, env, fr) if v is not None else None))
        for i, t in vals:
            s = ('s', fr, i.n)
            if t == s: continue
            # values that mention the phi's own symbol become opaque
            if t is None or (mentions(t, s) if t else False):
                a = self.av(t, env) if t else TOP
                self.purge(s, env); env.bind.pop((fr, i.n), None)
                if a != TOP: env.facts[s] = a
            else:
                if any(mentions(v, s) for v in env.bind.values()) or any(mentions(k, s) for k in env.facts) or any(mentions(k, s) or mentions(v, s) for k, v in env.mem.items()):
                    self.purge(s, env)
                env.bind[(fr, i.n)] = t
        env._k = None
    def branch(self, i, q, env, tr, fr):
        out = []; b = i.bb
        if i.op == 'br' and not i.ops:
            e = env.copy(); self.edge(b, i.succ[0], e, fr)
            return [(q, e, tr, i.succ[0], None)]
        t = self.ev(i.ops[0], env, fr)
        if i.op == 'br':
            for truth, s in ((True, i.succ[0]), (False, i.succ[1])):
                e = env.copy()
                if not self.assume(t, truth, e): continue
                q2 = self.rule.on_branch(self, q, e, i, fr, (t, truth))
                if q2 is None: continue
                self.edge(b, s, e, fr)
                out.append((q2, e, Trace('%s:%d' % (core.os.path.basename(i.file), i.line), 'T' if truth else 'F', tr) if i.line else tr, s, None))
            return out
        for v, s in i.cases:
            e = env.copy()
            if not self.setav(t, av_const(v), e): continue
            q2 = self.rule.on_branch(self, q, e, i, fr, (t, v))
            if q2 is None: continue
            self.edge(b, s, e, fr); out.append((q2, e, Trace(i.loc, 'case %d' % v, tr), s, None))
        e = env.copy()
        if self.setav(t, (TOP[0], TOP[1], frozenset(v for v, _ in i.cases)), e):
            q2 = self.rule.on_branch(self, q, e, i, fr, (t, None))
            if q2 is not None:
                self.edge(b, i.default, e, fr); out.append((q2, e, Trace(i.loc, 'default', tr), i.default, None))
        return out
    def call(self, i, t, q, env, fr, tr):
        fr2 = fr + (t.name,)
        e = env.copy()
        # a frame of the same shape may have left symbols behind: rename them, the callee reuses the names
        args = [self.ev(a, e, fr) for a in i.args]
        stale = set(); old = fr2 + ('old',)
        def coll(x):
            if x[0] in ('s', 'a') and x[1] == fr2: stale.add(x)
            for y in subs(x): coll(y)
        def all_terms(): return list(e.bind.values()) + list(e.facts) + list(e.mem) + list(e.mem.values())
        for x in all_terms() + args: coll(x)
        if stale:
            for x in stale: self.purge((x[0], old, x[2]), e)
            def rn(x):
                if x in stale: return (x[0], old, x[2])
                if x[0] == 'p': return ('p', rn(x[1]), x[2])
                if x[0] in ('op', 'cmp'): return (x[0], x[1]) + tuple(rn(y) for y in x[2:])
                return x
            e.bind = {k: rn(v) for k, v in e.bind.items() if k[0] != fr2}; e.facts = {rn(k): v for k, v in e.facts.items()}
            e.mem = {rn(k): rn(v) for k, v in e.mem.items()}; args = [rn(a) for a in args]
        for k, a in enumerate(args): e.bind[(fr2, 'A%d' % k)] = a
        e._k = None
        outs = self.func(t, q, e, fr2, Trace(i.loc, 'call ' + t.name, tr))
        res = []
        for q2, e2, rv, tr2, inst in outs:
            e3 = e2.copy()
            self.fresh_keep(i, e3, fr)
            if rv is not None: self.setbind(i, rv, e3, fr)
            res.append((q2, e3, tr2))
        return res
    def fresh_keep(self, i, env, fr):
        s = ('s', fr, i.n); self.purge(s, env); env.bind.pop((fr, i.n), None); env._k = None
