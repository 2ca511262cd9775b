"""The generic lists (running processes, jobs waiting on the load average, environment variables): what the module does with each list, and how the programs iterate over them."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core
from .common import ext
from .conn import cnt

LST2 = 510000
LST, ARR, ES, ENT, NEWP = 500000, 600000, 24, 550000, 100000
FIELDS = ('max_entries', 'num_entries', 'array_size', 'entry_size', 'grow_size', 'cur_entry', 'cur_removed', 'entries_array')
class Lst(Rule):
    """a list with known contents. q = (fields of the list, base -> cells, freed blocks)"""
    name = 'list'
    max_states = 60
    geps = True
    def __init__(self, n, size, mx, cur, rem, grow=2): self.n = n; self.size = size; self.mx = mx; self.cur = cur; self.rem = rem; self.grow = grow; self.ends = []; self.got = None
    def init(self):
        cells = tuple(1 + k if k < self.n else 0 for k in range(self.size))
        f = dict(max_entries=self.mx, num_entries=self.n, array_size=self.size, entry_size=ES, grow_size=self.grow, cur_entry=0 if self.cur is None else ARR + ES * self.cur, cur_removed=self.rem, entries_array=ARR)
        return (tuple(sorted(f.items())), ((ARR, cells),), ())
    def is_event(self, prog, i): return i.op in ('load', 'store') or i.op == 'call' and (ext(prog, i, {'realloc', 'calloc', 'malloc', 'free', 'memcpy', 'memmove', 'memset'}) or (i.cname or '').startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')))
    def enter(self, prog, f): return not f.noreturn and not (f.file or '').endswith('log.c')
    def at(self, eng, env, t):
        """constant address -> number"""
        p = eng.ptr(t)
        if p[1][0] == 'c' and all(s[0] == 'i' and isinstance(s[1], int) for s in p[2]): return p[1][1] + sum(s[1] for s in p[2])
        return cnt(eng, env, t)
    def field(self, eng, env, fr, v):
        p = eng.ptr(eng.ev(v, env, fr)); pre = '' if p[1] == ('c', LST) else '2.' if p[1] == ('c', LST2) and self.new else None
        if pre is None: return None
        if len(p[2]) == 1 and p[2][0][0] == 'f' and p[2][0][2] in FIELDS: return pre + p[2][0][2]
        if not p[2]: return pre + FIELDS[0]
        return None
    def cell(self, eng, i, arr, ad, n):
        """block and range of cells"""
        for b, c in arr:
            if b <= ad < b + ES * len(c) or (ad == b + ES * len(c) and n == 0):
                if (ad - b) % ES or n % ES or ad + n > b + ES * len(c): eng.report(i, 'an access which is not to whole entries of the list, or goes out of it', eng.trace, key='list:bounds'); return None
                return b, (ad - b) // ES, n // ES
        eng.report(i, 'memory out of the list is used', eng.trace, key='list:bounds'); return None
    def on_inst(self, eng, q, env, i, fr):
        fs, arr, freed = q; d = dict(fs)
        if i.op == 'gep':
            t = [eng.ev(x, env, fr) for x in i.ops]
            if len(t) == 2 and 'i8' in str(i.gepty):
                b, k = self.at(eng, env, t[0]), self.at(eng, env, t[1])
                if b is not None and k is not None and b not in (LST, LST2): return [Outcome(q, term=('c', b + k))]
            return None
        if i.op in ('load', 'store'):
            w = self.field(eng, env, fr, i.ops[0] if i.op == 'load' else i.ops[1])
            if w is None: return None
            if LST in freed: eng.report(i, 'the list is used after it was released', eng.trace, key='list:uaf')
            if i.op == 'load': return [Outcome(q, term=('c', d[w]))]
            t = eng.ev(i.ops[0], env, fr); v = self.at(eng, env, t)
            if v is None: eng.report(i, 'field %s of the list gets a value which does not follow from the list' % w, eng.trace, key='list:value'); v = 0
            d[w] = v; return [Outcome((tuple(sorted(d.items())), arr, freed))]
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; A = lambda k: self.at(eng, env, a[k])
        if n in ('calloc', 'malloc', 'realloc'):
            z = (A(0) or 0) * (A(1) or 0) if n == 'calloc' else A(0) if n == 'malloc' else A(1)
            if self.new and z == self.sz and '2.num_entries' not in d:
                for k in FIELDS: d['2.' + k] = 0 if n == 'calloc' else 77
                return [Outcome((tuple(sorted(d.items())), arr, freed), term=('c', LST2))]
            if z is None or z % ES: eng.report(i, 'memory for a number of bytes which is not a number of entries', eng.trace, key='list:alloc'); return None
            b = max(x for x, _ in arr) + NEWP; fill = 0 if n == 'calloc' else 77; new = [fill] * (z // ES)
            if n == 'realloc':
                o = [c for x, c in arr if x == A(0)]
                if not o: eng.report(i, 'what is reallocated is not the array of the list', eng.trace, key='list:alloc'); return None
                for k in range(min(len(new), len(o[0]))): new[k] = o[0][k]
                arr = tuple((x, c) for x, c in arr if x != A(0)); freed += (A(0),)
            return [Outcome((fs, arr + ((b, tuple(new)),), freed), term=('c', b))]
        if n == 'free':
            v = A(0)
            if v == 0: return [Outcome(q)]
            if v in freed: eng.report(i, 'memory of the list is released twice', eng.trace, key='list:uaf')
            if v != LST and not (v == LST2 and self.new) and v not in [x for x, _ in arr]: eng.report(i, 'what is released is not the list', eng.trace, key='list:alloc')
            return [Outcome((fs, tuple((x, c) for x, c in arr if x != v), freed + (v,)))]
        if 'memset' in n:
            ad, v, z = A(0), A(1), A(2)
            if ad == LST2 and v == 0 and self.new and z == self.sz:
                for k in FIELDS: d['2.' + k] = 0
                return [Outcome((tuple(sorted(d.items())), arr, freed))]
            if ad is None or z is None: eng.report(i, 'memory out of the list is used', eng.trace, key='list:bounds'); return None
            if z == 0: return [Outcome(q)]
            c = self.cell(eng, i, arr, ad, z)
            if c is None: return [Outcome(q, dead=True)]
            return [Outcome((fs, tuple((b, x if b != c[0] else x[:c[1]] + (v,) * c[2] + x[c[1] + c[2]:]) for b, x in arr), freed))]
        ad, src, z = A(0), A(1), A(2)
        if ad == LST2 and src == LST and self.new:
            if z != self.sz: eng.report(i, 'the structure of the list is not copied as a whole', eng.trace, key='list:copy')
            for k in FIELDS: d['2.' + k] = d[k]
            return [Outcome((tuple(sorted(d.items())), arr, freed))]
        if z == 0: return [Outcome(q)]
        if ad is None or z is None or src is None: return [Outcome(q)]
        c = self.cell(eng, i, arr, ad, z)
        if c is None: return [Outcome(q, dead=True)]
        if src == ENT: val = (99,) if z == ES else (0,)
        else:
            s = self.cell(eng, i, arr, src, z)
            if s is None: return [Outcome(q, dead=True)]
            blk = dict(arr)[s[0]]; val = blk[s[1]:s[1] + s[2]]
        return [Outcome((fs, tuple((b, x if b != c[0] else x[:c[1]] + tuple(val) + x[c[1] + c[2]:]) for b, x in arr), freed))]
    def on_exit(self, eng, q, env, inst, fr):
        rv = None
        if eng.rv is not None: rv = self.at(eng, env, eng.rv)
        self.ends.append((dict(q[0]), dict(q[1]), q[2], rv))

def contract(ctx):
    """Rule: for lists of 0 to 4 entries, full or not, limited or not, at every point of an iteration, with the current entry removed or not: adding appends the entry alone and answers its place (or refuses at the maximum, changing nothing) and keeps the iteration where it was even if the array moved; first/next go through each entry once, remove_cur takes the current entry out alone, and the one put in its place is the next visited; nothing is read or written out of the array."""
    p = ctx.prog('fcron'); jobs = []; chk = {}
    for f in ('u_list_add', 'u_list_first', 'u_list_next', 'u_list_remove_cur', 'u_list_end_iteration', 'u_list_destroy', 'u_list_init', 'u_list_copy'): ctx.need(f in p.funcs, 'no function %s' % f)
    sz = {i.gepty.size for f in ('u_list_add', 'u_list_first', 'u_list_next') for i in p.funcs[f].insts() if i.op == 'gep' and len(i.ops) > 2}; ctx.need(len(sz) == 1, 'the structure of lists is not found'); sz = sz.pop()
    N = 6 if ctx.tier == 'thorough' else 4
    def add(fn, n, size, mx, cur, rem, grow, want):
        lab = '%s: %d of %d entries%s%s%s%s' % (fn, n, size, ', at most %d' % mx if mx else '', '' if cur is None else ', at entry %d' % (cur + 1), ' just removed' if rem else '', ', growing by %d' % grow if fn == 'u_list_add' else '')
        def t():
            r = Lst(n, size, mx, cur, rem, grow); e = Engine(p, r); env = Env(); env.bind[((fn,), 'A0')] = ('c', LST); env.bind[((fn,), 'A1')] = ('c', ENT)
            if fn == 'u_list_init': env.bind[((fn,), 'A0')] = ('c', ES); env.bind[((fn,), 'A1')] = ('c', size); env.bind[((fn,), 'A2')] = ('c', grow)
            r.sz = sz; r.new = fn in ('u_list_init', 'u_list_copy')
            e.run(fn, r.init(), env); r.extra = r.ends; return e
        jobs.append((lab, t)); chk[lab] = (fn, n, size, mx, cur, rem, want)
    for n in range(N + 1):
        for size in sorted({max(n, 1), n + 1, n + 2}):
            for mx in sorted({0, size, size + 1, size + 5}):
                for grow in (1, 3):
                    for cur in [None] + list(range(n)): add('u_list_add', n, size, mx, cur, 0, grow, None)
            add('u_list_first', n, size, 0, None, 0, 2, None)
            for cur in range(n): add('u_list_next', n, size, 0, cur, 0, 2, None); add('u_list_remove_cur', n, size, 0, cur, 0, 2, None); add('u_list_end_iteration', n, size, 0, cur, 0, 2, None)
            for cur in range(n + 1):
                if cur < size: add('u_list_next', n, size, 0, cur, 1, 2, None); add('u_list_end_iteration', n, size, 0, cur, 1, 2, None)
            add('u_list_destroy', n, size, 0, None, 0, 2, None)
            for cur in [None] + list(range(n)): add('u_list_copy', n, size, 0, cur, 0, 2, None)
    for size in range(1, N + 1): add('u_list_init', 0, size, 0, None, 0, 2, None)
    for lab, ends in ctx.engines(jobs):
        fn, n, size, mx, cur, rem, _ = chk[lab]
        ctx.ob(lab + ': decided', bool(ends), fn, 'no outcome: %s' % lab)
        for d, arr, freed, rv in ends:
            if fn == 'u_list_destroy': ctx.ob(lab, set(freed) == {LST, ARR} and not arr and rv == 0, fn, 'destroying a list releases %d blocks instead of the list and its array (%s)' % (len(freed), lab)); continue
            if fn in ('u_list_init', 'u_list_copy'):
                c = arr.get(d.get('2.entries_array')); bad = None
                if rv != LST2 or c is None: bad = 'the answer is not a new list'
                elif fn == 'u_list_init' and [d['2.' + k] for k in ('num_entries', 'array_size', 'entry_size', 'grow_size', 'cur_entry', 'cur_removed', 'max_entries')] != [0, size, ES, 2, 0, 0, 0] or len(c) < d['2.array_size']: bad = 'the new list is not an empty list of the size asked for'
                elif fn == 'u_list_copy':
                    if d['2.entries_array'] == ARR or d['entries_array'] != ARR: bad = 'both lists share their array'
                    elif list(c[:n]) != list(range(1, n + 1)) or d['2.num_entries'] != n or d['2.entry_size'] != ES: bad = 'the copy does not have the same entries'
                    elif d['2.cur_entry']: bad = 'the copy takes itself for being gone through, in another list'
                ctx.ob(lab, bad is None, fn, '%s (%s)' % (bad, lab)); continue
            b = d['entries_array']; c = arr.get(b)
            if c is None or len(arr) != 1: ctx.ob(lab, False, fn, 'the list has lost its array (%s)' % lab); continue
            got = [x for x in c[:d['num_entries']]]; pos = None if not d['cur_entry'] else (d['cur_entry'] - b) / ES
            old = list(range(1, n + 1)); full = n >= size and mx > 0 and size >= mx
            bad = None
            if d['num_entries'] > len(c) or d['array_size'] > len(c): bad = 'the list takes itself for larger than its array'
            if fn == 'u_list_add':
                w = old if full else old + [99]
                if got != w: bad = 'the entries are %s instead of %s' % (got, w)
                elif rv != (0 if full else b + ES * n): bad = 'the answer is not the place of the new entry' if not full else 'a full list accepts an entry'
                elif pos != cur or d['cur_removed'] != rem: bad = 'the iteration under way is at entry %s instead of %s' % (pos, cur)
                elif mx and d['array_size'] > mx: bad = 'the list grows beyond its maximum'
                elif any(c[d['num_entries']:d['array_size']]): bad = 'the cells added are not cleared'
            elif fn == 'u_list_first':
                if got != old or rv != (b if n else 0) or pos != (0 if n else None): bad = 'an iteration does not start at the first entry'
            elif fn == 'u_list_next':
                k = cur if rem else cur + 1; w = k if k < n else None
                if got != old: bad = 'the entries change'
                elif pos != w or rv != (0 if w is None else b + ES * w): bad = 'the next entry is %s instead of %s' % ('the end' if pos is None else pos + 1, 'the end' if w is None else w + 1)
                elif d['cur_removed']: bad = 'the removal of an entry is remembered for the next ones'
            elif fn == 'u_list_remove_cur':
                if sorted(got) != [x for x in old if x != cur + 1]: bad = 'the entries left are %s (%d removed)' % (got, cur + 1)
                elif got[:cur] != old[:cur]: bad = 'entries already visited are put where they will be visited again, or the other way round'
                elif pos != cur or not d['cur_removed']: bad = 'the iteration does not go on with the entry put in the place of the one removed'
            elif fn == 'u_list_end_iteration':
                if got != old or pos is not None or d['cur_removed']: bad = 'the iteration is not ended'
            ctx.ob(lab, bad is None, fn, '%s (%s)' % (bad, lab))

WRAP = ('exe_list', 'lavg_list', 'env_list')
OWN = 777
class Iter(Rule):
    """iterations under way. q = (lists (address terms) being iterated over, position in the list given in parameter when its size is known)"""
    name = 'iterations'
    max_states = 12
    lists = ('exe_list', 'lavg_list')
    def __init__(self, root, lead, known=(), size=None): self.root = root; self.lead = lead; self.known = known; self.size = size; self.sites = set(); self.n = 0
    def is_event(self, prog, i): return i.op == 'load' or i.op == 'call' and (i.cname in ('u_list_first', 'u_list_next', 'u_list_end_iteration', 'u_list_remove_cur') or i.cname in self.known and i.fn.name != i.cname) or ext(prog, i, {'fork'})
    def enter(self, prog, f): return not f.noreturn and f.name in self.lead and not (f.name in self.known and f.name != self.root)
    def on_inst(self, eng, q, env, i, fr):
        its, pos = q
        if i.op == 'load':
            g = eng.ptr(eng.ev(i.ops[0], env, fr))
            if g[1][0] == 'g' and g[1][1] in self.lists and not g[2]: return [Outcome(q, term=('c', 1000 + self.lists.index(g[1][1])))]
            if g[2] and g[2][-1][0] == 'f' and g[2][-1][2] == 'cf_env_list': return [Outcome(q, term=('c', 999))]
            if self.size is not None and g[1] == ('c', OWN) and g[2] and g[2][-1][0] == 'f' and g[2][-1][2] == 'num_entries': return [Outcome(q, term=('c', self.size))]
            return None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname
        if n == 'fork': return [Outcome(q, ret=av_const(-1)), Outcome(q, ret=(1, INF, frozenset()))]
        l = eng.ev(i.args[0], env, fr); self.sites.add(i); some = (1, INF, frozenset()); none = av_const(0)
        if n in self.known:
            if l in its and not self.known[n]: eng.report(i, 'an iteration over a list starts (in %s) within another one over it' % n, eng.trace, key='iter:nested:%s:%s' % (self.root, n))
            return [Outcome((its - {l} if self.known[n] else its, pos))]
        if n == 'u_list_first':
            if l in its: eng.report(i, 'an iteration over a list starts within another one over it', eng.trace, key='iter:nested:%s' % self.root)
            if self.size is not None and l == ('c', OWN): return [Outcome((its | {l}, 0), ret=some) if self.size else Outcome((its, None), ret=none)]
            return [Outcome((its | {l}, pos), ret=some), Outcome((its - {l}, pos), ret=none)]
        if n == 'u_list_next':
            if l not in its: eng.report(i, 'an iteration over a list goes on although it has ended', eng.trace, key='iter:next:%s' % self.root)
            if self.size is not None and l == ('c', OWN): return [Outcome((its | {l}, (pos or 0) + 1), ret=some) if (pos or 0) + 1 < self.size else Outcome((its - {l}, None), ret=none)]
            return [Outcome((its | {l}, pos), ret=some), Outcome((its - {l}, pos), ret=none)]
        if n == 'u_list_end_iteration': return [Outcome((its - {l}, None if l == ('c', OWN) else pos))]
        if l not in its: eng.report(i, 'an entry is removed from a list out of an iteration', eng.trace, key='iter:remove:%s' % self.root)
        return None
    def on_exit(self, eng, q, env, inst, fr):
        self.n += 1
        if q[0] and not self.loose: eng.report(inst, 'an iteration over a list is left without being ended', eng.trace, key='iter:left:%s' % self.root)
    loose = False

class Tolerant(Iter):
    """whether a function ends an iteration under way over its list by itself"""
    loose = True

def iterations(ctx):
    """Rule: in every function which iterates over a list (with everything it calls), an iteration does not start while another one over the same list is under way (u_list_first() ends the program), the next entry is asked for and entries are removed only within an iteration, and no iteration is left under way when the function returns, errors included."""
    n = 0
    for b in ('fcron', 'fcrontab'):
        p = ctx.prog(b); wrap = {f for f in p.funcs if f.endswith('_list_first') and f != 'u_list_first'}
        lead = p.reaches('lists', lambda i: i.op == 'call' and (i.cname or '').startswith('u_list_'))
        roots = sorted({i.fn.name for w in wrap | {'u_list_first'} for i in p.callers.get(w, ())} - wrap)
        ctx.need(len(roots) >= (1 if b == 'fcrontab' else 4), 'few iterations over lists found in %s' % b)
        own = {f for f in roots if (p.funcs[f].file or '').endswith('_list.c') and p.funcs[f].params}; known = {}
        for f in sorted(own):
            r = Tolerant(f, lead); e = Engine(p, r); env = Env(); env.bind[((f,), 'A0')] = ('c', OWN); e.run(f, (frozenset({('c', OWN)}), None), env)
            known[f] = not e.reports
        def mk(fn, size):
            def t():
                r = Iter(fn, lead, known, size); e = Engine(p, r); env = Env()
                if size is not None: env.bind[((fn,), 'A0')] = ('c', OWN)
                e.run(fn, (frozenset(), None), env); r.extra = (r.n, len(r.sites)); return e
            return t
        jobs = [('%s: %s%s' % (b, fn, '' if z is None else ', %d entries' % z), mk(fn, z)) for fn in roots for z in (range(5) if fn in own else [None])]
        for lab, (k, m) in ctx.engines(jobs): ctx.ob('iterations of ' + lab, m > 0, lab, 'no iteration followed'); n += m
    ctx.need(n >= 8, 'few calls on lists followed')
def lists(ctx):
    contract(ctx); iterations(ctx)
