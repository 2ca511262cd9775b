"""The state file of a crontab: what is written, what is read back, how it replaces the previous one, what is refused."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, ORIG
from sa import core, opts, ir
from .common import ext, fld, gvar, Val, reaching

SAVE = {'save_type', 'save_str', 'save_strn', 'save_lint'}
TIME = 7777
# distinct values identify the attribute a saved value comes from
INTF = {'cl_nextexe': 8001, 'cl_first': 8002, 'cl_timefreq': 8003, 'cl_remain': 8004, 'cl_runfreq': 8005, 'cl_until': 8006, 'cl_jitter': 81, 'cl_numexe': 82, 'cl_nice': 83, 'cf_tzdiff': 84}
PTRF = {'cl_shell': 90001, 'cl_runas': 90002, 'cl_mailto': 90003, 'cl_mailfrom': 90004, 'cl_tz': 90005, 'cf_user': 90006, 'e_envvar': 90007, 'e_envvar2': 90008}
BACK = {v: k for k, v in list(INTF.items()) + list(PTRF.items())}

ENV1, ENV2 = 700100, 700200
class Write(Val):
    two = 0
    """q = tags written so far, in order: (tag, attribute, bytes)"""
    name = 'state writer'
    max_states = 4
    def setup(self, nenv=1): self.seqs = set(); self.nenv = nenv; self.first = 'x'; return self
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in SAVE or i.cname in ('env_list_first', 'env_list_next', 'write_buf_to_disk') or ext(prog, i, {'fdatasync', 'fsync'}))
    def enter(self, prog, f): return f.name not in SAVE and f.name != 'write_buf_to_disk' and not f.noreturn
    def ident(self, eng, env, t):
        a = eng.av(t, env)
        if t[0] != 'p' and a[0] == a[1]:
            if a[0] == TIME: return '<time>'
            return BACK.get(a[0], a[0])
        if t[0] == 'p':
            f = next((s for s in reversed(t[2]) if s[0] == 'f'), None)
            if f is not None and t[2][-1] == f: return f[2]
        return None
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p[1] == ('c', PTRF['cl_mailfrom']) and i.type.width == 8: return [Outcome(q, term=('c', self.first))]
            if fld(i.ops[0], 'cf_line_base'): return [Outcome(q, ret=(1, INF, frozenset()))]
            if fld(i.ops[0], 'cl_next'):
                if self.two and not [x for x in q if x[0] == 'nextline']: return [Outcome(q + (('nextline', None, 0),), ret=(1, INF, frozenset()))]
                return [Outcome(q, term=('c', 0), setmem=[(p, ('c', 0))])]
            if fld(i.ops[0], 'e_envvar') and p[1] == ('c', ENV2): return [Outcome(q, term=('c', PTRF['e_envvar2']))]
            return self.loads(eng, q, env, i, fr)
        if i.op != 'call': return None
        n = i.cname
        if n == 'env_list_first': return [Outcome(tuple(x for x in q if x[0] != 'nextenv'), term=('c', ENV1))]
        if n == 'env_list_next': return [Outcome(q, term=('c', 0))] if [x for x in q if x[0] == 'nextenv'] else [Outcome(q + (('nextenv', None, 0),), term=('c', ENV2))]
        if n in SAVE:
            tag = eng.av(eng.ev(i.args[1], env, fr), env); tag = tag[0] if tag[0] == tag[1] else None
            if n == 'save_type': e = (tag, None, 0)
            else:
                v = self.ident(eng, env, eng.ev(i.args[2], env, fr)); z = None
                if n == 'save_strn':
                    z = eng.av(eng.ev(i.args[3], env, fr), env); z = z[0] if z[0] == z[1] else None
                e = (tag, v, z)
            return [Outcome(q + (e,), ret=av_const(self.OK))]
        if n == 'write_buf_to_disk' or ext(eng.prog, i, {'fdatasync', 'fsync'}):
            return [Outcome(q + ((n if n[0] == 'w' else 'sync', None, 0),), ret=av_const(0))]
        return None
    def on_exit(self, eng, q, env, inst, fr): self.seqs.add(tuple(x for x in q if x[0] not in ('nextenv', 'nextline')))

def sizes(prog, struct):
    """byte size of every field of a struct"""
    for m in prog.modules:
        for T in m.ld.types.values():
            if T.kind == 10 and T.name == struct and T.elems:
                return {core.field_name(T, k): e.size for k, e in enumerate(T.elems)}
    return {}

def writer(ctx, p, K, t):
    """one run per combination of the conditions attributes are left out on"""
    VAR = [{'cl_remain': 8005}, {'cl_remain': 0}, {'cl_runfreq': 65535, 'cl_remain': 1}, {'cf_tzdiff': -12}, {'cl_first': 8001}, {'cl_first': 0}, {'cl_nextexe': 8002}, {'cl_until': 8001}, {'cl_numexe': 255},
           {'cl_jitter': 255}, {'cl_nice': 20}, {'cl_nice': -20}, {'cl_timefreq': 1}, {'cl_timefreq': 8001}, {'cl_runfreq': 1}]
    jobs = []; names = ('numexe', 'lavg', 'until', 'nice', 'runfreq', 'tz', 'jitter', 'mailfrom', 'freq', 'two')
    def mk(c, var={}):
        def f():
            v = dict(zip(names, c))
            fields = dict(INTF, **PTRF); fields.update(var)
            for n, b in (('cl_numexe', 'numexe'), ('cl_until', 'until'), ('cl_nice', 'nice'), ('cl_runfreq', 'runfreq'), ('cl_tz', 'tz'), ('cl_jitter', 'jitter')):
                if not v[b]: fields[n] = 0
            if v['nice'] == 2: fields['cl_nice'] = -3
            if v['mailfrom'] == 0: fields['cl_mailfrom'] = 0
            r = Write(t, {'lavg': v['lavg'], 'freq': v['freq']}, fields).setup(); r.two = v['two']; r.OK = K['OK']; r.first = 0 if v['mailfrom'] == 1 else 120
            e = Engine(p, r); env = Env(); env.bind[(('write_file_to_disk',), 'A2')] = ('c', TIME)
            e.run('write_file_to_disk', (), env); r.extra = sorted(r.seqs, key=str); return e
        return f
    for c in product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1), (0, 1)):
        if (c[7] == 1 or c[3] == 2 or c[9]) and sum(c) > 2: continue
        jobs.append((''.join(map(str, c)), mk(c)))
    for k, var in enumerate(VAR):
        for c in ((1, 1, 1, 1, 1, 1, 1, 2, 1, 0), (1, 1, 1, 1, 1, 1, 1, 2, 0, 0)): jobs.append(('%s %d' % (''.join(map(str, c)), k), mk(c, var)))
    writer.var = VAR
    return names, jobs

def expected(v, K, fs):
    """tag -> attribute for this valuation"""
    e = [('S_HEADER_T', K['S_FILEVERSION'], None), ('S_USER_T', 'cf_user', None), ('S_TIMEDATE_T', '<time>', None), ('S_TZDIFF_T', 'cf_tzdiff', None), ('S_ENVVAR_T', 'e_envvar', None), ('S_ENVVAR_T', 'e_envvar2', None),
         ]; l = [         ('S_SHELL_T', 'cl_shell', None), ('S_RUNAS_T', 'cl_runas', None), ('S_MAILTO_T', 'cl_mailto', None), ('S_OPTION_T', 'cl_option', fs['cl_option']), ('S_NEXTEXE_T', 'cl_nextexe', None)]
    e, h = l, e
    if v['numexe']: e.append(('S_NUMEXE_T', 'cl_numexe', fs['cl_numexe']))
    if v['lavg']: e.append(('S_LAVG_T', 'cl_lavg', fs['cl_lavg']))
    if v['until']: e.append(('S_UNTIL_T', 'cl_until', None))
    if v['nice']: e.append(('S_NICE_T', 'cl_nice', fs['cl_nice']))
    if v['runfreq']: e += [('S_RUNFREQ_T', 'cl_runfreq', None), ('S_REMAIN_T', 'cl_remain', None)]
    if v['tz']: e.append(('S_TZ_T', 'cl_tz', None))
    if v['jitter']: e.append(('S_JITTER_T', 'cl_jitter', None))
    if v['mailfrom'] == 2: e.append(('S_MAILFROM_T', 'cl_mailfrom', None))
    if v['freq']: e += [('S_FIRST_T', 'cl_first', None), ('S_TIMEFREQ_T', 'cl_timefreq', None)]
    else: e += [('S_%s_T' % n, 'cl_' + n.lower(), fs['cl_' + n.lower()]) for n in ('MINS', 'HRS', 'DAYS', 'MONS', 'DOW')]
    e.append(('S_ENDLINE_T', None, 0))
    return [(K[a], b, c) for a, b, c in h + e * (1 + v['two'])]

MARK = 113      # fits the narrowest attribute
LEN = ('o', 'len')
class Reader(Rule):
    """read_file on one field of a given type: q = (fields delivered by read_type so far, attributes stored from data, last event)"""
    name = 'state reader'
    max_states = 24
    def __init__(self, types, K, version, fails=False):
        self.types = types; self.K = K; self.version = version; self.fails = fails; self.res = set(); self.reads = 0; self.bounds = set(); self.narrow = set(); self.adds = set(); self.cut = set()
    def is_event(self, prog, i):
        if i.op == 'store': f = core.field_of(i.ops[1]); return f is not None and f[1] in ('cl_t', 'cf_t') or i.ops[0].type.width == 8
        return i.op == 'call' and (i.cname in ('read_type', 'add_line_to_file', 'env_list_putenv', 'env_list_init', 'delete_file') or ext(prog, i, {'read', 'calloc', 'malloc'}))
    def enter(self, prog, f): return f.name not in ('read_type', 'add_line_to_file', 'env_list_putenv', 'delete_file', 'env_list_init', 'set_default_opt', 'fopen') and not f.noreturn and (f.file or '').endswith(('conf.c', 'mem.c', 'subs.c'))
    fixed = None; clsz = 0
    def put(self, q, name): return (q[0], q[1] | {name}, q[2])
    def stale(self, eng, q, f, i, v):
        pass
    def on_inst(self, eng, q, env, i, fr):
        ph, got, fl = q
        if i.op == 'store':
            f = core.field_of(i.ops[1])
            if i.ops[0].type.width == 8:
                p = eng.ptr(eng.ev(i.ops[1], env, fr)); ln = env.mem.get(('p', p[1], (LEN,))); g = i.ops[1]
                if ln is not None and ln[0] == 'op' and ln[1] == 'add' and p[2] and p[2][-1] == ('i', None) and isinstance(g, ir.Inst) and g.op == 'gep':
                    at = eng.ev(g.ops[-1], env, fr)
                    if at != ln[2] or eng.ev(i.ops[0], env, fr) != ('c', 0): self.cut.add((i.fn.name, i.loc))
                    else: return [Outcome((ph, got - {'<open>'}, fl))]
            if f is None or f[1] not in ('cl_t', 'cf_t'): return None
            v = eng.ev(i.ops[0], env, fr)
            if v == ('c', MARK):
                self.cast(i)
                return [Outcome((ph, got | {f[2]} | ({'<reused>'} if self.clsz and '<used>' in got and f[1] == 'cl_t' else set()), fl))]
            return None
        if i.op != 'call': return None
        n = i.cname
        if n == 'read_type':
            p = eng.ptr(eng.ev(i.args[1], env, fr)); z = eng.ptr(eng.ev(i.args[2], env, fr))
            if ph >= len(self.types): return [Outcome((ph, got, 'fail' if fl == 'fail' else 'end'), ret=av_const(self.K['ERR']))]
            sz = ('s', ('size',), 'z') if self.fixed is None or ph != 3 else ('c', self.fixed)
            def new(e, en):
                if sz[0] == 's': e.purge(sz, en)
                return True
            out = [Outcome((ph + 1, got, 'fail' if fl == 'fail' else 'ok'), ret=av_const(self.K['OK']), refine=new, setmem=[(p, ('c', self.types[ph])), (z, sz)])]
            if self.fails: out.append(Outcome((ph + 1, got, 'fail' if ph < 3 or fl == 'fail' else 'end'), ret=av_const(self.K['ERR'])))
            return out
        if ext(eng.prog, i, {'calloc', 'malloc'}):
            a = [eng.ev(x, env, fr) for x in i.args]
            ln = a[0] if n == 'malloc' or a[1] == ('c', 1) else a[1] if a[0] == ('c', 1) else eng.opterm('mul', a[0], a[1])
            s = ('s', fr, i.n)
            if self.clsz and ln == ('c', self.clsz): q = (ph, got - {'<used>'}, fl)
            def f(e, en, s=s, ln=ln):
                if ln is not None: en.mem[('p', s, (LEN,))] = ln; en._k = None
                return True
            if n == 'malloc' and ln is not None and ln[0] == 'op' and ln[1] == 'add': q = (q[0], q[1] | {'<open>'}, q[2])
            return [Outcome(q, ret=(1, INF, frozenset()), refine=f)]
        if ext(eng.prog, i, {'read'}):
            self.reads += 1
            d = eng.ev(i.args[1], env, fr); p = eng.ptr(d); z = eng.ev(i.args[2], env, fr); a = eng.av(z, env)
            self.bound(eng, env, i, p, z, a)
            ok = []; sm = []; name = None
            f = next((s for s in reversed(p[2]) if s[0] == 'f'), None)
            if f is not None and f[1] in ('cl_t', 'cf_t'): name = f[2]
            elif p[1][0] in ('a', 'g'):
                sm = [(p, ('c', self.version if ph == 1 else MARK))]
            else:
                for k, v in env.mem.items():
                    if v == p[1] or v == d:
                        g = next((s for s in reversed(k[2]) if s[0] == 'f'), None)
                        if g is not None and g[1] in ('cl_t', 'cf_t'): name = g[2]
                        elif k[1][0] == 'a' and name is None: name = '<string>'
            if self.fixed is not None:
                c = [x for x in got if x.startswith('<n:%d:' % ph)]; m = a[0] if a[0] == a[1] else 0
                got = frozenset(x for x in got if x not in c) | {'<n:%d:%d>' % (ph, (int(c[0].split(':')[2][:-1]) if c else 0) + int(m))} if m < 99 else got
            if name and self.clsz and '<used>' in got and f is not None and f[1] == 'cl_t': got = got | {'<reused>'}
            q2 = (ph, got | {name} if name else got, fl)
            out = [Outcome(q2, term=z, setmem=sm)]
            if self.fails:
                out.append(Outcome((ph, got, 'fail'), ret=av_const(-1)))
                def pos(e, en, z=z): return e.setav(z, (1, INF, frozenset()), en)
                out.append(Outcome((ph, got, 'fail'), ret=av_const(0), refine=pos))
            return out
        if n == 'add_line_to_file':
            self.adds.add((ph, fl)); keep = []
            t = eng.prog.target(i)
            for k, v in env.mem.items():       # attributes of the crontab no callee stores to
                if k[2] and k[2][-1][0] == 'f' and k[2][-1][1] == 'cf_t' and ('field', 'cf_t', k[2][-1][2]) not in eng.prog.mods(t.name): keep.append((k, v))
            def back(e, en, keep=keep):
                for k, v in keep: en.mem[k] = v
                en._k = None; return True
            return [Outcome((ph, got | {'<line>'} | ({'<used>'} | ({'<reused>'} if '<used>' in got else set()) if self.clsz else set()), fl), refine=back)]
        if n == 'env_list_init': return [Outcome(q, ret=(1, INF, frozenset()))]
        if n == 'env_list_putenv': return [Outcome((ph, got | {'<env>'}, fl))]
        if n == 'delete_file': return [Outcome((ph, got | {'<forget>'}, fl))]
        return None
    def cast(self, i):
        """a stored value must not go through a type narrower than the attribute"""
        v = i.ops[0]; w = v.type.width or 0
        while isinstance(v, ir.Inst) and v.op in ir.CASTS:
            if v.op == 'trunc' and v.type.width and v.type.width < w: self.narrow.add((core.field_of(i.ops[1])[2], i.loc))
            v = v.ops[0]
    def bound(self, eng, env, i, p, z, a):
        if p[1][0] == 'a' and not any(s[0] == 'f' for s in p[2]):
            fr, n = p[1][1], p[1][2]
            f = eng.prog.func(fr[-1]); lim = next((x.alloc.size for x in f.insts() if x.op == 'alloca' and x.n == n), None)
        else:
            f = next((s for s in reversed(p[2]) if s[0] == 'f'), None)
            lim = None if f is None or p[2][-1] != f else sizes(eng.prog, f[1]).get(f[2])
        if f is None or lim is None:
            ln = env.mem.get(('p', p[1], (LEN,)))
            ok = a[0] >= 0 and ln is not None and (ln == ('op', 'add', z, ('c', 1)) or (ln[0] == 'op' and ln[1] == 'add' and ln[2] == z and ln[3][0] == 'c' and ln[3][1] >= 1))
            what = 'the string read (and its end) fits the memory allocated for it'
        else:
            ok = 0 <= a[0] and a[1] <= lim; what = 'at most %d bytes are read' % lim
        self.bounds.add((i.fn.name, core.field_str(i.args[1]) if not isinstance(i.args[1], ir.Inst) or i.args[1].op == 'gep' or i.args[1].op == 'alloca' else '*' + (core.field_str(i.args[1].ops[0]) if i.args[1].op == 'load' else '?'), i.loc, what, ok, a[0], min(a[1], 1 << 40)))
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env) if eng.rv is not None else None
        self.res.add((q[0], tuple(sorted(q[1])), q[2], a[0] if a and a[0] == a[1] else None))
    def final(self): self.extra = (sorted(self.res, key=str), sorted(self.bounds), sorted(self.narrow), sorted(self.adds), sorted(self.cut)); return self

def run_reader(p, types, K, version, fails=False, clsz=0):
    def f():
        r = Reader(types, K, version, fails); r.clsz = clsz; e = Engine(p, r); e.run('read_file', (0, frozenset(), 'ok')); r.final(); return e
    return f

# attribute each type of field is loaded into
READ = {'S_TZDIFF_T': 'cf_tzdiff', 'S_TZ_T': 'cl_tz', 'S_SHELL_T': 'cl_shell', 'S_RUNAS_T': 'cl_runas', 'S_MAILFROM_T': 'cl_mailfrom', 'S_MAILTO_T': 'cl_mailto', 'S_NEXTEXE_T': 'cl_nextexe', 'S_FIRST_T': 'cl_first',
        'S_OPTION_T': 'cl_option', 'S_NUMEXE_T': 'cl_numexe', 'S_LAVG_T': 'cl_lavg', 'S_UNTIL_T': 'cl_until', 'S_NICE_T': 'cl_nice', 'S_RUNFREQ_T': 'cl_runfreq', 'S_REMAIN_T': 'cl_remain', 'S_TIMEFREQ_T': 'cl_timefreq',
        'S_JITTER_T': 'cl_jitter', 'S_MINS_T': 'cl_mins', 'S_HRS_T': 'cl_hrs', 'S_DAYS_T': 'cl_days', 'S_MONS_T': 'cl_mons', 'S_DOW_T': 'cl_dow'}

def tags(ctx):
    N = opts.macro_names(ctx.work, r'S_[A-Z]+_T'); K = opts.consts(ctx.work, N + ['S_FILEVERSION', 'OK', 'ERR', 'OPTION_SIZE', 'sizeof(struct cl_t)'])
    for n in list(READ) + ['S_HEADER_T', 'S_USER_T', 'S_TIMEDATE_T', 'S_ENVVAR_T', 'S_ENDLINE_T']: ctx.need(n in K, 'no constant %s' % n)
    return N, K

def roundtrip(ctx):
    """Rule: for each of the combinations of conditions on which an attribute is left out, the sequence of (type, attribute, size) written for a crontab is the documented one, begins with version, owner and save time and ends each line with the end mark; for each type of field the reader stores what it read into exactly the attribute the writer took it from, whole; types are pairwise distinct."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); N, K = tags(ctx)
    ctx.ob('types are distinct', len({K[n] for n in N}) == len(N), 'save.h', 'two types of fields have the same number')
    fs = sizes(p, 'cl_t'); ctx.need(fs.get('cl_option'), 'no layout of cl_t')
    for b in ('fcron', 'fcrontab'):
        pb = ctx.prog(b); fb = sizes(pb, 'cl_t')
        names, jobs = writer(ctx, pb, K, t)
        for label, got in ctx.engines(jobs):
            bits, _, k = label.partition(' '); v = dict(zip(names, map(int, bits))); var = writer.var[int(k)] if k else {}
            def same(b): return BACK.get(var[b], var[b]) if b in var else b
            want = [(a, same(b) if c is None else b, c) for a, b, c in expected(v, K, fb)]
            inv = {K[n]: n for n in N}
            for seq in got:
                s = [x for x in seq if x[0] not in ('write_buf_to_disk', 'sync')]
                lab = '%s: %s' % (b, ' '.join(['%s=%d' % x for x in zip(names, map(int, bits))] + ['%s=%d' % x for x in var.items()]))
                miss = [x for x in want if x not in s]; more = [x for x in s if x not in want or s.count(x) != want.count(x)]
                def nm(l): return ', '.join('%s<-%s%s' % (inv.get(x[0], x[0]), x[1], '' if x[2] is None else '[%s]' % x[2]) for x in l) or 'none'
                ctx.ob('%s saved' % lab, not miss and not more, 'write_file_to_disk', 'missing: %s; unexpected: %s (%s)' % (nm(miss), nm(more), lab))
                ctx.ob('%s order' % lab, [x[0] for x in s[:3]] == [K['S_HEADER_T'], K['S_USER_T'], K['S_TIMEDATE_T']] and s[-1:] and s[-1][0] == K['S_ENDLINE_T']
                       and all(s.index(x) < min([s.index(y) for y in s if isinstance(y[1], str) and y[1].startswith('cl_')] or [99]) for x in s if x[1] in ('cf_tzdiff', 'e_envvar', 'e_envvar2')), 'write_file_to_disk', 'fields are not in the order the reader relies on (%s)' % lab)
            ctx.ob('%s %s one outcome' % (b, label), len(got) == 1, 'write_file_to_disk', 'the fields written depend on something else than the attributes they hold (%s)' % label)
    jobs = []
    H = [K['S_HEADER_T'], K['S_USER_T'], K['S_TIMEDATE_T']]
    for n, a in READ.items(): jobs.append((n, run_reader(p, H + [K[n]], K, K['S_FILEVERSION'])))
    E2 = [K['S_SHELL_T'], K['S_ENDLINE_T']]
    jobs.append(('two lines', run_reader(p, H + E2 + E2, K, K['S_FILEVERSION'], clsz=K['sizeof(struct cl_t)'])))
    jobs.append(('S_ENVVAR_T', run_reader(p, H + [K['S_ENVVAR_T']], K, K['S_FILEVERSION']))); jobs.append(('S_ENDLINE_T', run_reader(p, H + [K['S_ENDLINE_T']], K, K['S_FILEVERSION'])))
    for label, (res, bounds, narrow, adds, cut) in ctx.engines(jobs):
        full = [r for r in res if r[2] == 'end' and r[3] == K['OK']]
        if label == 'two lines':
            ctx.ob('each line is a new line', full and not any('<reused>' in r[1] for r in full), 'read_file', 'after the end of a line, the fields of the next line are loaded into the line already added')
            continue
        ctx.ob('%s is accepted' % label, bool(full), 'read_file', 'a field of type %s is never accepted' % label)
        for r in full:
            g = set(r[1]) - {'cf_user', '<string>', '<open>'}; want = {READ[label]} if label in READ else {'<env>'} if label == 'S_ENVVAR_T' else {'<line>'}
            if label == 'S_ENVVAR_T' and not g: continue          # USER and LOGNAME are ignored
            ctx.ob('%s -> %s' % (label, ', '.join(sorted(want))), g == want, 'read_file', 'a field of type %s is loaded into %s' % (label, ', '.join(sorted(g)) or 'nothing'))
        for f, loc in cut: ctx.ob('%s: text loaded as it was saved' % f, False, loc, 'a byte of a text just read is overwritten (its end mark belongs right after what was read)')
        ctx.ob('%s: texts have an end' % label, not any('<open>' in r[1] for r in full), 'read_file', 'a text is loaded without its end mark')
        for f, loc in narrow: ctx.ob('%s not truncated' % f, False, loc, 'the value read for %s goes through a narrower type' % f)
