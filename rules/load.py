"""Loading binary crontabs: what is refused, what is overridden, what is left behind on error."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core, opts, ir
from .common import ext, fld, gvar, Val, holds
from .persist import Reader, READ, tags, run_reader, sizes

class Undo(Reader):
    """Reader which also tracks what a failed load leaves behind. got may hold '<line>', '<env>'; q[2]: ok/fail/end"""
    name = 'failed load'
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'call' and i.cname == 'delete_file':
            fb = env.mem.get(('p', ('g', 'file_base'), ())); cf = ('s', ('read_file',), 'A1')
            if fb is not None and fb[0] == 'p' and fb[1] == cf and not fb[2]: fb = cf
            if fb != cf: eng.report(i, 'the failed crontab is not the first of the list when it is removed: another one of the same user could be removed instead', eng.trace, key='undo:first')
            nx = env.mem.get(('p', cf, (('f', 'cf_t', 'cf_next'),)))
            if nx is None or nx == cf or nx == ('c', 0): eng.report(i, 'the crontabs already loaded are lost when a failed one is removed', eng.trace, key='undo:rest')
        return Reader.on_inst(self, eng, q, env, i, fr)

def malformed(ctx):
    """Rule: every read() of a crontab file stores at most the bytes of its destination; on every path on which a field cannot be read, or version, owner and save time are not the first three fields, loading reports failure; whatever was loaded from it before is removed, and only that; a reader of type and size succeeds only if both were read."""
    p = ctx.prog('fcron'); N, K = tags(ctx)
    H = [K['S_HEADER_T'], K['S_USER_T'], K['S_TIMEDATE_T']]; V = K['S_FILEVERSION']; junk = max(K[n] for n in N) + 77
    def run(types, version, fails=True, fixed=None):
        def f():
            r = Undo(types, K, version, fails); r.fixed = fixed; e = Engine(p, r); e.run('read_file', (0, frozenset(), 'ok')); r.final(); return e
        return f
    jobs = [('after a line: ' + n, run(H + [K['S_ENDLINE_T'], K[n]], V)) for n in list(READ) + ['S_ENVVAR_T', 'S_ENDLINE_T']]
    jobs += [('unknown field', run(H + [junk, K['S_ENDLINE_T']], V)), ('other version', run(H, V + 1)), ('older version', run(H, V - 1))]
    for k in range(3):
        for o in (H[(k + 1) % 3], K['S_ENDLINE_T'], junk): jobs.append(('field %d is of type %d' % (k + 1, o), run(H[:k] + [o] + H[k + 1:], V)))
    # each field is followed by exactly the number of bytes it announces
    fz = [(n, K[n], z) for n in list(READ) + ['S_ENVVAR_T'] for z in (1,)] + [('unknown', junk, z) for z in (0, 1, 2, 5)]
    for label, (res, bounds, narrow, adds, _) in ctx.engines([('%s of %d bytes' % (n, z), run(H + [k, K['S_ENDLINE_T']], V, False, z)) for n, k, z in fz]):
        z = int(label.split()[-2])
        for ph, got, fl, rv in res:
            if rv != K['OK'] or ph < 5: continue
            c = [x for x in got if x.startswith('<n:4:')]; m = int(c[0].split(':')[2][:-1]) if c else 0
            ctx.ob('%s: the next field is found' % label, m == z, 'read_file', '%d bytes are read: the next field is looked for at a wrong place (%s)' % (m, label))
    nb = 0
    for label, (res, bounds, narrow, adds, _) in ctx.engines(jobs):
        for f, dst, loc, what, ok, lo, hi in bounds:
            nb += 1; ctx.ob('%s: read into %s' % (f, dst), ok, loc, 'it is not certain that %s: the size read from the file may be %s..%s' % (what, lo if lo > -(1 << 40) else 'anything', hi))
        bad = label.startswith(('other', 'older', 'field'))
        for ph, got, fl, rv in res:
            if bad: ctx.ob('%s: refused' % label, rv == K['ERR'] and '<line>' not in got, 'read_file', 'a crontab file whose first fields are wrong (%s) is not refused' % label)
            elif fl == 'fail': ctx.ob('%s: failure reported' % label, rv == K['ERR'], 'read_file', 'a field which could not be read does not make the load fail (%s)' % label)
            if rv == K['ERR'] and ('<line>' in got or '<env>' in got): ctx.ob('%s: undone' % label, '<forget>' in got, 'read_file', 'jobs or variables of a crontab which could not be loaded stay in memory (%s)' % label)
            if rv == K['OK']: ctx.ob('%s: kept' % label, '<forget>' not in got, 'read_file', 'a crontab loaded successfully is removed (%s)' % label)
    ctx.need(nb > 20, 'no read() found in read_file')
    # read_type
    class RT(Rule):
        name = 'read_type'
        def is_event(self, prog, i): return ext(prog, i, {'read'})
        def on_inst(self, eng, q, env, i, fr):
            if not self.is_event(eng.prog, i): return None
            z = eng.ev(i.args[2], env, fr); a = eng.av(z, env); ctx.ob('read_type: size', a == av_const(2) or a == av_const(4), i.loc, 'type and size are not read whole')
            d = eng.ptr(eng.ev(i.args[1], env, fr)); n = d[1][2] if d[1][0] == 's' else None
            return [Outcome(q + (n,), term=z), Outcome('fail', ret=av_const(-1)), Outcome('fail', ret=av_const(0)), Outcome('fail', ret=av_const(1))] if q != 'fail' else [Outcome('fail')]
        def on_exit(self, eng, q, env, inst, fr):
            a = eng.av(eng.rv, env)
            ctx.ob('read_type: complete', a != av_const(K['OK']) or q != 'fail' and set(q) >= {'A1', 'A2'}, inst.loc, 'reports success although type or size was not read')
            if a == av_const(K['OK']): self.okay = True
    r = RT(); r.okay = False; e = Engine(p, r); e.run('read_type', ()); ctx.engine(e, 'read_type'); ctx.ob('read_type: succeeds', r.okay, 'read_type', 'never succeeds')

class Owner(Rule):
    """identity under which the lines of a file are loaded: q = (new file?, owned by root?, checks on the variable being loaded)"""
    name = 'file owner'
    max_states = 3
    UID = 501; PW = 600001; NAME = 600002
    def __init__(self, K): self.K = K; self.lines = 0; self.puts = 0; self.res = set()
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ('read_type', 'add_line_to_file', 'env_list_putenv', 'strcmp_until', 'strdup2', 'read_strn') or ext(prog, i, {'strncmp', 'fstat', 'stat', 'lstat', 'getpwuid', 'fopen', 'fileno'}))
    def enter(self, prog, f): return f.name not in ('read_type', 'add_line_to_file', 'env_list_putenv', 'strcmp_until', 'strdup2', 'read_strn') and not f.noreturn and (f.file or '').endswith('conf.c')
    def on_inst(self, eng, q, env, i, fr):
        new, root, var = q
        if i.op == 'load':
            g = gvar(i.ops[0])
            if g == 'rootuid': return [Outcome(q, term=('c', 0))]
            if fld(i.ops[0], 'pw_name') and eng.ptr(eng.ev(i.ops[0], env, fr))[1] == ('c', self.PW): return [Outcome(q, term=('c', self.NAME))]
            return None
        if i.op != 'call': return None
        n = i.cname
        if n == 'strncmp' and 'new.' in (core.const_str(i.args[0]), core.const_str(i.args[1])):
            if new is not None: return [Outcome(q, ret=av_const(0 if new else 1))]
            ok = eng.av(eng.ev(i.args[2], env, fr), env) == av_const(4)
            if not ok: eng.report(i, 'new files are not recognised by the whole prefix "new."', eng.trace, key='owner:prefix')
            return [Outcome((True, root, var), ret=av_const(0)), Outcome((False, root, var), ret=av_const(1))]
        if n == 'fileno': return [Outcome(q, term=('s', ('fd',), eng.ev(i.args[0], env, fr)))]
        if n == 'fopen': return [Outcome(q, ret=av_const(0)), Outcome(q, term=('s', ('file',), 'ff'), ret=(1, INF, frozenset()))]
        if n == 'fstat':
            if eng.ev(i.args[0], env, fr) != ('s', ('fd',), ('s', ('file',), 'ff')): return None
            b = eng.ptr(eng.ev(i.args[1], env, fr)); P = ('p', b[1], b[2] + (('f', 'stat', 'st_uid'),))
            return [Outcome((new, 'fail', var), ret=av_const(-1))] + [Outcome((new, r, var), ret=av_const(0), setmem=[(P, ('c', 0 if r else self.UID))]) for r in (True, False)]
        if n == 'getpwuid':
            a = eng.av(eng.ev(i.args[0], env, fr), env)
            if a == av_const(self.UID): return [Outcome((new, 'fail', var), ret=av_const(0)), Outcome(q, term=('c', self.PW))]
            return None
        if n == 'strdup2':
            t = eng.ev(i.args[0], env, fr)
            return [Outcome(q, term=('c', t[1] + 1000000))] if t[0] == 'c' and t[1] else None
        if n == 'read_type': return [Outcome((new, root, ()), ret=av_const(self.K['OK'])), Outcome((new, root, ()), ret=av_const(self.K['ERR']))]
        if n == 'read_strn':
            p = eng.ptr(eng.ev(i.args[1], env, fr))
            return [Outcome(q, ret=av_const(self.K['OK']), setmem=[(p, ('s', ('str',), 'loaded'))]), Outcome((new, 'fail', var), ret=av_const(self.K['ERR']))]
        if n == 'strcmp_until':
            s = [core.const_str(a) for a in i.args[:2]]; w = next((x for x in s if x), None); c = eng.av(eng.ev(i.args[2], env, fr), env)
            if w in ('USER', 'LOGNAME') and c == av_const(ord('=')): return [Outcome((new, root, 'forbidden'), ret=av_const(0)), Outcome((new, root, var + (w,) if isinstance(var, tuple) else var), ret=av_const(1))]
            return None
        if n == 'env_list_putenv':
            self.puts += 1
            if var == 'forbidden' or set(var) != {'USER', 'LOGNAME'}: eng.report(i, 'a crontab may set USER or LOGNAME', eng.trace, key='owner:env')
            return None
        if n == 'add_line_to_file':
            self.lines += 1
            a = eng.av(eng.ev(i.args[2], env, fr), env); s = eng.ev(i.args[3], env, fr)
            if new is None or root is None: eng.report(i, 'a job is loaded although the owner of the file or its kind is not known', eng.trace, key='owner:unknown'); return None
            if root == 'fail': eng.report(i, 'a job is loaded although finding out the owner failed', eng.trace, key='owner:failed'); return None
            if not new and not root: eng.report(i, 'jobs are loaded from a file the daemon trusts which is not owned by root', eng.trace, key='owner:untrusted')
            elif root and a != av_const(0): eng.report(i, 'the run-as account of a file owned by root is overridden', eng.trace, key='owner:root')
            elif new and not root:
                if a != av_const(self.UID) or s != ('c', self.NAME + 1000000): eng.report(i, 'jobs of a file owned by a user are not bound to that user', eng.trace, key='owner:user')
                cu = env.mem.get(('p', ('s', ('read_file',), 'A1'), (('f', 'cf_t', 'cf_user'),)))
                if cu != ('c', self.NAME + 1000000): eng.report(i, 'the crontab of a user is not attributed to the owner of the file', eng.trace, key='owner:cf_user')
            return None
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env)
        if q[1] == 'fail' and a != av_const(self.K['ERR']): eng.report(inst, 'loading succeeds although the owner of the file could not be found', eng.trace, key='owner:ok-fail')
        if q[0] is False and q[1] is False and a != av_const(self.K['ERR']): eng.report(inst, 'a file the daemon trusts which is not owned by root is accepted', eng.trace, key='owner:untrusted')

STR = {'cl_shell': 90100, 'cl_runas': 90200, 'cl_mailto': 90300, 'cl_mailfrom': 90400}
RUNAS, USER, LEN = 91000, 91100, 10
UNSAFE = ' \t\n;|'
class Line(Val):
    """add_line_to_file for one valuation; strings are opaque identities, dup of identity k is k + 1000000"""
    name = 'line admission'
    max_states = 4
    def setup(self, kinds): self.kinds = kinds; self.out = set(); return self
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ('set_next_exe_startup', 'strdup2') or ext(prog, i, {'strcspn', 'strpbrk', 'strlen', 'strcmp'})) or i.op == 'store' and (fld(i.ops[1], 'cf_line_base'))
    def enter(self, prog, f): return f.name not in ('set_next_exe_startup', 'strdup2') and not f.noreturn
    def sid(self, v):
        v %= 1000000; return self.kinds.get(v // 100 * 100), v % 100
    def char(self, k, o): return 0 if o >= (0 if k == 'empty' else LEN) else ord('-') if k == 'dash' and o == 0 else ord(k[3:]) if isinstance(k, str) and k.startswith('has') and o == 4 else ord('a')
    def attrs(self, eng, env):
        A0 = ('s', ('add_line_to_file',), 'A0'); o = []
        for n in ('cl_runas', 'cl_mailto', 'cl_mailfrom', 'cl_timefreq', 'cl_file'):
            v = env.mem.get(('p', A0, (('f', 'cl_t', n),)))
            o.append(None if v is None else v[1] if v[0] == 'c' else 'cf' if v == ('s', ('add_line_to_file',), 'A1') else '?')
        return tuple(o)
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            if gvar(i.ops[0]) == 'rootuid': return [Outcome(q, term=('c', 0))]
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p[1][0] == 'c' and i.type.width == 8 and all(x[0] == 'i' and x[1] is not None for x in p[2]):
                k, o = self.sid(p[1][1] + sum(x[1] for x in p[2]))
                return [Outcome(q, term=('c', self.char(k, o)))] if o <= LEN else None
            if fld(i.ops[0], 'cf_user') and p not in env.mem: return [Outcome(q, term=('c', USER), setmem=[(p, ('c', USER))])]
            return self.loads(eng, q, env, i, fr)
        if i.op == 'store':
            if fld(i.ops[1], 'cf_line_base'): return [Outcome(q + (('link',),))]
            return None
        if i.op != 'call': return None
        n = i.cname
        if n == 'strdup2':
            t = eng.ev(i.args[0], env, fr); return [Outcome(q, term=('c', t[1] + 1000000))] if t[0] == 'c' else None
        if n == 'set_next_exe_startup': return [Outcome(q + (('sched', self.attrs(eng, env)),))]
        if n in ('strlen', 'strcspn', 'strpbrk'):
            t = eng.ev(i.args[0], env, fr)
            if t[0] != 'c' or not t[1]: return None
            k, o = self.sid(t[1]); L = 0 if k == 'empty' else LEN
            if n == 'strlen': return [Outcome(q, term=('c', L - o))]
            s = core.const_str(i.args[1]) or ''
            hit = next((x for x in range(o, L) if chr(self.char(k, x)) in s), None)
            if n == 'strpbrk': return [Outcome(q, term=('c', t[1] + hit - o if hit is not None else 0))]
            return [Outcome(q, term=('c', (hit if hit is not None else L) - o))]
        if n == 'strcmp':
            ids = [eng.ev(x, env, fr) for x in i.args[:2]]
            if all(x[0] == 'c' for x in ids) and ids[0][1] % 1000000 == ids[1][1] % 1000000: return [Outcome(q, term=('c', 0))]
            if {x[1] % 1000000 for x in ids if x[0] == 'c'} == {STR['cl_runas'], RUNAS} and (('same',) in q or ('other',) in q): return [Outcome(q, term=('c', 0 if ('same',) in q else 1))]
            if {eng.ev(x, env, fr) for x in i.args[:2]} == {('c', STR['cl_runas']), ('c', RUNAS)} and ('same',) not in q and ('other',) not in q: return [Outcome((('same',),) + q, ret=av_const(0)), Outcome((('other',),) + q, ret=av_const(1))]
            return None
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env)
        self.out.add((q, self.attrs(eng, env), a == av_const(0) if a[0] == a[1] else None))

def admitted(ctx):
    """Rule: which account and crontab the jobs of a file are bound to follows the ownership of the opened file on every path; a line without command, run-as account or mail address is refused; for every combination of unsafe mail addresses, run-as account and period a line is only scheduled and linked with the overridden attributes."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); N, K = tags(ctx)
    r = Owner(K); e = Engine(p, r); e.run('read_file', (None, None, ())); ctx.engine(e, 'read_file'); ctx.need(r.lines and r.puts, 'no line or variable loaded in read_file')
    for k in ('untrusted', 'unknown', 'failed', 'root', 'user', 'cf_user', 'env', 'ok-fail', 'prefix'): ctx.ob('owner:' + k, ('owner:' + k) not in e.reports, 'read_file', e.reports.get('owner:' + k, (0, 'ok', 0))[1])
    jobs = []; want = {}
    def add(label, null, uid, kinds, td, tf, w):
        def f():
            fields = {n: (0 if n in null else v) for n, v in STR.items()}; fields['cl_timefreq'] = tf; fields['cl_nextexe'] = 5
            r = Line(t, {'freq': 0 if td else 1}, fields).setup({STR[k]: v for k, v in kinds.items()}); e = Engine(p, r); env = Env(); F = ('add_line_to_file',)
            env.bind[(F, 'A2')] = ('c', uid); env.bind[(F, 'A3')] = ('c', RUNAS)
            for n, v in fields.items(): env.mem[('p', ('s', F, 'A0'), (('f', 'cl_t', n),))] = ('c', v)
            e.run('add_line_to_file', (), env); r.extra = sorted(r.out, key=str); return e
        want[label] = w; jobs.append((label, f))
    for null in product((0, 1), repeat=3):
        if not any(null): continue
        s = {n for n, x in zip(('cl_shell', 'cl_runas', 'cl_mailto'), null) if x}
        for uid in (0, 501): add('without %s uid %d' % (', '.join(sorted(s)), uid), s | {'cl_mailfrom'}, uid, {}, 1, 10, None)
    D = 1000000
    KIND = ['safe', 'dash'] + ['has' + c for c in UNSAFE]
    def add2(uid, mf, mt, td, tf):
        w = (STR['cl_runas'] if uid == 0 else RUNAS + D, STR['cl_mailto'] if mt == 'safe' else USER + D, 0 if mf != 'safe' else STR['cl_mailfrom'], tf if td or tf >= 1 else 'positive', 'cf')
        add('uid %d mailfrom %r mailto %r %s timefreq %d' % (uid, mf, mt, 'td' if td else 'freq', tf), {'cl_mailfrom'} if mf is None else set(), uid, {'cl_mailfrom': mf, 'cl_mailto': mt}, td, tf, w)
    for uid in (0, 501):
        for mf, mt in product([None] + KIND, KIND): add2(uid, mf, mt, 1, 0)
        for td, tf in product((0, 1), (-5, -1, 0, 1, 60)): add2(uid, None, 'safe', td, tf)
    for label, got in ctx.engines(jobs):
        w = want[label]
        for q, at, zero in got:
            if w is None: ctx.ob(label + ': refused', zero is False and not [x for x in q if x[0] in ('sched', 'link')], 'add_line_to_file', 'a line %s is not refused' % label); continue
            tf = 1 if w[3] == 'positive' else w[3]      # (attributes the scheduling may update are not compared)
            same = ('same',) in q; q = tuple(x for x in q if x[0] in ('sched', 'link'))
            def ok(a): return (a[0] == w[0] or same and a[0] in (STR['cl_runas'], RUNAS + D, RUNAS)) and a[1:3] == w[1:3] and a[4] == 'cf' and (isinstance(a[3], int) and a[3] >= 1 if w[3] == 'positive' else a[3] == w[3])
            names = [x[0] for x in q]
            ctx.ob(label + ': accepted', zero is True and names == ['sched', 'link'], 'add_line_to_file', 'the line is not scheduled and linked once each (%s)' % label)
            for x in q:
                if x[0] == 'sched': ctx.ob(label + ': when scheduled', ok(x[1]), 'add_line_to_file', 'scheduled with runas, mailto, mailfrom, period, crontab = %s (%s)' % (x[1], label))
            ctx.ob(label + ': result', ok(tuple(a if a is not None else tf if k == 3 else b for k, (a, b) in enumerate(zip(at, w)))), 'add_line_to_file', 'loaded with runas, mailto, mailfrom, period, crontab = %s, expected %s (%s)' % (at, w, label))
        ctx.ob(label + ': decided', len(got) >= 1, 'add_line_to_file', 'no outcome')
