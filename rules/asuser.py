"""Opening, removing and renaming files with the rights of somebody else."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has, ERRNO
from sa import core, opts
from .common import ext, fld, gvar

U, G, OU, OG = 500, 600, 50, 60
OWN = {'open_as_user', 'rename_as_user', 'remove_as_user'}
OPENS = {'open', 'open64', 'openat', 'creat'}; SYS = OPENS | {'remove', 'unlink', 'rename', 'renameat', 'stat', 'lstat'}
class AsUser(Rule):
    """q = (euid, egid, state of the descriptor: '', open, bad (not a regular file with one link), unknown, closed; syscall done, failed)"""
    name = 'as user'
    max_states = 32
    def __init__(self, root, uarg, names): self.root = root; self.names = names; self.n = 0; self.good = 0; self.fails = 0
    EV = {'xclose', 'xclose_check'}
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.EV or ext(prog, i, SYS | {'close', 'fstat', 'geteuid', 'getegid', 'seteuid', 'setegid', 'setresuid', 'setresgid', 'setreuid', 'setregid'}))
    def enter(self, prog, f): return f.name not in self.EV and not f.noreturn and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        eu, eg, fd, done = q; n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; rep = lambda k, m: eng.report(i, m, eng.trace, key='as:' + k)
        if n == 'geteuid': return [Outcome(q, term=('c', eu) if isinstance(eu, int) else ('s', ('id',), eu))]
        if n == 'getegid': return [Outcome(q, term=('c', eg) if isinstance(eg, int) else ('s', ('id',), eg))]
        if n in ('seteuid', 'setegid', 'setresuid', 'setresgid', 'setreuid', 'setregid'):
            v = a[1 if 're' in n else 0]; v = v[1] if v[0] == 'c' else '?'
            if 're' in n: rep('real', 'changes more than the effective id: it cannot be restored')
            u = n.endswith('uid'); failed = (eu, eg, fd, 'nosw' + ('' if not done else '!'))
            return [Outcome((v, eg, fd, done) if u else (eu, v, fd, done), ret=av_const(0)), Outcome(failed, ret=av_const(-1))]
        if n in SYS:
            if n in ('stat', 'lstat'): return None
            self.n += 1
            if isinstance(done, str) and done.startswith('nosw') or (eu, eg) != (U, G): rep('rights', '%s() is called with euid %s and egid %s instead of those asked for' % (n, 'of the caller' if eu == OU else eu, 'of the caller' if eg == OG else eg))
            if done: rep('twice', 'the operation is done twice')
            for k, (x, w) in enumerate(zip(a, self.names)):
                if x != w: rep('args', '%s() is not called with what was asked for (argument %d)' % (n, k + 1))
            if n in OPENS: return [Outcome((eu, eg, '', 'failed'), ret=av_const(-1), setmem=[(ERRNO, ('c', 2))]), Outcome((eu, eg, 'open', 'ok'), term=('c', 7))]
            return [Outcome((eu, eg, '', 'failed'), ret=av_const(-1), setmem=[(ERRNO, ('c', 2))]), Outcome((eu, eg, '', 'ok'), ret=av_const(0))]
        if n == 'fstat':
            if a[0] != ('c', 7): return None
            p = eng.ptr(a[1]); P = lambda f: ('p', p[1], p[2] + (('f', 'stat', f),))
            out = [Outcome((eu, eg, 'unknown', done), ret=av_const(-1))]
            for m, l in product((0o100644, 0o040755, 0o010644, 0o060644, 0o020644), (0, 1, 2)):
                out.append(Outcome((eu, eg, 'checked' if m == 0o100644 and l == 1 else 'bad', done), ret=av_const(0), setmem=[(P('st_mode'), ('c', m)), (P('st_nlink'), ('c', l))]))
            return out
        if n in ('xclose', 'xclose_check', 'close'):
            x = a[0]
            if n != 'close':
                p = eng.ptr(x); v = env.mem.get(p)
                return [Outcome((eu, eg, 'closed' if v == ('c', 7) else fd, done), ret=av_const(0), setmem=[(p, ('c', -1))]), Outcome((eu, eg, 'closed' if v == ('c', 7) else fd, done), ret=av_const(-1), setmem=[(p, ('c', -1))])]
            return [Outcome((eu, eg, 'closed' if x == ('c', 7) else fd, done), ret=av_const(0))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        eu, eg, fd, done = q; v = eng.av(eng.rv, env); rep = lambda k, m: eng.report(inst, m, eng.trace, key='as:' + k)
        if (eu, eg) != (OU, OG): rep('restore', 'the effective ids of the caller are not restored (euid %s, egid %s)' % ('kept' if eu == OU else eu, 'kept' if eg == OG else eg))
        if self.root == 'open_as_user':
            ok = v == av_const(7)
            if ok: self.good += 1
            if av_has(v, 7) and fd != 'checked': rep('kind', 'returns a file %s' % {'bad': 'which is not a regular file with a single link', 'unknown': 'whose kind is not known', 'open': 'whose kind was not checked'}.get(fd, fd))
            if fd == 'checked' and not ok: rep('refused', 'refuses a regular file')
            if fd in ('bad', 'unknown', 'open') and not ok: rep('leak', 'a file which is not returned is left open')
            if not ok and not (v[0] < 0 and v[1] < 0): rep('value', 'returns no error although no file is returned')
        else:
            if done == 'ok' and v == av_const(0): self.good += 1
            if done == 'ok' and v != av_const(0) or done != 'ok' and av_has(v, 0): rep('value', 'the value returned does not tell whether the operation succeeded')
        if done == 'failed':
            self.fails += 1
            if self.root == 'open_as_user' and env.mem.get(ERRNO) != ('c', 2): rep('errno', 'the reason of the failure (errno) is lost')

def files(ctx):
    """Rule: on every path of the functions acting as somebody else: the one system call which acts is done with exactly the effective user and group asked for and the arguments given, both ids of the caller are back on every return, open returns only a regular file with one link, closes what it refuses, and keeps errno."""
    for b in ('fcron', 'fcrontab'):
        p = ctx.prog(b)
        for root, u, names in (('open_as_user', 1, 1), ('remove_as_user', 1, 1), ('rename_as_user', 2, 2)):
            if root not in p.funcs: ctx.need(b == 'fcron' and root == 'rename_as_user' or root in p.funcs, 'no function ' + root); continue
            F = (root,); want = [('s', F, 'A%d' % k) for k in range(names)]
            variants = [('', None)] if root != 'open_as_user' else [('reading', 0), ('creating', 0o101), ('creating exclusively', 0o1301)]
            for lab, fl in variants:
                env = Env(); env.bind[(F, 'A%d' % u)] = ('c', U); env.bind[(F, 'A%d' % (u + 1))] = ('c', G)
                w = list(want)
                if fl is not None: env.bind[(F, 'A3')] = ('c', fl); w = w + [('c', fl)]
                r = AsUser(root, u, w); e = Engine(p, r); e.run(root, (OU, OG, '', ''), env); l = '%s: %s%s' % (b, root, ' ' + lab if lab else ''); ctx.engine(e, root, l)
                ctx.need(r.n, '%s does nothing' % root)
                ctx.ob(l + ': succeeds', r.good, root, 'never succeeds'); ctx.ob(l + ': may fail', r.fails, root, 'a failure is not reported')
                for k in ('real', 'rights', 'twice', 'args', 'restore', 'kind', 'refused', 'leak', 'value', 'errno'): ctx.ob('%s: %s' % (l, k), 'as:' + k not in e.reports, root, e.reports.get('as:' + k, (0, 'ok', 0))[1])
    p = ctx.prog('fcrontab'); inside = set(OWN)
    for _ in range(4): inside |= {f.name for f in p.funcs.values() if p.callers.get(f.name) and all(c.fn.name in inside for c in p.callers[f.name])}
    raw = [(f.name, i.loc, i.cname) for f in p.funcs.values() for i in f.insts() if ext(p, i, {'open', 'open64', 'creat', 'rename', 'fopen'}) and f.name not in inside and (f.file or '').endswith(('fcrontab.c', 'save.c', 'subs.c'))]
    ctx.ob('fcrontab: no other way to open files', not raw, raw[0][1] if raw else '', 'fcrontab %s' % ', '.join('calls %s() in %s' % (c, f) for f, l, c in raw))
