"""Typestate over every path of the daemon from main() to a program execution (fork, PAM, privilege-drop and exec calls are the events; helpers are entered in context)."""
from sa.engine import Engine, Rule, Outcome, av_const, INF, ORIG
from sa import core

EXECS = {'execle', 'execl', 'execlp', 'execv', 'execve', 'execvp', 'execvpe', 'fexecve', 'posix_spawn', 'posix_spawnp', 'system', 'popen'}
DROP = {'initgroups', 'setgroups', 'setgid', 'setuid', 'setresuid', 'setresgid', 'setreuid', 'setregid', 'seteuid', 'setegid'}
PAM = {'pam_start': 's', 'pam_authenticate': 'a', 'pam_acct_mgmt': 'm', 'pam_setcred': 'c', 'pam_open_session': 'o', 'pam_end': 'e', 'pam_close_session': 'x'}
NONNEG = av_const(0)

def ext(prog, i, names): return i.op == 'call' and i.cname in names and prog.target(i) is None

def origin_field(eng, t, env, fields):
    """base object of the cl_t/passwd field a value was loaded from"""
    o = eng.origin_of(t, env)
    if o is not None and o[2] and o[2][-1][0] == 'f' and o[2][-1][2] in fields:
        return (o[2][-1][2], o[1], o[2][:-1])
    for k, v in env.mem.items():
        if v == t and k[2] and k[2][-1][0] == 'f' and k[2][-1][2] in fields: return (k[2][-1][2], k[1], k[2][:-1])
    return None

def who(eng, env, b):
    """canonical name of an object: where its pointer came from, if known"""
    o = eng.origin_of(b, env)
    return o if o is not None else b

def kind_of_exec(eng, i, env, fr):
    """('job'|'mail'|'other', line object) by what is handed to the new program"""
    for a in i.args:
        o = origin_field(eng, eng.ev(a, env, fr), env, ('cl_shell', 'cl_mailto'))
        if o: return ('job' if o[0] == 'cl_shell' else 'mail', (o[1], o[2]))
    return ('other', None)

ORF = {'cl_runas', 'cl_shell', 'cl_mailto', 'pw_uid', 'pw_gid', 'pw_name', 'e_line', 'e_envvar', 'cf_env_list'}

class DropRule(Rule):
    """q = (proc, got) with proc = '' main daemon | passwd object and completed steps of this process"""
    name = 'privilege drop'
    max_states = 12
    def __init__(self): self.reached = {}
    def origin(self, p): return bool(p[2]) and p[2][-1][0] == 'f' and p[2][-1][2] in ORF
    def is_event(self, prog, i): return ext(prog, i, EXECS | DROP | {'getpwnam', 'getpwuid'})
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        n = i.cname; done, line, pw = q
        a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'getpwnam':
            o = origin_field(eng, a[0], env, ('cl_runas',))
            ln = (o[1], o[2]) if o else None
            t = ('op', 'getpwnam', a[0], ('c', i.n))
            return [Outcome(q, ret=av_const(0)), Outcome((done, ln, t) if not done else q, term=t, ret=(1, INF, frozenset()))]
        if n == 'getpwuid': return [Outcome(q)]
        if n in EXECS:
            kind, ln = kind_of_exec(eng, i, env, fr)
            self.reached.setdefault((i.fn.name, i.cname, kind), i.loc)
            if 'x' in done: pass
            for s, w in (('g', 'supplementary groups'), ('G', 'group id'), ('U', 'user id')):
                if s not in done:
                    eng.report(i, '%s program executed on a path where the %s of the run-as account were not (successfully) set' % (kind, w), eng.trace); return [Outcome(q)]
            if line is None:
                eng.report(i, '%s program executed under an account not taken from the run-as field' % kind, eng.trace)
            elif ln is not None and not self.same(eng, env, line, ln):
                eng.report(i, '%s program executed under the run-as account of another job' % kind, eng.trace)
            return [Outcome(q)]
        # privilege calls
        fail = Outcome(q, ret=av_const(-1))
        want = {'initgroups': (('pw_name', 0), ('pw_gid', 1)), 'setgid': (('pw_gid', 0),), 'setuid': (('pw_uid', 0),)}.get(n)
        if want is None:
            eng.report(i, 'unexpected identity change %s() on a path to a program execution' % n, eng.trace) if n not in ('seteuid', 'setegid') else None
            return [fail, Outcome(q, ret=NONNEG)]
        good = True
        for f, k in want:
            o = origin_field(eng, a[k], env, (f,))
            if not o or pw is None or o[1] != pw: good = False
        step = {'initgroups': 'g', 'setgid': 'G', 'setuid': 'U'}[n]
        if not good: nd = done - {step}
        elif step != 'U' and 'U' in done: nd = done; 
        else: nd = done | {step}
        if step != 'U' and 'U' in done:
            eng.report(i, '%s() called after root privileges were already given up: it cannot succeed' % n, eng.trace)
        return [fail, Outcome((frozenset(nd), line, pw), ret=NONNEG)]
    def same(self, eng, env, l1, l2):
        if l1 == l2: return True
        return l1[1] == l2[1] and who(eng, env, l1[0]) == who(eng, env, l2[0])

def run(ctx, p, e):
    # entry points: the innermost functions that both create a process and lead to an execution
    roots = core.lca(p, lambda i: ext(p, i, {'fork', 'vfork', 'clone'}), lambda i: ext(p, i, EXECS))
    ctx.need(roots, 'no function of the daemon both forks and leads to an exec')
    cover = {f.name for f in p.closure([p.func(r) for r in roots])}
    up = {}
    for r in roots: e.run(r, (frozenset(), None, None))
    # executions outside those (no fork on the way): analysed from main
    for f in p.funcs.values():
        for i in f.insts():
            if ext(p, i, EXECS) and f.name not in e.visited and f in p.closure([p.func('main')]):
                e.run(f.name, (frozenset(), None, None))
    ctx.engine(e, '+'.join(roots))

def jobs(ctx):
    """Rule: at each exec call the path has, for the passwd entry of getpwnam(run-as field of that same job), a successful initgroups(name,gid), setgid(gid), setuid(uid), in an order that can succeed."""
    p = ctx.prog('fcron'); r = DropRule(); e = Engine(p, r)
    run(ctx, p, e)
    sites = [i for f in p.funcs.values() for i in f.insts() if ext(p, i, EXECS)]
    ctx.need(sites, 'no program execution found in the daemon')
    kinds = {k[2] for k in r.reached}
    for k, loc in sorted(r.reached.items()): ctx.ob('exec:%s:%s:%s' % k, True, loc)
    for i in sites:
        if not any(k[0] == i.fn.name for k in r.reached): ctx.notes.append('exec at %s (%s) not reachable from main' % (i.loc, i.fn.name))
    ctx.ob('a path executes the job command', 'job' in kinds, msg='no path from main() executes a command taken from the job\'s shell field')
    ctx.ob('a path executes the mailer', 'mail' in kinds, msg='no path from main() executes the mailer for a job')

class PamRule(DropRule):
    name = 'pam'
    def is_event(self, prog, i): return ext(prog, i, EXECS | set(PAM) | {'getpwnam'})
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        n = i.cname; done, line, pw = q
        a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'getpwnam':
            o = origin_field(eng, a[0], env, ('cl_runas',))
            t = ('op', 'getpwnam', a[0], ('c', i.n))
            return [Outcome(q, ret=av_const(0)), Outcome((done, (o[1], o[2]) if o else None, t) if not done else q, term=t, ret=(1, INF, frozenset()))]
        if n in EXECS:
            kind, ln = kind_of_exec(eng, i, env, fr)
            self.reached.setdefault((i.fn.name, n, kind), i.loc)
            if kind == 'mail': return [Outcome(q)]
            for s, w in (('s', 'pam_start'), ('a', 'pam_authenticate'), ('m', 'pam_acct_mgmt'), ('c', 'pam_setcred(ESTABLISH)'), ('o', 'pam_open_session')):
                if s not in done: eng.report(i, 'job command executed on a path where %s did not succeed for the run-as account' % w, eng.trace); break
            else:
                if line is None or (ln is not None and not self.same(eng, env, line, ln)):
                    eng.report(i, 'job command executed although PAM approved a different account', eng.trace)
            return [Outcome(q)]
        s = PAM[n]; fail = Outcome(q, ret=(1, INF, frozenset()))
        ok = done | {s}
        if n == 'pam_start':
            o = origin_field(eng, a[1], env, ('pw_name',))
            r = origin_field(eng, a[1], env, ('cl_runas',))
            if not ((o and pw is not None and o[1] == pw) or (r and line and self.same(eng, env, line, (r[1], r[2])))): ok = done
        elif n == 'pam_setcred' and not self.has(a[1], env, eng, 2): ok = done   # PAM_ESTABLISH_CRED
        elif n in ('pam_end', 'pam_close_session'): ok = frozenset()
        if s in 'amo' and 's' not in done: ok = done
        if s == 'o' and not {'a', 'm'} <= done: pass
        return [fail, Outcome((frozenset(ok), line, pw), ret=av_const(0))]
    def has(self, t, env, eng, bit):
        return t[0] == 'c' and bool(t[1] & bit)

def pam(ctx):
    """Rule: at each exec of a job command the path has successful pam_start/authenticate/acct_mgmt/setcred/open_session calls for the run-as account of that job."""
    p = ctx.prog('fcron'); r = PamRule(); e = Engine(p, r)
    run(ctx, p, e)
    ctx.need(any(ext(p, i, set(PAM)) for f in p.funcs.values() for i in f.insts()), 'the daemon makes no PAM call')
    for k, loc in sorted(r.reached.items()): ctx.ob('exec:%s:%s:%s' % k, True, loc)
    ctx.ob('a path executes the job command', 'job' in {k[2] for k in r.reached}, msg='no path from main() executes a command taken from the job\'s shell field')

class EnvRule(Rule):
    """q = (tainted env lists, clean exported vectors)"""
    name = 'mailer environment'
    max_states = 12
    def __init__(self): self.reached = {}
    def origin(self, p): return bool(p[2]) and p[2][-1][0] == 'f' and p[2][-1][2] in ORF
    def is_event(self, prog, i):
        return i.op == 'call' and (ext(prog, i, EXECS) or i.cname in ('env_list_init', 'env_list_putenv', 'env_list_setenv', 'env_list_export_envp'))
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        taint, clean = q; n = i.cname
        a = [eng.ev(x, env, fr) for x in i.args]
        me = ('s', fr, i.n)
        if n == 'env_list_init': return [Outcome((taint - {me}, clean), ret=(1, INF, frozenset()))]
        if n in ('env_list_putenv', 'env_list_setenv'):
            for x in a[1:]:
                if self.custom(eng, x, env): return [Outcome((taint | {a[0]}, clean))]
            return [Outcome(q)]
        if n == 'env_list_export_envp':
            c = clean - {me}
            if a[0] not in taint: c = c | {me}
            return [Outcome((taint, c), ret=(1, INF, frozenset()))]
        kind, ln = kind_of_exec(eng, i, env, fr)
        self.reached.setdefault((i.fn.name, n, kind), i.loc)
        if kind == 'mail':
            if n not in ('execle', 'execve', 'execvpe'): eng.report(i, 'mailer executed with the daemon\'s own environment (%s)' % n, eng.trace)
            elif a[-1] not in clean and a[-2] not in clean:
                eng.report(i, 'mailer executed with an environment that may contain variables set by the crontab', eng.trace)
        return [Outcome(q)]
    def custom(self, eng, t, env):
        o = eng.origin_of(t, env)
        if o is not None and o[2] and o[2][-1][2] in ('e_envvar',): return True
        return any(v == t and k[2] and k[2][-1][0] == 'f' and k[2][-1][2] == 'e_envvar' for k, v in env.mem.items())

def mailenv(ctx):
    """Rule: the environment vector given to the mailer was exported from a list into which no crontab variable had been put."""
    p = ctx.prog('fcron'); r = EnvRule(); e = Engine(p, r)
    for f in ('env_list_init', 'env_list_putenv', 'env_list_export_envp'): p.func(f)
    roots = core.lca(p, lambda i: ext(p, i, {'fork', 'vfork'}), lambda i: ext(p, i, EXECS))
    ctx.need(roots, 'no function of the daemon both forks and leads to an exec')
    for x in roots: e.run(x, (frozenset(), frozenset()))
    ctx.engine(e, '+'.join(roots))
    for k, loc in sorted(r.reached.items()): ctx.ob('exec:%s:%s:%s' % k, True, loc)
    ctx.ob('a path executes the mailer', 'mail' in {k[2] for k in r.reached}, msg='no path executes the mailer for a job')
    jobset = [i for f in p.funcs.values() for i in f.insts() if i.op == 'call' and i.cname == 'env_list_putenv']
    ctx.need(jobset, 'no environment customisation found')
