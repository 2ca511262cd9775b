"""What a process forked by the daemon may do, and in which state it executes the command of the job; decided path by path from the functions that fork."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, ORIG, av_has, Env
from sa import core, opts
from sa.build import AnalysisBroken
from .common import ext, gvar, fld, opt_byte, Opts, holds, gterm, reaching
from .privdrop import EXECS, kind_of_exec, origin_field, ORF
from .signals import installs

def roots_of(ctx, p):
    r = core.lca(p, lambda i: ext(p, i, {'fork', 'vfork', 'clone'}), lambda i: ext(p, i, EXECS))
    r = [x for x in r if x != 'main']
    ctx.need(r, 'no function of the daemon both forks and leads to an exec')
    return r

class Child(Rule):
    """q: 'P' the daemon itself | 'C' a process it forked"""
    name = 'forked process'
    max_states = 6
    def __init__(self, p, forb): self.forb = forb; self.n = 0; self.p = p
    def is_event(self, prog, i):
        if i.op != 'call': return False
        if ext(prog, i, {'fork', 'vfork', 'remove', 'unlink', 'rename'}): return True
        t = prog.target(i); return t is not None and t.name in self.forb
    def enter(self, prog, f): return f.name not in self.forb and not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        if ext(eng.prog, i, {'fork', 'vfork'}):
            return [Outcome(q, ret=av_const(-1)), Outcome('C', ret=av_const(0)), Outcome(q, ret=(1, INF, frozenset()))]
        t = eng.prog.target(i)
        if q == 'C':
            if t is not None and t.name in self.forb:
                eng.report(i, 'a process forked for a job calls %s(), which %s' % (t.name, self.forb[t.name]), eng.trace, key='child:%s' % t.name)
                return [Outcome(q)]
            if t is None and i.cname in ('remove', 'unlink', 'rename') and any(self.pidf(eng, env, fr, a) for a in i.args):
                eng.report(i, 'a process forked for a job removes the lock file of the daemon', eng.trace, key='child:lock')
        elif t is not None and t.name in self.forb: return [Outcome(q)]
        return None
    def pidf(self, eng, env, fr, a):
        t = eng.ev(a, env, fr); return t == gterm(env, 'pidfile') and t is not None
    def on_exit(self, eng, q, env, inst, fr):
        self.n += 1
        if q == 'C': eng.report(inst, 'the forked process returns into the code of the daemon: a second daemon would run', eng.trace, key='%s:returns' % inst.fn.name)

def forbidden(p):
    out = {}
    for what, pred in (('saves the state of the jobs', lambda i: i.op == 'call' and i.cname == 'save_file'),
                       ('loads crontabs', lambda i: ext(p, i, {'opendir'})), ('serves fcrondyn clients', lambda i: ext(p, i, {'accept', 'listen'})),
                       ('terminates the daemon', lambda i: i.op == 'call' and i.cname == 'xexit')):
        for f in p.reaches(None, pred): out.setdefault(f, what)
    out['xexit'] = 'saves all states and removes the lock file'; out['save_file'] = 'saves the state of the jobs'
    return out

def children(ctx):
    """Rule: from fork on, the new process never returns from the forking function, never reaches a function that saves states, loads crontabs, serves clients or ends the daemon, never removes the lock file."""
    p = ctx.prog('fcron'); fb = forbidden(p)
    p.func('save_file'); p.func('xexit')
    all_forks = [i for f in p.funcs.values() for i in f.insts() if ext(p, i, {'fork', 'vfork'})]
    rs = roots_of(ctx, p); seen = set()
    for r in rs:
        ru = Child(p, {k: v for k, v in fb.items() if k not in rs})
        e = Engine(p, ru); e.run(r, 'P'); ctx.engine(e, r); seen |= {f for f in e.visited}
        ctx.need(ru.n, '%s never returns' % r)
    for i in all_forks: ctx.ob('fork in %s analysed' % i.fn.name, i.fn.name in seen or i.fn.name == 'main' or all(c.fn.name == 'main' for c in p.callers.get(i.fn.name, [])), i.loc, 'a process is forked outside the functions analysed')

# ---------------------------------------------------------------- execution context of a job
NICES = (('n0', 0), ('n+', 7), ('n-', -3))
class Ctxt(Rule):
    """q = frozenset of: p SIGPIPE default, u umask restored, d cwd set, U uid set, n nice applied, n0/n+/n- nice value of the line"""
    name = 'job context'
    max_states = 8
    def __init__(self, p, ignored): self.reached = {}; self.ignored = ignored
    def origin(self, p): return bool(p[2]) and p[2][-1][0] == 'f' and p[2][-1][2] in ORF | {'cl_nice'}
    def is_event(self, prog, i):
        return ext(prog, i, EXECS | {'fork', 'signal', 'sigaction', 'umask', 'chdir', 'setuid', 'nice', 'setpriority'}) or (i.op == 'load' and fld(i.ops[0], 'cl_nice'))
    def enter(self, prog, f): return not f.noreturn or f.name in self.lead
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        if i.op == 'load':
            for k, v in NICES:
                if k in q: return [Outcome(q, term=('c', v))]
            return [Outcome(q | {k}, term=('c', v)) for k, v in NICES]
        n = i.cname
        if n == 'fork': return [Outcome(q, ret=av_const(0)), Outcome(q, ret=(1, INF, frozenset())), Outcome(q, ret=av_const(-1))]
        a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'signal':
            s, h = eng.av(a[0], env), eng.av(a[1], env)
            if h == av_const(0):
                ok = {x for x in self.ignored if av_has(s, x)}
                return [Outcome(q | {'s%d' % x for x in ok})]
            if h == av_const(1): return [Outcome(q - {'s%d' % x for x in self.ignored if av_has(s, x)})]
            return None
        if n == 'umask': return [Outcome(q | {'u'} if a[0] == gterm(env, 'saved_umask') else q - {'u'})]
        if n == 'chdir':
            return [Outcome((q - {'d'}) | {'d'}, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n == 'setuid': return [Outcome(q | {'U'}, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n in ('nice', 'setpriority'):
            v = eng.av(a[-1], env); o = any(k in q and v == av_const(x) for k, x in NICES)
            if n == 'nice' and o and 'n' in q: eng.report(i, 'the nice value of the job is applied twice', eng.trace, key='job:nice twice')
            return [Outcome(q | {'n'} if o else q)]
        if n in EXECS:
            kind, ln = kind_of_exec(eng, i, env, fr)
            self.reached.setdefault((i.fn.name, n, kind), i.loc)
            if kind != 'job': return [Outcome(q)]
            for x in self.ignored:
                if 's%d' % x not in q: eng.report(i, 'the job is executed with signal %d still ignored, as the daemon does' % x, eng.trace, key='job:signal%d' % x)
            if 'u' not in q: eng.report(i, 'the job is executed with the umask of the daemon instead of the one it was started with', eng.trace, key='job:umask')
            if 'd' not in q: eng.report(i, 'the job is executed in the working directory of the daemon', eng.trace, key='job:cwd')
            if 'n' not in q and 'n0' not in q: eng.report(i, 'the job is executed without the nice value of its line', eng.trace, key='job:nice')
            return [Outcome(q)]
        return None
def subterms(t):
    from sa.engine import subs
    for x in subs(t): yield x; yield from subterms(x)

def context(ctx):
    """Rule: at the exec of a job command, the path has reset every signal ignored by the daemon, restored the saved umask, changed directory successfully, and applied the line's nice value unless it is 0."""
    p = ctx.prog('fcron')
    ign = sorted({s for s, h, i in installs(p) if h == 'ign' and 0 < s < 65})
    ctx.need(ign, 'the daemon ignores no signal')
    st = [i for f in p.funcs.values() for i in f.insts() if i.op == 'store' and gvar(i.ops[1]) == 'saved_umask']
    ctx.ob('umask at start saved', any(getattr(i.ops[0], 'cname', None) == 'umask' for i in st), st[0].loc if st else '', 'the umask the daemon was started with is not kept')
    lead = p.reaches(None, lambda i: ext(p, i, EXECS)); reached = {}
    for r in roots_of(ctx, p):
        ru = Ctxt(p, ign); ru.lead = lead; e = Engine(p, ru); e.run(r, frozenset()); ctx.engine(e, r); reached.update(ru.reached)
    for k, loc in sorted(reached.items()): ctx.ob('exec:%s:%s:%s' % k, True, loc)
    ctx.ob('a path executes the job command', 'job' in {k[2] for k in reached})

# ---------------------------------------------------------------- output of a job
class Out(Rule):
    """q = frozenset: 1/2 stdout/stderr captured by the pipe, N1/N2 set to /dev/null"""
    name = 'job output'
    max_states = 8
    NAMES = ('mail', 'stdout')
    def __init__(self, table, vals, fg): self.o = Opts(table, self.NAMES); self.vals = vals; self.fg = fg; self.reached = 0; self.ended = 0
    def origin(self, p): return bool(p[2]) and p[2][-1][0] == 'f' and p[2][-1][2] in ORF
    def is_event(self, prog, i): return ext(prog, i, EXECS | {'fork', 'dup2', 'freopen', 'pipe', 'fdopen'}) or (i.op == 'call' and i.cname == 'end_job')
    def enter(self, prog, f): return (not f.noreturn or f.name in self.lead) and f.name != 'end_job'
    def on_inst(self, eng, q, env, i, fr):
        self.o.fr = fr
        if i.op == 'load':
            b = opt_byte(i)
            return [Outcome(q, refine=self.o.refine_load(i, b, self.vals))] if b is not None and b >= 0 else None
        if i.op != 'call': return None
        n = i.cname
        if ext(eng.prog, i, {'fork'}): return [Outcome(q, ret=av_const(0)), Outcome(q, ret=(1, INF, frozenset())), Outcome(q, ret=av_const(-1))]
        a = [eng.ev(x, env, fr) for x in i.args]
        if ext(eng.prog, i, {'fdopen'}): return [Outcome(q, ret=(1, INF, frozenset())), Outcome(q, ret=av_const(0))]
        if ext(eng.prog, i, {'pipe'}): return [Outcome(q | {('pipe', eng.ptr(a[0]))}, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if ext(eng.prog, i, {'dup2'}):
            dst = a[1][1] if a[1][0] == 'c' else None; src = a[0]
            add = set()
            if dst in (1, 2):
                if src[0] == 'c' and src[1] in (1, 2): add = {str(dst)} if str(src[1]) in q else set()
                else:
                    # second element of a pipe
                    m = [k for k, v in env.mem.items() if v == src and k[2] and k[2][-1] == ('i', 1) or (v == src and k[2] and k[2][-1][0] == 'i' and k[2][-1][1] == 1)]
                    add = {str(dst)} if m or self.pipe_end(eng, src, env, fr, i) else set()
            return [Outcome(frozenset(q | add), ret=av_const(dst) if dst is not None else None), Outcome(q, ret=av_const(-1))]
        if ext(eng.prog, i, {'freopen'}):
            s = core.const_str(i.args[0])
            g = i.args[2]; nm = gvar(g.ops[0]) if getattr(g, 'op', None) == 'load' else None
            k = {'stdout': 'N1', 'stderr': 'N2'}.get(nm)
            return [Outcome(q | {k} if k and s == '/dev/null' else q, ret=None)]
        if n == 'end_job':
            self.ended += 1
            m, s = self.vals; want = m and not (self.fg and s)
            v = eng.av(a[2], env)
            if want and av_has(v, 0): eng.report(i, 'the end of a job whose output must be mailed is handled without the collected output', eng.trace, key='end_job:nomail')
            if not want and v != av_const(0): eng.report(i, 'the end of a job whose output is not collected is handled with a mail', eng.trace, key='end_job:mail')
            return [Outcome(q, dead=True)]
        if ext(eng.prog, i, EXECS):
            kind, ln = kind_of_exec(eng, i, env, fr)
            if kind != 'job': return [Outcome(q)]
            self.reached += 1
            m, s = self.vals
            lab = 'mail=%d stdout=%d foreground=%d' % (m, s, self.fg)
            if self.fg and s:
                if q & {'1', '2', 'N1', 'N2'}: eng.report(i, 'option stdout in foreground: the output of the job does not go to the terminal', eng.trace, key='job:terminal:' + lab)
            elif m:
                if not {'1', '2'} <= q: eng.report(i, 'output of the job not collected for the mail (%s)' % lab, eng.trace, key='job:collect:' + lab)
            elif self.fg:
                if not {'N1', 'N2'} <= q: eng.report(i, 'output neither mailed nor discarded (%s)' % lab, eng.trace, key='job:discard:' + lab)
            return [Outcome(q)]
        return None
    def pipe_end(self, eng, src, env, fr, i):
        o = i.args[0]
        if getattr(o, 'op', None) == 'load':
            p = eng.ptr(eng.ev(o.ops[0], env, fr)); return bool(p[2]) and p[2][-1][0] == 'i' and p[2][-1][1] == 1
        return False

class Mail(Rule):
    """decision of end_job. q: 'x' | output/no output known"""
    name = 'mail decision'
    max_states = 12
    NAMES = ('mail', 'mailzerolength', 'erroronlymail')
    def __init__(self, table, vals, out): self.o = Opts(table, self.NAMES); self.vals = vals; self.out = out; self.mailed = 0; self.exited = 0
    def is_event(self, prog, i): return ext(prog, i, EXECS | {'exit', '_exit', 'ftell', 'fseek'}) or (i.op == 'call' and i.cname == 'launch_mailer')
    def enter(self, prog, f): return f.name == 'end_job' or (not f.noreturn and f.name != 'launch_mailer')
    def on_inst(self, eng, q, env, i, fr):
        self.o.fr = fr
        if i.op == 'load':
            b = opt_byte(i)
            return [Outcome(q, refine=self.o.refine_load(i, b, self.vals))] if b is not None and b >= 0 else None
        if i.op != 'call': return None
        if ext(eng.prog, i, {'fseek'}): return [Outcome(q, ret=av_const(0))]
        if ext(eng.prog, i, {'ftell'}): return [Outcome(q, ret=av_const(20 if self.out else 10))]
        if i.cname == 'launch_mailer' or ext(eng.prog, i, EXECS): self.mailed += 1; return [Outcome(q, dead=True)]
        if ext(eng.prog, i, {'exit', '_exit'}) and i.fn.name not in ('die', 'die_e'): self.exited += 1; return [Outcome(q, dead=True)]
        return None

MAILF, PIPEF, POS = 0xE1000000, 0xE2000000, 70000   # headers longer than a short can tell
class Collected(Rule):
    """q = (pipes made, something read and not yet written, end of the output seen, output written, place of what was recorded)"""
    name = 'collecting the output'
    max_states = 60
    NAMES = ('mail', 'stdout')
    READ = {'fgets', 'fread', 'read', 'getline', 'fgetc', 'getc'}; WRITE = {'fputs', 'fwrite', 'write', 'fprintf', 'fputc', 'putc'}
    def __init__(self, table, vals): self.o = Opts(table, self.NAMES); self.vals = vals; self.ended = 0
    def origin(self, p): return False
    def is_event(self, prog, i): return ext(prog, i, {'fork', 'pipe', 'fdopen', 'ftell', 'dup2'} | EXECS | self.READ | self.WRITE) or i.op == 'call' and i.cname in ('create_mail', 'end_job', 'write_pipe', 'read_pipe')
    def enter(self, prog, f): return f.name in self.within
    def on_inst(self, eng, q, env, i, fr):
        self.o.fr = fr
        if i.op == 'load':
            b = opt_byte(i)
            return [Outcome(q, refine=self.o.refine_load(i, b, self.vals))] if b is not None and b >= 0 else None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; np, pend, eof, wrote = q
        if n == 'fork': return [Outcome(q, ret=av_const(0))] if np < 2 else [Outcome(q, ret=(1, INF, frozenset()))]
        if n in EXECS: return [Outcome(q, dead=True)]
        if n in ('write_pipe', 'read_pipe'): return [Outcome(q)]
        if n == 'create_mail': return [Outcome(q, term=('c', MAILF))]
        if n == 'pipe':
            p = eng.ptr(a[0]); fd = 100 + 2 * np
            return [Outcome((np + 1,) + q[1:], ret=av_const(0), setmem=[(('p', p[1], p[2] + (('i', k),)), ('c', fd + k)) for k in (0, 1)] + ([(p, ('c', fd))] if not p[2] else [])), Outcome(q, ret=av_const(-1))]
        if n == 'fdopen': return [Outcome(q, term=('c', PIPEF + (a[0][1] if a[0][0] == 'c' else 0))), Outcome(q, term=('c', 0))]
        if n == 'ftell': return [Outcome(q, term=('c', POS + (1000 if wrote else 0)))] if a[0] == ('c', MAILF) else None
        if n in self.READ:
            st = a[0] if n in ('read', 'fgetc', 'getc') else a[-1]
            fd = st[1] - PIPEF if st[0] == 'c' and isinstance(st[1], int) and PIPEF <= st[1] < PIPEF + 4096 else st[1] if st[0] == 'c' and n == 'read' else None
            if fd is None: return None
            if np and (fd % 2 or not 100 <= fd < 100 + 2 * np): eng.report(i, 'the output is not read from the pipe of the job', eng.trace, key='collect:from')
            if pend: eng.report(i, 'output of the job is read and not put into the mail', eng.trace, key='collect:lost')
            if n in ('fgetc', 'getc'): return [Outcome((np, True, False, wrote), ret=(0, 255, frozenset())), Outcome((np, False, True, wrote), ret=av_const(-1))]
            if n in ('read', 'getline'): return [Outcome((np, True, False, wrote), ret=(1, INF, frozenset())), Outcome((np, False, True, wrote), ret=av_const(0)), Outcome((np, False, True, wrote), ret=av_const(-1))]
            return [Outcome((np, True, False, wrote), ret=(1, INF, frozenset())), Outcome((np, False, True, wrote), ret=av_const(0))]
        if n in self.WRITE:
            if a[0] != ('c', MAILF) and a[-1] != ('c', MAILF): return None
            return [Outcome((np, False, eof, True), ret=(1, INF, frozenset())), Outcome((np, False, eof, True), ret=av_const(-1))]
        if n == 'end_job':
            self.ended += 1
            if a[2] != ('c', MAILF): eng.report(i, 'the end of the job is handled without its mail', eng.trace, key='collect:file')
            if not eof: eng.report(i, 'the end of the job is handled before all its output was read', eng.trace, key='collect:all')
            if pend: eng.report(i, 'the last output of the job is not put into the mail', eng.trace, key='collect:lost')
            if a[3] != ('c', POS): eng.report(i, 'what was written by the job is not told apart from the headers of the mail', eng.trace, key='collect:position')
            return [Outcome(q, dead=True)]
        return None
class Sent(Rule):
    """q = frozenset: F what was written is in the file, 0 the file is read from its start, I it is the standard input"""
    name = 'mail handed over'
    max_states = 30
    def __init__(self): self.n = 0
    def is_event(self, prog, i): return ext(prog, i, {'fseek', 'rewind', 'fflush', 'lseek', 'dup2', 'fileno', 'exit'} | EXECS)
    def enter(self, prog, f): return not f.noreturn
    def origin(self, p): return bool(p[2]) and p[2][-1][0] == 'f' and p[2][-1][2] in ORF
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; m = a and a[0] == ('c', MAILF)
        zero = len(a) > 2 and a[1] == ('c', 0) and a[2] == ('c', 0)
        if n == 'fileno': return [Outcome(q, term=('c', 42))] if m else None
        if n == 'fseek': return [Outcome((q | {'F'} | ({'0'} if zero else set())) - (set() if zero else {'0'}), ret=av_const(0)), Outcome(q, ret=av_const(-1))] if m else None
        if n == 'rewind': return [Outcome(q | {'F', '0'})] if m else None
        if n == 'fflush': return [Outcome(q | {'F'}, ret=av_const(0)), Outcome(q, ret=av_const(-1))] if m or a and a[0] == ('c', 0) else None
        if n == 'lseek': return [Outcome(q | {'0'} if zero else q - {'0'}, term=('c', 0)), Outcome(q, ret=av_const(-1))] if a[0] in (('c', 42), ('c', 0)) else None
        if n == 'dup2': return [Outcome(q | {'I'}, ret=av_const(0)), Outcome(q, ret=av_const(-1))] if a == [('c', 42), ('c', 0)] else None
        if n in EXECS:
            kind, ln = kind_of_exec(eng, i, env, fr)
            if kind != 'mail': eng.report(i, 'the mailer is not given the address of the job', eng.trace, key='mailer:address'); return [Outcome(q, dead=True)]
            self.n += 1
            g = i.args[0]; g = gvar(g.ops[0]) if getattr(g, 'op', '') == 'load' else None
            if a[0] != gterm(env, 'sendmail') and g != 'sendmail': eng.report(i, 'another program than the mailer is executed', eng.trace, key='mailer:program')
            if n in ('execle', 'execl', 'execlp'):
                k = [x for x, t in enumerate(a) if x > 1 and t == ('c', 0)]; last = a[k[0] - 1] if k else None
                if last is None or not origin_field(eng, last, env, ('cl_mailto',)): eng.report(i, 'the address of the job is not the last argument of the mailer', eng.trace, key='mailer:address')
            for x, w in (('F', 'before all of it is written'), ('0', 'from somewhere behind its start'), ('I', 'although it is not its standard input')):
                if x not in q: eng.report(i, 'the mailer is executed to read the mail %s' % w, eng.trace, key='mailer:%s' % x)
            return [Outcome(q, dead=True)]
        return None
def output(ctx):
    """Rule: for each combination of mail, stdout, foreground the standard outputs of the job are the mail pipe, /dev/null or the terminal; for each combination of mail, mailzerolength, erroronlymail, output, exit status the mailer is called or not as documented."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work)
    lead = p.reaches(None, lambda i: ext(p, i, EXECS) or (i.op == 'call' and i.cname == 'end_job')); p.func('end_job'); p.func('launch_mailer')
    jobs = []
    def mk(m, s, fg):
        def f():
            ru = Out(t, (m, s), fg); ru.lead = lead; e = Engine(p, ru); env = Env()
            env.mem[('p', ('g', 'foreground'), ())] = ('c', fg)
            e.run(root, frozenset(), env)
            ru.extra = (ru.reached, ru.ended); return e
        return f
    rs = [r for r in roots_of(ctx, p) if any(i.op == 'call' and i.cname == 'end_job' for f in p.closure([p.func(r)]) for i in f.insts())]
    ctx.need(len(rs) == 1, 'expected one function that runs jobs and handles their end'); root = rs[0]
    for m, s, fg in product((0, 1), repeat=3): jobs.append(('%s mail=%d stdout=%d foreground=%d' % (root, m, s, fg), mk(m, s, fg)))
    for label, x in ctx.engines(jobs):
        ctx.need(x[0] and x[1], '%s: no path executes the job and handles its end' % label)
        ctx.ob(label, True, '', '%d executions, %d ends' % x)
    def mk3(so, fg):
        def f():
            ru = Collected(t, (1, so)); ru.within = within; e = Engine(p, ru); env = Env(); env.mem[('p', ('g', 'foreground'), ())] = ('c', fg)
            e.run(root, (0, False, False, False), env); ru.extra = ru.ended; return e
        return f
    within = p.reaches(None, lambda i: ext(p, i, {'fork', 'pipe', 'fdopen', 'fgets', 'ftell'}) or (i.op == 'call' and i.cname == 'end_job')) - {'end_job', 'create_mail', 'launch_mailer', 'write_pipe', 'read_pipe', 'die', 'die_e'}
    def mk4():
        ru = Sent(); e = Engine(p, ru); env = Env(); env.bind[(('launch_mailer',), 'A1')] = ('c', MAILF)
        e.run('launch_mailer', frozenset(), env); ru.extra = ru.n; return e
    for lab, x in ctx.engines([('%s collects the output, stdout=%d foreground=%d' % (root, so, fg), mk3(so, fg)) for so, fg in ((0, 0), (1, 0), (0, 1))] + [('launch_mailer', mk4)]):
        ctx.ob(lab, bool(x), root, 'no path of %s' % lab)
    jobs = []
    def mk2(o, out, status, mailf):
        def f():
            ru = Mail(t, o, out); e = Engine(p, ru); env = Env(); fr = ('end_job',)
            env.bind[(fr, 'A1')] = ('c', status); env.bind[(fr, 'A3')] = ('c', 10)
            if not mailf: env.bind[(fr, 'A2')] = ('c', 0)
            else: env.facts[('s', fr, 'A2')] = (1, INF, frozenset())
            e.run('end_job', 0, env); ru.extra = (ru.mailed, ru.exited); return e
        return f
    cases = [(o, out, st, mf) for o in product((0, 1), repeat=3) for out in (0, 1) for st in (0, 256, 9) for mf in (0, 1)]
    for c in cases: jobs.append((str(c), mk2(*c)))
    for (o, out, st, mf), (label, (mailed, exited)) in zip(cases, ctx.engines(jobs)):
        m, z, eo = o; fail = st != 0
        want = bool(mf and (z or (m and ((out and not eo) or fail))))
        nm = 'mail=%d mailzerolength=%d erroronlymail=%d output=%d status=%s collected=%d' % (m, z, eo, out, {0: '0', 256: 'exit 1', 9: 'signal'}[st], mf)
        ctx.need(mailed or exited, 'end_job neither mails nor exits (%s)' % nm)
        ctx.ob('end_job %s -> %s' % (nm, 'mail' if want else 'no mail'), (mailed > 0) == want and (exited > 0) == (not want), 'end_job', 'with %s the output is %s' % (nm, 'mailed' if mailed else 'not mailed'))
