"""Signals: which handler each signal gets, what handlers may do, and the flag protocol between handlers and the main loop."""
from sa.engine import Engine, Rule, Outcome, av_const, INF, av_has
from sa import core
from .common import ext, gvar, fld

SIGNO = {1: 'SIGHUP', 10: 'SIGUSR1', 12: 'SIGUSR2', 15: 'SIGTERM', 17: 'SIGCHLD', 18: 'SIGCONT', 13: 'SIGPIPE'}
INSTALL = {'sigaction', 'signal', 'sigset', 'bsd_signal', 'sysv_signal'}

def installs(p):
    """[(signal number, handler Func | 'ign' | 'dfl', call inst)] for every call with constant signal and handler that leads to a handler installation"""
    reach = p.reaches(None, lambda i: ext(p, i, INSTALL)); out = []
    for f in p.funcs.values():
        for i in f.insts():
            if i.op != 'call': continue
            t = p.target(i)
            if not (ext(p, i, INSTALL) or (t is not None and t.name in reach)): continue
            sig = next((core.strip(a).v for a in i.args if a.kind == 'int' and a.type.kind == 8), None)
            h = next((a for a in i.args if a.kind == 'func'), None)
            if h is not None and sig is not None: out.append((sig, h, i))
            elif sig is not None and len(i.args) >= 2:
                a = i.args[1]
                if a.kind in ('int', 'null'): out.append((sig, 'dfl' if not a.v else 'ign', i))
                elif a.kind == 'cexpr' and a.op == 'inttoptr': out.append((sig, 'ign' if a.ops[0].v == 1 else 'dfl', i))
    return out

def flagset(p, h):
    """globals a handler stores to (through helpers)"""
    s = {}
    for f in p.closure([h]):
        for i in f.insts():
            if i.op == 'store':
                g = gvar(i.ops[1])
                if g: s[g] = i
    return s

SAFE = {'write', '_exit', 'kill', 'waitpid', '__errno_location', 'signal', 'sigaction', 'abort', 'raise'}

class Flag(Rule):
    """q per flag: '-' not seen | 'T' found raised | 'C' cleared, work due | 'D' work begun after clearing"""
    name = 'signal flags'
    max_states = 12
    def __init__(self, flags, work): self.flags = flags; self.work = work; self.ix = {f: n for n, f in enumerate(flags)}; self.sites = set()
    def is_event(self, prog, i):
        if i.op == 'store' and gvar(i.ops[1]) in self.ix: return True
        if i.op == 'load' and gvar(i.ops[0]) in self.ix: return True
        return False
    def enter(self, prog, f): return not f.noreturn
    def setq(self, q, f, v): l = list(q); l[self.ix[f]] = v; return tuple(l)
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and gvar(i.ops[0]) in self.ix:
            f = gvar(i.ops[0]); s = q[self.ix[f]]
            env.mem.pop(('p', ('g', f), ()), None); env._k = None
            # volatile: each test may find it raised or not
            return [Outcome(q, ret=av_const(0)), Outcome(self.setq(q, f, 'T') if s in '-DT' else q, ret=av_const(self.raised[f]))]
        if i.op == 'store' and gvar(i.ops[1]) in self.ix:
            f = gvar(i.ops[1]); s = q[self.ix[f]]; v = eng.av(eng.ev(i.ops[0], env, fr), env)
            if v != av_const(0): return None
            self.sites.add((f, i.fn.name, i.loc))
            if s == 'D': eng.report(i, '%s is reset after the work it asks for was started: a signal received meanwhile is lost' % f, eng.trace, key='%s:reset-after' % f)
            elif s == '-': eng.report(i, '%s is reset without having been found raised: a signal is lost' % f, eng.trace, key='%s:reset-unseen' % f)
            return [Outcome(self.setq(q, f, 'C'))]
        if i.op == 'call':
            hit = [f for f, w in self.work.items() if w(eng.prog, i)]
            t = eng.prog.target(i)
            if t is not None and t.name in self.watch and not t.noreturn: return None
            if not hit: return None
            for f in hit:
                s = q[self.ix[f]]
                if s == 'C': q = self.setq(q, f, 'D')
                elif s == 'T': q = self.setq(q, f, 'W')
            return [Outcome(q)] if not eng.prog.is_noreturn(i) else None
        return None
    def on_noreturn(self, eng, q, env, i, fr): pass
    def on_exit(self, eng, q, env, inst, fr):
        for f, n in self.ix.items():
            if q[n] == 'C': eng.report(inst, '%s was found raised and reset but the work it asks for is not done' % f, eng.trace, key='%s:dropped' % f)
            elif q[n] in 'TW' : eng.report(inst, '%s was found raised but is not reset' % f, eng.trace, key='%s:notreset' % f)

def signals(ctx):
    """Rule: (1) each handled signal has one handler that only sets its own flag; (2) on every path the flag is reset before, never after, the work starts, and the work follows; (3) SIGCHLD handling reaps until no child is left; (4) the main loop looks at the flags before each sleep."""
    p = ctx.prog('fcron'); ins = installs(p)
    m = p.func('main'); inmain = {f.name for f in p.closure([m])}
    by = {}
    for s, h, i in ins:
        if isinstance(h, core.Func) and i.fn.name in inmain: by.setdefault(s, []).append((h, i))
    ctx.need(len(by) >= 4, 'fewer than 4 signal handlers found')
    flags = {}; raised = {}
    for s, name in SIGNO.items():
        if name == 'SIGPIPE':
            ok = any(x == 13 and (h == 'ign') for x, h, i in ins) 
            ctx.ob('SIGPIPE ignored by the daemon', ok, '', 'nothing ignores SIGPIPE: a client closing its connection would kill the daemon'); continue
        hs = by.get(s, [])
        ctx.ob('%s handled' % name, bool(hs), '', 'no handler is installed for %s' % name)
        names = {h.name for h, i in hs}
        if hs: ctx.ob('%s: one handler' % name, len(names) == 1, hs[0][1].loc, 'several handlers for %s: %s' % (name, sorted(names)))
        for h, i in hs[:1]:
            h = p.func(h.name); fs = flagset(p, h)
            calls = [c for f in p.closure([h]) for c in f.insts() if c.op == 'call' and p.target(c) is None and c.cname not in SAFE]
            ctx.ob('%s: handler makes no unsafe call' % name, not calls, h.name, 'the handler of %s calls %s' % (name, [c.cname for c in calls]))
            ctx.ob('%s: handler sets exactly one flag' % name, len(fs) == 1, h.name, 'the handler of %s writes %s' % (name, sorted(fs)))
            for g, st in fs.items():
                if calls or len(fs) != 1: continue
                ctx.ob('%s: the flag is raised' % name, st.ops[0].kind == 'int' and st.ops[0].v != 0, st.loc, '%s handler does not raise the flag' % name)
                flags.setdefault(g, []).append(name); raised[g] = st.ops[0].v
    for g, ns in flags.items(): ctx.ob('%s: own flag' % '/'.join(ns), len(ns) == 1, '', 'signals %s share the flag %s' % (ns, g))
    of = {ns[0]: g for g, ns in flags.items()}
    def reaching(pred):
        fs = p.reaches(None, pred)
        return lambda prog, i: pred(i) or (i.op == 'call' and prog.target(i) is not None and prog.target(i).name in fs)
    saves = reaching(lambda i: ext(p, i, {'rename'}))
    work = {}
    for s, w in (('SIGHUP', reaching(lambda i: ext(p, i, {'opendir'}))), ('SIGUSR1', reaching(lambda i: ext(p, i, {'opendir'}))), ('SIGCHLD', reaching(lambda i: ext(p, i, {'waitpid', 'wait3', 'wait4'}))),
                 ('SIGTERM', lambda prog, i: i.op == 'call' and prog.is_noreturn(i) and saves(prog, i)), ('SIGUSR2', reaching(lambda i: ext(p, i, {'localtime', 'localtime_r'})))):
        if s in of: work[of[s]] = w
    need = [s for s in ('SIGHUP', 'SIGUSR1', 'SIGCHLD', 'SIGTERM', 'SIGUSR2') if s in of]
    fl = [of[s] for s in need if s in of]
    # the functions that look at the flags
    watch = sorted({i.fn.name for f in p.funcs.values() for i in f.insts() if i.op == 'load' and gvar(i.ops[0]) in fl})
    ctx.need(watch, 'nothing looks at the signal flags')
    watch = [w for w in watch if w != 'main']
    roots = core.lca(p, *[(lambda i, g=g: i.op == 'load' and gvar(i.ops[0]) == g) for g in fl])
    ctx.need(roots, 'no function looks at all the signal flags')
    touch = p.reaches(None, lambda i: i.op in ('load', 'store') and gvar(i.ops[0 if i.op == 'load' else 1]) in fl)
    for root in roots:
        r = Flag(fl, work); r.watch = touch; r.raised = raised; e = Engine(p, r)
        # stop at the work call itself: what it does afterwards is not about the flags
        e.run(root, ('-',) * len(fl)); ctx.engine(e, root)
        done = {f for f, _, _ in r.sites}
        for g in fl: ctx.ob('%s: reset by %s' % (g, root), g in done, '', '%s never resets %s' % (root, g))
    # nobody else clears a flag
    inside = {f.name for r in roots for f in p.closure([p.func(r)])}
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == 'store' and gvar(i.ops[1]) in fl and i.ops[0].kind == 'int' and i.ops[0].v == 0 and f.name not in inside:
                ctx.ob('%s reset elsewhere' % gvar(i.ops[1]), False, i.loc, '%s resets %s outside the signal handling' % (f.name, gvar(i.ops[1])))
    # SIGTERM leads to a state-saving exit
    reap(ctx, p)
    sleep(ctx, p, roots)

class Reap(Rule):
    """q: 'n' | 'more' (last waitpid returned a child) | 'none'"""
    name = 'reaping'
    def is_event(self, prog, i): return ext(prog, i, {'waitpid', 'wait3', 'wait4', 'wait'})
    def enter(self, prog, f): return not any(ext(prog, i, {'fork', 'vfork'}) for i in f.insts())
    def on_inst(self, eng, q, env, i, fr):
        if self.is_event(eng.prog, i):
            blk = True
            for a in i.args[1:]:
                if a.kind == 'int' and a.type.kind == 8 and a.v & 1: blk = False
            if blk: eng.report(i, 'waiting for children blocks the daemon (no WNOHANG)', eng.trace)
            w = i.args[0] if i.cname in ('waitpid', 'wait4') else None
            if w is not None and not (w.kind == 'int' and w.v == -1): eng.report(i, 'reaps only some of the children', eng.trace)
            return [Outcome('none', ret=(-INF, 0, frozenset())), Outcome('more', ret=(1, INF, frozenset()))]
    def on_exit(self, eng, q, env, inst, fr):
        if q == 'more': eng.report(inst, 'returns after collecting one child although more may have ended: their slots would be held until the next SIGCHLD', eng.trace)
        if q == 'n': eng.report(inst, 'returns without asking for ended children', eng.trace)

def reap(ctx, p):
    """the function collecting ended jobs without blocking, called when SIGCHLD came"""
    e = Engine(p, Reap()); e.run('wait_chld', 'n'); ctx.engine(e, 'wait_chld')

class Sleep(Rule):
    """q: 'seen' the flags were looked at since the last sleep | 'no'"""
    name = 'sleep'
    max_states = 4
    def __init__(self, roots): self.roots = roots; self.n = 0
    def is_event(self, prog, i): return (ext(prog, i, {'select', 'pselect', 'poll', 'ppoll', 'sleep', 'nanosleep'}) and i.fn.name not in self.forking) or (i.op == 'call' and i.cname in self.roots)
    def enter(self, prog, f): return f.name in self.ok
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        if i.cname in self.roots: return [Outcome('seen')]
        self.n += 1
        if q == 'no': eng.report(i, 'the main loop sleeps again without having looked at the signals received', eng.trace)
        return [Outcome('no')]

def sleep(ctx, p, roots):
    r = Sleep(set(roots)); r.forking = {g.name for f in p.funcs.values() if any(ext(p, i, {'fork', 'vfork'}) for i in f.insts()) and f.name != 'main' for g in p.closure([f])}
    r.ok = {f.name for f in p.closure([p.func('main_loop')]) if not f.noreturn and f.name not in roots} & p.reaches(None, lambda i: r.is_event(p, i))
    e = Engine(p, r); e.run('main_loop', 'seen'); ctx.engine(e, 'main_loop')
    ctx.need(r.n, 'the main loop does not sleep')
