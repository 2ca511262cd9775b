"""What a program opens for a while (files, pipes, directories): closed on every way out, once, and not used afterwards."""
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core
from .common import ext

OPEN_FD = {'open', 'open64', 'openat', 'creat', 'mkstemp', 'mkstemp64', 'mkostemp', 'socket', 'accept', 'accept4', 'dup', 'timerfd_create', 'epoll_create', 'epoll_create1', 'eventfd'}
OPEN_FILE = {'fopen', 'fopen64', 'opendir', 'tmpfile', 'tmpfile64', 'popen'}
CLOSE = {'close', 'fclose', 'closedir', 'pclose'}
USE = {'read': 0, 'write': 0, 'fstat': 0, 'fstat64': 0, 'fsync': 0, 'fdatasync': 0, 'fchown': 0, 'fchmod': 0, 'fchdir': 0, 'lseek': 0, 'lseek64': 0, 'dup': 0, 'dup2': 0, 'fdopen': 0, 'fileno': 0, 'fprintf': 0, 'vfprintf': 0,
       'fputs': 1, 'fputc': 1, 'putc': 1, 'fgets': 2, 'getc': 0, 'fgetc': 0, 'ungetc': 1, 'fread': 3, 'fwrite': 3, 'fflush': 0, 'ferror': 0, 'feof': 0, 'rewind': 0, 'fseek': 0, 'ftell': 0, 'ftruncate': 0, 'ftruncate64': 0, 'lockf': 0,
       'lockf64': 0, 'flock': 0, 'fcntl': 0, 'ioctl': 0, 'readdir': 0, 'readdir64': 0, 'rewinddir': 0, 'getline': 2, 'send': 0, 'recv': 0, 'bind': 0, 'listen': 0, 'accept': 0, 'connect': 0, 'setsockopt': 0, 'dirfd': 0, '__isoc99_fscanf': 0}
B, FB = 613, 7350000      # numbers below FD_SETSIZE
class Fds(Rule):
    """q = (what was opened: (number, 'open'/'kept'/'closed')...)"""
    name = 'what is opened'
    LOCKS = {'lockf': (1, 2), 'lockf64': (1, 2), 'flock': (2, 6)}
    max_states = 6
    def __init__(self, within, givers): self.within = within; self.givers = givers; self.go = False; self.ids = {}; self.sites = {}; self.opens = 0; self.closes = 0; self.back = set(); self.ex = 0
    def is_event(self, prog, i): return ext(prog, i, OPEN_FD | OPEN_FILE | CLOSE | {'pipe', 'pipe2', 'fdopen'})
    def enter(self, prog, f): return f.name in self.within and self.go
    def num(self, eng, i, fr, k=0):
        c = self.ids.setdefault((fr, i.n, k), len(self.ids) + 1); self.sites[c] = (i.fn.name, i.cname, i.loc); return c
    def which(self, t):
        if t[0] == 'p' and not t[2]: t = t[1]
        if t[0] == 'c' and isinstance(t[1], int):
            if B < t[1] <= B + len(self.ids): return t[1] - B
            if FB < t[1] <= FB + len(self.ids): return t[1] - FB
        return None
    def opened(self, eng, i, q, c):
        d = dict(q)
        if d.get(c) == 'open': self.leak(eng, i, c, 'is opened again before it is closed')
        d[c] = 'open'; self.opens += 1; return tuple(sorted(d.items()))
    leaks = True
    def leak(self, eng, i, c, how):
        if not self.leaks: return
        f, n, loc = self.sites[c]
        eng.report(i, 'what %s() opens in %s (%s) %s' % (n, f, loc, how), eng.trace, key='open:%s:%s' % (f, n))
    def local(self, p): return p[1][0] == 'a'
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'store':
            c = self.which(eng.ev(i.ops[0], env, fr))
            if c is None: return None
            p = eng.ptr(eng.ev(i.ops[1], env, fr))
            if self.local(p) or dict(q).get(c) != 'open': return None
            d = dict(q); d[c] = 'out' if p[1][0] == 's' and isinstance(p[1][2], str) and not p[2] else 'kept'
            return [Outcome(tuple(sorted(d.items())))]
        if i.op != 'call': return None
        n = i.cname
        a = [eng.ev(x, env, fr) for x in i.args]; t = eng.prog.target(i)
        if t is not None:       # a function which opens something gives nothing back and gets nothing of ours is looked at on its own
            bs = {eng.ptr(x)[1] for x in a if x[0] in ('p', 's')}
            self.go = t.name in self.givers or any(self.which(x) is not None for x in a) or any(k[1] in bs and self.which(v) is not None for k, v in env.mem.items())
            return None
        if n is None: return None
        if n in USE and len(a) > USE[n]:
            c = self.which(a[USE[n]])
            if c is not None and dict(q).get(c) == 'closed': eng.report(i, 'what %s() opened in %s is used by %s() after it was closed' % (self.sites[c][1], self.sites[c][0], n), eng.trace, key='use:%s' % i.fn.name)
        if n in ('fileno', 'dirfd'):
            c = self.which(a[0]); return [Outcome(q, term=('c', B + c))] if c is not None else None
        if n == 'fdopen':
            c = self.which(a[0]); return [Outcome(q, term=('c', FB + c)), Outcome(q, term=('c', 0))] if c is not None else None
        if n in ('lockf', 'lockf64', 'flock') and len(a) > 1 and a[1][0] == 'c' and a[1][1] in self.LOCKS[n]:
            c = self.which(a[0])
            if c is not None and dict(q).get(c) in ('open', 'kept'):
                d = dict(q); d[c] = 'locked'; return [Outcome(tuple(sorted(d.items())), ret=av_const(0)), Outcome(q, ret=av_const(-1))]
            return None
        if n in OPEN_FD:
            c = self.num(eng, i, fr); return [Outcome(self.opened(eng, i, q, c), term=('c', B + c)), Outcome(q, ret=av_const(-1))]
        if n in OPEN_FILE:
            c = self.num(eng, i, fr); return [Outcome(self.opened(eng, i, q, c), term=('c', FB + c)), Outcome(q, term=('c', 0))]
        if n in ('pipe', 'pipe2'):
            p = eng.ptr(a[0]); q2 = q; sm = []
            for k in (0, 1):
                c = self.num(eng, i, fr, k); q2 = self.opened(eng, i, q2, c); sm.append((('p', p[1], p[2] + (('i', k),)), ('c', B + c)))
                if k == 0 and not p[2]: sm.append((p, ('c', B + c)))
            return [Outcome(q2, ret=av_const(0), setmem=sm), Outcome(q, ret=av_const(-1))]
        if n in CLOSE:
            c = self.which(a[0])
            if c is None: return None
            d = dict(q); self.closes += 1
            if d.get(c) == 'closed': eng.report(i, 'what %s() opened in %s is closed twice' % (self.sites[c][1], self.sites[c][0]), eng.trace, key='twice:%s' % i.fn.name)
            if d.get(c) == 'locked': eng.report(i, 'the lock taken on what %s() opened in %s is lost: it is closed' % (self.sites[c][1], self.sites[c][0]), eng.trace, key='lock:%s' % i.fn.name)
            d[c] = 'closed'; return [Outcome(tuple(sorted(d.items())), ret=av_const(0)), Outcome(tuple(sorted(d.items())), ret=av_const(-1))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        self.ex += 1
        r = self.which(eng.rv) if eng.rv is not None else None
        for c, s in q:
            if c == r and s != 'closed': self.back.add(c)
            elif c == r: eng.report(inst, 'what %s() opened in %s is given back closed' % (self.sites[c][1], self.sites[c][0]), eng.trace, key='back:%s' % fr[0])
            elif s == 'out': self.back.add(c)
            elif s == 'open': self.leak(eng, inst, c, 'is still open, and lost, at the end of %s' % fr[0])

_W = {}
def within(p):
    """functions which open or close something otherwise than for a message"""
    if id(p) in _W: return _W[id(p)]
    no = {f.name for f in p.funcs.values() if f.noreturn or (f.file or '').endswith('log.c')}
    s = {f.name for f in p.funcs.values() if f.name not in no and any(ext(p, i, OPEN_FD | OPEN_FILE | CLOSE | {'pipe', 'pipe2', 'fdopen'}) for i in f.insts())}
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.name not in s and f.name not in no and any(t.name in s for t in p.callees(f)): s.add(f.name); ch = True
    _W[id(p)] = s; return s

def runs(p, f, givers=frozenset(), leaks=True):
    def g():
        r = Fds(within(p), givers); r.leaks = leaks; e = Engine(p, r); e.run(f, ()); r.extra = (r.opens, r.closes, len(r.ids), len(r.back), r.ex); return e
    return g

def closed(ctx, bins=('fcron', 'fcrontab', 'fcrondyn')):
    """Rule: from each function that opens something (and each caller it hands it to), on every path: what was opened is closed exactly once, or handed to the caller or kept in a place that outlives the function, and is not used after it was closed; what the process opened when it ends is given back by the system."""
    for b in bins:
        p = ctx.prog(b); todo = sorted({i.fn.name for f in p.funcs.values() for i in f.insts() if ext(p, i, OPEN_FD | OPEN_FILE | {'pipe', 'pipe2'}) and not f.noreturn} - {'main'})
        ctx.need(todo, 'nothing is opened by %s' % b); total = 0
        givers = set(); rounds = 0
        while todo and rounds < 8:
            new = set(); rounds += 1; g = frozenset(givers)
            for f, (o, c, ids, back, ex) in ctx.engines([(f, runs(p, f, g, b == 'fcron')) for f in todo]):
                total += o; ctx.ob('%s: %s closes what it opens' % (b, f), True, f, '')
                if back and f not in givers: new.add(f)
            givers |= new; todo = sorted({i.fn.name for f in new for i in p.callers.get(f, ())} - {'main'})
            todo = [x for x in todo if not p.func(x).noreturn]
        ctx.need(total, 'nothing opened by %s is followed' % b)

PID = 5000
class Single(Rule):
    """main of the daemon up to its work. q = sorted (key, value): forks, lock (number of the descriptor), held, pid, flushed"""
    name = 'one daemon'
    max_states = 30
    def __init__(self, work, to): self.work = work; self.to = to; self.ids = {}; self.started = 0; self.locks = 0
    EV = {'fork', 'flock', 'lockf', 'lockf64', 'getpid', 'open', 'open64', 'fdopen', 'fopen', 'fopen64', 'fileno', 'close', 'fclose', 'fcntl', 'fcntl64', 'fprintf', 'dprintf', 'fflush', 'daemon'}
    def is_event(self, prog, i): return ext(prog, i, self.EV)
    def enter(self, prog, f): return f.name in self.to and f.name not in self.work
    def num(self, t):
        if t[0] == 'p' and not t[2]: t = t[1]
        if t[0] == 'c' and isinstance(t[1], int):
            for b in (B, FB):
                if b < t[1] <= b + len(self.ids): return t[1] - b
        return None
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        n = i.cname; t = eng.prog.target(i); d = dict(q); S = lambda: tuple(sorted(d.items()))
        if t is not None:
            if t.name in self.work and not any(ext(eng.prog, x, {'exit', '_exit'}) for x in t.insts()):
                if d.get('forked') == 'parent': eng.report(i, 'the process the daemon was started from works as well', eng.trace, key='one:parent')
                if not d.get('held'): eng.report(i, 'the daemon starts its work without the lock on its pid file: two daemons may run each job', eng.trace, key='one:nolock')
                else:
                    if d.get('pid') != PID + d.get('forks', 0): eng.report(i, 'the pid file of the daemon does not hold its pid when it starts its work', eng.trace, key='one:pid')
                    elif not d.get('flushed'): eng.report(i, 'the pid of the daemon is not yet in the pid file when it starts its work', eng.trace, key='one:flush')
                self.started += 1
                return [Outcome(q, dead=True)]
            return None
        if n not in self.EV: return None
        a = [eng.ev(x, env, fr) for x in i.args]; c = self.num(a[0]) if a else None
        if n in ('open', 'open64', 'fopen', 'fopen64'):
            k = self.ids.setdefault((fr, i.n), len(self.ids) + 1)
            return [Outcome(q, term=('c', (B if n[0] == 'o' else FB) + k)), Outcome(q, ret=av_const(-1 if n[0] == 'o' else 0))]
        if n == 'fdopen' and c is not None: return [Outcome(q, term=('c', FB + c)), Outcome(q, term=('c', 0))]
        if n == 'fileno' and c is not None: return [Outcome(q, term=('c', B + c))]
        if n == 'getpid': return [Outcome(q, term=('c', PID + d.get('forks', 0)))]
        if n == 'fork':
            d['forks'] = d.get('forks', 0) + 1
            if self.kind == 'lockf': d.pop('held', None)
            par = dict(q, forked='parent')
            return [Outcome(S(), term=('c', 0)), Outcome(tuple(sorted(par.items())), ret=(1, INF, frozenset())), Outcome(q, ret=av_const(-1))]
        if n in ('flock', 'lockf', 'lockf64'):
            op = a[1][1] if a[1][0] == 'c' else None; self.kind = n[:5]; self.locks += 1
            ex = (op is not None and op & 2 and not op & 8) if n == 'flock' else op in (1, 2)
            if ex and c is not None: d['held'] = c
            if ex and not (op & 4 if n == 'flock' else op == 2): eng.report(i, 'a second daemon waits for the lock of the first one instead of ending', eng.trace, key='one:wait')
            return [Outcome(S(), ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n in ('close', 'fclose'):
            if d.get('held') and (c == d['held'] or a[0][0] != 'c'): eng.report(i, 'the descriptor of the lock may be closed here: the lock would be lost', eng.trace, key='one:closed'); d.pop('held'); return [Outcome(S())]
            return None
        if n in ('fprintf', 'dprintf') and c is not None and d.get('held') == c:
            for x in a[2:]:
                if x[0] == 'c' and isinstance(x[1], int): d['pid'] = x[1]
            d['flushed'] = n == 'dprintf'; return [Outcome(S())]
        if n == 'fflush':
            if c is not None and c == d.get('held') and 'pid' in d or a[0] == ('c', 0): d['flushed'] = True; return [Outcome(S())]
        return None
    kind = None

class Signal(Rule):
    name = 'signal sent to the daemon'
    def __init__(self): self.n = 0
    def is_event(self, prog, i): return ext(prog, i, {'kill', 'fscanf', '__isoc99_fscanf', '__isoc23_fscanf'})
    def enter(self, prog, f): return not f.noreturn
    def on_inst(self, eng, q, env, i, fr):
        if not ext(eng.prog, i, {'kill', 'fscanf', '__isoc99_fscanf', '__isoc23_fscanf'}): return None
        a = [eng.ev(x, env, fr) for x in i.args]
        if i.cname == 'kill':
            self.n += 1
            if a[1] != ('c', 1): eng.report(i, 'the daemon is sent another signal than SIGHUP', eng.trace, key='sig:which')
            if a[0] != ('c', PID): eng.report(i, 'the signal is sent to another process than the one of the pid file', eng.trace, key='sig:who')
            return [Outcome(q, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        ps = [eng.ptr(x) for x in a[2:3]]; was = [(x, env.mem[x]) for x in ps if x in env.mem]      # what is not converted is left alone
        return [Outcome(q, ret=av_const(1), setmem=[(x, ('c', PID)) for x in ps]), Outcome(q, ret=av_const(0), setmem=was), Outcome(q, ret=av_const(-1), setmem=was)]

def single(ctx):
    """Rule: on every path of the main function of the daemon to its work (what reads the spool directory or starts jobs), the process holds an exclusive lock, not waited for, on a descriptor it did not close since, a process which did not get it ends, and the locked file holds (flushed) the pid of this very process; fcronsighup sends SIGHUP only, and only to the pid it read."""
    p = ctx.prog('fcron')
    work = p.reaches(None, lambda i: ext(p, i, {'opendir', 'scandir', 'select', 'poll', 'ppoll', 'pselect'})) - {'main'}
    ctx.need(work and 'main' in p.funcs, 'no work of the daemon found')
    lockers = p.reaches(None, lambda i: ext(p, i, {'flock', 'lockf', 'lockf64'}))
    ctx.need('main' in lockers, 'no lock')
    near = {f.name for f in p.funcs.values() if any(ext(p, i, {'fork', 'getpid', 'close', 'fclose', 'daemon'}) for i in f.insts()) and not f.noreturn and f.name not in work and not (f.file or '').endswith('log.c')}
    to = {'main'} | lockers | near
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.name not in to and f.name not in work and not f.noreturn and not (f.file or '').endswith('log.c') and any(t.name in near for t in p.callees(f)): to.add(f.name); ch = True
    def one():
        r = Single(work, to); e = Engine(p, r); e.run('main', ()); r.extra = (r.started, r.locks); return e
    s = ctx.prog('fcronsighup')
    def sig():
        r = Signal(); e = Engine(s, r); e.run('main', ()); r.extra = (r.n, r.n); return e
    for lab, (n, m) in ctx.engines([('main of the daemon', one), ('fcronsighup', sig)]):
        ctx.ob('%s is followed' % lab, n > 0, lab, 'no path of %s to its work was found' % lab)
