"""Containers of the schedule: removal of a crontab, serial queue (ring), main queue (sorted list)."""
from itertools import product, combinations_with_replacement as cwr
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has
from sa import core, opts, ir
from .common import ext, fld, gvar, opt_byte, reaching

ARR, NARR, EXEL, LAVL, F, L, EX, LV = 810000, 820000, 830000, 831000, 840000, 850000, 860000, 870000
U = 500                       # crontab -> its user name
STRUCTS = {'exe_list', 'lavg_list'}

class Ring(Rule):
    """The serial queue as an array of n cells holding known jobs. q = (cells of each array, log)"""
    name = 'serial queue'
    max_states = 40
    def __init__(self, cells, own): self.cells = cells; self.own = own; self.bad = 0; self.ends = []
    @staticmethod
    def cell(pt):
        if pt[1][0] != 'c' or not (ARR <= pt[1][1] < NARR + 1000): return None
        n = 0
        for s in pt[2]:
            if s[0] != 'i' or s[1] is None: return (pt[1][1], None)
            n += s[1]
        return (pt[1][1], n)
    def arrays(self, eng, q, env, i, fr):
        """loads/stores/copies of queue cells -> outcomes, or None if something else"""
        arr = dict(q[0])
        if i.op == 'load':
            c = self.cell(eng.ptr(eng.ev(i.ops[0], env, fr)))
            if c is None: return None
            a = arr.get(c[0])
            if a is None: eng.report(i, 'the serial queue is read after its memory was released', eng.trace, key='ring:freed'); return [Outcome(q, dead=True)]
            if c[1] is None or not 0 <= c[1] < len(a): eng.report(i, 'the serial queue is read out of its bounds', eng.trace, key='ring:bounds'); return [Outcome(q, dead=True)]
            return [Outcome(q, term=('c', a[c[1]]))]
        if i.op == 'store':
            c = self.cell(eng.ptr(eng.ev(i.ops[1], env, fr)))
            if c is None: return None
            a = arr.get(c[0])
            if a is None or c[1] is None or not 0 <= c[1] < len(a): eng.report(i, 'the serial queue is written out of its bounds', eng.trace, key='ring:bounds'); return [Outcome(q, dead=True)]
            v = eng.ev(i.ops[0], env, fr)
            v = v[1] if v[0] == 'c' else -1
            arr[c[0]] = a[:c[1]] + (v,) + a[c[1] + 1:]
            return [Outcome((tuple(sorted(arr.items())),) + q[1:])]
        if i.op == 'call' and (i.cname in ('memcpy', 'memmove', 'bcopy') or (i.cname or '').startswith(('llvm.memcpy', 'llvm.memmove'))):
            d, s = (self.cell(eng.ptr(eng.ev(x, env, fr))) for x in i.args[:2])
            if d is None and s is None: return None
            n = eng.av(eng.ev(i.args[2], env, fr), env)
            if d is None or s is None or n[0] != n[1] or n[0] % 8 or d[1] is None or s[1] is None: eng.report(i, 'part of the serial queue is copied to or from somewhere else', eng.trace, key='ring:copy'); return [Outcome(q, dead=True)]
            n = n[0] // 8; a, b = arr.get(d[0]), arr.get(s[0])
            if n == 0: return [Outcome(q)]
            if a is None or b is None or d[1] < 0 or s[1] < 0 or d[1] + n > len(a) or s[1] + n > len(b): eng.report(i, 'the serial queue is copied out of its bounds', eng.trace, key='ring:bounds'); return [Outcome(q, dead=True)]
            arr[d[0]] = a[:d[1]] + b[s[1]:s[1] + n] + a[d[1] + n:]
            return [Outcome((tuple(sorted(arr.items())),) + q[1:])]
        if ext(eng.prog, i, {'memset'}) or (i.op == 'call' and (i.cname or '').startswith('llvm.memset')):
            d = self.cell(eng.ptr(eng.ev(i.args[0], env, fr)))
            if d is None: return None
            n = eng.av(eng.ev(i.args[2], env, fr), env); a = arr.get(d[0])
            if a is None or d[1] is None or n[0] != n[1] or d[1] * 8 + n[0] > 8 * len(a) or n[0] % 8: eng.report(i, 'the serial queue is cleared out of its bounds', eng.trace, key='ring:bounds'); return [Outcome(q, dead=True)]
            arr[d[0]] = a[:d[1]] + (0,) * (n[0] // 8) + a[d[1] + n[0] // 8:]
            return [Outcome((tuple(sorted(arr.items())),) + q[1:])]
        if ext(eng.prog, i, {'calloc', 'malloc', 'realloc'}):
            if i.cname == 'realloc' and self.cell(eng.ptr(eng.ev(i.args[0], env, fr))) is None: return None
            z = [eng.av(eng.ev(x, env, fr), env) for x in i.args[-2 if i.cname == 'calloc' else -1:]]
            if any(x[0] != x[1] for x in z): return None
            n = 1
            for x in z: n *= x[0]
            if n % 8 or n > 8 * 200: return None
            if i.cname == 'realloc':
                c = self.cell(eng.ptr(eng.ev(i.args[0], env, fr)))[0]; o = arr.pop(c); new = (o + (-2,) * (n // 8))[:n // 8]
            else: new = ((0 if i.cname == 'calloc' else -2),) * (n // 8)
            k = NARR
            while k in arr: k += 1
            arr[k] = new
            return [Outcome((tuple(sorted(arr.items())),) + q[1:], term=('c', k))]
        if ext(eng.prog, i, {'free'}):
            c = self.cell(eng.ptr(eng.ev(i.args[0], env, fr)))
            if c is None: return None
            if c[1] != 0 or arr.pop(c[0], None) is None: eng.report(i, 'the memory of the serial queue is released twice', eng.trace, key='ring:free')
            return [Outcome((tuple(sorted(arr.items())),) + q[1:])]
        return None
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.own or (i.cname or '').startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or ext(prog, i, {'memcpy', 'memmove', 'memset', 'bcopy', 'calloc', 'malloc', 'realloc', 'free'})) or i.op in ('load', 'store') and (gvar(i.ops[-1]) or '').startswith('serial_')
    def enter(self, prog, f): return f.name not in self.own and not f.noreturn and not (f.file or '').endswith(('log.c', 'socket.c', 'subs.c')) or f.name in ('alloc_safe', 'realloc_safe', 'free_safe')
    def final(self, eng, q, env):
        """logical content of the queue (None: its variables are inconsistent)"""
        arr = dict(q[0]); g = {}
        for n in ('serial_array', 'serial_array_index', 'serial_array_size', 'serial_num'):
            v = env.mem.get(('p', ('g', n), ()))
            g[n] = self.g0[n] if v is None else v[1] if v[0] == 'c' else None
        a = arr.get(g['serial_array']); i, s, n = g['serial_array_index'], g['serial_array_size'], g['serial_num']
        if a is None or None in (i, s, n): return None, 'variables of the serial queue are not determined'
        if s > len(a): return None, 'the size of the serial queue is larger than its memory'
        if not 0 <= n <= s or not (0 <= i < s): return None, 'index or length of the serial queue out of its bounds'
        out = [a[(i + k) % s] for k in range(n)]; rest = [a[(i + k) % s] for k in range(n, s)]
        if any(rest): return None, 'a cell of the serial queue not in use still holds a job'
        return out, ''
    def globals_load(self, i, p, env):
        g = gvar(i.ops[0])
        if g in self.g0 and p not in env.mem: return ('c', self.g0[g])
        return None

def rings(maxsize=3):
    for s in range(1, maxsize + 1):
        for ix in range(s):
            for n in range(s + 1): yield s, ix, n

class Serial(Ring):
    """add_serial_job / run_serial_job. q = (cells, jobs run, noticed)"""
    def __init__(self, s, ix, n, root, run=None):
        c = [0] * s
        for k in range(n): c[(ix + k) % s] = L + k + 1
        Ring.__init__(self, (ARR, tuple(c)), {'run_queue_job', 'mail_notrun', 'run_job', 'exe_list_add', 'exe_list_remove_cur'}); self.g0 = dict(serial_array=ARR, serial_array_index=ix, serial_array_size=s, serial_num=n, serial_queue_max=1000, serial_running=0)
        self.n = n; self.root = root; self.rc = run; self.res = []
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            t = self.globals_load(i, p, env)
            if t is not None: return [Outcome(q, term=t, setmem=[(p, t)])]
            if fld(i.ops[0], 'cl_numexe') and p not in env.mem: return [Outcome(q, term=('c', 0 if self.root == 'add_serial_job' else 1), setmem=[(p, ('c', 0 if self.root == 'add_serial_job' else 1))])]
        if i.op == 'call' and i.cname == 'run_queue_job':
            a = eng.ev(i.args[0], env, fr)
            return [Outcome((q[0], q[1] + (a,)), ret=av_const(self.rc))]
        return self.arrays(eng, q, env, i, fr)
    def on_exit(self, eng, q, env, inst, fr):
        c, why = self.final(eng, q, env); self.res.append((c, why, q[1]))

def fifo(ctx):
    """Rule: for the serial queue as a ring of 1 to 3 cells at every position and filling: queueing a job appends it, growing the array keeps all jobs in order, running takes the first one and leaves the others in order, removing a crontab leaves the jobs of the others in order; cells not in use are empty, no access is out of bounds."""
    p = ctx.prog('fcron'); K = opts.consts(ctx.work, ['OK', 'ERR'])
    jobs = []; want = {}
    for root in ('add_serial_job', 'run_serial_job'):
        p.func(root)
        for s, ix, n in rings(4 if ctx.tier == 'thorough' else 3):
            for rc in ((K['OK'], K['ERR']) if root == 'run_serial_job' else (None,)):
                def f(root=root, s=s, ix=ix, n=n, rc=rc):
                    r = Serial(s, ix, n, root, rc); e = Engine(p, r); env = Env()
                    if root == 'add_serial_job': env.bind[((root,), 'A0')] = ('c', L + 50)
                    e.run(root, (r.cells and (r.cells,), ()), env); r.extra = r.res; return e
                label = '%s, size %d index %d queued %d%s' % (root, s, ix, n, '' if rc is None else ' started' if rc == K['OK'] else ' not started'); jobs.append((label, f)); want[label] = (root, n)
    for label, res in ctx.engines(jobs):
        root, n = want[label]; old = [L + k + 1 for k in range(n)]
        exp = old + [L + 50] if root == 'add_serial_job' else old[1:]
        ctx.ob(label + ': decided', bool(res), root, 'no outcome')
        for c, why, ran in res:
            ctx.ob(label + ': consistent', c is not None, root, why + ' (%s)' % label)
            if c is None: continue
            ctx.ob(label + ': order', c == exp, root, 'serial queue %s expected, %s found (jobs in the order they were queued; %s)' % ([x - L for x in exp], [x - L for x in c], label))
            if root == 'run_serial_job': ctx.ob(label + ': first', tuple(ran) == ((('c', L + 1),) if n else ()), root, 'the job started is not the one queued first (%s)' % label)

class Delete(Ring):
    """delete_file. q = (cells, log) ; log = frozenset of things done"""
    max_states = 24
    STOP = {'job_queue_remove', 'u_list_first', 'u_list_next', 'u_list_remove_cur', 'u_list_destroy', 'save_file', 'run_queue_job', 'mail_notrun', 'run_job'}
    def __init__(self, files, target, ring, ix, exe, lav):
        Ring.__init__(self, (ARR, tuple(ring)), self.STOP); n = sum(1 for x in ring if x)
        self.g0 = dict(serial_array=ARR, serial_array_index=ix, serial_array_size=len(ring), serial_num=n, serial_queue_max=1000, exe_list=EXEL, lavg_list=LAVL, serial_running=9, lavg_serial_running=9)
        self.files = files; self.target = target; self.exe = exe; self.lav = lav; self.res = []
        self.nx = {F + f: (F + files[k + 1] if k + 1 < len(files) else 0) for k, f in enumerate(files)}
        self.order = [x for k in range(len(ring)) for x in [ring[(ix + k) % len(ring)]] if x]
    # jobs: L+10*f+k belongs to crontab f; each crontab has two jobs (1, 2)
    def field(self, b, n):
        if F < b < F + 100:
            f = b - F
            return {'cf_user': U + f % 10, 'cf_next': self.nx.get(b, 0), 'cf_line_base': L + 10 * f + 1, 'cf_env_list': 900000 + f}.get(n)
        if L < b < L + 1000:
            k = (b - L) % 10; f = (b - L) // 10
            return {'cl_next': b + 1 if k == 1 else 0, 'cl_file': F + f, 'cl_numexe': 5, 'cl_shell': 0, 'cl_runas': 0, 'cl_mailto': 0, 'cl_tz': 0, 'cl_mailfrom': 0}.get(n)
        if EX < b < EX + 100: return {'e_line': self.exe[b - EX - 1]}.get(n)
        if LV < b < LV + 100: return {'l_line': self.lav[b - LV - 1]}.get(n)
        return None
    def mine(self, l): return l and (l - L) // 10 == self.target
    def check_cur(self, eng, i, q, env):
        """the element left behind by an iteration"""
        log = dict(q[1])
        for kind in ('exe', 'lav'):
            c = log.get(kind + 'cur')
            if not c or log.get('cur') != kind: continue
            if kind == 'exe':
                v = env.mem.get(('p', ('c', EX + c), (('f', 'exe_t', 'e_line'),)), ('c', self.exe[c - 1]))
                if self.mine(self.exe[c - 1]) and v != ('c', 0): eng.report(i, 'a running process still refers to a job of the removed crontab', eng.trace, key='del:exe')
                if not self.mine(self.exe[c - 1]) and v != ('c', self.exe[c - 1]): eng.report(i, 'the running process of a job of another crontab loses its job', eng.trace, key='del:exe-other')
            else:
                m = self.mine(self.lav[c - 1])
                if m and not log.get('lavrm'): eng.report(i, 'a job of the removed crontab stays in the load average queue', eng.trace, key='del:lavg')
                if not m and log.get('lavrm'): eng.report(i, 'a job of another crontab is removed from the load average queue', eng.trace, key='del:lavg-other')
    def on_inst(self, eng, q, env, i, fr):
        log = dict(q[1]); st = lambda **k: (q[0], tuple(sorted({**log, **k}.items(), key=str)))
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p[1][0] == 'c' and ('free', p[1][1]) in log: eng.report(i, 'memory is used after it was released', eng.trace, key='del:uaf')
            r = self.arrays(eng, q, env, i, fr)
            if r is not None: return r
            if p in env.mem: return None
            g = gvar(i.ops[0])
            v = self.g0.get(g) if g else None
            if g == 'file_base': v = F + self.files[0] if self.files else 0
            f = core.field_of(i.ops[0])
            if v is None and f is not None and p[1][0] == 'c':
                v = self.field(p[1][1], f[2])
            if v is None: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op == 'store':
            p = eng.ptr(eng.ev(i.ops[1], env, fr))
            if p[1][0] == 'c' and ('free', p[1][1]) in log: eng.report(i, 'memory is written after it was released', eng.trace, key='del:uaf')
            return self.arrays(eng, q, env, i, fr)
        if i.op != 'call': return None
        n = i.cname
        if n == 'strcmp' and eng.prog.target(i) is None:
            a, b = (eng.ev(x, env, fr) for x in i.args[:2])
            if a[0] == b[0] == 'c': return [Outcome(q, ret=av_const(0 if a == b else 1))]
            return None
        if n in ('u_list_first', 'u_list_next'):
            a = eng.ev(i.args[0], env, fr)
            kind = {('c', EXEL): 'exe', ('c', LAVL): 'lav'}.get(a)
            if kind is None: return [Outcome(q, ret=av_const(0))]
            self.check_cur(eng, i, q, env)
            els = self.exe if kind == 'exe' else self.lav; c = log.get(kind + 'cur', 0) if n == 'u_list_next' else 0
            if n == 'u_list_next' and log.get('cur') != kind: c = len(els)
            if c < len(els): return [Outcome(st(**{kind + 'cur': c + 1, 'cur': kind, 'lavrm': 0}), term=('c', (EX if kind == 'exe' else LV) + c + 1))]
            return [Outcome(st(**{kind + 'cur': 0, 'cur': None, kind + 'done': 1}), ret=av_const(0))]
        if n == 'u_list_remove_cur':
            if eng.ev(i.args[0], env, fr) != ('c', LAVL): eng.report(i, 'an entry of another list is removed', eng.trace, key='del:list'); return None
            return [Outcome(st(lavrm=1))]
        if n == 'job_queue_remove':
            a = eng.ev(i.args[0], env, fr)
            if a[0] == 'c':
                if not self.mine(a[1]): eng.report(i, 'a job of another crontab is removed from the schedule', eng.trace, key='del:queue-other')
                return [Outcome(st(**{'q%d' % a[1]: 1}))]
            return None
        if n == 'free' and eng.prog.target(i) is None:
            a = eng.ev(i.args[0], env, fr)
            if a[0] == 'c':
                b = a[1]
                if L < b < L + 1000:
                    if not self.mine(b): eng.report(i, 'a job of another crontab is released', eng.trace, key='del:free-other')
                    if ('free%d' % b) in log: eng.report(i, 'a job is released twice', eng.trace, key='del:twice')
                    if not log.get('q%d' % b): eng.report(i, 'a job is released while it is still in the schedule', eng.trace, key='del:sched')
                    if self.exe and not log.get('exedone'): eng.report(i, 'a job is released before the list of running processes was gone through', eng.trace, key='del:exe')
                    if self.lav and not log.get('lavdone'): eng.report(i, 'a job is released before the load average queue was gone through', eng.trace, key='del:lavg')
                    for arr in dict(q[0]).values():
                        if b in arr and len(dict(q[0])) == 1: eng.report(i, 'a job is released while it is still in the serial queue', eng.trace, key='del:serial')
                    return [Outcome(st(**{'free%d' % b: 1}))]
                if F < b < F + 100:
                    if b != F + self.target: eng.report(i, 'another crontab is released', eng.trace, key='del:free-file')
                    return [Outcome(st(ffile=log.get('ffile', 0) + 1))]
        return self.arrays(eng, q, env, i, fr)
    def on_exit(self, eng, q, env, inst, fr):
        self.check_cur(eng, inst, q, env); log = dict(q[1])
        c, why = self.final(eng, q, env); present = self.target in self.files
        if c is None: eng.report(inst, why, eng.trace, key='del:ring')
        elif c != [x for x in self.order if not (present and self.mine(x))]: eng.report(inst, 'the serial queue should hold the jobs %s of the other crontabs, it holds %s' % ([x - L for x in self.order if not self.mine(x)], [x - L for x in c]), eng.trace, key='del:order')
        fl = []; b = env.mem.get(('p', ('g', 'file_base'), ()), ('c', F + self.files[0] if self.files else 0))
        while b[0] == 'c' and b[1] and len(fl) < 9: fl.append(b[1] - F); b = env.mem.get(('p', b, (('f', 'cf_t', 'cf_next'),)), ('c', self.nx.get(b[1], 0)))
        exp = [f for f in self.files if f != self.target]
        if b[0] != 'c' or fl != exp: eng.report(inst, 'crontabs %s should be left, the list holds %s' % (exp, fl), eng.trace, key='del:files')
        if present:
            for k in (1, 2):
                if not log.get('free%d' % (L + 10 * self.target + k)): eng.report(inst, 'a job of the removed crontab is not released', eng.trace, key='del:leak')
        self.res.append(1)

KEYS = ('exe', 'exe-other', 'lavg', 'lavg-other', 'list', 'queue-other', 'free-other', 'twice', 'sched', 'serial', 'free-file', 'ring', 'order', 'files', 'leak', 'uaf')
def forget(ctx):
    """Rule: on every path of the removal of a crontab (its place among up to 3 crontabs, its jobs and those of others in any arrangement of a serial queue of up to 3 cells, in the load average queue and among the running processes): afterwards no list refers to its jobs, they were taken out of the schedule before being released, released once, and everything which belongs to other crontabs is unchanged and in the same order."""
    p = ctx.prog('fcron'); jobs = []
    T1, T2, O1, O2 = L + 11, L + 12, L + 21, L + 22
    def add(files, target, ring, ix, exe, lav, label):
        def f():
            r = Delete(files, target, ring, ix, exe, lav); e = Engine(p, r); env = Env(); env.bind[(('delete_file',), 'A0')] = ('c', U + target % 10)
            e.run('delete_file', ((r.cells,), ()), env); r.extra = len(r.res); return e
        jobs.append((label, f))
    for files, t in (([1], 1), ([1, 2], 1), ([2, 1], 1), ([2, 1, 3], 1), ([2, 3, 1], 1), ([1, 11, 2], 1), ([2, 3], 1), ([], 1)):
        add(files, t, [0, 0], 0, [], [], 'crontabs %s' % files)
    for ex in product((0, T1, O1), repeat=2): add([2, 1], 1, [0], 0, list(ex), [], 'processes %s' % [x and x - L for x in ex])
    for lv in product((T1, T2, O1), repeat=2): add([2, 1], 1, [0], 0, [], list(lv), 'load average %s' % [x - L for x in lv])
    sizes = (1, 2, 3, 4) if ctx.tier == 'thorough' else (1, 2, 3)
    for s in sizes:
        for ix in range(s):
            for n in range(1, s + 1):
                for pat in product((0, 1), repeat=n):
                    c = [0] * s; t = iter((T1, T2, T1, T2)); o = iter((O1, O2, O1, O2))
                    if not any(pat) and n > 1: continue
                    for k, x in enumerate(pat): c[(ix + k) % s] = next(t) if x else next(o)
                    add([2, 1], 1, c, ix, [], [], 'serial queue %s from %d' % ([x and x - L for x in c], ix))
    for label, n in ctx.engines(jobs): ctx.ob(label + ': decided', n > 0, 'delete_file', 'no outcome')
    for k in KEYS: ctx.ob('delete:' + k, 'del:' + k not in ctx.viol, 'delete_file', ctx.viol.get('del:' + k, (0, 'ok'))[1])

class Sorted(Rule):
    """insert_nextexe / job_queue_remove on a list of known jobs. q = released entries"""
    name = 'main queue'
    max_states = 40
    J = 880000; NEWJ = 889000
    def __init__(self, times, lt, pos): self.t = times; self.lt = lt; self.pos = pos; self.res = []
    def is_event(self, prog, i): return ext(prog, i, {'calloc', 'malloc', 'free'}) or i.op in ('load', 'store') and (gvar(i.ops[-1]) == 'queue_base' or fld(i.ops[-1], 'j_next'))
    def enter(self, prog, f): return not f.noreturn and not (f.file or '').endswith('log.c')
    def lines(self):
        o = [L + k + 1 for k in range(len(self.t))]
        if self.pos is not None: o.insert(self.pos, L + 99)
        return o
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); ln = self.lines()
            if p[1][0] == 'c' and p[1][1] in q: eng.report(i, 'an entry of the queue is used after it was released', eng.trace, key='q:uaf')
            if p in env.mem: return None
            v = None; f = core.field_of(i.ops[0])
            if gvar(i.ops[0]) == 'queue_base': v = self.J + 1 if ln else 0
            elif gvar(i.ops[0]) == 'debug_opt': v = 0
            elif f is not None and p[1][0] == 'c':
                b = p[1][1]; k = b - self.J - 1
                if 0 <= k < len(ln): v = {'j_next': b + 1 if k + 1 < len(ln) else 0, 'j_line': ln[k]}.get(f[2])
                elif L < b < L + 200 and f[2] == 'cl_nextexe': v = self.lt if b == L + 99 else self.t[b - L - 1]
                elif b == self.NEWJ: v = 0
            if v is None: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op == 'call' and ext(eng.prog, i, {'calloc', 'malloc'}): return [Outcome(q, term=('c', self.NEWJ))]
        if i.op == 'call' and ext(eng.prog, i, {'free'}):
            a = eng.ev(i.args[0], env, fr)
            if a[0] == 'c' and a[1]:
                if a[1] in q: eng.report(i, 'an entry of the queue is released twice', eng.trace, key='q:free')
                return [Outcome(q | {a[1]})]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        ln = self.lines(); g = lambda p, d: env.mem.get(p, ('c', d) if d is not None else ('?',))
        out = []; b = g(('p', ('g', 'queue_base'), ()), self.J + 1 if ln else 0)
        while b[0] == 'c' and b[1] and len(out) < 12:
            k = b[1] - self.J - 1; ok = 0 <= k < len(ln)
            if b[1] in q: out.append('released entry')
            l = g(('p', b, (('f', 'job_t', 'j_line'),)), ln[k] if ok else None); out.append(l[1] if l[0] == 'c' else '?')
            b = g(('p', b, (('f', 'job_t', 'j_next'),)), (b[1] + 1 if k + 1 < len(ln) else 0) if ok else 0 if b[1] == self.NEWJ else None)
        if b[0] != 'c' or b[1]: out.append('loop or unknown')
        self.res.append(out)

class Requeue(Rule):
    """after the next execution time of a job changed, the job is put at its place. q = jobs changed and not yet moved"""
    name = 'requeue'
    max_states = 3
    def __init__(self): self.n = 0
    def is_event(self, prog, i): return i.op == 'call' and i.cname in ('insert_nextexe', 'job_queue_remove') or i.op == 'store' and fld(i.ops[1], 'cl_nextexe')
    def enter(self, prog, f): return f.name not in ('insert_nextexe', 'job_queue_remove', 'read_file', 'delete_file', 'save_file', 'mail_notrun') and not f.noreturn and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'store' and fld(i.ops[1], 'cl_nextexe'): self.n += 1; return [Outcome('changed')]
        if i.op == 'call' and i.cname in ('insert_nextexe', 'job_queue_remove'): return [Outcome('')]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        if q: eng.report(inst, 'the next execution of a job changes but the job is left at its old place in the queue', eng.trace, key='q:stale:' + fr[0])

def ordered(ctx):
    """Rule: for every queue of up to 3 other jobs, and a job absent from it or at any place in it whose time changed to any value relative to the others: inserting gives the same jobs plus this one exactly once, sorted by next execution; removing gives the same jobs without it, in the same order; nothing is used after release. Every function changing the next execution of a job ends, on every path which changes it, by putting the job at its place."""
    p = ctx.prog('fcron'); jobs = []; want = {}
    for root in ('insert_nextexe', 'job_queue_remove'):
        p.func(root)
        for n in range(0, 4 if root[0] == 'i' else 3):
            for ts in cwr((10, 20, 30) if n < 3 or ctx.tier == 'thorough' else (10, 20), n):
                for pos in [None] + list(range(n + 1)):
                    for lt in ((5, 10, 15, 20, 25, 30, 35) if root[0] == 'i' else (5,)):
                        def f(root=root, ts=ts, pos=pos, lt=lt):
                            r = Sorted(ts, lt, pos); e = Engine(p, r); env = Env(); env.bind[((root,), 'A0')] = ('c', L + 99); e.run(root, frozenset(), env); r.extra = r.res; return e
                        label = '%s: others at %s, job %s%s' % (root, list(ts), 'absent' if pos is None else 'at place %d' % pos, ', now due at %d' % lt if root[0] == 'i' else ''); jobs.append((label, f)); want[label] = (root, ts, pos, lt)
    for label, res in ctx.engines(jobs):
        root, ts, pos, lt = want[label]; others = [L + k + 1 for k in range(len(ts))]
        ctx.ob(label + ': decided', bool(res), root, 'no outcome')
        for out in res:
            if root[0] == 'j': ctx.ob(label, out == others, root, 'the queue should hold %s, it holds %s (%s)' % (others, out, label)); continue
            good = [x for x in out if x != L + 99] == others and out.count(L + 99) == 1
            tm = [lt if x == L + 99 else ts[x - L - 1] for x in out] if good else []
            ctx.ob(label, good and tm == sorted(tm), root, 'the queue holds %s%s: %s' % (out, ' at ' + str(tm) if tm else '', label))
    roots = [r for r in ('set_next_exe', 'set_next_exe_notrun', 'set_next_exe_startup', 'synchronize_file') if p.func(r)]; n = 0; LAVG = opts.consts(ctx.work, ['LAVG'], ('global.h', 'database.h'))['LAVG']
    for root in roots:
        r = Requeue(); e = Engine(p, r); env = Env()
        if root == 'set_next_exe_notrun': env.bind[((root,), 'A1')] = ('c', LAVG)       # the notice at startup is followed by a requeue in set_next_exe_startup
        e.run(root, '', env); ctx.engine(e, root, 'requeue: ' + root); n += r.n
        ctx.ob('requeue: ' + root, not e.reports, root, 'ok' if not e.reports else list(e.reports.values())[0][1])
    covered = p.closure([p.func(r) for r in roots + ['read_file']])
    for f in sorted(f.name for f in p.funcs.values() if any(i.op == 'store' and fld(i.ops[1], 'cl_nextexe') for i in f.insts())):
        ctx.ob('requeue: %s analysed' % f, p.func(f) in covered, f, 'sets the next execution of a job outside the analysed functions')
    ctx.need(n, 'nothing sets the next execution of a job')
