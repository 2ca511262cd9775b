"""Requests of fcrondyn: what is done for whom."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core, opts
from .common import ext, fld, gvar, opt_byte
CL, CMD, ARR, EXEL, LAVL, F, L, J, EX, LV, PW, NM, FD = 700000, 710000, 720000, 730000, 731000, 740000, 750000, 760000, 770000, 780000, 790000, 600, 21
NEG, POS = (-INF, -1, frozenset()), (1, INF, frozenset())
NAMES = ['alice', 'bob', 'systab', 'root', 'carol']; UID = {'alice': 1001, 'bob': 1002, 'root': 0, 'carol': 1005}; IDS = {11: 'alice', 12: 'bob', 13: 'systab'}
OWN = {'add_lavg_job': 'lavg', 'add_serial_job': 'serial', 'run_normal_job': 'normal'}
ARITY = {'add_lavg_job': (0, 1), 'add_serial_job': (0, 1), 'run_normal_job': (0, 1)}
def nm(n): return NM + NAMES.index(n)
class Dyn(Rule):
    """exe_cmd on one request. q = (what was done, place in the iterated list)"""
    name = 'request'
    max_states = 60
    def __init__(self, who, cmd, K, sys, root, lavg=0, serial=0, tab=None, pids=(4242, 4343, 4444)):
        self.who = who; self.cmd = cmd; self.K = K; self.lavg = lavg; self.serial = serial; self.tab = tab; self.sys = sys; self.rootname = root
        self.queue = [2, 1, 3]; self.exe = [(1, pids[0]), (0, 5151), (2, pids[1]), (1, pids[2])]; self.lav = [1, 3, 2]; self.ring = [1, 3, 0, 2]; self.ix = 3; self.sn = 3
        self.g0 = dict(queue_base=J + 1, exe_list=EXEL, lavg_list=LAVL, serial_array=ARR, serial_array_index=self.ix, serial_array_size=4, serial_num=self.sn); self.n = 0
        self.real = {'systab': sys, 'root': root}
    def field(self, b, n):
        if b == CL: return {'fcl_user': nm(self.who), 'fcl_sock_fd': FD, 'fcl_cmd': CMD, 'fcl_cmd_len': 8 * len(self.cmd)}.get(n)
        if J < b < J + 10: return {'j_line': L + self.queue[b - J - 1], 'j_next': b + 1 if b - J < len(self.queue) else 0}.get(n)
        if L < b < L + 10: return {'cl_id': 10 + b - L, 'cl_file': F + b - L, 'cl_nextexe': 5000 + b - L}.get(n)
        if F < b < F + 10: return {'cf_user': nm(IDS[10 + b - F])}.get(n)
        if EX < b < EX + 10: l, pid = self.exe[b - EX - 1]; return {'e_line': l and L + l, 'e_job_pid': pid, 'e_ctrl_pid': 31000 + b - EX}.get(n)
        if LV < b < LV + 10: return {'l_line': L + self.lav[b - LV - 1]}.get(n)
        if PW <= b < PW + 10: return {'pw_name': nm(NAMES[b - PW])}.get(n)
    def is_event(self, prog, i):
        return i.op == 'call' and (i.cname in OWN or i.cname in ('set_next_exe', 'print_line', 'print_fields', 'send_msg_fd', 'send_msg_fd_debug', 'u_list_first', 'u_list_next', 'u_list_end_iteration')
            or ext(prog, i, {'strcmp', 'strncmp', 'send', 'write', 'kill', 'setpriority', 'getpwuid', 'getpwnam', 'getloadavg', 'killpg', 'nice'})) or i.op in ('load',) and (core.field_of(i.ops[0]) is not None or gvar(i.ops[0]) in self.g0 or i.type.width == 64 or i.type.kind == 'ptr' or opt_byte(i) is not None)
    def enter(self, prog, f): return f.name not in OWN and f.name not in ('set_next_exe', 'print_line', 'print_fields', 'send_msg_fd', 'send_msg_fd_debug', 'u_list_first', 'u_list_next', 'u_list_end_iteration') and not f.noreturn and not (f.file or '').endswith(('log.c', 'subs.c', 'u_list.c', 'job.c', 'conf.c', 'suspend.c'))
    def text(self, i, eng, env, fr, k):
        t = eng.ev(i.args[k], env, fr)
        if t[0] == 'c' and NM <= t[1] < NM + 10: return self.real.get(NAMES[t[1] - NM], NAMES[t[1] - NM])
        if t[0] == 'str': return t[1]
        return core.const_str(i.args[k])
    def cell(self, p, base, n):
        if p[1] != ('c', base): return None
        k = 0
        for s in p[2]:
            if s[0] != 'i' or s[1] is None: return None
            k += s[1]
        return k if 0 <= k < n else None
    def on_inst(self, eng, q, env, i, fr):
        log, it = q
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); v = None
            k = self.cell(p, CMD, len(self.cmd))
            if k is not None: v = self.cmd[k]
            k = self.cell(p, ARR, 4)
            if k is not None: v = self.ring[k] and L + self.ring[k]
            if p in env.mem: return None
            g = gvar(i.ops[0])
            if g in self.g0: v = self.g0[g]
            b = opt_byte(i)
            if b is not None and p[1][0] == 'c':
                m = dict(lavg=self.lavg, serial=self.serial); out = 0; known = False
                def ref(e, en):
                    t = e.ev(i, en, fr)
                    for n in ('lavg', 'serial'):
                        by, mask, sense = self.tab[n]
                        if by == b:
                            bit = mask if (m[n] == 1) == bool(sense) else 0
                            if t[0] == 'c':
                                if (t[1] & mask) != bit: return False
                            elif not e.setav(('op', 'and', t, ('c', mask)), av_const(bit), en): return False
                    return True
                return [Outcome(q, refine=ref)]
            f = core.field_of(i.ops[0])
            if v is None and f is not None and p[1][0] == 'c': v = self.field(p[1][1], f[2])
            if v is None: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; self.n += 1
        add = lambda *x: (log + (x,), it)
        def num(t):
            v = eng.av(t, env)
            if v[0] != v[1]: return None
            return (int(v[0]) & 0xffffffff) - ((int(v[0]) & 0x80000000) << 1) if abs(v[0]) != INF else None
        def tome(k):
            if num(a[k]) != FD: eng.report(i, 'the answer is not sent to the client who asked', eng.trace, key='dyn:fd')
        if n in ('strcmp', 'strncmp'):
            x, y = self.text(i, eng, env, fr, 0), self.text(i, eng, env, fr, 1)
            if x is None or y is None: return None
            if n == 'strncmp':
                k = num(a[2])
                if k is None: return None
                x, y = x[:k], y[:k]
            return [Outcome(q, ret=av_const(0) if x == y else POS if x > y else NEG)]
        if n in ('u_list_first', 'u_list_next'):
            kind = {('c', EXEL): 'e', ('c', LAVL): 'l'}.get(a[0])
            if kind is None: return None
            els = self.exe if kind == 'e' else self.lav; c = 0 if n == 'u_list_first' else it[1] if it and it[0] == kind else len(els)
            if c < len(els): return [Outcome((log, (kind, c + 1)), term=('c', (EX if kind == 'e' else LV) + c + 1))]
            return [Outcome((log, None), term=('c', 0))]
        if n == 'u_list_end_iteration': return [Outcome((log, None))]
        if n == 'getpwuid':
            u = num(a[0])
            for x, y in UID.items():
                if y == u: return [Outcome(q, term=('c', PW + NAMES.index(x)))]
            return [Outcome(q, term=('c', 0))]
        if n in ('send', 'write'):
            tome(0); s = core.const_str(i.args[1])
            if s == '' and num(a[2]) == self.K['sizeof(END_STR)']: return [Outcome(add('END'))]
            return [Outcome(add('msg'))]
        if n in ('send_msg_fd', 'send_msg_fd_debug'):
            tome(0)
            return [Outcome(add('orphan') if any(num(x) == 5151 for x in a[1:]) else add('msg'))]
        if n == 'print_fields': tome(0); return [Outcome(add('msg'))]
        if n == 'print_line':
            tome(0); return [Outcome(add('show', a[1][1] - L if a[1][0] == 'c' else None))]
        if n in OWN: tome(1); return [Outcome(add('run', OWN[n], a[0][1] - L if a[0][0] == 'c' else None))]
        if n == 'set_next_exe':
            tome(2); return [Outcome(add('resched', a[0][1] - L if a[0][0] == 'c' else None, num(a[1])))]
        if n == 'kill': return [Outcome(add('kill', num(a[0]), num(a[1])), ret=av_const(0)), Outcome(add('kill', num(a[0]), num(a[1])), ret=av_const(-1))]
        if n == 'setpriority':
            if num(a[0]) != self.K['PRIO_PROCESS']: eng.report(i, 'the priority of something else than the job is changed', eng.trace, key='dyn:extra')
            return [Outcome(add('prio', num(a[1]), num(a[2])), ret=av_const(0)), Outcome(add('prio', num(a[1]), num(a[2])), ret=av_const(-1))]
        if n in ('killpg', 'nice'): eng.report(i, '%s() is called for a request' % n, eng.trace, key='dyn:extra')
        return None
    def expected(self):
        K = self.K; c, a1, a2 = self.cmd; root = self.who == 'root'; s32 = (a1 & 0xffffffff) - ((a1 & 0x80000000) << 1)
        own = lambda l: root or IDS[10 + l] == self.who
        out = []
        if c in (K['CMD_RUN'], K['CMD_RUNNOW']):
            for l in self.queue:
                if 10 + l == a1 and own(l):
                    out = [('run', 'lavg' if self.lavg else 'serial' if self.serial else 'normal', l)]
                    if c == K['CMD_RUNNOW']: out.append(('resched', l, K['FROM_CUR_NEXTEXE']))
        elif c == K['CMD_SEND_SIGNAL']:
            for l, pid in self.exe:
                if l and 10 + l == a2 and own(l) and pid > 0 and s32 > 0: out.append(('kill', pid, s32))
        elif c == K['CMD_RENICE']:
            for l, pid in self.exe:
                if l and 10 + l == a2 and own(l) and pid > 0 and -20 <= s32 <= 20 and (s32 >= 0 or root): out.append(('prio', pid, s32))
        elif c == K['CMD_DETAILS']:
            out = [('show', l) for l in self.queue if 10 + l == a1 and own(l)]
        elif c in (K['CMD_LIST_JOBS'], K['CMD_LIST_LAVGQ'], K['CMD_LIST_SERIALQ'], K['CMD_LIST_EXEQ']):
            if a1 == K['ALL']: u = None if root else 0
            elif a1 == K['SYSFCRONTAB_UID']: u = 'systab' if root else 0
            else:
                u = next((x for x, y in UID.items() if y == (a1 & 0xffffffff)), 0)
                if u != self.who and not root: u = 0
            seq = {K['CMD_LIST_JOBS']: self.queue, K['CMD_LIST_LAVGQ']: self.lav, K['CMD_LIST_EXEQ']: [l for l, p in self.exe if l], K['CMD_LIST_SERIALQ']: [self.ring[(self.ix + k) % 4] for k in range(self.sn)]}[c]
            if u != 0: out = [('show', l) for l in seq if u is None or IDS[10 + l] == u]
        return out
    def on_exit(self, eng, q, env, inst, fr):
        log = q[0]; got = [x for x in log if x[0] not in ('msg', 'END', 'orphan')]; want = self.expected(); w = {'systab': 'the owner', 'root': 'root'}.get(self.who, self.who)
        for x in got:
            if x not in want: eng.report(inst, '%s: %s although it must not' % (self.who, DESC(x)), eng.trace, key='dyn:extra')
        for x in want:
            if got.count(x) < want.count(x): eng.report(inst, '%s: %s is not done' % (self.who, DESC(x)), eng.trace, key='dyn:missing')
            elif got.count(x) > want.count(x): eng.report(inst, '%s: %s more than once' % (self.who, DESC(x)), eng.trace, key='dyn:extra')
        if got != want and sorted(map(str, got)) == sorted(map(str, want)): eng.report(inst, 'done or listed in another order', eng.trace, key='dyn:order')
        ends = sum(1 for x in log if x[0] == 'END')
        if ends != 1 or not log or log[-1][0] != 'END': eng.report(inst, 'the answer does not end with exactly one end marker (%d)' % ends, eng.trace, key='dyn:end')
        if not any(x[0] != 'END' for x in log): eng.report(inst, 'the client gets no answer', eng.trace, key='dyn:answer')
        if self.who != 'root' and ('orphan',) in log: eng.report(inst, 'running jobs of removed crontabs are shown to %s' % self.who, eng.trace, key='dyn:extra')
        if self.who == 'root' and self.cmd[0] == self.K['CMD_LIST_EXEQ'] and self.cmd[1] == self.K['ALL'] and ('orphan',) not in log: eng.report(inst, 'running jobs of removed crontabs are not shown to root', eng.trace, key='dyn:missing')
        self.extra = getattr(self, 'extra', 0) + 1
def DESC(x):
    j = lambda l: 'the job of %s' % IDS.get(10 + (l or 0), '?')
    return {'kill': lambda: 'kill(%s, %s)' % x[1:], 'prio': lambda: 'setpriority(%s, %s)' % x[1:], 'run': lambda: '%s is started (%s)' % (j(x[2]), x[1]), 'resched': lambda: '%s is rescheduled' % j(x[1]), 'show': lambda: '%s is listed' % j(x[1])}[x[0]]()
KC = ['CMD_RUN', 'CMD_RUNNOW', 'CMD_SEND_SIGNAL', 'CMD_RENICE', 'CMD_DETAILS', 'CMD_LIST_JOBS', 'CMD_LIST_LAVGQ', 'CMD_LIST_SERIALQ', 'CMD_LIST_EXEQ', 'CMD_RESCHEDULE', 'ALL', 'SYSFCRONTAB_UID', 'FROM_CUR_NEXTEXE', 'PRIO_PROCESS']
def requests(ctx):
    """Rule: for every request (each command and argument class) of every client (root, the owner of the job, others) on a schedule, serial queue, load average queue and list of processes holding jobs of several owners: exactly the documented effects on jobs the client owns (all of them for root) are done, nothing else, in order, answered on the connection of the client and ended by a single end marker."""
    p = ctx.prog('fcron'); K = opts.consts(ctx.work, KC, headers=('global.h', 'save.h', 'option.h', 'dyncom.h', 'fcrondyn_svr.h', 'database.h'))
    K['sizeof(END_STR)'] = 3; tab = opts.simple(ctx.work); jobs = []
    def add(label, *a, **k):
        def f():
            r = Dyn(*a, tab=tab, **k); e = Engine(p, r); env = Env(); env.bind[(('exe_cmd',), 'A0')] = ('c', CL); e.run('exe_cmd', ((), None), env); r.extra = getattr(r, 'extra', 0); return e
        jobs.append((label, f))
    N = (K, 'systab', 'root')
    for who in ('alice', 'root', 'carol'):
        for lv, se, c, x in product((0, 1), (0, 1), ('CMD_RUN', 'CMD_RUNNOW'), (11, 12, 13, 99)): add('%s: %s job %d%s%s' % (who, c, x, ' lavg' * lv, ' serial' * se), who, [K[c], x, 77], *N, lavg=lv, serial=se)
        for s, x in [(9, 11), (9, 12), (9, 13), (9, 99), (0, 11), (-9, 11), ((1 << 32) + 15, 11), (1 << 31, 11), (64, 12)]: add('%s: signal %d to %d' % (who, s, x), who, [K['CMD_SEND_SIGNAL'], s, x], *N)
        for x, pid in product((11, 12), (0, -1, 1)):
            add('%s: signal to %d, pid %d' % (who, x, pid), who, [K['CMD_SEND_SIGNAL'], 9, x], *N, pids=(pid, pid, 4444)); add('%s: renice of %d, pid %d' % (who, x, pid), who, [K['CMD_RENICE'], 3, x], *N, pids=(pid, pid, 4444))
        for s, x in [(v, 11) for v in (-21, -20, -1, 0, 1, 20, 21, (1 << 32) - 5, 1 << 31)] + [(5, 12), (5, 13), (5, 99), (-5, 12)]: add('%s: renice %d of %d' % (who, s, x), who, [K['CMD_RENICE'], s, x], *N)
        for x in (11, 12, 13, 99): add('%s: details of %d' % (who, x), who, [K['CMD_DETAILS'], x, 77], *N)
        for c in ('JOBS', 'LAVGQ', 'SERIALQ', 'EXEQ'):
            for u in (K['ALL'], K['SYSFCRONTAB_UID'], 1001, 1002, 0, 1005, 4999, (1 << 32) + 1001): add('%s: list %s of %d' % (who, c, u), who, [K['CMD_LIST_' + c], u, 77], *N)
        for c in (K['CMD_RESCHEDULE'], 0, 999, -1): add('%s: unknown command %d' % (who, c), who, [c, 11, 11], *N)
    for label, n in ctx.engines(jobs): ctx.ob(label + ': decided', n > 0, 'exe_cmd', 'no outcome')
    for k, m in (('extra', 'nothing which is not permitted or not asked'), ('missing', 'what is permitted is done'), ('order', 'order kept'), ('end', 'one end marker, last'), ('answer', 'answered'), ('fd', 'answered to the client')): ctx.ob('request:' + k + ': ' + m, 'dyn:' + k not in ctx.viol, 'exe_cmd', ctx.viol.get('dyn:' + k, (0, 'ok'))[1])
