"""Connections of fcrondyn: authentication, list of clients, set of watched descriptors."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core, opts
from .common import ext, fld, gvar
CL, BUF, PW, NM, SP, SYS, CRY, DUP, FD, NOW, LEN = 700000, 710000, 790000, 600, 650001, 650002, 650003, 660000, 21, 1000000, 5
NEG, POS = (-INF, -1, frozenset()), (1, INF, frozenset())
def cnt(eng, env, t):
    v = eng.av(t, env)
    return int(v[0]) if v[0] == v[1] else None
class World(Rule):
    """objects (constant addresses) and globals of which the rule itself keeps the contents. q = (contents, log)"""
    max_states = 100
    OBJ = (CL, CL + 100)
    G = ()
    def where(self, eng, env, fr, v):
        p = eng.ptr(eng.ev(v, env, fr)); f = core.field_of(v)
        if f is not None and p[1][0] == 'c' and self.OBJ[0] <= p[1][1] < self.OBJ[1]: return (p[1][1], f[2])
        if f is not None and p[1][0] == 'c' and p[2] and p[2][-1][0] == 'f' and self.OBJ[0] <= p[1][1] < self.OBJ[1]: return (p[1][1], p[2][-1][2])
        if p[1][0] == 'c' and len(p[2]) == 1 and p[2][0][0] == 'f' and self.OBJ[0] <= p[1][1] < self.OBJ[1]: return (p[1][1], p[2][0][2])
        if p[1][0] == 'g' and p[1][1] in self.G and not p[2]: return (p[1][1], '')
        return None
    def mem(self, eng, q, env, i, fr):
        if i.op == 'load':
            w = self.where(eng, env, fr, i.ops[0])
            if w is None: return None
            d = dict(q[0])
            if ('freed', w[0]) in d: eng.report(i, 'a connection is used after it was released', eng.trace, key='conn:uaf')
            v = d.get(w)
            return [Outcome(q, term=('c', v))] if v is not None else [Outcome(q)]
        if i.op == 'store':
            w = self.where(eng, env, fr, i.ops[1])
            if w is None: return None
            d = dict(q[0])
            if ('freed', w[0]) in d: eng.report(i, 'a connection is written after it was released', eng.trace, key='conn:uaf')
            t = eng.ev(i.ops[0], env, fr); n = cnt(eng, env, t); d[w] = n if n is not None else t if t[0] in ('p', 'a') else None
            return [Outcome((tuple(sorted(d.items(), key=str)), q[1]))]
        return None
    def is_event(self, prog, i): return i.op in ('load', 'store') or i.op == 'call' and (i.cname in self.OWN or ext(prog, i, self.EXT) or (i.cname or '').startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')))
    def enter(self, prog, f): return f.name not in self.OWN and not f.noreturn and not (f.file or '').endswith(('log.c', 'subs.c', 'job.c', 'conf.c', 'database.c')) or f.name in ('xclose', 'xclose_check')
class Pass(World):
    """auth_client_password"""
    name = 'password'
    OWN = {'strdup2'}; EXT = {'strcmp', 'strncmp', 'send', 'write', 'getspnam', 'getpwnam', 'crypt', 'strlen', 'memcmp'}; G = ('auth_fail', 'auth_nofail_since', 'now')
    def __init__(self, fail, age, K): self.fail = fail; self.age = age; self.K = K; self.oks = 0; self.ends = 0
    def init(self): return (tuple(sorted({(CL, 'fcl_user'): 0, (CL, 'fcl_sock_fd'): FD, (CL, 'fcl_cmd'): BUF, ('auth_fail', ''): self.fail, ('auth_nofail_since', ''): NOW - self.age if self.fail else 0, ('now', ''): NOW}.items(), key=str)), ())
    def on_inst(self, eng, q, env, i, fr):
        r = self.mem(eng, q, env, i, fr)
        if r is not None: return r
        if i.op == 'load' and core.field_of(i.ops[0]) is not None and core.field_of(i.ops[0])[2] in ('sp_pwdp', 'pw_passwd') and eng.ptr(eng.ev(i.ops[0], env, fr))[1] == ('c', SP): return [Outcome(q, term=('c', SYS))]
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; log = q[1]
        add = lambda *x: (q[0], log + (x,))
        if n in ('getspnam', 'getpwnam'):
            ok = a[0] == ('c', BUF)
            if not ok: eng.report(i, 'the password entry of another name than the one given is used', eng.trace, key='pass:name')
            return [Outcome(add('known'), term=('c', SP)), Outcome(add('unknown'), term=('c', 0))]
        if n == 'strlen': return [Outcome(q, ret=av_const(LEN))] if a[0] == ('c', BUF) else None
        if n == 'crypt':
            p = eng.ptr(a[0])
            if not (p[1] == ('c', BUF) and sum(s[1] if s[0] == 'i' and s[1] is not None else 10**6 for s in p[2]) == LEN + 1): eng.report(i, 'the password given is not what is checked', eng.trace, key='pass:what')
            if a[1] != ('c', SYS): eng.report(i, 'the password is not checked against the password entry', eng.trace, key='pass:what')
            return [Outcome(add('crypt'), term=('c', CRY)), Outcome(add('nocrypt'), term=('c', 0))]
        if n in ('strcmp', 'strncmp', 'memcmp'):
            if n == 'strcmp' and set(a[:2]) == {('c', CRY), ('c', SYS)}: return [Outcome(add('right'), ret=av_const(0)), Outcome(add('wrong'), ret=POS), Outcome(add('wrong'), ret=NEG)]
            if ('c', SYS) in a[:2] or ('c', CRY) in a[:2]: eng.report(i, 'only a part of the password is compared', eng.trace, key='pass:what')
            return None
        if n == 'strdup2':
            return [Outcome(add('dup'), term=('c', DUP if a[0] == ('c', BUF) else DUP + 1))]
        if n in ('send', 'write'):
            if cnt(eng, env, a[0]) != FD: eng.report(i, 'the answer is not sent to the client who asked', eng.trace, key='pass:reply')
            return [Outcome(add('say', core.const_str(i.args[1])))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        d = dict(q[0]); log = [x[0] for x in q[1]]; M = self.K['MAX_AUTH_FAIL']; W = self.K['AUTH_WAIT']; self.ends += 1
        expired = self.fail > 0 and self.age >= W; base = 0 if expired else self.fail
        refused = base >= M; ok = 'known' in log and 'crypt' in log and 'right' in log and not refused
        u = d.get((CL, 'fcl_user'))
        if u == DUP + 1: eng.report(inst, 'the client is authenticated under another name than the one given', eng.trace, key='pass:name')
        if u != 0 and not ok: eng.report(inst, 'the client is authenticated %s' % ('although there were too many failures' if refused else 'without a right password'), eng.trace, key='pass:unproved')
        if u == 0 and ok: eng.report(inst, 'the client is not authenticated although the password is right', eng.trace, key='pass:refused')
        if ok and u != 0: self.oks += 1
        says = [x[1] for x in q[1] if x[0] == 'say']
        if says != (['1'] if u != 0 else ['0']): eng.report(inst, 'the answer to the client is %s' % ', '.join(map(str, says)), eng.trace, key='pass:reply')
        f, s = d.get(('auth_fail', '')), d.get(('auth_nofail_since', ''))
        if f is None or s is None: eng.report(inst, 'the count of failures is not determined', eng.trace, key='pass:limit'); return
        wrong = 'wrong' in log
        if wrong and not refused:
            if f != base + 1 or s != NOW: eng.report(inst, 'a wrong password is not counted (%d failures, then %d)' % (base, f), eng.trace, key='pass:limit')
        elif f not in (base, self.fail) or f and s != NOW - self.age: eng.report(inst, 'failures are forgotten before the delay is over (%d failures, then %d)' % (base, f), eng.trace, key='pass:limit')
class Peer(World):
    """auth_client_so_peercred"""
    name = 'peer credentials'
    OWN = {'strdup2'}; EXT = {'getsockopt', 'setsockopt', 'getpwuid', 'getpwnam', 'getsockname', 'getuid', 'geteuid'}
    def __init__(self, K): self.K = K; self.oks = 0; self.ends = 0; self.kept = 0
    def init(self): return (tuple(sorted({(CL, 'fcl_user'): 0, (CL, 'fcl_sock_fd'): FD}.items(), key=str)), ())
    def on_inst(self, eng, q, env, i, fr):
        r = self.mem(eng, q, env, i, fr)
        if r is not None: return r
        log = q[1]
        if i.op == 'load':
            f = core.field_of(i.ops[0])
            if f is not None and f[2] in ('uid', 'gid', 'pid') and f[1].endswith('ucred'): return [Outcome(q, term=('c', {'uid': 1001, 'gid': 1777, 'pid': 1888}[f[2]] if 'cred' in log else 66666))]
            if f is not None and f[2] == 'pw_name':
                p = eng.ptr(eng.ev(i.ops[0], env, fr))
                if p[1][0] == 'c': return [Outcome(q, term=('c', NM + p[1][1] - PW))]
            return None
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'getsockopt':
            good = cnt(eng, env, a[0]) == FD and cnt(eng, env, a[1]) == self.K['SOL_SOCKET'] and cnt(eng, env, a[2]) == self.K['SO_PEERCRED']
            return [Outcome((q[0], log + (('cred',) if good else ())), ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n == 'getpwuid':
            u = cnt(eng, env, a[0])
            return [Outcome((q[0], log + ('pw',)), term=('c', PW + (0 if u == 1001 else 1))), Outcome(q, term=('c', 0))]
        if n == 'strdup2': return [Outcome(q, term=('c', DUP if a[0] == ('c', NM) else DUP + 1))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        u = dict(q[0]).get((CL, 'fcl_user')); self.ends += 1
        if u not in (0, DUP) or u == DUP and 'cred' not in q[1]: eng.report(inst, 'the client is taken for somebody else than the user the kernel tells', eng.trace, key='peer:who')
        if u == 0: self.kept += 1
        if u == 0 and 'cred' in q[1] and 'pw' in q[1]: eng.report(inst, 'the client is not authenticated although the kernel tells who it is', eng.trace, key='peer:refused')
        if u == DUP: self.oks += 1
# behaviours of a client: (authenticated, ready, recv result, idle since)
def behaviours(K):
    A, I = K['MAX_AUTH_TIME'], K['MAX_IDLE_TIME']
    return {'quiet': (1, 0, None, 5), 'quiet, not authenticated': (0, 0, None, A), 'too long without authentication': (0, 0, None, A + 1), 'long but not too long': (1, 0, None, I), 'idle': (1, 0, None, I + 1), 'closed': (1, 1, 0, 5), 'closed, not authenticated': (0, 1, 0, 5), 'error': (1, 1, -1, 5), 'password': (0, 1, 24, 5), 'request': (1, 1, 24, I + 1), 'short request': (1, 1, 1, 5)}
NEW = 20; BIG = 1024   # the first descriptor an fd_set cannot hold
class Conn(World):
    """fcrondyn_socket_check. new: None, 'fail', 'ok', 'block' (cannot be made non blocking)"""
    name = 'connections'
    max_states = 40
    OWN = {'exe_cmd', 'auth_client_password', 'auth_client_so_peercred', 'auth_client_getpeer', 'select_add_read', 'select_rm_read'}
    EXT = {'recv', 'read', 'accept', 'accept4', 'fcntl', 'shutdown', 'close', 'free', 'calloc', 'malloc', 'memset', 'memcpy', 'send'}
    G = ('fcrondyn_cl_base', 'fcrondyn_cl_num', 'now', 'listen_fd')
    def __init__(self, beh, new, K, retcode=None):
        self.beh = beh; self.new = new; self.K = K; self.ends = 0; self.retcode = retcode
        self.bits = (1 << 3 if new else 0) | sum(1 << (10 + k) for k, b in enumerate(beh) if b[1])
        self.rc = bin(self.bits).count('1') if retcode is None else retcode
    def init(self):
        n = len(self.beh); d = {('fcrondyn_cl_base', ''): CL + 1 if n else 0, ('fcrondyn_cl_num', ''): n, ('now', ''): NOW, ('listen_fd', ''): 3}
        for k, b in enumerate(self.beh):
            c = CL + 1 + k; d.update({(c, 'fcl_next'): c + 1 if k + 1 < n else 0, (c, 'fcl_sock_fd'): 10 + k, (c, 'fcl_user'): DUP + k if b[0] else 0, (c, 'fcl_idle_since'): NOW - b[3], (c, 'fcl_cmd_len'): 777, (c, 'fcl_cmd'): 0})
        return (tuple(sorted(d.items(), key=str)), (('clean', 0),))
    def on_inst(self, eng, q, env, i, fr):
        r = self.mem(eng, q, env, i, fr)
        if r is not None: return r
        d = dict(q[0]); log = q[1]
        if i.op == 'load':
            b, st = core.steps(i.ops[0]); names = [s[2] for s in st if s[0] == 'f']; p = eng.ptr(eng.ev(i.ops[0], env, fr)); pn = [s[2] for s in p[2] if s[0] == 'f']
            if 'readfds' in pn:
                k = [s[1] for s in p[2] if s[0] == 'i']
                return [Outcome(q, term=('c', self.bits if not k or sum(x or 0 for x in k) == 0 else 0))]
            if pn and pn[-1] == 'retcode': return [Outcome(q, term=('c', self.rc))]
            return None
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]
        add = lambda *x: (tuple(sorted(d.items(), key=str)), log + (x,)); num = lambda k: cnt(eng, env, a[k])
        if n.startswith('llvm.memset') or n == 'memset':
            if num(1) != 0: return None
            return [Outcome((q[0], tuple(x for x in log if x[0] != 'clean') + (('clean', num(2) or 0, a[0]),)))]
        if n in ('recv', 'read'):
            cl = [x for x in log if x[0] == 'clean'][-1]; z = num(2)
            if len(cl) < 3 or cl[2] != a[1] or z is None or cl[1] < z: eng.report(i, 'the message of a client may be completed by what is left of an earlier one', eng.trace, key='conn:stale')
            elif cl[1] <= z: eng.report(i, 'nothing terminates a message which fills the buffer', eng.trace, key='conn:term')
            fd = num(0); k = fd - 10 if fd is not None else -1
            if not 0 <= k < len(self.beh): eng.report(i, 'data is read from descriptor %s' % fd, eng.trace, key='conn:serve'); return None
            lg = tuple(x for x in log if x[0] != 'clean') + (('clean', 0), ('recv', k, a[1]))
            v = self.beh[k][2]
            return [Outcome((q[0], lg), ret=av_const(v if v is not None else -1))]
        if n in ('accept', 'accept4'):
            if num(0) != 3: return None
            return [Outcome(add('accept'), ret=av_const(-1 if self.new == 'fail' else BIG if self.new == 'big' else NEW))]
        if n == 'fcntl':
            fd, c = num(0), num(1)
            if fd != NEW and fd != BIG: return None
            if c == self.K['F_GETFL']: return [Outcome(q, term=('c', 2))]
            if c == self.K['F_SETFL']:
                v = num(2)
                return [Outcome(add('nonblock') if v is not None and v & self.K['O_NONBLOCK'] and self.new != 'block' else q, ret=av_const(-1 if self.new == 'block' else 0))]
            if c == self.K['F_SETFD']: return [Outcome(add('cloexec') if num(2) and num(2) & 1 else q, ret=av_const(0))]
            return None
        if n == 'shutdown': return [Outcome(q, ret=av_const(0))]
        if n == 'close': return [Outcome(add('close', num(0)), ret=av_const(0)), Outcome(add('close', num(0)), ret=av_const(-1))]
        if n in ('calloc', 'malloc'):
            c = CL + 50
            for f in ('fcl_next', 'fcl_sock_fd', 'fcl_user', 'fcl_idle_since', 'fcl_cmd_len', 'fcl_cmd'): d[(c, f)] = 0 if n == 'calloc' else 99
            return [Outcome(add('alloc'), term=('c', c))]
        if n == 'free':
            v = num(0)
            if v == 0: return [Outcome(q)]
            if v is not None and self.OBJ[0] <= v < self.OBJ[1]:
                if ('freed', v) in d: eng.report(i, 'a connection is released twice', eng.trace, key='conn:uaf')
                d[('freed', v)] = 1
            return [Outcome(add('free', v))]
        if n == 'select_add_read' and num(1) is not None and num(1) >= BIG: eng.report(i, 'a descriptor which does not fit in the set is watched', eng.trace, key='conn:setsize')
        if n in ('select_add_read', 'select_rm_read'): return [Outcome(add(n, num(1)))]
        if n.startswith('auth_client') or n == 'exe_cmd':
            c = num(0); k = c - CL - 1 if c is not None else -9; u = d.get((c, 'fcl_user'))
            if n == 'exe_cmd' and u == 0: eng.report(i, 'a request of a client who is not authenticated is done', eng.trace, key='conn:unauth')
            if n != 'exe_cmd' and u != 0: eng.report(i, 'a client who is authenticated is authenticated again, or one not initialised', eng.trace, key='conn:unauth')
            if n in ('exe_cmd', 'auth_client_password'):
                rc = [x for x in log if x[0] == 'recv']
                if not rc or rc[-1][1] != k: eng.report(i, 'what is done is not what this client sent', eng.trace, key='conn:mixed')
                elif d.get((c, 'fcl_cmd')) not in (rc[-1][2], eng.ptr(rc[-1][2])) or d.get((c, 'fcl_cmd_len')) != self.beh[k][2]: eng.report(i, 'the request handed over is not the message received', eng.trace, key='conn:mixed')
            return [Outcome(add(n, k), ret=av_const(0))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        d = dict(q[0]); log = [x for x in q[1] if x[0] != 'clean']; self.ends += 1; K = self.K
        R = lambda key, m: eng.report(inst, m, eng.trace, key='conn:' + key)
        want = []; gone = []
        live = self.rc > 0
        for k, b in enumerate(self.beh):
            c = CL + 1 + k; fd = 10 + k
            if live and (b[1] and b[2] == 0 or not b[1] and (b[3] > K['MAX_IDLE_TIME'] or not b[0] and b[3] > K['MAX_AUTH_TIME'])):
                gone.append(k)
                for e in (('select_rm_read', fd), ('close', fd), ('free', c)):
                    if log.count(e) != 1: R('close', 'a connection which ended: %s is done %d times' % ({'free': 'releasing it', 'close': 'closing it'}.get(e[0], 'removing it from the watched ones'), log.count(e)))
                if b[0] and log.count(('free', DUP + k)) != 1: R('leak', 'the name of a client who left is not released')
            else:
                want.append(c)
                if any(e in log for e in (('select_rm_read', fd), ('close', fd), ('free', c))): R('close', 'a connection in use is closed')
            x = [e for e in log if e[0] in ('exe_cmd', 'auth_client_password') and e[1] == k]
            exp = ([('exe_cmd' if b[0] else 'auth_client_password', k)] if live and b[1] and b[2] > 0 else [])
            if x != exp: R('serve', 'a client who sent %s: %s' % ('something' if exp else 'nothing', 'not served' if not x else 'served %d times' % len(x)))
            if k not in gone:
                if b[0] and exp and d.get((c, 'fcl_idle_since')) != NOW: R('idle', 'the time of the last request is not kept')
                if not exp and d.get((c, 'fcl_idle_since')) != NOW - b[3]: R('idle', 'the time of the last request changes without a request')
                if exp and not b[0] and d.get((c, 'fcl_idle_since')) != NOW - b[3]: R('idle', 'a client who fails to authenticate may stay for longer')
        l = []; c = d.get(('fcrondyn_cl_base', ''))
        while c and len(l) < 9: l.append(c); c = d.get((c, 'fcl_next'))
        if self.new == 'ok' and live:
            want.insert(0, CL + 50)
            if d.get((CL + 50, 'fcl_sock_fd')) != NEW or ('select_add_read', NEW) not in log: R('serve', 'a new connection is not watched')
            if ('nonblock',) not in log: R('block', 'a new connection can block the daemon')
            if ('cloexec',) not in log: R('block', 'a new connection is inherited by the jobs')
            if d.get((CL + 50, 'fcl_idle_since')) != NOW: R('idle', 'the time of the last request of a new connection is not set')
            if any(e in log for e in (('close', NEW), ('free', CL + 50))): R('close', 'a new connection is closed')
            if not any(e[0] in ('auth_client_so_peercred', 'auth_client_getpeer') and e[1] == 49 for e in log): R('serve', 'who a new client is, is not asked to the kernel')
        elif self.new in ('block', 'big') and live:
            if log.count(('close', BIG if self.new == 'big' else NEW)) != 1: R('close', 'a refused connection is not closed')
        if l != want: R('list', 'the list of clients is wrong: %d instead of %d' % (len(l), len(want)) if len(l) != len(want) else 'the list of clients is wrong')
        if d.get(('fcrondyn_cl_num', '')) != len(want): R('list', 'the number of clients is wrong')
def authenticated(ctx):
    """Rule: for every way the password and peer-credential checks can end: a client gets a name only when the kernel or the right password proved it, for that very name; every wrong password is counted and the limit is kept for its whole delay. On every path of the service of the connections a request is done only for an authenticated client, from the message just received from it, which is complete and terminated."""
    p = ctx.prog('fcron'); K = opts.consts(ctx.work, ['MAX_AUTH_FAIL', 'AUTH_WAIT', 'MAX_AUTH_TIME', 'MAX_IDLE_TIME', 'SOL_SOCKET', 'SO_PEERCRED', 'F_GETFL', 'F_SETFL', 'F_SETFD', 'O_NONBLOCK'], headers=HD); jobs = []
    ctx.need(K['MAX_AUTH_FAIL'] > 0 and K['AUTH_WAIT'] > 0, 'no limit of authentication failures')
    for f in sorted({0, 1, K['MAX_AUTH_FAIL'] - 1, K['MAX_AUTH_FAIL'], K['MAX_AUTH_FAIL'] + 1}):
        for age in (0, 1, K['AUTH_WAIT'] - 1, K['AUTH_WAIT'], K['AUTH_WAIT'] + 1):
            def t(f=f, age=age):
                r = Pass(f, age, K); e = Engine(p, r); env = Env(); env.bind[(('auth_client_password',), 'A0')] = ('c', CL); e.run('auth_client_password', r.init(), env); r.extra = (r.ends, r.oks, f < K['MAX_AUTH_FAIL'] or age >= K['AUTH_WAIT']); return e
            jobs.append(('%d failures, last one %d s ago' % (f, age), t))
    def t():
        r = Peer(K); e = Engine(p, r); env = Env(); env.bind[(('auth_client_so_peercred',), 'A0')] = ('c', CL); e.run('auth_client_so_peercred', r.init(), env); r.extra = (r.ends, r.oks, True); return e
    jobs.append(('credentials of the peer', t))
    for label, (ends, oks, may) in ctx.engines(jobs):
        ctx.ob(label + ': decided', ends > 0, 'fcrondyn_svr.c', 'no outcome'); ctx.ob(label + ': can succeed', oks > 0 or not may, 'fcrondyn_svr.c', 'never authenticates')
    serve(ctx, p, K, ('unauth', 'mixed', 'stale', 'term'))
    for k in ('pass:name', 'pass:what', 'pass:unproved', 'pass:refused', 'pass:reply', 'pass:limit', 'peer:who', 'peer:refused'): ctx.ob(k, k not in ctx.viol, 'fcrondyn_svr.c', ctx.viol.get(k, (0, 'ok'))[1])
HD = ('global.h', 'save.h', 'option.h', 'dyncom.h', 'fcrondyn_svr.h', 'database.h', 'fcron.h')
def serve(ctx, p, K, keys):
    B = behaviours(K); jobs = []
    def add(label, beh, new, rc=None):
        def t():
            r = Conn(beh, new, K, rc); e = Engine(p, r); e.run('fcrondyn_socket_check', r.init(), Env()); r.extra = r.ends; return e
        jobs.append((label, t))
    deep = ctx.tier == 'thorough'
    for n in (1, 2, 3) if deep else (1, 2):
        for c in product(B, repeat=n): add(', '.join(c), [B[x] for x in c], None, None if any(B[x][1] for x in c) else 1)
    few = ['quiet', 'idle', 'closed', 'request', 'password']
    for c in product(few, repeat=3): add(', '.join(c), [B[x] for x in c], None, None if any(B[x][1] for x in c) else 1)
    for new in ('fail', 'ok', 'block', 'big'):
        for c in [()] + [(x,) for x in B]: add('new connection (%s), %s' % (new, ', '.join(c)), [B[x] for x in c], new)
    for rc in (0, -1): add('select: %d' % rc, [B['quiet'], B['idle']], None, rc)
    keep = set(ctx.viol)
    for label, n in ctx.engines(jobs): ctx.ob(label + ': decided', n > 0, 'fcrondyn_socket_check', 'no outcome')
    for k in list(ctx.viol):
        if k not in keep and isinstance(k, str) and k.startswith('conn:') and k[5:] not in keys: del ctx.viol[k]
    for k in keys: ctx.ob('conn:%s ' % k, 'conn:' + k not in ctx.viol, 'fcrondyn_socket_check', ctx.viol.get('conn:' + k, (0, 'ok'))[1])
class Sel(World):
    """select_add_read, select_rm_read, select_call"""
    name = 'watched set'
    OWN = set(); EXT = {'select', 'memcpy', 'memset', '__errno_location', '__fdelt_chk'}; OBJ = (CL, CL + 1)
    def __init__(self, bits, mx): self.bits = bits; self.mx = mx; self.ends = []
    def init(self): return (tuple(sorted({(CL, 'readfds'): 0x15a5, (CL, '__readfds_master'): self.bits, (CL, '__fd_max'): self.mx, (CL, 'retcode'): 77}.items(), key=str)), ())
    def where(self, eng, env, fr, v):
        p = eng.ptr(eng.ev(v, env, fr))
        if p[1] != ('c', CL) or not p[2] or p[2][0][0] != 'f': return None
        k = sum(s[1] if s[1] is not None else 10**6 for s in p[2] if s[0] == 'i')
        if k:
            if i_bounds(k): eng.report(self.cur, 'a descriptor out of the set is used', eng.trace, key='sel:bounds')
            return (CL, '%s+%d' % (p[2][0][2], k))
        return (CL, p[2][0][2])
    def on_inst(self, eng, q, env, i, fr):
        self.cur = i; r = self.mem(eng, q, env, i, fr)
        if r is not None:
            if i.op == 'load' and not r[0].term: return [Outcome(q, term=('c', 0))]
            return r
        if i.op != 'call': return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; d = dict(q[0])
        if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove') or n.startswith('llvm.memmove'):
            x, y = (eng.ptr(t) for t in a[:2])
            if x[1] == y[1] == ('c', CL): d[(CL, x[2][0][2])] = d.get((CL, y[2][0][2])); return [Outcome((tuple(sorted(d.items(), key=str)), q[1]))]
            return None
        if n == 'select':
            x = eng.ptr(a[1])
            if x[1] == ('c', CL) and x[2] and x[2][0][2] == 'readfds': return [Outcome((q[0], q[1] + (('select', cnt(eng, env, a[0]), d.get((CL, 'readfds'))),)), ret=av_const(v)) for v in (0, 1)]
            eng.report(i, 'select() does not get the set of watched descriptors', eng.trace, key='sel:call'); return None
        return None
    def on_exit(self, eng, q, env, inst, fr): self.ends.append((dict(q[0]), q[1], inst, eng.trace))
def i_bounds(k): return not 0 <= k < 16
def watched(ctx):
    """Rule: for every set of watched descriptors: adding or removing one changes it alone and the highest one stays covered by select(), which gets a fresh copy of the set. On every path of the service of the connections (any state of up to 3 clients and a new one): each client which sent something is served once, a connection which ended, idle or unauthenticated for too long is taken out of the set, closed and released once, all others stay in the list, and a new one is added, non blocking and close-on-exec."""
    p = ctx.prog('fcron'); K = opts.consts(ctx.work, ['MAX_AUTH_FAIL', 'AUTH_WAIT', 'MAX_AUTH_TIME', 'MAX_IDLE_TIME', 'SOL_SOCKET', 'SO_PEERCRED', 'F_GETFL', 'F_SETFL', 'F_SETFD', 'O_NONBLOCK'], headers=HD); n = 0
    top = 7 if ctx.tier == 'thorough' else 5
    for bits in range(1 << top):
        hi = bits.bit_length() - 1
        for mx in sorted({hi, max(hi, top - 1)}):
            for fn in ('select_add_read', 'select_rm_read', 'select_call'):
                for fd in range(top) if fn != 'select_call' else (0,):
                    if fn == 'select_rm_read' and not bits >> fd & 1: continue
                    r = Sel(bits, mx); e = Engine(p, r); env = Env(); env.bind[((fn,), 'A0')] = ('c', CL)
                    if fn != 'select_call': env.bind[((fn,), 'A1')] = ('c', fd)
                    e.run(fn, r.init(), env); n += 1
                    ctx.ob('%s: set %s, descriptor %d: decided' % (fn, bin(bits), fd), bool(r.ends), fn, 'no outcome')
                    if n == 1 or n % 97 == 0: ctx.engine(e, fn, '%s(%s, %d)' % (fn, bin(bits), fd))
                    else: [ctx.violation(k, '%s (%s)' % (x[0].loc, fn), x[1]) for k, x in e.reports.items()]
                    for d, log, inst, tr in r.ends:
                        m, f = d.get((CL, '__readfds_master')), d.get((CL, '__fd_max'))
                        m = m & (1 << 64) - 1 if m is not None else None
                        want = bits | 1 << fd if fn == 'select_add_read' else bits & ~(1 << fd) if fn == 'select_rm_read' else bits
                        ctx.ob(fn + ': set', m == want, '%s (%s)' % (inst.loc, fn), 'the set of watched descriptors is not what it should be: %s, descriptor %d: %s' % (bin(bits), fd, m is not None and bin(m)), tr.list() if hasattr(tr, 'list') else list(tr or []))
                        ctx.ob(fn + ': highest', f is not None and f >= want.bit_length() - 1 and (want == 0 or f <= max(mx, fd)), '%s (%s)' % (inst.loc, fn), 'the highest watched descriptor is forgotten: %s, descriptor %d: %s' % (bin(bits), fd, f))
                        if fn == 'select_call':
                            ctx.ob('select_call: call', len(log) == 1 and log[0][1] == mx + 1 and log[0][2] == bits, fn, 'select() does not watch all of them: %s' % (log,))
                            ctx.ob('select_call: result', d.get((CL, 'retcode')) in (0, 1), fn, 'the result of select() is not kept')
    ctx.need(n, 'nothing analysed')
    serve(ctx, p, K, ('close', 'leak', 'list', 'serve', 'idle', 'block', 'uaf', 'setsize'))
    shut(ctx, p, K)
class Shut(Conn):
    name = 'closing all connections'
    def __init__(self, n, si, K): Conn.__init__(self, [(1, 0, None, 5)] * n, None, K); self.si = si
    EXT = Conn.EXT | {'unlink', 'remove'}
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'call' and ext(eng.prog, i, {'unlink', 'remove'}): return [Outcome((q[0], q[1] + (('unlink', gv(i.args[0])),)), ret=av_const(0))]
        return Conn.on_inst(self, eng, q, env, i, fr)
    def on_exit(self, eng, q, env, inst, fr):
        log = q[1]; d = dict(q[0]); self.ends += 1
        R = lambda m: eng.report(inst, m, eng.trace, key='shut')
        if log.count(('close', 3)) != 1: R('the listening socket is not closed')
        if not any(x[0] == 'unlink' for x in log): R('the socket file is not removed')
        for k in range(len(self.beh)):
            if log.count(('close', 10 + k)) != 1: R('a connection is not closed')
            if log.count(('free', CL + 1 + k)) != 1: R('a connection is not released')
            if self.si and log.count(('select_rm_read', 10 + k)) != 1: R('a connection is not removed from the watched ones')
        if any(x[0] == 'select_rm_read' and not (x[1] is not None and (x[1] == 3 or 10 <= x[1] < 10 + len(self.beh))) for x in log): R('a descriptor which is not watched is removed from the set')
def gv(v):
    v = core.strip(v)
    return gvar(v.ops[0]) if getattr(v, 'op', '') == 'load' else None
def shut(ctx, p, K):
    for n, si in product(range(4), (0, CL + 90)):
        r = Shut(n, si, K); e = Engine(p, r); env = Env(); env.bind[(('fcrondyn_socket_close',), 'A0')] = ('c', si); e.run('fcrondyn_socket_close', r.init(), env)
        ctx.engine(e, 'fcrondyn_socket_close', 'close all: %d clients' % n); ctx.ob('close all: %d clients, %s' % (n, 'set' if si else 'no set'), r.ends and 'shut' not in e.reports, 'fcrondyn_socket_close', e.reports.get('shut', (0, 'no outcome'))[1])
