"""fcrontab: who may do what, and with which rights files are touched."""
from collections import namedtuple
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has, ERRNO
from sa import core, opts
from .common import ext, fld, gvar
from .install import Install, ASUSER, POS, Q0

SELF, OTHER, PW, EUID0, USER, UID, GID, FUID, FGID = 950003, 950001, 950010, 0, 1000, 1000, 1001, 700, 701
D = 1000000
PRIM = ASUSER | {'temp_file', 'save_file'}
G = namedtuple('G', 'allowed sys pam euid egid')
class Gate(Rule):
    """main of fcrontab up to its first action, for a caller with real uid `uid`"""
    name = 'permitted'
    max_states = 4000
    PAM = {'pam_start': 1, 'pam_authenticate': 2, 'pam_acct_mgmt': 4, 'pam_setcred': 8, 'pam_open_session': 16}
    OPT = 'u:lrezdnhVc:'
    def __init__(self, p, uid):
        self.uid = uid; self.seen = set(); self.acts = set()
        self.act = p.reaches(None, lambda f: f.name in PRIM) if 0 else {f.name for f in p.funcs.values() if self.prims(p, f)}
        self.mod = {f.name for f in p.funcs.values() if self.prims(p, f) & {'remove_as_user', 'rename_as_user', 'save_file'}}
    @staticmethod
    def prims(p, f): return {i.cname for g in p.closure([f]) for i in g.insts() if i.op == 'call' and i.cname in PRIM} | ({f.name} & PRIM)
    EV = {'is_allowed', 'read_conf', 'seteuid_safe', 'setegid_safe', 'strdup2', 'xexit', 'usage', 'info', 'get_user_uid_safe', 'get_group_gid_safe', 'xcloselog'}
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.EV or i.cname in self.act or ext(prog, i, {'getuid', 'getgid', 'geteuid', 'getegid', 'seteuid', 'setegid', 'setuid', 'setgid', 'getopt', 'getopt_long', 'getpwnam', 'getpwuid', 'strcmp'} | set(self.PAM)))
    def enter(self, prog, f): return f.name not in self.act and f.name not in self.EV and not f.noreturn and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        g = lambda n: env.mem.get(('p', ('g', n), ()))
        if i.op == 'load':
            v = gvar(i.ops[0]); p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if v == 'optarg': return [Outcome(q, term=('c', OTHER - D), setmem=[(p, ('c', OTHER - D))])]
            if p in env.mem: return None
            init = {'user': 0, 'runas': 0, 'pamh': None, 'list_opt': 0, 'rm_opt': 0, 'edit_opt': 0, 'reinstall_opt': 0, 'ignore_prev': 0, 'file_opt': 0, 'debug_opt': 0, 'rootuid': 0, 'rootgid': 0}.get(v)
            if init is not None: return [Outcome(q, term=('c', init), setmem=[(p, ('c', init))])]
            f = core.field_of(i.ops[0])
            if f and p[1][0] == 'c' and f[2] == 'pw_name': return [Outcome(q, term=('c', SELF - D), setmem=[(p, ('c', SELF - D))])]
            if f and p[1][0] == 'c' and f[2] in ('pw_uid', 'pw_gid'): x = p[1][1] - PW; return [Outcome(q, term=('c', (x if f[2] == 'pw_uid' else x + 1)))]
            if p[1][0] == 's' and p[1][2] == 'A1' and i.type.kind != 0 and p[2]: return [Outcome(q, term=('c', OTHER - D))]
            return None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; rep = lambda k, m: eng.report(i, m, eng.trace, key='gate:' + k); self.seen.add(n)
        if n in ('getuid',): return [Outcome(q, term=('c', self.uid))]
        if n == 'getgid': return [Outcome(q, term=('c', self.uid + 1))]
        if n == 'get_user_uid_safe' or n == 'get_group_gid_safe': return [Outcome(q, term=('c', 0))]
        if n in ('seteuid_safe', 'seteuid', 'setuid'): return [Outcome(q._replace(euid=a[0][1] if a[0][0] == 'c' else '?'), ret=av_const(0))]
        if n in ('setegid_safe', 'setegid', 'setgid'): return [Outcome(q._replace(egid=a[0][1] if a[0][0] == 'c' else '?'), ret=av_const(0))]
        if n in ('getopt', 'getopt_long'):
            o = core.const_str(i.args[2]) or self.OPT
            return [Outcome(q, ret=av_const(-1)), Outcome(q, ret=av_const(ord('?')))] + [Outcome(q, ret=av_const(ord(c))) for c in sorted(set(o) - {':', 'h', 'V', 'c', 'd'})]
        if n in ('xexit', 'usage', 'info'): return [Outcome(q, dead=True)]
        if n == 'strdup2':
            return [Outcome(q, term=('c', a[0][1] + D))] if a[0][0] == 'c' and a[0][1] else None
        if n == 'getpwuid': return [Outcome(q, term=('c', 0)), Outcome(q, term=('c', PW + self.uid))] if a[0] == ('c', self.uid) else None
        if n == 'getpwnam':
            s = core.const_str(i.args[0])
            if s: return [Outcome(q, term=('c', 0)), Outcome(q, term=('c', PW + FUID))]
            return [Outcome(q, term=('c', 0)), Outcome(q, term=('c', PW + (self.uid if a[0] == ('c', SELF) else 2000)))]
        if n == 'strcmp':
            if 'systab' in [core.const_str(x) for x in i.args[:2]] and any(x in (('c', OTHER), ('c', SELF)) for x in a[:2]):
                if ('c', SELF) in a[:2]: return [Outcome(q._replace(sys=0), ret=POS)]
                return [Outcome(q._replace(sys=1), ret=av_const(0)), Outcome(q._replace(sys=0), ret=POS)] if q.sys is None else [Outcome(q, ret=av_const(0) if q.sys else POS)]
            return None
        if n == 'read_conf':
            if q.euid != self.uid: rep('conf', 'the configuration named by the caller is read with the rights of fcrontab')
            return [Outcome(q)]
        if n == 'is_allowed':
            if a[0] != g('user'): rep('who', 'the permission of another user is checked')
            return [Outcome(q._replace(allowed=1), ret=av_const(1)), Outcome(q._replace(allowed=0), ret=av_const(0))]
        if n in self.PAM:
            b = self.PAM[n]
            if n == 'pam_start' and not (a[1] == g('user') or q.sys and a[1] == ('str', 'root')): rep('pamuser', 'the PAM session is not the one of the user whose crontab is handled')
            return [Outcome(q._replace(pam=q.pam | b), ret=av_const(0)), Outcome(q, ret=(1, 99, frozenset()))]
        if n in self.act:
            u = g('user'); self.acts.add(n)
            if self.uid and u != ('c', SELF): rep('other', 'a user who is not root acts on the crontab of another user')
            if not q.allowed and not (q.sys and not self.uid): rep('denied', 'an action is done for a user who is not permitted to use fcrontab (or was not checked)')
            miss = [k for k, b in self.PAM.items() if not q.pam & b and any(x.cname == k for f in eng.prog.funcs.values() for x in f.insts() if x.op == 'call')]
            if miss: rep('pam', 'an action is done although %s did not succeed' % ', '.join(miss))
            if (q.euid, q.egid) != (self.uid, self.uid + 1): rep('rights', 'an action is done with other rights than those of the caller (euid %s, egid %s)' % (who(q.euid, self.uid), who(q.egid, self.uid + 1)))
            o = {k: g(k) or ('c', 0) for k in ('list_opt', 'rm_opt', 'edit_opt', 'reinstall_opt', 'file_opt')}
            if o['list_opt'] == ('c', 1) and n in self.mod: rep('list', 'listing changes files')
            if all(v == ('c', 0) for v in o.values()): rep('none', 'an action is done although none was asked for')
            return [Outcome(q, dead=True)]
        return None
def who(v, u): return 'of the caller' if v == u else 'of root' if v == 0 else 'of fcron' if v in (FUID, FUID + 1) else str(v)

class Allowed(Rule):
    """is_allowed for given results of in_file. q = files asked for"""
    name = 'is_allowed'
    def __init__(self, known, allow, deny): self.v = (known, allow, deny); self.out = set(); self.n = 0
    def is_event(self, prog, i): return i.op == 'call' and (i.cname == 'in_file' or ext(prog, i, {'getpwnam'}))
    def enter(self, prog, f): return f.name != 'in_file' and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and gvar(i.ops[0]) in ('fcronallow', 'fcrondeny'): return [Outcome(q, term=('c', 961000 if gvar(i.ops[0]) == 'fcronallow' else 962000))]
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        a = [eng.ev(x, env, fr) for x in i.args]; self.n += 1
        if a[0] != ('s', ('is_allowed',), 'A0'): eng.report(i, 'another user is looked up', eng.trace, key='allow:who')
        if i.cname == 'getpwnam': return [Outcome(q, ret=POS if self.v[0] else av_const(0))]
        if a[1] == ('c', 961000): return [Outcome(q, ret=av_const(self.v[1]))]
        if a[1] == ('c', 962000): return [Outcome(q, ret=av_const(self.v[2]))]
        eng.report(i, 'another file than fcron.allow and fcron.deny decides', eng.trace, key='allow:file'); return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env); self.out.add(0 if a == av_const(0) else 1 if not av_has(a, 0) else None)

LINES = ['name\n', '  name \n', 'all\n', '\tall\n', '# name\n', '  # all\n', '\n', '   \n', 'names\n', 'nam\n', 'all users\n', 'other\n', 'name']
class InFile(Rule):
    """in_file on the given lines. q = (lines read, blanks at the end removed?)"""
    name = 'in_file'
    max_states = 64
    def __init__(self, lines): self.lines = lines; self.out = set()
    def is_event(self, prog, i): return i.op == 'call' and (i.cname == 'remove_blanks' or ext(prog, i, {'fopen', 'fgets', 'strcmp', 'strncmp', 'strlen'}))
    def enter(self, prog, f): return f.name != 'remove_blanks' and not f.noreturn and not (f.file or '').endswith(('log.c', 'subs.c'))
    def text(self, q): return self.lines[q[0] - 1] if q[0] and q[0] <= len(self.lines) else None
    def at(self, eng, env, fr, t, q):
        p = eng.ptr(t)
        if p[1][0] not in ('a',): return None
        if any(s[0] != 'i' or s[1] is None for s in p[2]): return None
        return sum(s[1] for s in p[2])
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and i.type.width == 8:
            k = self.at(eng, env, fr, eng.ev(i.ops[0], env, fr), q); s = self.text(q)
            if k is None or s is None: return None
            if not 0 <= k <= len(s): eng.report(i, 'the line is read out of its bounds', eng.trace, key='infile:bounds'); return [Outcome(q, dead=True)]
            s = s.rstrip() if q[1] else s
            return [Outcome(q, term=('c', ord(s[k]) if k < len(s) else 0))]
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'fopen':
            if a[0] != ('s', ('in_file',), 'A1'): eng.report(i, 'another file is read', eng.trace, key='infile:file')
            if self.lines is None: return [Outcome((-2, 0), term=('c', 0), setmem=[(ERRNO, ('c', 2))])]
            if self.lines == 'EACCES': return [Outcome((-3, 0), term=('c', 0), setmem=[(ERRNO, ('c', 13))])]
            return [Outcome(q, ret=POS)]
        if n == 'fgets': return [Outcome((q[0] + 1, 0), ret=POS)] if q[0] < len(self.lines) else [Outcome((99, 0), term=('c', 0))]
        if n == 'remove_blanks': return [Outcome((q[0], 1))]
        if n == 'strcmp':
            out = []
            for x, y in ((0, 1), (1, 0)):
                k = self.at(eng, env, fr, a[x], q); s = self.text(q)
                if k is None or s is None: continue
                s = (s.rstrip() if q[1] else s)[k:]; w = core.const_str(i.args[y]) if core.const_str(i.args[y]) is not None else 'name' if a[y] == ('s', ('in_file',), 'A0') else None
                if w is not None: return [Outcome(q, ret=av_const(0) if s == w else POS)]
            return None
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env); self.out.add(a[0] if a[0] == a[1] else None)

def permitted(ctx):
    """Rule: on every path from the start of fcrontab to an action on files (all options, real uid root or not): the user is the caller himself unless the caller is root, is_allowed accepted him (or root asked for the system crontab), each PAM step succeeded, and effective ids are those of the caller; listing calls nothing that changes files. is_allowed over all results for both lists, in_file over all contents of two kinds of lines: documented table. Files named by the user are opened with his ids."""
    p = ctx.prog('fcrontab'); jobs = []
    def mk(uid):
        def f():
            r = Gate(p, uid); e = Engine(p, r); e.run('main', G(None, None, 0, FUID, FGID)); r.extra = (sorted(r.acts), sorted(r.seen)); return e
        return f
    def mk2(k, al, de):
        def f(): r = Allowed(k, al, de); e = Engine(p, r); e.run('is_allowed', ''); r.extra = sorted(r.out, key=str); return e
        return f
    def mk3(ls):
        def f(): r = InFile(ls); e = Engine(p, r); e.run('in_file', (0, 0)); r.extra = sorted(r.out, key=str); return e
        return f
    want = {}
    for uid in (0, USER): jobs.append(('caller %s' % ('root' if not uid else 'not root'), mk(uid)))
    for k, al, de in product((0, 1), (-1, 0, 1, 2), (-1, 0, 1, 2)):
        l = 'user %s, allow %d, deny %d' % ('known' if k else 'unknown', al, de); jobs.append((l, mk2(k, al, de)))
        want[l] = int(bool(k and (al == -1 and de in (-1, 0) or al == 1 and de != 1 or al == 2 and de <= 0)))
    def w3(ls):
        for s in ls:
            s = s.strip()
            if s == 'name': return 1
            if s == 'all': return 2
        return 0
    for ls in [()] + [(x,) for x in LINES] + list(product(LINES[:-1], LINES)):
        l = 'lines %r' % (ls,); jobs.append((l, mk3(ls))); want[l] = w3(ls)
    K = opts.consts(ctx.work, ['OK', 'ERR', 'EXIT_OK', 'EXIT_ERR'])
    def mk4(m):
        def f():
            r = Install(K, m, 0, 0); r.rights = True; e = Engine(p, r)
            r.opts = [(o, int(m in w)) for o, w in (('file_opt', ('stdin', 'file')), ('rm_opt', ('rm',)), ('list_opt', ()), ('edit_opt', ('edit',)), ('reinstall_opt', ('reinstall',)), ('ignore_prev', ()), ('need_sig', ()), ('debug_opt', ()))] + [('user', 901), ('useruid', UID), ('usergid', GID), ('asuid', UID), ('asgid', GID), ('fcrontab_uid', FUID), ('fcrontab_gid', FGID), ('rootuid', 0), ('rootgid', 0)]
            e.run('main', Q0); e.reports = {k: v for k, v in e.reports.items() if k == 'install:userfile'}; r.extra = r.opened; return e
        return f
    for m in ('file', 'edit'): jobs.append(('files of ' + m, mk4(m)))
    jobs.append(('no file', mk3(None))); want['no file'] = -1
    jobs.append(('unreadable', mk3('EACCES'))); want['unreadable'] = 'dies'
    for l, got in ctx.engines(jobs):
        if l.startswith('caller'):
            acts, seen = got
            ctx.need('is_allowed' in seen and acts, 'fcrontab checks no permission, or has no action')
            ctx.ob(l + ': acts', len(acts) >= 4, 'main', 'only %s can be reached' % ', '.join(acts))
            for k in ('conf', 'who', 'pamuser', 'other', 'denied', 'pam', 'rights', 'list', 'none'): ctx.ob('%s: %s' % (l, k), 'gate:' + k not in ctx.viol, 'main', 'see gate:' + k)
        elif l.startswith('files of'): ctx.ob(l, got > 0 and 'install:userfile' not in ctx.viol, 'main', 'see install:userfile, or no file named by the user is opened')
        elif want[l] == 'dies': ctx.ob(l, not got, 'in_file', 'a list which cannot be read is taken for absent or empty')
        else: ctx.ob(l, got == [want[l]], 'is_allowed' if 'user' in l else 'in_file', 'expected %s, the code gives %s (%s)' % (want[l], got, l))
