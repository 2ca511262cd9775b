"""The environment, shell and home directory of jobs and mailers (setup_user_and_env), and the lists of variables behind."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env
from sa import core
from .common import ext, fld, gvar
CL, PW, CF, CRON, PAMV, OUTP, ENT, STR0 = 700000, 710000, 720000, 730000, 740000, 750000, 760000, 1 << 24
OUTS = ('sendmail', 'job', 'shell', 'home', 'ctype', 'enc')
class World(Rule):
    """concrete strings: string k is at STR0 + 4096 k. q = (strings, lists, what was given back, other objects)"""
    max_states = 40
    geps = True
    def num(self, eng, env, t):
        p = eng.ptr(t)
        if p[1][0] == 'c' and all(s[0] == 'i' and isinstance(s[1], int) for s in p[2]): return p[1][1] + sum(s[1] for s in p[2])
        if t[0] == 'c': return t[1]
        v = eng.av(t, env); return int(v[0]) if v[0] == v[1] else None
    def text(self, eng, q, env, fr, v):
        """the text a pointer (IR value) points to, None for NULL, False if unknown"""
        s = core.const_str(v)
        if s is not None: return s if isinstance(s, str) else s.decode('latin1')
        t = eng.ev(v, env, fr); n = self.num(eng, env, t)
        if n == 0: return None
        p = eng.ptr(t)
        if p[1][0] == 'str' and all(s[0] == 'i' for s in p[2]): return p[1][1][sum(s[1] for s in p[2]):]
        if p[1][0] == 'g' and all(s[0] == 'i' for s in p[2]):
            g = eng.prog.globals.get(p[1][1]); o = sum(s[1] for s in p[2])
            if g is not None and g.const and g.init is not None: return g.init.v[o:].split('\0')[0] if g.init.kind == 'str' else '' if g.init.kind == 'zero' else False
            return False
        if n is not None and n >= STR0:
            k, o = divmod(n - STR0, 4096)
            if k < len(q[0]) and o <= len(q[0][k]): return q[0][k][o:]
        return False
    def new(self, q, s):
        """-> (q with one more string, its address)"""
        return (q[0] + (s,),) + q[1:], STR0 + 4096 * len(q[0])
    def char(self, eng, q, env, i, fr):
        if getattr(i.type, 'width', 0) != 8: return None
        n = self.num(eng, env, eng.ev(i.ops[0], env, fr))
        if n is None or n < STR0: return None
        k, o = divmod(n - STR0, 4096)
        if k >= len(q[0]) or o > len(q[0][k]): eng.report(i, 'memory behind the end of a text is read', eng.trace, key='env:bounds'); return [Outcome(q, dead=True)]
        return [Outcome(q, term=('c', ord((q[0][k] + '\0')[o])))]
    def gep(self, eng, q, env, i, fr):
        if len(i.ops) == 2:
            b, k = (self.num(eng, env, eng.ev(x, env, fr)) for x in i.ops)
            if b is not None and k is not None and b >= 700000: return [Outcome(q, term=('c', b + k * (i.gepty.size or 1)))]
        return None

class Setup(World):
    """q = (strings, variables (None before the list exists), results, flags)"""
    name = 'environment'
    LISTFN = ('env_list_init', 'env_list_setenv', 'env_list_putenv', 'env_list_getenv', 'env_list_export_envp', 'env_list_destroy', 'env_list_first', 'env_list_next', 'env_list_end_iteration', 'env_list_copy', 'strdup2')
    def __init__(self, sc): self.sc = sc; self.ends = []
    def is_event(self, prog, i): return i.op in ('load', 'store') or i.op == 'call' and (i.cname in self.LISTFN or ext(prog, i, {'getenv', 'access', 'eaccess', 'euidaccess', 'faccessat', 'getpwnam', 'strlen', 'strcmp', 'free', 'pam_start', 'pam_authenticate', 'pam_acct_mgmt', 'pam_setcred', 'pam_open_session', 'pam_getenvlist'}))
    def enter(self, prog, f): return not f.noreturn and f.name not in self.LISTFN and not (f.file or '').endswith(('log.c', 'mail.c', 'database.c'))
    def init(self):
        sc = self.sc; s = []; self.ad = {}
        for k in ('name', 'dir', 'pwshell', 'tz', 'cmd', 'shell', 'path'):
            v = sc.get(k)
            if v is None: self.ad[k] = 0
            else: self.ad[k] = STR0 + 4096 * len(s); s.append(v)
        self.cron = []; self.pam = []
        for l, o in ((sc['cron'], self.cron), (sc['pam'], self.pam)):
            for v in l: o.append(STR0 + 4096 * len(s)); s.append(v)
        return (tuple(s), None, (), ())
    def on_inst(self, eng, q, env, i, fr):
        sc = self.sc
        if i.op == 'gep': return self.gep(eng, q, env, i, fr)
        if i.op == 'load':
            r = self.char(eng, q, env, i, fr)
            if r is not None: return r
            g = gvar(i.ops[0])
            if g == 'shell': return [Outcome(q, term=('c', self.ad['shell']))]
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); f = core.field_of(i.ops[0])
            if p[1][0] != 'c': return None
            b = p[1][1]; nm = p[2][-1][2] if p[2] and p[2][-1][0] == 'f' else None
            if b == CL: return [Outcome(q, term=('c', self.ad[{'cl_tz': 'tz', 'cl_shell': 'cmd', 'cl_runas': 'name'}[nm]]))] if nm in ('cl_tz', 'cl_shell', 'cl_runas') else [Outcome(q, term=('c', CF))] if nm == 'cl_file' else None
            if b == CF: return [Outcome(q, term=('c', CRON))] if nm == 'cf_env_list' else None
            if b == PW: return [Outcome(q, term=('c', self.ad[{'pw_name': 'name', 'pw_dir': 'dir', 'pw_shell': 'pwshell'}[nm]]))] if nm in ('pw_name', 'pw_dir', 'pw_shell') else None
            if ENT <= b < ENT + 8 * len(self.cron): return [Outcome(q, term=('c', self.cron[(b - ENT) // 8]))]
            n = self.num(eng, env, eng.ev(i.ops[0], env, fr))
            if n is not None and PAMV <= n <= PAMV + 8 * len(self.pam) and getattr(i.type, 'width', 0) in (0, None):
                k = (n - PAMV) // 8; return [Outcome(q, term=('c', (self.pam + [0])[k]))]
            if n is not None and OUTP <= n < OUTP + 8 * len(OUTS):
                d = dict(q[3]); return [Outcome(q, term=('c', d.get(n, 0)))]
            return None
        if i.op == 'store':
            n = self.num(eng, env, eng.ev(i.ops[1], env, fr))
            if n is None or not OUTP <= n < OUTP + 8 * len(OUTS): return None
            k = OUTS[(n - OUTP) // 8]; v = self.num(eng, env, eng.ev(i.ops[0], env, fr))
            if v == 0: val = None
            elif v is not None and v >= STR0: val = self.text(eng, q, env, fr, i.ops[0]); 
            elif v is not None: val = dict(q[3]).get(('env', v), '?')
            else: val = '?'
            d = dict(q[2]); d[k] = val; e = dict(q[3]); e[n] = v or 0
            return [Outcome((q[0], q[1], tuple(sorted(d.items(), key=str)), tuple(sorted(e.items(), key=str))))]
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; T = lambda k: self.text(eng, q, env, fr, i.args[k]); N = lambda k: self.num(eng, env, eng.ev(i.args[k], env, fr))
        s, vs, out, fl = q
        if n == 'env_list_init': return [Outcome((s, (), out, fl), term=('c', 1))]
        if n == 'env_list_first': return [Outcome(q, term=('c', ENT if self.cron else 0))] if N(0) == CRON else None
        if n == 'env_list_next':
            # the position is kept in the flags
            k = dict(fl).get('pos', 0) + 1; d = dict(fl); d['pos'] = k
            return [Outcome((s, vs, out, tuple(sorted(d.items(), key=str))), term=('c', ENT + 8 * k if k < len(self.cron) else 0))] if N(0) == CRON else None
        if n in ('env_list_setenv', 'env_list_putenv'):
            if N(0) != 1 or vs is None: eng.report(i, 'a variable is put in another list than the one of the job', eng.trace, key='env:list'); return None
            if n == 'env_list_setenv': nm, v, ow = T(1), T(2), N(3)
            else:
                t = T(1); nm, v = (t.split('=', 1) + [''])[:2] if t else (t, None); ow = N(2)
            if not nm or v in (None, False) or ow is None: eng.report(i, 'a variable is set from what is not a text', eng.trace, key='env:text'); return None
            d = dict(vs)
            if nm not in d or ow == 1: d[nm] = v
            return [Outcome((s, tuple(sorted(d.items())), out, fl), ret=(1, INF, frozenset()))]
        if n == 'env_list_getenv':
            nm = T(1)
            if N(0) != 1 or not nm: eng.report(i, 'a variable is read from another list than the one of the job', eng.trace, key='env:list'); return None
            v = dict(vs or ()).get(nm)
            if v is None: return [Outcome(q, term=('c', 0))]
            q, a = self.new(q, v); return [Outcome(q, term=('c', a))]
        if n == 'strdup2':
            v = T(0)
            if v is False: return [Outcome(q)]
            if v is None: return [Outcome(q, term=('c', 0))]
            q, a = self.new(q, v); return [Outcome(q, term=('c', a))]
        if n == 'env_list_export_envp':
            if N(0) != 1: eng.report(i, 'another list of variables is given to the job', eng.trace, key='env:list'); return None
            k = 100 + sum(1 for x in fl if isinstance(x[0], tuple)); d = dict(fl); d[('env', k)] = vs
            return [Outcome((s, vs, out, tuple(sorted(d.items(), key=str))), term=('c', k))]
        if n == 'env_list_destroy':
            if N(0) != 1: eng.report(i, 'the variables of the crontab are released', eng.trace, key='env:list')
            return [Outcome((s, None, out, fl), term=('c', 0))]
        if n == 'getenv': return [Outcome(q, term=('c', self.ad['path']))] if T(0) == 'PATH' else None
        if n in ('access', 'eaccess', 'euidaccess'):
            t = T(0)
            if N(1) != 1: eng.report(i, 'the shell is not checked to be executable', eng.trace, key='env:access')
            return [Outcome(q, term=('c', 0 if t in sc['exe'] else -1))]
        if n == 'strlen': t = T(0); return [Outcome(q, term=('c', len(t)))] if t else None
        if n == 'strcmp': a, b = T(0), T(1); return [Outcome(q, term=('c', (a > b) - (a < b)))] if a not in (None, False) and b not in (None, False) else None
        if n == 'pam_getenvlist': return [Outcome(q, term=('c', PAMV if self.pam is not None and not sc.get('nopam') else 0))]
        if n.startswith('pam_'): return [Outcome(q, term=('c', 0))]
        return None
    def on_exit(self, eng, q, env, inst, fr): self.ends.append(dict(q[2]))

def want(sc, outs, djp):
    v = dict(USER=sc['name'], LOGNAME=sc['name'], HOME=sc['dir'], PATH=sc['path'] if sc['path'] is not None else djp)
    if sc['tz'] is not None: v['TZ'] = sc['tz']
    dfl = sc['shell'] if sc['shell'] else sc['pwshell']; v['SHELL'] = dfl
    for x in ([] if sc.get('nopam') else sc['pam']): k, t = x.split('=', 1); v[k] = t
    r = {}
    if 'sendmail' in outs: r['sendmail'] = tuple(sorted(v.items()))
    if 'job' in outs:
        v['PATH'] = djp
        for x in sc['cron']: k, t = x.split('=', 1); v[k] = t
        v.setdefault('HOME', '/')
        if 'home' in outs: r['home'] = v['HOME']
        if not v['SHELL'] or v['SHELL'] not in sc['exe']: v['SHELL'] = dfl
        if 'shell' in outs: r['shell'] = v['SHELL']
        r['job'] = tuple(sorted(v.items()))
    if 'ctype' in outs: r['ctype'] = v.get('CONTENT_TYPE')
    if 'enc' in outs: r['enc'] = v.get('CONTENT_TRANSFER_ENCODING')
    return r
def setup(ctx):
    """Rule: for each way fcron.conf, the password file, PAM, the option timezone and the crontab define (or not) each variable, and each one asked for by the callers: the environment of the mailer is the one of the account and PAM, that of the job adds all variables of the crontab over them with the default PATH, SHELL is the executable shell chosen in the documented order and is the one executed, the home directory and the type of the mails are those of the variables."""
    p = ctx.prog('fcron'); jobs = []; exp = {}; fn = 'setup_user_and_env'
    f = p.func(fn); ctx.need(len(f.params) == 8, 'setup_user_and_env does not have the parameters known')
    djp = DJP(ctx); B = dict(name='bob', dir='/h/bob', pwshell='/pw/sh', shell='/conf/sh', tz=None, cmd='cmd', path='/daemon/path', cron=(), pam=(), exe=('/pw/sh', '/conf/sh', '/cron/sh', '/pam/sh'))
    V = [dict(), dict(shell=''), dict(shell=None), dict(tz='Europe/Paris'), dict(path=None), dict(cron=('FOO=1', 'BAR=2=3')), dict(cron=('SHELL=/cron/sh', 'HOME=/x')), dict(cron=('SHELL=/cron/nosh',)), dict(cron=('SHELL=',)), dict(cron=('SHELL=/cron/nosh',), shell=''), dict(cron=('SHELL=',), shell=None), dict(cron=('PATH=/a:/b',)), dict(cron=('PATH=/a:/b', 'A=', 'CONTENT_TYPE=text/html', 'CONTENT_TRANSFER_ENCODING=8bit')), dict(pam=('P=1', 'HOME=/pam', 'PATH=/pampath')), dict(pam=('SHELL=/pam/sh',)), dict(pam=('P=1', 'Q=2'), cron=('P=3', 'R=4')), dict(nopam=1, pam=('P=1',)), dict(cron=('A=1', 'A=2'), tz='UTC'), dict(exe=('/conf/sh',), pwshell='/pw/sh', shell='/conf/sh', pam=('SHELL=/pam/nosh',)), dict(cron=('LANG=C', 'HOME=/z', 'SHELL=/cron/sh', 'PATH=/q'), pam=('LANG=fr', 'XDG=1'), tz='Asia/Tokyo')]
    if ctx.tier == 'thorough':
        V += [dict(cron=c, pam=m, shell=s, tz=z, path=h) for c, m, s, z, h in product([(), ('SHELL=/cron/nosh', 'A=1'), ('A=1', 'HOME=/x', 'PATH=/a')], [(), ('A=0', 'B=2')], ['', None, '/conf/sh'], [None, 'UTC'], [None, '/daemon/path'])]
    for k, x in enumerate(V):
        sc = dict(B); sc.update(x)
        for outs in ((OUTS,) if x else (OUTS, ('sendmail',), ('sendmail', 'job'), ('job', 'shell', 'home'))):
            lab = 'environment %d (%s), %s' % (k, ' '.join('%s=%s' % (a, ','.join(b) if isinstance(b, tuple) else b) for a, b in x.items()) or 'nothing special', ' '.join(outs) if outs != OUTS else 'all results')
            def t(sc=sc, outs=outs):
                r = Setup(sc); e = Engine(p, r); env = Env(); q = r.init(); env.bind[((fn,), 'A0')] = ('c', CL); env.bind[((fn,), 'A1')] = ('c', PW)
                for j, o in enumerate(OUTS): env.bind[((fn,), 'A%d' % (j + 2))] = ('c', OUTP + 8 * j if o in outs else 0)
                e.run(fn, q, env); r.extra = r.ends; return e
            jobs.append((lab, t)); exp[lab] = want(sc, outs, djp)
    NAME = dict(sendmail='the environment of the mailer', job='the environment of the job', shell='the shell executed', home='the directory of the job', ctype='the type of the mail', enc='the encoding of the mail')
    for lab, ends in ctx.engines(jobs):
        ctx.ob(lab + ': decided', bool(ends), fn, 'no outcome')
        for d in ends:
            for k in OUTS:
                g, w = d.get(k), exp[lab].get(k)
                if isinstance(g, tuple) and isinstance(w, tuple): g, w = [x for x in g if x not in w], [x for x in w if x not in g]
                ctx.ob('%s: %s' % (lab, k), g == w, fn, '%s is (or has) %s instead of %s' % (NAME[k], g, w))
def DJP(ctx):
    from sa import build
    import os, re, subprocess
    src = os.path.join(ctx.work, 'djp.c')
    with open(src, 'w') as f: f.write('#include "global.h"\nvp_djp: DEFAULT_JOB_PATH\n')
    r = subprocess.run([build.CLANG, '-E', '-P'] + build.cflags(ctx.work) + [src], cwd=ctx.work, capture_output=True, text=True)
    m = re.search(r'vp_djp:\s*((?:"[^"]*"\s*)+)', r.stdout); ctx.need(m, 'DEFAULT_JOB_PATH is not a text')
    return ''.join(re.findall('"([^"]*)"', m.group(1)))
class Vars(World):
    """a list of variables with known contents. q = (strings, entries (addresses of texts), results, (position, count of texts released))"""
    name = 'variables'
    def __init__(self, ents, more): self.ents = ents; self.more = more; self.ends = []
    def is_event(self, prog, i): return i.op in ('load', 'store') or i.op == 'call' and (i.cname in ('env_list_first', 'env_list_next', 'env_list_end_iteration', 'u_list_first', 'u_list_next', 'u_list_end_iteration', 'u_list_add', 'strcmp_until', 'strdup2') or ext(prog, i, {'strlen', 'realloc', 'malloc', 'calloc', 'snprintf', 'memcpy', 'strcpy', 'strcat', 'sprintf', 'free', 'strdup', 'memset'}) or (i.cname or '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')))
    def enter(self, prog, f): return not f.noreturn and not (f.file or '').endswith('log.c')
    def init(self):
        s = tuple(self.ents) + tuple(self.more); return (s, tuple(STR0 + 4096 * k for k in range(len(self.ents))), (), -1)
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'gep': return self.gep(eng, q, env, i, fr)
        s, es, loc, pos = q
        if i.op in ('load', 'store'):
            if i.op == 'load':
                r = self.char(eng, q, env, i, fr)
                if r is not None: return r
            t = eng.ev(i.ops[0 if i.op == 'load' else 1], env, fr); p = eng.ptr(t)
            if p[1][0] == 'c' and ENT <= p[1][1] < ENT + 8 * len(es):
                k = (p[1][1] - ENT) // 8
                if i.op == 'load': return [Outcome(q, term=('c', es[k]))]
                v = self.num(eng, env, eng.ev(i.ops[0], env, fr)); return [Outcome((s, es[:k] + (v,) + es[k + 1:], loc, pos))]
            if p[2] and p[2][-1][0] == 'f' and p[2][-1][2] == 'num_entries' and i.op == 'load': return [Outcome(q, term=('c', len(es)))]
            n = self.num(eng, env, t)
            if n is not None and ENVP <= n < ENVP + 800:
                d = dict(loc)
                if i.op == 'load': return [Outcome(q, term=('c', d.get(n, 0)))]
                d[n] = self.num(eng, env, eng.ev(i.ops[0], env, fr)); return [Outcome((s, es, tuple(sorted(d.items(), key=str)), pos))]
            return None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; T = lambda k: self.text(eng, q, env, fr, i.args[k]); N = lambda k: self.num(eng, env, eng.ev(i.args[k], env, fr))
        if n in ('env_list_first', 'u_list_first'): return [Outcome((s, es, loc, 0 if es else -1), term=('c', ENT if es else 0))]
        if n in ('env_list_next', 'u_list_next'): k = pos + 1; return [Outcome((s, es, loc, k if k < len(es) else -1), term=('c', ENT + 8 * k if k < len(es) else 0))]
        if n in ('env_list_end_iteration', 'u_list_end_iteration'): return [Outcome((s, es, loc, -1))]
        if n == 'u_list_add':
            a = eng.ev(i.args[1], env, fr); v = None
            for key, val in env.mem.items():
                if eng.ptr(key)[1] == eng.ptr(a)[1]: v = self.num(eng, env, val)
            if v is None or v < STR0: eng.report(i, 'what is added to the list is not a variable', eng.trace, key='vars:add'); v = 0
            return [Outcome((s, es + (v,), loc, pos), term=('c', ENT + 8 * len(es)))]
        if n == 'strcmp_until':
            a, b, u = T(0), T(1), N(2)
            if a in (None, False) or b in (None, False) or u is None: return None
            u = chr(u); a, b = a.split(u)[0], b.split(u)[0]; return [Outcome(q, term=('c', (a > b) - (a < b)))]
        if n == 'strlen': t = T(0); return [Outcome(q, term=('c', len(t)))] if t not in (None, False) else None
        if n in ('strdup2', 'strdup'):
            t = T(0)
            if t in (None, False): return None
            q, a = self.new(q, t); return [Outcome(q, term=('c', a))]
        if n in ('malloc', 'calloc', 'realloc'):
            z = (N(0) or 0) * (N(1) or 0) if n == 'calloc' else N(0) if n == 'malloc' else N(1)
            if z is None: return None
            if eng.prog.funcs[self.fn].name == 'env_list_export_envp': self.size = z; return [Outcome(q, term=('c', ENVP))]
            old = '' if n != 'realloc' else self.text(eng, q, env, fr, i.args[0]) or ''
            q = (q[0], tuple(-x if n == 'realloc' and x == N(0) else x for x in es), loc, pos)
            q, a = self.new(q, (old + '?' * z)[:max(z - 1, 0)]); d = dict(q[2]); d[('room', a)] = z
            return [Outcome((q[0], q[1], tuple(sorted(d.items(), key=str)), pos), term=('c', a))]
        if n in ('snprintf', 'sprintf', 'memcpy', 'strcpy', 'strcat') or n.startswith(('llvm.memcpy', 'llvm.memmove')):
            d = N(0); room = dict(loc).get(('room', d)); f = 2 if n == 'snprintf' else 1
            if d is None or d < STR0 or room is None: return None
            if 'printf' in n:
                fm = self.text(eng, q, env, fr, i.args[f]); rest = [self.text(eng, q, env, fr, x) for x in i.args[f + 1:]]
                if fm in (None, False) or any(x in (None, False) for x in rest) or fm.count('%s') != len(rest): eng.report(i, 'the variable is not made of its name and value', eng.trace, key='vars:format'); return None
                t = fm % tuple(rest); z = len(t) + 1
                if n == 'snprintf': lim = N(1); t = t[:max((lim or 0) - 1, 0)]; z = min(z, lim or 0)
            elif n == 'strcpy' or n == 'strcat':
                t = T(1); t = t if n == 'strcpy' or t in (None, False) else q[0][(d - STR0) // 4096] + t; z = len(t or '') + 1
            else:
                t = T(1); z = N(2)
                if t in (None, False) or z is None or z != len(t) + 1: eng.report(i, 'the variable is not copied as a whole, with its end', eng.trace, key='vars:copy'); return None
            if t in (None, False): return None
            if z > room: eng.report(i, 'the variable is longer than the memory allocated for it', eng.trace, key='vars:bounds')
            k = (d - STR0) // 4096; return [Outcome((q[0][:k] + (t,) + q[0][k + 1:], es, loc, pos))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        mine = range(len(self.ents), len(self.ents) + len(self.more))
        ts = ['(released)' if x < STR0 else '(memory of the caller)' if (x - STR0) // 4096 in mine else q[0][(x - STR0) // 4096][(x - STR0) % 4096:] for x in q[1]]; rv = None if eng.rv is None else self.num(eng, env, eng.rv); ev = []; d = dict(q[2])
        if self.fn == 'env_list_export_envp':
            for k in range(len(ts) + 1): x = d.get(ENVP + 8 * k, -1); ev.append(q[0][(x - STR0) // 4096] if x and x >= STR0 else x)
            self.ends.append((ts, rv == ENVP, ev, self.size))
        elif self.fn == 'env_list_getenv': self.ends.append((ts, rv if not rv or rv < STR0 else q[0][(rv - STR0) // 4096][(rv - STR0) % 4096:], None, 0))
        else: self.ends.append((ts, rv, None, 0))
ENVP = 790000
def variables(ctx):
    """Rule: for lists of 0 to 3 variables, names which are the beginning of others, empty values and values with "=": setting a variable adds it, or replaces it alone, only if asked; its value is the text after the first "="; exporting gives each variable once, then NULL."""
    p = ctx.prog('fcron'); jobs = []; exp = {}
    L = [(), ('A=1',), ('AB=1',), ('A=',), ('B=2', 'A=1'), ('AB=1', 'A=2', 'B=3'), ('A==x',), ('A=1', 'ABC=2', 'AB=long value'), ('C=A=9', 'CA=1')]
    nv = [('A', ''), ('A', 'v'), ('AB', 'a=b'), ('B', 'longer'), ('CA', 'x')]
    def name(x): return x.split('=')[0]
    for l in L:
        for n, v in nv:
            for ow in (0, 1):
                for fn in ('env_list_setenv', 'env_list_putenv'):
                    w = list(l); k = [name(x) for x in l].index(n) if n in [name(x) for x in l] else None
                    if k is None: w.append(n + '=' + v); k = len(w) - 1
                    elif ow: w[k] = n + '=' + v
                    jobs.append((fn, l, (n, v) if fn.endswith('setenv') else (n + '=' + v,), ow, (w, ENT + 8 * k, None, 0)))
            if v == nv[0][1] or n != 'A': jobs.append(('env_list_getenv', l, (n,), 0, (list(l), next((x.split('=', 1)[1] for x in l if name(x) == n), 0), None, 0)))
        jobs.append(('env_list_export_envp', l, (), 0, (list(l), True, list(l) + [0], 8 * (len(l) + 1))))
    run = []
    for fn, l, more, ow, w in jobs:
        p.func(fn); lab = '%s(%s%s) on [%s]' % (fn, ', '.join(more), ', overwriting' if ow else '', ' '.join(l)); exp[lab] = (fn, w)
        def t(fn=fn, l=l, more=more, ow=ow):
            r = Vars(l, more); r.fn = fn; r.size = 0; e = Engine(p, r); env = Env(); env.bind[((fn,), 'A0')] = ('c', 1)
            for k in range(len(more)): env.bind[((fn,), 'A%d' % (k + 1))] = ('c', STR0 + 4096 * (len(l) + k))
            env.bind[((fn,), 'A%d' % (len(more) + 1))] = ('c', ow)
            e.run(fn, r.init(), env); r.extra = r.ends; return e
        run.append((lab, t))
    for lab, ends in ctx.engines(run):
        fn, w = exp[lab]; ctx.ob(lab + ': decided', bool(ends), fn, 'no outcome')
        for g in ends:
            if g[0] != w[0]: m = 'the variables are %s instead of %s' % (g[0], w[0])
            elif g[1] != w[1]: m = 'the answer is %s instead of %s' % (g[1], w[1]) if fn == 'env_list_getenv' else 'the answer is not the variable'
            elif g[2] != w[2]: m = 'the variables given are %s instead of %s' % (g[2], w[2])
            elif g[3] < w[3]: m = 'memory for %d bytes of the %d needed' % (g[3], w[3])
            else: m = None
            ctx.ob(lab, m is None, fn, '%s (%s)' % (m, lab))
class Cmp(World):
    name = 'comparison'
    def __init__(self): self.ends = []
    def is_event(self, prog, i): return i.op == 'load'
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'gep': return self.gep(eng, q, env, i, fr)
        return self.char(eng, q, env, i, fr) if i.op == 'load' else None
    def on_exit(self, eng, q, env, inst, fr): self.ends.append(self.num(eng, env, eng.rv))
def names(ctx):
    """Rule: strcmp_until() finds two texts equal exactly if they are the same up to the first "=" or the end, and reads nothing behind their ends, for all short texts."""
    p = ctx.prog('fcron'); fn = 'strcmp_until'; p.func(fn); n = 4 if ctx.tier == 'thorough' else 3
    T = [''.join(x) for k in range(n + 1) for x in product('A=B', repeat=k)]; run = []; exp = {}
    for a in T:
        def t(a=a):
            out = []
            for b in T:
                r = Cmp(); e = Engine(p, r); env = Env(); env.bind[((fn,), 'A0')] = ('c', STR0); env.bind[((fn,), 'A1')] = ('c', STR0 + 4096); env.bind[((fn,), 'A2')] = ('c', 61)
                e.run(fn, ((a, b), (), (), 0), env); out.append((b, r.ends, bool(e.reports)))
            r.extra = out; return e
        run.append(('names: %s' % a, t)); exp['names: %s' % a] = a
    for lab, out in ctx.engines(run):
        a = exp[lab]; bad = [b for b, ends, rep in out if rep or len(ends) != 1 or (ends[0] == 0) != (a.split('=')[0] == b.split('=')[0])]
        ctx.ob(lab, not bad, fn, '"%s" is wrongly told equal to or different from "%s"' % (a, bad and bad[0]))
MK = {k: 5000001 + j for j, k in enumerate(OUTS)}; MKN = dict(sendmail='the environment of the mailer', job='the environment of the job', shell='the shell', home='the home directory', ctype='the type of the mail', enc='the encoding of the mail')
class Used(Rule):
    """what setup_user_and_env() gave back is what is used. q = number of forks passed"""
    name = 'environment used'
    max_states = 40
    EXECS = {'execle', 'execl', 'execlp', 'execv', 'execve', 'execvp', 'execvpe'}
    def __init__(self, within): self.within = within; self.seen = set()
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ('setup_user_and_env', 'create_mail', 'end_job', 'become_user') or ext(prog, i, {'fork', 'setenv', 'putenv', 'clearenv'} | self.EXECS))
    def enter(self, prog, f): return f.name in self.within and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]
        if n == 'fork': return [Outcome(q + 1, ret=av_const(0)), Outcome(q, ret=(1, INF, frozenset()))] if q < 2 else [Outcome(q, ret=(1, INF, frozenset()))]
        if n == 'setup_user_and_env':
            out = []
            for k, o in enumerate(OUTS):
                if a[k + 2] != ('c', 0): out.append((eng.ptr(a[k + 2]), ('c', MK[o])))
            return [Outcome(q, setmem=out)]
        def must(t, o, w):
            self.seen.add(o)
            if t != ('c', MK[o]): eng.report(i, '%s is not the one of the job: %s' % (w, MKN[o]), eng.trace, key='used:' + o)
        if n == 'create_mail': must(a[2], 'ctype', 'what heads the mail'); must(a[3], 'enc', 'what heads the mail'); must(a[4], 'job', 'what heads the mail'); return None
        if n == 'become_user': must(a[2], 'home', 'the directory entered'); return [Outcome(q)]
        if n == 'end_job': must(a[4], 'sendmail', 'what the mailer gets'); return [Outcome(q, dead=True)]
        if n in self.EXECS:
            if n != 'execle': eng.report(i, 'the command is executed without its environment (%s)' % n, eng.trace, key='used:exec'); return [Outcome(q, dead=True)]
            must(a[0], 'shell', 'the program executed'); must(a[1], 'shell', 'the name of the program executed')
            k = [x for x, t in enumerate(a) if x > 1 and t == ('c', 0)]
            if not k or k[0] + 1 >= len(a): eng.report(i, 'the arguments of the command are not ended', eng.trace, key='used:args'); return [Outcome(q, dead=True)]
            must(a[k[0] + 1], 'job', 'what the command gets')
            p = eng.ptr(a[3]) if k[0] == 4 else None; f = core.field_of(i.args[3].ops[0]) if k[0] == 4 and getattr(i.args[3], 'op', '') == 'load' else None
            if k[0] != 4 or core.const_str(i.args[2]) != '-c' and a[2] != ('str', '-c') or not (f is not None and f[2] == 'cl_shell' or 'cl_shell' in str(a[3])): eng.report(i, 'the shell is not given exactly the command of the job', eng.trace, key='used:args')
            return [Outcome(q, dead=True)]
        return None
def used(ctx):
    """Rule: run_job() gives the shell found to execle(), with the command of the job alone and the environment of the job, goes to the directory found, and gives the environment of the mailer, and the type and encoding of the mail, to what handles them."""
    p = ctx.prog('fcron'); root = 'run_job'; p.func(root)
    within = p.reaches(None, lambda i: ext(p, i, {'fork'} | Used.EXECS) or i.op == 'call' and i.cname in ('setup_user_and_env', 'end_job')) - {'end_job', 'create_mail', 'launch_mailer', 'setup_user_and_env', 'become_user', 'die_mail_pame'}
    def t():
        r = Used(within); e = Engine(p, r); e.run(root, 0, Env()); r.extra = r.seen; return e
    for lab, seen in ctx.engines([(root, t)]):
        for o in OUTS: ctx.ob('%s uses %s' % (root, MKN[o]), o in seen, root, 'no use of %s found' % MKN[o])
def jobenv(ctx): setup(ctx); variables(ctx); names(ctx); used(ctx)
