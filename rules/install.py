"""fcrontab: which actions are permitted, and what gets installed."""
from collections import namedtuple
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has
from sa import core, opts
from .common import ext, fld, gvar
from .privdrop import EXECS

NAMES = {'%s.orig': 'source', 'new.%s': 'new', 'rm.%s': 'rm'}
ASUSER = {'open_as_user', 'remove_as_user', 'rename_as_user'}
POS = (1, INF, frozenset())
def isname(eng, q, t):
    p = eng.ptr(t); return dict(q.names).get(p[1])
def named(eng, q, i, env, fr):
    """snprintf: remember which of the crontab's files the string names"""
    p = eng.ptr(eng.ev(i.args[0], env, fr)); k = NAMES.get(core.const_str(i.args[2])); d = dict(q.names); d.pop(p[1], None)
    if k and len(i.args) == 4 and eng.ev(i.args[3], env, fr) == env.mem.get(('p', ('g', 'user'), ())): d[p[1]] = k
    return q._replace(names=tuple(sorted(d.items(), key=repr)))

Q = namedtuple('Q', 'names src err parsed fd ans copied saved rm newrm child mtime edited lists')
Q0 = Q((), '', None, '', None, '', '', '', '', '', 0, 0, 0, 0)
class Install(Rule):
    """main of fcrontab once the options are read. q.src: state of the copy parsed; parsed/copied/saved: results so far; ans: answer to the question about errors"""
    name = 'install'
    max_states = 40
    rights = False; opened = 0
    OWN = {'parseopt', 'read_file', 'copy_src', 'save_file', 'delete_file', 'xexit', 'temp_file', 'xfclose', 'xfclose_check', 'xclose', 'xclose_check', 'list_file', 'get_user_uid_safe', 'get_group_gid_safe', 'seteuid_safe', 'setegid_safe'} | ASUSER
    EXT = {'getc', 'fgetc', 'getchar', 'putc', 'fputc', 'ferror', 'fflush', 'fstat', 'fork', 'waitpid', 'snprintf', 'unlink', 'remove', 'rename', 'exit', '_exit', 'strcmp', 'fdopen', 'fclose', 'fread', 'fwrite', 'read', 'write'} | EXECS
    def __init__(self, K, mode, ign, empty): self.K = K; self.mode = mode; self.ign = ign; self.empty = empty; self.outs = set(); self.seen = set()
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.OWN or ext(prog, i, self.EXT))
    def enter(self, prog, f): return f.name not in self.OWN and not (f.file or '').endswith(('log.c', 'subs.c', 'allow.c', 'fcronconf.c', 'fileconf.c', 'save.c'))
    def merge_key(self, q, env): return env.mem.get(('p', ('g', 'need_sig'), ()))
    def on_inst(self, eng, q, env, i, fr):
        K = self.K; rep = lambda k, m: eng.report(i, m, eng.trace, key='install:' + k)
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p in env.mem: return None
            f = core.field_of(i.ops[0])
            if f and f[2] == 'cf_line_base': return [Outcome(q, term=('c', 0 if self.empty else 801), setmem=[(p, ('c', 0 if self.empty else 801))])]
            return None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; self.seen.add(n)
        if n == 'parseopt': return [Outcome(q, setmem=[(('p', ('g', v), ()), ('c', int(x))) for v, x in self.opts])]
        if n == 'delete_file': return [Outcome(q._replace(lists=0))]
        if n in ('seteuid_safe', 'setegid_safe', 'list_file'): return [Outcome(q)]
        if n == 'snprintf': return [Outcome(named(eng, q, i, env, fr))]
        if n == 'strcmp':
            if any(core.const_str(x) == '-' for x in i.args[:2]): return [Outcome(q, ret=av_const(0) if self.mode == 'stdin' else POS)]
            return None
        if n in EXECS: return [Outcome(q, ret=av_const(-1))]
        if n == 'fork':
            return [Outcome(q._replace(child=1), ret=av_const(0)), Outcome(q, ret=av_const(-1)), Outcome(q, ret=(2, INF, frozenset()))]
        if n == 'waitpid':
            p = eng.ptr(a[1]); return [Outcome(q, setmem=[(p, ('c', 0))], ret=POS), Outcome(q._replace(edited='killed'), setmem=[(p, ('c', 9))], ret=POS)]
        if n == 'fstat':
            p = eng.ptr(a[1]); P = ('p', p[1], p[2] + (('f', 'stat', 'st_mtim'), ('f', 'timespec', 'tv_sec')))
            if q.mtime == 0: return [Outcome(q, ret=av_const(-1)), Outcome(q._replace(mtime=100), ret=av_const(0), setmem=[(P, ('c', 100))])]
            return [Outcome(q, ret=av_const(-1))] + ([Outcome(q._replace(mtime=0, edited=q.edited or 'same'), ret=av_const(0), setmem=[(P, ('c', 100))])]) + [Outcome(q._replace(mtime=0, edited=q.edited or 'changed'), ret=av_const(0), setmem=[(P, ('c', 101))])]
        if n in ('getc', 'fgetc', 'getchar'):
            if q.parsed:
                w = lambda x: q._replace(ans=x)
                if q.ans[1:] == '~': return [Outcome(w(q.ans[0].replace('x', '')), ret=av_const(10)), Outcome(q, ret=av_const(120)), Outcome(w(q.ans[0].replace('x', 'eof')), ret=av_const(-1))]
                return [Outcome(w('i~'), ret=av_const(105)), Outcome(w('c~'), ret=av_const(99)), Outcome(w('x~'), ret=av_const(120)), Outcome(w(''), ret=av_const(10)), Outcome(w('eof'), ret=av_const(-1))]
            return [Outcome(q._replace(src=q.src or 'copying'), ret=av_const(97)), Outcome(q._replace(src='eof' if q.src in ('', 'copying') else q.src), ret=av_const(-1)), Outcome(q._replace(src='rderr', err=a[0] if a else 'stdin'), ret=av_const(-1))]
        if n in ('putc', 'fputc'): return [Outcome(q._replace(src=q.src if q.src in ('rderr', 'wrerr') else 'copying'), ret=av_const(97)), Outcome(q._replace(src='wrerr', err=a[1]), ret=av_const(-1))]
        if n == 'ferror':
            if q.err is not None and a[0] == q.err: return [Outcome(q, ret=POS)]
            return [Outcome(q, ret=av_const(0))]
        if n in ('fflush', 'fclose', 'xfclose', 'xfclose_check'):
            if q.src == 'eof' and n == 'fflush': return [Outcome(q._replace(src='ok'), ret=av_const(0)), Outcome(q._replace(src='wrerr', err=a[0]), ret=av_const(-1))]
            return [Outcome(q, ret=av_const(0)), Outcome(q, ret=av_const(-1))] if n == 'fflush' else [Outcome(q)]
        if n == 'read_file':
            if q.src not in ('', 'ok'): rep('parse', 'parses a copy of the crontab which is %s' % {'rderr': 'truncated by a read error', 'wrerr': 'truncated by a write error', 'eof': 'not flushed', 'copying': 'not complete'}[q.src])
            if self.mode == 'edit' and q.edited not in ('changed',) and q.ans[:1] != 'c': rep('unchanged', 'installs the crontab although the editor did not change it' if q.edited == 'same' else 'installs the crontab although the editor was killed')
            if q.lists: rep('lists', 'the jobs read from the crontab before it was corrected are kept and get installed as well')
            q = q._replace(ans='', lists=1, fd=a[1], src='', err=None, edited='')
            return [Outcome(q._replace(parsed='ok'), ret=av_const(K['OK'])), Outcome(q._replace(parsed='errors'), ret=av_const(2)), Outcome(q._replace(parsed='bad'), ret=av_const(K['ERR']))]
        def may(what):
            if q.child: rep('child', 'the child process running the editor %s' % what)
            if q.parsed in ('', 'bad'): rep('unparsed', '%s although %s' % (what, 'parsing it failed' if q.parsed else 'it was not parsed'))
            if q.parsed == 'errors' and self.mode == 'edit' and q.ans[:1] != 'i': rep('answer', '%s although it has errors the user did not accept (answer: %s)' % (what, q.ans or 'none'))
        if n == 'copy_src':
            may('installs the source')
            if a[0] != q.fd: rep('other', 'installs as source something else than what was parsed')
            if isname(eng, q, a[1]) != 'source': rep('dest', 'the source is not installed as <user>.orig')
            return [Outcome(q._replace(copied='ok'), ret=av_const(K['OK'])), Outcome(q._replace(copied='bad'), ret=av_const(K['ERR']))]
        if n == 'save_file':
            may('installs the crontab')
            if isname(eng, q, a[0]) != 'new': rep('new', 'the crontab is not saved as new.<user>')
            if q.copied != 'ok': rep('nosource', 'installs the crontab although its source was not installed')
            if self.empty: rep('empty', 'installs a crontab without entries')
            if self.ign and q.rm != 'asked': rep('prev', 'with -n the previous version is not dropped first')
            return [Outcome(q._replace(saved='ok', newrm=''), ret=av_const(K['OK'])), Outcome(q._replace(saved='bad'), ret=av_const(K['ERR']))]
        if n == 'open_as_user':
            w = isname(eng, q, a[0])
            if w is None and self.rights:
                self.opened += 1
                if [eng.av(x, env) for x in a[1:3]] != [av_const(1000), av_const(1001)]: rep('userfile', 'a file the user may choose is opened with other rights than his')
            if w == 'rm':
                fl = eng.av(a[3], env) if len(a) > 3 else None
                if fl is None or fl[0] != fl[1] or not fl[0] & 0o100: rep('rmfile', 'the file which tells the daemon to remove the crontab is not created')
                if self.mode != 'rm' and q.copied != 'ok': rep('early', 'the previous version is dropped although the new one is not installed')
                if self.mode != 'rm' and not (self.ign or self.empty): rep('rmwhy', 'the previous version is dropped without -n')
                if q.saved: rep('rmlate', 'the daemon is told to remove the crontab after the new one was saved')
                return [Outcome(q._replace(rm='asked'), ret=(3, 9999, frozenset())), Outcome(q._replace(rm='asked'), ret=av_const(-1))]
            return [Outcome(q, ret=av_const(-1)), Outcome(q, ret=(3, 9999, frozenset()))]
        if n in ('remove_as_user', 'unlink', 'remove'):
            w = isname(eng, q, a[0])
            if w == 'source' and self.mode != 'rm': rep('rmsrc', 'the source is removed')
            if w == 'new' and q.saved: rep('rmnew', 'the new crontab is removed')
            if w: q = q._replace(newrm='|'.join(sorted(set(q.newrm.split('|')) - {''} | {w})))
            return [Outcome(q, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n in ('rename_as_user', 'rename'): return [Outcome(q, ret=av_const(0)), Outcome(q, ret=av_const(-1))]
        if n in ('xexit', 'exit', '_exit'):
            v = eng.av(a[0], env); s = env.mem.get(('p', ('g', 'need_sig'), ()))
            self.done(eng, i, q, v, s)
            return [Outcome(q, dead=True)]
        if n in ('fdopen',): return [Outcome(q, ret=av_const(0)), Outcome(q, ret=POS)]
        if n == 'temp_file': return [Outcome(q, ret=(3, 9999, frozenset()))]
        if n in ('fread', 'fwrite', 'read', 'write'): return [Outcome(q._replace(src='copying'))]
        return None
    def done(self, eng, i, q, v, s):
        K = self.K; rep = lambda k, m: eng.report(i, m, eng.trace, key='install:' + k)
        ok = v == av_const(K['EXIT_OK']); sig = s == ('c', 1)
        if q.child:
            if ok: rep('childok', 'the child process ends with success')
            return
        self.outs.add((ok, q.saved, sig, q.rm))
        if av_has(v, K['EXIT_OK']) and not ok: rep('status', 'the exit status does not tell whether the crontab was installed')
        if self.mode == 'rm':
            if not ok: return
            if q.rm != 'asked': rep('rm', 'the daemon is not told to remove the crontab')
            if set(q.newrm.split('|')) != {'new', 'source'}: rep('rmfiles', 'source and pending version of the crontab are not both removed (only %s)' % q.newrm)
            if not sig: rep('sig', 'the daemon is not told of the removal')
            return
        if self.mode == 'list': return
        if q.saved == 'ok' and not (ok and sig): rep('told', 'the crontab is installed but %s' % ('the exit status says it is not' if not ok else 'the daemon is not told of it'))
        if q.saved == 'bad' and ok or q.copied == 'bad' and ok: rep('failed', 'the exit status is success although the crontab could not be installed')
        if q.parsed == 'bad' and ok: rep('badok', 'the exit status is success although the crontab could not be parsed')
        if self.empty and q.copied == 'ok' and (q.rm != 'asked' or not sig): rep('emptyrm', 'a crontab without entries does not remove the previous one')
        if q.copied == 'ok' and not q.saved and not self.empty: rep('half', 'only the source of the crontab is installed')
        if ok and not q.copied and not (self.mode == 'edit' and q.edited == 'same' and not q.parsed): rep('nothing', 'the exit status is success although nothing was installed')

class Copy(Rule):
    """copy_src. q = (state of the temporary file, offset set?, bytes just read)"""
    name = 'copy source'
    max_states = 12
    def __init__(self, K): self.K = K; self.n = 0; self.good = 0
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ASUSER or ext(prog, i, {'read', 'write', 'lseek', 'fchown', 'fchmod', 'open', 'rename', 'unlink', 'remove', 'fsync', 'fdatasync', 'ftruncate'}))
    def enter(self, prog, f): return not f.noreturn and not (f.file or '').endswith(('log.c', 'subs.c'))
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname; a = [eng.ev(x, env, fr) for x in i.args]; rep = lambda k, m: eng.report(i, m, eng.trace, key='copy:' + k); st, off, rd = q
        DEST = ('s', ('copy_src',), 'A1'); FROM = ('s', ('copy_src',), 'A0')
        if n in ('open_as_user', 'open'):
            if a[0] == DEST: rep('overwrite', 'the previous source is overwritten before the copy of the new one is complete')
            return [Outcome(q, ret=av_const(-1)), Outcome(('open', off, rd), ret=(100, 9999, frozenset()))]
        if n == 'lseek':
            if a[0] == FROM: return [Outcome((st, a[1:] == [('c', 0), ('c', 0)], rd))]
            return None
        if n in ('fchown', 'fchmod', 'fsync', 'fdatasync', 'ftruncate'): return [Outcome(q, ret=av_const(0)), Outcome(('bad', off, rd), ret=av_const(-1))]
        if n == 'read':
            self.n += 1
            if a[0] != FROM: rep('from', 'does not copy the crontab it was given')
            if not off: rep('offset', 'the copy does not start at the beginning of the file')
            if rd: rep('skip', 'data read are not written')
            return [Outcome(('eof' if st == 'open' else st, off, None), ret=av_const(0)), Outcome(('bad', off, None), ret=av_const(-1)), Outcome((st, off, (5, a[1])), term=('c', 5)), Outcome((st, off, (300, a[1])), term=('c', 300))]
        if n == 'write':
            if rd is None or a[1] != rd[1] or a[2] != ('c', rd[0]): rep('data', 'what is written is not what was read')
            return [Outcome(('open' if st != 'bad' else st, off, None), term=a[2]), Outcome(('bad', off, None), ret=av_const(-1)), Outcome(('bad', off, None), term=('c', 1))]
        if n in ('rename_as_user', 'rename'):
            if a[1] != DEST: rep('dest', 'the copy is not renamed to the source file')
            if st != 'eof': rep('partial', 'the source is replaced although %s' % {'bad': 'copying failed', 'open': 'the end of the file was not reached', '-': 'nothing was copied'}.get(st, st))
            return [Outcome(('done', off, rd), ret=av_const(0)), Outcome((st, off, rd), ret=av_const(-1))]
        if n in ('unlink', 'remove', 'remove_as_user'):
            if a[0] == DEST: rep('remove', 'the previous source is removed')
            return [Outcome(q)]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        v = eng.av(eng.rv, env); K = self.K
        if q[0] == 'done' and v == av_const(K['OK']): self.good += 1
        if q[0] == 'done' and v != av_const(K['OK']): eng.report(inst, 'reports failure although the source was replaced', eng.trace, key='copy:false-err')
        if q[0] != 'done' and v != av_const(K['ERR']): eng.report(inst, 'reports success although the source was not replaced', eng.trace, key='copy:false-ok')

class Signal(Rule):
    """xexit: q = (role, signalled)"""
    name = 'tell the daemon'
    def __init__(self, sig): self.sig = sig; self.outs = set(); self.ex = 0
    def is_event(self, prog, i): return ext(prog, i, {'fork', 'waitpid', 'exit', '_exit'} | EXECS)
    def enter(self, prog, f): return not (f.file or '').endswith('log.c') and f.name not in ('die', 'die_e', 'die_pame')
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and gvar(i.ops[0]) == 'need_sig':
            p = ('p', ('g', 'need_sig'), ())
            return [Outcome(q, term=('c', self.sig), setmem=[(p, ('c', self.sig))])] if p not in env.mem else None
        if i.op != 'call' or not self.is_event(eng.prog, i): return None
        n = i.cname
        if n == 'fork': return [Outcome('child', ret=av_const(0)), Outcome('failed', ret=av_const(-1)), Outcome('parent', ret=(2, INF, frozenset()))]
        if n in EXECS:
            self.ex += 1; s = [core.const_str(x) or '' for x in i.args[:1]]
            if q != 'child': eng.report(i, 'the process of fcrontab itself is replaced', eng.trace, key='sig:exec')
            if not s[0].endswith('/fcronsighup'): eng.report(i, 'runs %s to signal the daemon' % (s[0] or 'something unknown'), eng.trace, key='sig:what')
            return [Outcome('execfailed')]
        if n == 'waitpid': return [Outcome('waited' if q == 'parent' else q)]
        v = eng.ev(i.args[0], env, fr); arg = v == ('s', ('xexit',), 'A0')
        if q in ('child', 'execfailed', 'failed') and (arg or av_has(eng.av(v, env), 0)): eng.report(i, 'reports success although the daemon was not signalled', eng.trace, key='sig:false')
        if q in ('', 'parent', 'waited') and not arg and i.fn.name == 'xexit': eng.report(i, 'does not end with the status asked for', eng.trace, key='sig:status')
        if self.sig and q in ('', 'parent') and arg: eng.report(i, 'ends without having %s' % ('signalled the daemon' if not q else 'waited for the signal to be sent'), eng.trace, key='sig:not')
        if not self.sig and q: eng.report(i, 'signals the daemon although nothing changed', eng.trace, key='sig:useless')
        self.outs.add(q); return [Outcome(q, dead=True)]

KEYS = 'parse unchanged child unparsed answer other dest new nosource empty prev early rmwhy rmlate rmsrc rmnew childok status rm rmfiles sig told failed badok emptyrm half nothing'.split()
def installed(ctx):
    """Rule: on every path of fcrontab's install, edit, reinstall and remove actions (each copy, parse, save, editor run and answer may go each way): nothing is installed unless a complete copy was parsed, errors found after an edit were accepted, and the source parsed is the one installed; the source is replaced only by a rename of a complete copy; the previous version is dropped only with -n, or for a crontab without entries, and only then; the exit status is success, and the daemon told, exactly when everything asked for is in place."""
    p = ctx.prog('fcrontab'); K = opts.consts(ctx.work, ['OK', 'ERR', 'EXIT_OK', 'EXIT_ERR']); jobs = []
    modes = [(m, g, e) for m in ('stdin', 'file', 'edit', 'reinstall') for g in (0, 1) for e in (0, 1)] + [('rm', 0, 0)]
    def mk(m, g, e):
        def f():
            r = Install(K, m, g, e); en = Engine(p, r); r.opts = (('file_opt', 1 if m in ('stdin', 'file') else 0), ('rm_opt', m == 'rm'), ('list_opt', 0), ('edit_opt', m == 'edit'), ('reinstall_opt', m == 'reinstall'), ('ignore_prev', g), ('need_sig', 0), ('user', 901), ('debug_opt', 0))
            en.run('main', Q0); r.extra = sorted(r.outs, key=str); return en
        return f
    lab = {}
    for m, g, e in modes:
        l = '%s%s%s' % (m, ' -n' if g else '', ', no entries' if e else ''); lab[l] = (m, g, e); jobs.append((l, mk(m, g, e)))
    for l, outs in ctx.engines(jobs):
        m, g, e = lab[l]
        if m == 'rm': ctx.ob(l + ': removes', any(o[0] and o[2] for o in outs), 'main', 'a crontab is never removed')
        elif e: ctx.ob(l + ': removes', any(o[0] and o[2] and o[3] for o in outs), 'main', 'a crontab without entries never succeeds')
        else:
            ctx.ob(l + ': installs', any(o[0] and o[1] == 'ok' for o in outs), 'main', 'a crontab is never installed')
            ctx.ob(l + ': may fail', any(not o[0] for o in outs), 'main', 'a failure is never reported')
        for k in KEYS: ctx.ob('%s: %s' % (l, k), 'install:' + k not in ctx.viol, 'main', 'see install:' + k)
    r = Copy(K); e = Engine(p, r); e.run('copy_src', ('-', False, None)); ctx.engine(e, 'copy_src')
    ctx.need(r.n, 'copy_src reads nothing'); ctx.ob('copy: succeeds', r.good, 'copy_src', 'the source is never replaced')
    for k in ('overwrite', 'from', 'offset', 'skip', 'data', 'dest', 'partial', 'remove', 'false-err', 'false-ok'): ctx.ob('copy: ' + k, 'copy:' + k not in e.reports, 'copy_src', 'see copy:' + k)
    for s in (0, 1):
        r = Signal(s); e = Engine(p, r); e.run('xexit', ''); ctx.engine(e, 'xexit', 'xexit, need_sig=%d' % s)
        ctx.ob('signal %d: sent' % s, 'waited' in r.outs if s else r.outs == {''}, 'xexit', 'the daemon is %s' % ('never signalled' if s else 'signalled without need'))
        for k in ('exec', 'what', 'false', 'status', 'not', 'useless'): ctx.ob('signal %d: %s' % (s, k), 'sig:' + k not in e.reports, 'xexit', 'see sig:' + k)
