"""Files replaced safely: the state file by the daemon and fcrontab, the source of a crontab by fcrontab."""
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has
from sa import core, opts, ir
from sa.build import AnalysisBroken
from .common import ext, fld, gvar, Val
from .persist import Write, INTF, PTRF, TIME, SAVE

O_TRUNC, O_CREAT = 0o1000, 0o100
class Save(Rule):
    """save_file_safe. q = (temp, final): '-' untouched, 'open', 'part' data written, 'bad' a step failed, 'done' complete and on disk, 'gone' removed; final also 'renamed'"""
    name = 'safe save'
    max_states = 4
    def __init__(self, K): self.K = K; self.nwrite = self.nren = 0; self.outs = set(); self.rfail = False
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in ('open_as_user', 'remove_as_user', 'rename_as_user', 'write_buf_to_disk') or i.cname in SAVE or ext(prog, i, {'open', 'openat', 'creat', 'unlink', 'remove', 'rename', 'fchown', 'fchmod', 'fdatasync', 'fsync'  , 'write', 'ftruncate'}))
    def enter(self, prog, f): return not f.noreturn and not (f.file or '').endswith(('log.c', 'list.c')) and f.name not in SAVE and f.name not in ('open_as_user', 'remove_as_user', 'rename_as_user', 'write_buf_to_disk', 'xclose', 'xclose_check')
    def which(self, eng, env, t):
        if t == ('s', ('save_file_safe',), 'A1'): return 'final'
        p = eng.ptr(t)
        return 'temp' if p[1][0] == 'a' or t[0] == 's' else None
    def cur(self, q): return 'temp' if q[0] in ('open', 'part') else 'final' if q[1] in ('open', 'part') else None
    def set(self, q, w, v): return (v, q[1], q[2]) if w == 'temp' else (q[0], v, q[2])
    def on_inst(self, eng, q, env, i, fr):
        if i.op != 'call': return None
        n = i.cname; K = self.K
        if n in ('open_as_user', 'open', 'creat', 'openat'):
            w = self.which(eng, env, eng.ev(i.args[0], env, fr))
            if w is None: return None
            if w == 'final' and q[2] != 'renfail': eng.report(i, 'the previous file is overwritten before a complete copy of the new one exists', eng.trace, key='save:overwrite')
            return [Outcome(q, ret=av_const(-1)), Outcome(self.set(q, w, 'open'), ret=(3, 1 << 20, frozenset()))]
        if n in ('fchown', 'fchmod', 'fdatasync', 'fsync', 'ftruncate'):
            c = self.cur(q)
            if c is None: return None
            sy = n in ('fdatasync', 'fsync')
            v = q[0] if c == 'temp' else q[1]
            return [Outcome(self.set(q, c, 'bad'), ret=av_const(-1)), Outcome(self.set(q, c, 'done') if sy and v == 'part' else q, ret=av_const(0))]
        if n in ('write_buf_to_disk', 'write') or n in SAVE:
            self.nwrite += 1
            c = self.cur(q)
            if c is None:
                if q[0] == 'done' and q[1] == '-': c = 'temp'
                elif q[1] == 'done': c = 'final'
                else: return [Outcome(q, ret=av_const(K['ERR'])), Outcome(q, ret=av_const(K['OK']))]
            return [Outcome(self.set(q, c, 'bad'), ret=av_const(K['ERR'])), Outcome(self.set(q, c, 'part'), ret=av_const(K['OK']))]
        if n in ('rename_as_user', 'rename'):
            self.nren += 1
            a, b = (self.which(eng, env, eng.ev(x, env, fr)) for x in i.args[:2])
            if (a, b) != ('temp', 'final'): eng.report(i, 'does not rename the temporary file to the final one', eng.trace, key='save:rename-what'); return None
            if q[0] != 'done': eng.report(i, 'the temporary file replaces the previous one although it is not complete on disk (%s)' % {'bad': 'a step failed', 'part': 'not synchronised'}.get(q[0], 'nothing written'), eng.trace, key='save:rename-early')
            return [Outcome(('gone', 'renamed', q[2]), ret=av_const(0)), Outcome((q[0], q[1], 'renfail'), ret=av_const(-1))]
        if n in ('remove_as_user', 'unlink', 'remove'):
            w = self.which(eng, env, eng.ev(i.args[0], env, fr))
            if w is None: return None
            if w == 'final' and q[1] in ('-', 'renamed', 'done'): eng.report(i, 'the saved file is removed', eng.trace, key='save:remove')
            if w == 'temp' and q[2] == 'renfail' and q[0] == 'done' and q[1] != 'done': eng.report(i, 'the only complete copy is removed', eng.trace, key='save:remove-copy')
            return [Outcome(self.set(q, w, 'gone') if not (w == 'temp' and q[0] == '-') else q)]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env); K = self.K
        self.outs.add((q, a[0] if a[0] == a[1] else None))
        ok = q[1] in ('renamed', 'done')
        if av_has(a, K['OK']) and not ok: eng.report(inst, 'reports success although the new state is not in place', eng.trace, key='save:false-ok')
        if ok and a != av_const(K['OK']): eng.report(inst, 'reports failure although the new state is in place', eng.trace, key='save:false-err')
        if q[0] in ('bad', 'part', 'open'): eng.report(inst, 'an incomplete temporary file is left behind', eng.trace, key='save:left')

class Buf(Rule):
    """write_buf_to_disk on a buffer of 10 bytes: q = bytes written so far, or 'err'"""
    name = 'whole buffer'
    max_states = 64
    N = 10
    def __init__(self, K): self.K = K; self.n = 0; self.good = 0
    def is_event(self, prog, i): return ext(prog, i, {'write'})
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p == ('p', ('s', ('write_buf_to_disk',), 'A2'), ()) and p not in env.mem: return [Outcome(q, term=('c', self.N), setmem=[(p, ('c', self.N))])]
            return None
        if not self.is_event(eng.prog, i): return None
        self.n += 1
        fd, b, z = (eng.ev(x, env, fr) for x in i.args)
        if q == 'err': return [Outcome('err', ret=av_const(-1))]
        at = ('s', ('write_buf_to_disk',), 'A1')
        okp = b == at and q == 0 or b == ('p', at, (('i', q),)) or b == ('p', at, ()) and q == 0
        if fd != ('s', ('write_buf_to_disk',), 'A0'): eng.report(i, 'writes to something else than the file being saved', eng.trace, key='buf:fd')
        a = eng.av(z, env)
        if not okp: eng.report(i, 'after %d bytes were written the next write does not start at byte %d' % (q, q), eng.trace, key='buf:position')
        if a[0] != a[1] or a[0] > self.N - q or a[0] < 1: eng.report(i, 'after %d of %d bytes were written the next write is not for what remains' % (q, self.N), eng.trace, key='buf:size'); return [Outcome('err', ret=av_const(-1))]
        return [Outcome('err', ret=av_const(-1))] + [Outcome(q + k, term=('c', k)) for k in {a[0], 1, 4} if k <= a[0]]
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env); OK = self.K['OK']
        if q == self.N and a == av_const(OK):
            self.good += 1
            if env.mem.get(('p', ('s', ('write_buf_to_disk',), 'A2'), ())) != ('c', 0): eng.report(inst, 'the buffer is not emptied once written: its content would be written twice', eng.trace, key='buf:reset')
        elif av_has(a, OK): eng.report(inst, 'reports success after writing %s of %d bytes' % ('an error' if q == 'err' else q, self.N), eng.trace, key='buf:false-ok')

class Step(Rule):
    """a function appending to the buffer: q = did a write fail?"""
    name = 'append'
    max_states = 6
    def __init__(self, K): self.K = K; self.good = False
    def is_event(self, prog, i): return i.op == 'call' and i.cname == 'write_buf_to_disk'
    def enter(self, prog, f): return f.name != 'write_buf_to_disk' and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        if not self.is_event(eng.prog, i): return None
        return [Outcome('bad', ret=av_const(self.K['ERR'])), Outcome(q, ret=av_const(self.K['OK']))]
    def on_exit(self, eng, q, env, inst, fr):
        a = eng.av(eng.rv, env)
        if q == 'bad' and a != av_const(self.K['ERR']): eng.report(inst, '%s reports success although writing the buffer failed' % inst.fn.name, eng.trace, key='append:' + inst.fn.name)
        if q != 'bad' and av_has(a, self.K['OK']): self.good = True

def replaced(ctx):
    """Rule: on every path of the save (each open, write, sync, rename and removal may fail) the final file is only replaced by a rename of a temporary file whose every write and synchronisation succeeded; written directly only after that rename failed, keeping the complete copy; success is reported iff the new state is in place; an incomplete temporary file is removed; the last data are flushed, then synchronised; the buffer is written whole, in order, across partial writes."""
    ctx.world; K = opts.consts(ctx.work, ['OK', 'ERR']); t = opts.simple(ctx.work)
    for b in ('fcron', 'fcrontab'):
        p = ctx.prog(b)
        r = Save(K); e = Engine(p, r); e.run('save_file_safe', ('-', '-', '')); ctx.engine(e, 'save_file_safe', b + ': save_file_safe')
        ctx.need(r.nwrite and r.nren, 'no write or rename found in save_file_safe')
        for k in ('overwrite', 'rename-what', 'rename-early', 'remove', 'remove-copy', 'false-ok', 'false-err', 'left'): ctx.ob('%s: %s' % (b, k), 'save:' + k not in e.reports, 'save_file_safe', e.reports.get('save:' + k, (0, 'ok', 0))[1])
        ctx.ob('%s: succeeds by rename' % b, any(q[1] == 'renamed' and v == K['OK'] for q, v in r.outs), 'save_file_safe', 'no path replaces the file by a rename')
        for fn in sorted(SAVE | {'save_data'}):
            if fn not in p.funcs: ctx.need(fn not in SAVE, 'no function ' + fn); continue
            r = Step(K); e = Engine(p, r); e.run(fn, ''); ctx.engine(e, fn, b + ': ' + fn); ctx.ob('%s: %s' % (b, fn), r.good and not e.reports, fn, 'never reports success' if not r.good else 'a failed write is not reported')
        r = Buf(K); e = Engine(p, r); e.run('write_buf_to_disk', 0); ctx.engine(e, 'write_buf_to_disk', b + ': write_buf_to_disk')
        ctx.ob('%s: buffer written' % b, r.n > 0 and r.good > 0, 'write_buf_to_disk', 'never succeeds')
        w = Write(t, {'lavg': 0, 'freq': 1}, dict(INTF, **PTRF)).setup(); w.OK = K['OK']; w.first = 120
        e = Engine(p, w); e.run('write_file_to_disk', ()); ctx.engine(e, 'write_file_to_disk', b + ': write_file_to_disk')
        for s in w.seqs:
            k = [x[0] for x in s]
            last = max([n for n, x in enumerate(s) if x[0] not in ('write_buf_to_disk', 'sync')] or [-1])
            fl = [n for n, x in enumerate(s) if x[0] == 'write_buf_to_disk']
            ctx.ob('%s: flushed' % b, bool(fl) and fl[-1] > last, 'write_file_to_disk', 'the end of the data stays in the buffer')
            ctx.ob('%s: synchronised' % b, k[-1:] == ['sync'], 'write_file_to_disk', 'the data are not synchronised after the last write')
