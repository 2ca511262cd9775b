"""Adopting a new version of a crontab: order of the steps, and what unchanged jobs keep."""
from itertools import product
from sa.engine import Engine, Rule, Outcome, av_const, INF, Env, av_has
from sa import core, opts, ir
from .common import ext, fld, gvar, Opts, opt_byte
from .persist import sizes

OLD, NEW, OLDL, NEWL, BASE, PREV = 700001, 700002, 700003, 700004, 700005, 700006
class Adopt(Rule):
    """synchronize_file on a new file. q = (old version in memory?, load result, deleted?, linked?, saved result, removed?)"""
    name = 'adopt new crontab'
    max_states = 16
    def __init__(self, K, old): self.K = K; self.old = old; self.n = 0; self.outs = set()
    OP = {'read_file', 'delete_file', 'save_file', 'insert_nextexe', 'job_queue_remove'}
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.OP or ext(prog, i, {'remove', 'unlink', 'rename', 'strchr', 'strcmp', 'calloc', 'malloc'})) or i.op == 'store' and (gvar(i.ops[1]) == 'file_base')
    def enter(self, prog, f): return f.name not in self.OP and not f.noreturn and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        load, dele, link, save, rem = q; K = self.K
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p in env.mem: return None
            if gvar(i.ops[0]) == 'file_base': v = {None: BASE, 'first': OLD, 'second': PREV}[self.old]
            elif fld(i.ops[0], 'cf_next') and p[1][0] == 'c': v = {PREV: OLD, OLD: BASE if self.old else 0, BASE: 0}.get(p[1][1], 0)
            else: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op == 'store':
            if gvar(i.ops[1]) != 'file_base': return None
            v = eng.ev(i.ops[0], env, fr)
            if v == ('c', NEW):
                if load != 'ok': eng.report(i, 'a crontab which could not be loaded is adopted', eng.trace, key='adopt:bad')
                if self.old and dele != 1: eng.report(i, 'the new version of a crontab is added while the old one is still there', eng.trace, key='adopt:both')
                nx = env.mem.get(('p', ('c', NEW), (('f', 'cf_t', 'cf_next'),))); fb = env.mem.get(('p', ('g', 'file_base'), ()))
                if nx is None or nx != fb: eng.report(i, 'the other crontabs are lost when the new one is added', eng.trace, key='adopt:others')
                return [Outcome((load, dele, link + 1, save, rem))]
            return None
        if i.op != 'call': return None
        n = i.cname
        if n == 'strchr': return [Outcome(q, ret=(1, INF, frozenset()))]       # a name with a dot
        if n == 'strcmp':
            t = {eng.ev(x, env, fr) for x in i.args[:2]}
            if ('c', OLD + 50) in t: return [Outcome(q, ret=av_const(0))]
            if t & {('c', BASE + 50), ('c', PREV + 50)}: return [Outcome(q, ret=av_const(1))]
            return None
        if n in ('calloc', 'malloc') : return [Outcome(q, term=('c', NEW))]
        if n == 'read_file':
            self.n += 1
            if eng.ev(i.args[1], env, fr) != ('c', NEW): eng.report(i, 'the new version is not loaded into a crontab of its own', eng.trace, key='adopt:own')
            return [Outcome(('ok',) + q[1:], ret=av_const(K['OK'])), Outcome(('bad',) + q[1:], ret=av_const(K['ERR']))]
        if n == 'delete_file':
            if load != 'ok': eng.report(i, 'the current version of a crontab is forgotten although the new one was not loaded', eng.trace, key='adopt:forget')
            if link: eng.report(i, 'the new version is removed', eng.trace, key='adopt:forget-new')
            fb = env.mem.get(('p', ('g', 'file_base'), ()), ('c', {None: BASE, 'first': OLD, 'second': PREV}[self.old]))
            a = eng.ev(i.args[0], env, fr)
            # the list as delete_file will see it: the first crontab of that name goes
            new = env.mem.get(('p', ('c', OLD), (('f', 'cf_t', 'cf_next'),)), ('c', BASE)) if fb == ('c', OLD) else None
            if self.old and new is None:
                pn = env.mem.get(('p', ('c', PREV), (('f', 'cf_t', 'cf_next'),)), ('c', OLD))
                if pn != ('c', OLD): eng.report(i, 'the old version is not in the list any more when it is to be removed', eng.trace, key='adopt:lost-old')
            sm = [(('p', ('g', 'file_base'), ()), new)] if new is not None else []
            return [Outcome((load, dele + 1, link, save, rem), setmem=sm, refine=None)]
        if n == 'save_file':
            a = eng.ev(i.args[0], env, fr)
            if a == ('c', NEW) and not link: eng.report(i, 'the new version is saved before it is in place', eng.trace, key='adopt:order')
            if a == ('c', NEW) or a == ('c', 0): return [Outcome((load, dele, link, 'ok', rem), ret=av_const(K['OK'])), Outcome((load, dele, link, 'bad', rem), ret=av_const(K['ERR']))]
            return None
        if n in ('remove', 'unlink', 'rename'):
            a = eng.ev(i.args[0], env, fr)
            if a != ('s', ('synchronize_file',), 'A0'): eng.report(i, 'removes another file than the new crontab', eng.trace, key='adopt:file'); return None
            if load != 'ok': eng.report(i, 'a new crontab which was not loaded is removed', eng.trace, key='adopt:drop')
            elif save != 'ok': eng.report(i, 'the file of a new crontab is removed although its content was not saved', eng.trace, key='adopt:unsaved')
            return [Outcome((load, dele, link, save, 'yes'), ret=av_const(0)), Outcome((load, dele, link, save, 'yes'), ret=av_const(-1))]
        return None
    def on_exit(self, eng, q, env, inst, fr):
        load, dele, link, save, rem = q; self.outs.add(q)
        if load == 'ok' and not (link == 1 and dele == (1 if self.old else 0)): eng.report(inst, 'a crontab loaded successfully does not replace the old version', eng.trace, key='adopt:not')
        if load == 'ok' and save == '': eng.report(inst, 'an adopted crontab is not saved', eng.trace, key='adopt:nosave')
        if load == 'ok' and save == 'ok' and rem != 'yes': eng.report(inst, 'the file of an adopted crontab is left to be loaded again', eng.trace, key='adopt:again')
        if load == 'bad' and (dele or link or save or rem): eng.report(inst, 'something is changed although the new crontab could not be loaded', eng.trace, key='adopt:changed')

class AdoptU(Adopt):
    """names of the crontabs: opaque identities"""
    def on_inst(self, eng, q, env, i, fr):
        if i.op == 'load' and fld(i.ops[0], 'cf_user'):
            p = eng.ptr(eng.ev(i.ops[0], env, fr))
            if p[1][0] == 'c': return [Outcome(q, term=('c', p[1][1] + 50), setmem=[(p, ('c', p[1][1] + 50))])]
        if i.op == 'load' and fld(i.ops[0], 'cf_line_base'):
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); return [Outcome(q, term=('c', 0), setmem=[(p, ('c', 0))])]
        return Adopt.on_inst(self, eng, q, env, i, fr)

def adopt(ctx):
    """Rule: on every path of the adoption of a new crontab file (old version first in the list, not first, or absent; load, save and removal may fail): nothing changes if it cannot be loaded; else the old version is removed exactly once, while the new one is not yet in the list, the new one is linked keeping all others, saved, and its file is removed iff the save succeeded."""
    p = ctx.prog('fcron'); K = opts.consts(ctx.work, ['OK', 'ERR'])
    for old in (None, 'first', 'second'):
        r = AdoptU(K, old); e = Engine(p, r); e.run('synchronize_file', ('', 0, 0, '', '')); ctx.engine(e, 'synchronize_file', 'old version: %s' % (old or 'none'))
        ctx.need(r.n, 'synchronize_file loads nothing')
        ctx.ob('old %s: adopted' % old, any(o[0] == 'ok' for o in r.outs), 'synchronize_file', 'a new crontab is never adopted'); ctx.ob('old %s: failure' % old, any(o[0] == 'bad' for o in r.outs), 'synchronize_file', 'the result of loading is not used')
        for k in ('bad', 'both', 'others', 'own', 'forget', 'forget-new', 'lost-old', 'order', 'file', 'drop', 'unsaved', 'not', 'nosave', 'again', 'changed'): ctx.ob('old %s: %s' % (old, k), 'adopt:' + k not in e.reports, 'synchronize_file', e.reports.get('adopt:' + k, (0, 'ok', 0))[1])

class Keep(Rule):
    """one job in the new version, one in the old one, all attributes fixed. q = (options of new, actions)"""
    name = 'schedule kept'
    max_states = 6
    OP = Adopt.OP
    def __init__(self, K, table, names, nv, ov, fn, fo, same, bits, tz): self.K = K; self.o = Opts(table, names); self.nv = nv; self.oldv = ov; self.f = {NEWL: fn, OLDL: fo}; self.same = same; self.bits = bits; self.tz = tz; self.out = set(); self.cov = set()
    def is_event(self, prog, i): return i.op == 'call' and (i.cname in self.OP or ext(prog, i, {'strcmp', 'memcmp', 'bcmp', 'strchr', 'calloc', 'malloc'}))
    def enter(self, prog, f): return f.name not in self.OP and not f.noreturn and not (f.file or '').endswith('log.c')
    def on_inst(self, eng, q, env, i, fr):
        ov, acts = q; self.o.fr = fr
        if i.op in ('load', 'store'):
            b = opt_byte(i)
            if b is not None and b >= 0:
                p = eng.ptr(eng.ev(i.ops[0] if i.op == 'load' else i.ops[1], env, fr))
                if p[1] == ('c', NEWL):
                    if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, ov))]
                    t = eng.ev(i.ops[0], env, fr)
                    def forget(e, en, p=p): en.mem.pop(p, None); en._k = None; return True
                    return [Outcome((self.o.after_store(t, b, ov), acts), refine=forget)]
                if p[1] == ('c', OLDL):
                    if i.op == 'load': return [Outcome(q, refine=self.o.refine_load(i, b, self.oldv))]
                return None
        if i.op == 'load':
            p = eng.ptr(eng.ev(i.ops[0], env, fr)); g = gvar(i.ops[0])
            if p in env.mem: return None
            v = None; f = core.field_of(i.ops[0])
            if g == 'file_base': v = OLD
            elif g == 'now': v = 1000
            elif g == 'debug_opt': v = 0
            elif f and p[1][0] == 'c':
                b, n = p[1][1], f[2]
                if n == 'cf_user': v = b + 50
                elif n == 'cf_next': v = 0
                elif n == 'cf_line_base': v = NEWL if b == NEW else OLDL
                elif n == 'cl_next': v = 0
                elif n == 'cl_file': v = NEW if b == NEWL else OLD
                elif n == 'cf_tzdiff': v = self.tz[b == OLD]
                elif n == 'cl_shell': v = b + 60
                elif b in self.f and n in self.f[b]: v = self.f[b][n]
            if v is None: return None
            return [Outcome(q, term=('c', v), setmem=[(p, ('c', v))])]
        if i.op != 'call': return None
        n = i.cname; K = self.K
        if n == 'strchr': return [Outcome(q, ret=(1, INF, frozenset()))]
        if n in ('calloc', 'malloc'): return [Outcome(q, term=('c', NEW))]
        if n == 'strcmp':
            t = {eng.ev(x, env, fr) for x in i.args[:2]}
            if t == {('c', NEWL + 60), ('c', OLDL + 60)}: return [Outcome(q, ret=av_const(0 if self.same else 1))]
            if ('c', OLD + 50) in t: return [Outcome(q, ret=av_const(0))]
            return None
        if n in ('memcmp', 'bcmp'):
            a, b = (eng.ptr(eng.ev(x, env, fr)) for x in i.args[:2]); z = eng.av(eng.ev(i.args[2], env, fr), env)
            fa = next((s[2] for s in reversed(a[2]) if s[0] == 'f'), None); fb = next((s[2] for s in reversed(b[2]) if s[0] == 'f'), None)
            if {a[1], b[1]} != {('c', NEWL), ('c', OLDL)} or fa != fb or z[0] != z[1]: return None
            sz = sizes(eng.prog, 'cl_t'); order = [n for n in sz]; k = order.index(fa); left = z[0]; cov = set()
            while left > 0 and k < len(order):
                if left >= sz[order[k]] : cov.add(order[k])
                else: cov.add((order[k], left))
                left -= sz[order[k]]; k += 1
            diff = self.bits is not None and (self.bits in cov)
            return [Outcome((ov, tuple(sorted(set(acts) | {('cmp', repr(c)) for c in cov}))), ret=av_const(1 if diff else 0))]
        if n == 'read_file': return [Outcome(q, ret=av_const(K['OK']))]
        if n in ('insert_nextexe', 'job_queue_remove'):
            a = eng.ev(i.args[0], env, fr)
            if a == ('c', NEWL): return [Outcome((ov, tuple(sorted(set(acts) | {(n, self.val(env, 'cl_nextexe'))}, key=str))))]
            return None
        if n == 'delete_file':
            return [Outcome((ov, tuple(sorted(set(acts) | {('final', self.val(env, 'cl_nextexe'), self.val(env, 'cl_remain'), tuple(zip(self.o.names, ov)))}, key=str))))]
        if n == 'save_file': return [Outcome(q, ret=av_const(K['OK']))]
        return None
    def val(self, env, n):
        v = env.mem.get(('p', ('c', NEWL), (('f', 'cl_t', n),)))
        if v is None: return self.f[NEWL][n]
        return v[1] if v[0] == 'c' else '?'
    def on_exit(self, eng, q, env, inst, fr): self.out.add((q[0], tuple(a for a in q[1] if a[0] != 'cmp')))

BITS = ('cl_mins', 'cl_hrs', 'cl_days', 'cl_mons', 'cl_dow')
def keep(ctx):
    """Rule: with one job in the old and one in the new version of a crontab and every combination of same/other command, period, time tables (each of the five), dayor, skip frequency, time difference, run-once state: the new job takes over next execution, remaining runs to skip and run-once state of the old one exactly when command and schedule are the same, and is put at its place in the queue (or out of it if it has already run once)."""
    p = ctx.prog('fcron'); t = opts.simple(ctx.work); K = opts.consts(ctx.work, ['OK', 'ERR']); jobs = []; want = {}
    names = ['freq', 'dayor', 'runonce', 'hasrun']
    ctx.need(all(n in t for n in names), 'option accessors missing')
    def add(same, freq, samef, bits, dn, do, rf, on, oo, hr, tzn, tzo, nexte):
        fn = {'cl_nextexe': 5000, 'cl_remain': 7, 'cl_runfreq': 3, 'cl_timefreq': 60}; fo = {'cl_nextexe': nexte, 'cl_remain': 2, 'cl_runfreq': {1: 3, 0: 4, 2: 2}[rf], 'cl_timefreq': 60 if samef else 90}
        nv = (freq, dn, on, 0); ov = (freq, do, oo, hr)
        m = same and (samef if freq else (bits is None and dn == do))
        ne = nexte + (tzn - tzo) * 3600 if m and not freq and tzn != tzo and nexte + (tzn - tzo) * 3600 > 1000 else nexte if m else 5000
        w = (ne, 2 if m and rf == 1 else 7, 1 if m and on and oo and hr else 0)
        act = None if not m else 'job_queue_remove' if w[2] else 'insert_nextexe'
        label = '%s command, %s, %s%s%s%s%s' % ('same' if same else 'other', 'period' + (' same' if samef else ' other') if freq else 'tables ' + (('same' if bits is None else 'differ in ' + bits) + ('' if not samef else ' (same period)')), '' if freq else 'dayor %d/%d, ' % (dn, do), ('larger skip before, ', 'same skip, ', 'smaller skip before, ')[rf], 'runonce %d/%d hasrun %d' % (on, oo, hr), '' if tzn == tzo else ', tzdiff %d/%d' % (tzn, tzo), '' if nexte == 3000 else ', next %d' % nexte)
        def f():
            r = Keep(K, t, names, nv, ov, fn, fo, same, bits, (tzn, tzo)); e = Engine(p, r); e.run('synchronize_file', (nv, ())); r.extra = sorted(r.out, key=str); return e
        if label in want: return
        want[label] = (w, act); jobs.append((label, f))
    for same, rf in product((1, 0), (1, 0, 2)):
        for on, oo, hr in ((0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1)):
            for sf in (1, 0): add(same, 1, sf, None, 0, 0, rf, on, oo, hr, 0, 0, 3000)
            for dn, do in product((0, 1), (0, 1)): add(same, 0, 0, None, dn, do, rf, on, oo, hr, 0, 0, 3000)
        for b, sf in product(BITS, (0, 1)): add(same, 0, sf, b, 0, 0, rf, 0, 0, 0, 0, 0, 3000)
    for tzn, tzo, ne in product((0, 2, -3), (0, 2), (3000, 1001, 30000, 8200, 8201, 11800, 11801, 19000, 19001)): add(1, 0, 0, None, 0, 0, 1, 0, 0, 0, tzn, tzo, ne)
    for tzn, tzo, ne in ((2, 0, 3000), (0, 2, 30000), (-3, 2, 30000)): add(1, 1, 1, None, 0, 0, 1, 0, 0, 0, tzn, tzo, ne)
    for label, got in ctx.engines(jobs):
        w, act = want[label]
        ctx.ob(label + ': decided', len(got) > 0, 'synchronize_file', 'the adoption has no outcome for: %s' % label)
        for ov, acts in got:
            fin = [a for a in acts if a[0] == 'final']; qa = [a for a in acts if a[0] != 'final']
            ctx.ob(label + ': state', len(fin) == 1 and (fin[0][1], fin[0][2], dict(fin[0][3])['hasrun']) == w, 'synchronize_file', 'the new job should have (next execution, runs to skip, has run) = %s, has %s (%s)' % (w, [(x[1], x[2], dict(x[3])['hasrun']) for x in fin], label))
            ctx.ob(label + ': queue', [a[0] for a in qa] == ([act] if act else []) and (act != 'insert_nextexe' or qa[0][1] == w[0]), 'synchronize_file', 'expected %s of the job, the code does %s (%s)' % (act or 'no change of the place', qa, label))
