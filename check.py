#!/usr/bin/python3
"""check.py <property-id> [quick|thorough]  -- decide one property on /repo's current source by static analysis."""
import sys, os, json, time, tempfile, shutil, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':      # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
from sa.build import AnalysisBroken
from sa import core
from rules import REGISTRY

class Ctx:
    def __init__(self, pid, tier, work):
        self.pid = pid; self.tier = tier; self.work = work; self._w = None
        self.obl = []; self.viol = {}; self.notes = []; self.stats = {}; self.assume = []; self.funcs = set(); self.samples = []
    @property
    def world(self):
        if self._w is None: self._w = core.World(self.work)
        return self._w
    def prog(self, b): return self.world.prog(b)
    def ob(self, key, ok, where='', msg='', trace=()):
        """one proof obligation; key identifies the construct independently of line numbers"""
        self.obl.append((key, bool(ok), where, msg))
        if not ok: self.violation(key, where, msg, trace)
    def violation(self, key, where, msg, trace=()):
        self.viol.setdefault(key, (where, msg, list(trace)))
    def engine(self, eng, entry, label=None):
        """collect what a typestate run covered and reported"""
        self.funcs |= eng.visited
        d = self.stats.setdefault('typestate', {})
        d[label or entry] = {'abstract_states': eng.states, 'functions_entered': len(eng.visited), 'event_sites': len(eng.event_sites)}
        self.samples += ['%s: event at %s in %s' % (label or entry, l, f) for f, n, l in sorted(eng.event_sites)[:12]]
        for k, (inst, msg, trace) in eng.reports.items():
            key = k if isinstance(k, str) else '%s:%s' % (inst.fn.name, msg)
            self.violation(key, '%s (%s)' % (inst.loc, inst.fn.name), msg, trace.list() if trace is not None and hasattr(trace, 'list') else trace or [])
    def engines(self, jobs, n=8):
        """run independent typestate explorations in parallel.  jobs: list of (label, thunk returning an Engine)"""
        global _JOBS
        _JOBS = jobs
        import multiprocessing as mp
        with mp.get_context('fork').Pool(min(n, len(jobs), os.cpu_count() or 1)) as pool:
            for label, (err, states, visited, sites, reps, extra) in zip([j[0] for j in jobs], pool.map(_one, range(len(jobs)), chunksize=1)):
                if err: raise AnalysisBroken(err)
                self.funcs |= visited
                self.stats.setdefault('typestate', {})[label if isinstance(label, str) else ' '.join(map(str, label))] = {'abstract_states': states, 'functions_entered': len(visited), 'event_sites': len(sites)}
                self.samples += ['%s: event at %s in %s' % (label, l, f) for f, m, l in sorted(sites)[:4]]
                for k, (where, msg, tr) in reps.items(): self.violation(k, where, msg, tr)
                yield label, extra
    def need(self, cond, what):
        if not cond: raise AnalysisBroken(what)

_JOBS = []
def _one(n):
    try:
        e = _JOBS[n][1]()
        reps = {}
        for k, (inst, msg, trace) in e.reports.items():
            key = k if isinstance(k, str) else '%s:%s' % (inst.fn.name, msg)
            reps[key] = ('%s (%s)' % (inst.loc, inst.fn.name), msg, trace.list() if trace is not None and hasattr(trace, 'list') else list(trace or []))
        return (None, e.states, e.visited, e.event_sites, reps, getattr(e.rule, 'extra', None))
    except AnalysisBroken as x: return (str(x), 0, set(), set(), {}, None)

def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s key=' % pid):
                k, _, d = l[len('finding: property=%s key=' % pid):].partition(' :: ')
                out[k.strip()] = d
    return out

def main():
    pid = sys.argv[1]; tier = 'quick'
    for a in sys.argv[2:]:
        a = a.replace('--tier=', '')
        if a in ('quick', 'thorough'): tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname = REGISTRY[pid]
    work = tempfile.mkdtemp(prefix='vsa-')
    try:
        ctx = Ctx(pid, tier, work)
        mod = importlib.import_module('rules.' + modname[0])
        try:
            getattr(mod, modname[1])(ctx)
        except AnalysisBroken as e:
            if not ctx.viol:
                print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
            ctx.notes.append('analysis stopped early: %s' % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known(pid); new = []; found = []
    for k, v in ctx.viol.items():
        (found if k in kn else new).append((k, v))
    rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, pid + '.txt')
    nob = len(ctx.obl) + sum(d['event_sites'] for d in ctx.stats.get('typestate', {}).values())
    if nob == 0:
        print('ANALYSIS-BROKEN property=%s no obligation was generated' % pid); return 2
    bad = len(ctx.viol)
    cov = {'explanation': (mod.__doc__ or '').strip() + ' ' + (getattr(mod, modname[1]).__doc__ or '').strip(),
           'obligations': nob, 'discharged': max(0, nob - bad),
           'functions_in_translation_units': ctx._w.nfuncs if ctx._w else 0, 'functions_explored': sorted(ctx.funcs)[:200],
           'samples': ([('%s: %s %s' % (k, 'ok' if ok else 'FAILED', w)).strip() for k, ok, w, m in ctx.obl[:400]] + ctx.samples[:100]) or ['none']}
    cov.update(ctx.stats)
    if ctx.notes: cov['notes'] = ctx.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': ctx.assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d obligations, %d reports, %.1fs' % (pid, tier, nob, bad, time.time() - t0))
    for k, (w, m, tr) in found:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, k, w, m))
    if new:
        with open(rp, 'w') as f:
            for k, (w, m, tr) in new:
                f.write('property %s violated at %s\n  construct: %s\n  %s\n  path:\n' % (pid, w, k, m))
                for x in tr: f.write('    %s\n' % x)
                f.write('\n')
        for k, (w, m, tr) in new[:20]: print('  %s: [%s] %s' % (w, k, m))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    return 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
