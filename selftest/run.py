#!/usr/bin/python3
"""Mutation self-test: applies each textual edit to a scratch copy of /repo and runs the named checks on it.
usage: run.py [property ...] [-k substring] [-j N]     entries: selftest/cases/*.py, CASES = [(props, kind, file, old, new)]"""
import sys, os, shutil, subprocess, tempfile, glob, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
def load():
    out = []
    for f in sorted(glob.glob(H + '/cases/%s.py' % os.environ.get('VP_CASES', '*'))):
        ns = {}; exec(open(f).read(), ns); out += ns['CASES']
    return out
def one(c, only):
    props, kind, name, edits = c
    d = tempfile.mkdtemp(prefix='vmut-')
    try:
        r = d + '/repo'; os.mkdir(r)
        for f in os.listdir('/repo'):
            if f in ('.git', '_build'): continue
            s = '/repo/' + f
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, r + '/' + f)
        for fn, old, new in edits:
            t = open(r + '/' + fn).read()
            if t.count(old) < 1: return [(c, '?', 'EDIT-DOES-NOT-APPLY %s' % fn)]
            open(r + '/' + fn, 'w').write(t.replace(old, new, 1))
        res = []
        v = d + '/verif'; os.mkdir(v)
        for x in ('sa', 'rules', 'data'): shutil.copytree(V + '/' + x, v + '/' + x)
        for x in ('check.py', 'known_findings.txt'):
            if os.path.exists(V + '/' + x): shutil.copy(V + '/' + x, v + '/' + x)
        os.mkdir(v + '/evidence')
        for p in props:
            if only and p not in only: continue
            o = subprocess.run(['timeout', '800', '/usr/bin/python3', v + '/check.py', p], env=dict(os.environ, VP_REPO=r), capture_output=True, text=True)
            want = 1 if kind == 'bad' else 0
            tag = 'ok' if o.returncode == want else 'MISMATCH rc=%d' % o.returncode
            info = [l.strip()[:220] for l in o.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l] + o.stderr.strip().splitlines()[-1:]
            res.append((c, p, tag + ('' if tag == 'ok' and kind == 'good' else '  ' + ' | '.join(info[:2]))))
        return res
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    a = sys.argv[1:]; k = None; j = 6
    if '-k' in a: n = a.index('-k'); k = a[n + 1]; del a[n:n + 2]
    if '-j' in a: n = a.index('-j'); j = int(a[n + 1]); del a[n:n + 2]
    cs = [c for c in load() if (not a or set(a) & set(c[0])) and (not k or k in c[2])]
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda c: one(c, a), cs):
            for c, p, t in r:
                if not t.startswith('ok'): bad += 1
                print('%-4s %-5s %-44s %s' % (p, c[1], c[2], t), flush=True)
    print('%d mismatches' % bad)
main()
