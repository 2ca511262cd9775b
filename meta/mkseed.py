#!/usr/bin/python3
"""(re)generates seeded/<id>/ from meta/seeds/*.py: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C source, needs, breaks)]
   --test [ids]: in a scratch copy: demo passes on the clean tree; with the patch it builds, the tests pass, the demo fails; and says whether the property's check reports it"""
import os, sys, json, glob, shutil, subprocess, tempfile, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
def load():
    out = []
    for f in sorted(glob.glob(H + '/seeds/*.py')):
        ns = {}; exec(open(f).read(), ns); out += ns['SEEDS']
    assert len({s['id'] for s in out}) == len(out)
    return out
def gen(s):
    d = V + '/seeded/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        for x in 'ab': os.mkdir(t + '/' + x)
        files = []
        for fn, old, new in s['edits']:
            if fn not in files:
                files.append(fn)
                for x in 'ab': shutil.copy('/repo/' + fn, t + '/' + x + '/' + fn)
            c = open(t + '/b/' + fn).read(); assert c.count(old) >= 1, (s['id'], fn, old)
            if c.count(old) > 1 and not s.get('first'): raise AssertionError((s['id'], 'ambiguous', fn, old))
            open(t + '/b/' + fn, 'w').write(c.replace(old, new, 1))
        p = ''
        for fn in files:
            r = subprocess.run(['diff', '-u', 'a/' + fn, 'b/' + fn], cwd=t, capture_output=True, text=True).stdout.split('\n', 2)
            p += 'diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n%s' % (fn, fn, fn, fn, r[2])
        open(d + '/patch.diff', 'w').write(p)
    finally: shutil.rmtree(t)
    open(d + '/demo.c', 'w').write(s['demo'])
    shutil.copy(H + '/seedtpl/' + s.get('sh', 'demo.sh'), d + '/demo.sh'); shutil.copy(H + '/seedtpl/h.h', d)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t, env=env)
def test(s):
    w = tempfile.mkdtemp(prefix='vseed-'); r = w + '/repo'; res = []
    try:
        sh(['cp', '-a', '/repo', r], '/')
        for x in ('build.sh', 'test.sh', 'results.py', 'BASELINE.json'):
            if os.path.exists('/opt/vp/' + x): open(w + '/' + x, 'w').write(open('/opt/vp/' + x).read().replace('/opt/vp', w).replace('/repo', r))
        sh(['git', 'checkout', '-q', '--', '.'], r)
        b = sh(['bash', w + '/build.sh'], w)
        if b.returncode: return [s['id'], 'CLEAN BUILD FAILED ' + b.stderr[-200:]]
        d = w + '/dd'; shutil.copytree(V + '/seeded/' + s['id'], d)
        for x in ('patch.diff', 'meta.json'): shutil.move(d + '/' + x, w + '/' + x)
        o = sh(['bash', d + '/demo.sh'], r); res.append('clean demo %s' % ('ok' if o.returncode == 0 else 'FAILED ' + (o.stdout + o.stderr)[-600:]))
        a = sh(['git', 'apply', w + '/patch.diff'], r)
        if a.returncode: return [s['id'], 'PATCH DOES NOT APPLY ' + a.stderr]
        b = sh(['bash', w + '/build.sh'], w)
        if b.returncode: return [s['id'], 'PATCHED BUILD FAILED ' + b.stderr[-400:]]
        t = sh(['bash', w + '/test.sh', w + '/o.json'], w); 
        res.append('tests ' + (t.stdout.strip().splitlines() or ['?'])[-1])
        o = sh(['bash', d + '/demo.sh'], r); res.append('patched demo %s' % ('FAILS(good)' if o.returncode else 'PASSES (bad)') + ' ' + ' '.join((o.stdout).split())[-160:])
        v = w + '/verif'; os.mkdir(v)
        for x in ('sa', 'rules', 'data'): shutil.copytree(V + '/' + x, v + '/' + x)
        for x in ('check.py', 'known_findings.txt'): shutil.copy(V + '/' + x, v + '/' + x)
        c = sh(['python3', v + '/check.py', s['prop']], v, dict(os.environ, VP_REPO=r), 900)
        res.append('check %s %s' % ({0: 'MISSED', 1: 'caught', 2: 'BROKEN'}.get(c.returncode, c.returncode), ' | '.join(l.strip()[:160] for l in c.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l)[:330]))
        if len(res) == 4 and 'FAILS(good)' in res[2] and ' ok' in res[0]: RES[s['id']] = {0: 'missed', 1: 'caught'}.get(c.returncode, 'broken')
        return [s['id']] + res
    finally: shutil.rmtree(w, ignore_errors=True)
RES = {}
ss = load(); a = sys.argv[1:]
want = [x for x in a if not x.startswith('-')]
for s in ss:
    if not want or s['id'] in want or s['prop'] in want: gen(s)
if '--test' in a:
    with cf.ThreadPoolExecutor(5) as ex:
        for r in ex.map(test, [s for s in ss if not want or s['id'] in want or s['prop'] in want]): print('\n    '.join(r), flush=True)
    f = H + '/seed_results.json'; r = json.load(open(f)) if os.path.exists(f) else {}
    r.update(RES); json.dump({k: v for k, v in sorted(r.items()) if any(s['id'] == k for s in ss)}, open(f, 'w'), indent=1)
