"""Compile the current /repo sources to (lightly normalised) LLVM IR.

The flags are those of Makefile.in's %.o rule for the configuration recorded in
/opt/vp/build.sh; config.h is regenerated from the *current* config.h.in with the
autoconf answers frozen in data/config_defs.tsv (what config.status would substitute).
Nothing is read from or written to /repo/_build."""
import os, re, subprocess, hashlib, shutil, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = next(c for c in ('/usr/lib/llvm-18/bin/clang', '/usr/bin/clang-18', '/usr/bin/clang') if os.path.exists(c))
OPT = next(c for c in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', '/usr/bin/opt') if os.path.exists(c))
LINK = next(c for c in ('/usr/lib/llvm-18/bin/llvm-link', '/usr/bin/llvm-link-18') if os.path.exists(c))

class AnalysisBroken(Exception):
    """An anchor vanished / nothing to analyse: neither a pass nor a violation."""

# object lists of Makefile.in (checked against the current Makefile.in by objects())
BIN_VARS = {'fcron': 'OBJSD', 'fcrontab': 'OBJSTAB', 'fcrondyn': 'OBJSDYN',
            'convert-fcrontab': 'OBJCONV', 'fcronsighup': 'OBJSIG'}

def objects():
    """binary -> list of source stems, read from the current Makefile.in."""
    txt = open(os.path.join(REPO, 'Makefile.in')).read().replace('\\\n', ' ')
    var = {}
    cond = []
    for l in txt.split('\n'):
        m = re.match(r'^(ifeq|ifneq)\s*\(\s*\$\((\w+)\)\s*,\s*(\S*)\s*\)', l)
        if m:
            val = {'FCRONDYN': '1', 'USEPAM': '1'}.get(m.group(2), '0')
            cond.append((val == m.group(3)) == (m.group(1) == 'ifeq')); continue
        if re.match(r'^else\b', l) and cond:
            cond[-1] = not cond[-1]; continue
        if re.match(r'^endif\b', l) and cond:
            cond.pop(); continue
        if not all(cond):
            continue
        m = re.match(r'^(\w+)\s*(\+?:?=)\s*(.*)$', l)
        if m:
            n, op, v = m.group(1), m.group(2), m.group(3)
            v = v.replace('@LIBOBJS@', '')
            if '+' in op: var[n] = var.get(n, '') + ' ' + v
            else: var[n] = v
    def expand(s, d=0):
        if d > 20: return s
        def rep(m):
            e = m.group(1)
            mm = re.match(r'filter-out\s+([^,]*),(.*)', e)
            if mm:
                drop = set(expand(mm.group(1), d+1).split())
                return ' '.join(x for x in expand(mm.group(2), d+1).split() if x not in drop)
            return expand(var.get(e, ''), d+1)
        while True:
            n = re.sub(r'\$[({]([^(){}]*)[)}]', rep, s)
            if n == s: return s
            s = n
    out = {}
    for b, v in BIN_VARS.items():
        if v not in var:
            raise AnalysisBroken('Makefile.in no longer defines %s' % v)
        stems = [o[:-2] for o in expand(var[v]).split() if o.endswith('.o')]
        if not stems:
            raise AnalysisBroken('no objects for %s' % b)
        out[b] = stems
    return out

MK = {  # values of the build configured by /opt/vp/build.sh
    'PIDFILE': '/var/run/fcron.pid', 'REBOOT_LOCK': '/var/run/fcron.reboot',
    'SUSPEND_FILE': '/var/run/fcron.suspend', 'FIFOFILE': '/var/run/fcron.fifo',
    'ETC': '/etc', 'FCRON_SHELL': '/usr/bin/sh', 'FCRON_CONF': 'fcron.conf',
    'FCRONTABS': '/var/spool/fcron', 'FCRON_ALLOW': 'fcron.allow', 'FCRON_DENY': 'fcron.deny',
    'SENDMAIL': '/usr/sbin/sendmail', 'FCRON_EDITOR': '/usr/bin/sensible-editor',
    'MAILDISPLAYNAME': 'Fcron Daemon', 'BINDIREX': '/usr/bin'}

def gen_config(dst):
    defs = {}
    for l in open(os.path.join(VERIF, 'data', 'config_defs.tsv')):
        k, _, v = l.rstrip('\n').partition('\t')
        defs[k] = v
    out = []
    for l in open(os.path.join(REPO, 'config.h.in')):
        m = re.match(r'^(\s*)#(\s*)(undef|define)\s+(\w+)\b(.*)$', l)
        if m and m.group(4) in defs:
            out.append('%s#%sdefine %s %s\n' % (m.group(1), m.group(2), m.group(4), defs[m.group(4)]))
        elif m and m.group(3) == 'undef':
            out.append('/* %s */\n' % l.strip())
        else:
            out.append(l)
    with open(os.path.join(dst, 'config.h'), 'w') as f:
        f.write(''.join(out))

def cflags(cfgdir, extra=()):
    fl = ['-w', '-std=gnu17', '-I' + cfgdir, '-I' + REPO, '-I/usr/include/selinux', '-DHAVE_CONFIG_H']
    for k, v in MK.items():
        fl.append('-D%s="%s"' % (k, v))
    return fl + list(extra)

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode('utf8', 'replace')[-3000:]))
    return p.stdout

def compile_all(work, extra=(), tag=''):
    """Compile every source of every binary; returns {stem: path of .bc}."""
    os.makedirs(work, exist_ok=True)
    gen_config(work)
    objs = objects()
    stems = sorted({s for v in objs.values() for s in v})
    def one(s):
        src = os.path.join(REPO, s + '.c')
        if not os.path.exists(src):
            raise AnalysisBroken('source %s listed in Makefile.in does not exist' % src)
        raw = os.path.join(work, s + tag + '.raw.bc')
        bc = os.path.join(work, s + tag + '.bc')
        run([CLANG, '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g',
             '-fno-discard-value-names', '-fno-builtin'] + cflags(work, extra) + [src, '-o', raw], cwd=work)
        run([OPT, '-passes=mem2reg', raw, '-o', bc])
        return s, bc
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, stems)), objs

def probe_consts(work, headers, names):
    """Values of integer macros as the compiler sees them, from the current headers."""
    src = os.path.join(work, 'probe.c')
    with open(src, 'w') as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
        for n in names:
            f.write('#ifdef %s\nconst long long vpprobe_%s = (long long)(%s);\n#endif\n' % (n, n, n))
    out = os.path.join(work, 'probe.ll')
    run([CLANG, '-S', '-emit-llvm', '-O0'] + cflags(work) + [src, '-o', out], cwd=work)
    res = {}
    for l in open(out):
        m = re.match(r'^@vpprobe_(\w+) = .*constant i64 (-?\d+)', l)
        if m: res[m.group(1)] = int(m.group(2))
    return res
