"""Program model per binary, call graph, address paths, provenance and effects."""
import os, re
from .build import AnalysisBroken, compile_all
from . import ir
from .ir import Inst, Func, Val

NORETURN_EXT = {'exit', '_exit', 'abort', '_Exit', '__assert_fail', 'pthread_exit', 'longjmp'}

class Prog:
    def __init__(self, name, modules):
        self.name = name; self.modules = modules; self.funcs = {}; self.globals = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.decl:
                    if f.name in self.funcs and self.funcs[f.name].linkage != f.linkage:
                        pass
                    self.funcs.setdefault(f.name, f)
            for g in m.globals.values():
                if not g.decl and g.linkage not in (8, 9): self.globals.setdefault(g.name, g)
        self.callers = {}   # func name -> [call inst]
        self.addr_taken = {}
        for f in self.funcs.values():
            for i in f.insts():
                if i.op == 'call':
                    c = self.target(i)
                    if c is not None: self.callers.setdefault(c.name, []).append(i)
                for k, o in enumerate(i.ops):
                    if isinstance(o, Func) and not (i.op == 'call' and k == len(i.ops) - 1):
                        self.addr_taken.setdefault(o.name, []).append(i)
        self._noreturn()
        self._reach = {}; self._mods = None
    def func(self, name):
        f = self.funcs.get(name)
        if f is None: raise AnalysisBroken('function %s not found in %s' % (name, self.name))
        return f
    def target(self, call):
        """The definition a call reaches, or None (external / indirect)."""
        c = call.ops[-1]
        if isinstance(c, Func):
            d = c.module.funcs.get(c.name)
            if d is not None and not d.decl: return d
            return self.funcs.get(c.name)
        return None
    def _noreturn(self):
        for f in self.funcs.values(): f.noreturn = False
        ch = True
        while ch:
            ch = False
            for f in self.funcs.values():
                if f.noreturn: continue
                seen = set(); st = [f.blocks[0]]; ret = False
                while st:
                    b = st.pop()
                    if b in seen: continue
                    seen.add(b); dead = False
                    for i in b.insts:
                        if i.op == 'call' and self.is_noreturn(i): dead = True; break
                        if i.op == 'ret': ret = True
                    if not dead: st.extend(b.succs)
                if not ret: f.noreturn = True; ch = True
    def is_noreturn(self, call):
        n = call.cname
        if n in NORETURN_EXT: return True
        t = self.target(call)
        return bool(t is not None and t.noreturn)
    def callees(self, f):
        out = []
        for i in f.insts():
            if i.op == 'call':
                t = self.target(i)
                if t is not None and t not in out: out.append(t)
        return out
    def closure(self, roots):
        seen = []; st = list(roots)
        while st:
            f = st.pop()
            if f in seen: continue
            seen.append(f); st.extend(self.callees(f))
        return seen
    def reaches(self, pred_key, pred):
        """set of function names that (transitively) contain an instruction satisfying pred."""
        if pred_key is not None and pred_key in self._reach: return self._reach[pred_key]
        s = {f.name for f in self.funcs.values() if any(pred(i) for i in f.insts())}
        ch = True
        while ch:
            ch = False
            for f in self.funcs.values():
                if f.name in s: continue
                if any(t.name in s for t in self.callees(f)): s.add(f.name); ch = True
        if pred_key is not None: self._reach[pred_key] = s
        return s
    # ---- modification effects (fields, globals, by-reference params) ----
    def mods(self, name):
        if self._mods is None:
            m = {}
            for f in self.funcs.values():
                s = set()
                for i in f.insts():
                    if i.op == 'store': s |= eff(i.ops[1])
                    elif i.op == 'call' and self.target(i) is None:
                        for k in ext_writes(i): s |= eff(i.args[k])
                m[f.name] = s
            ch = True
            while ch:
                ch = False
                for f in self.funcs.values():
                    for i in f.insts():
                        if i.op != 'call': continue
                        t = self.target(i)
                        if t is None: continue
                        add = set()
                        for e in m.get(t.name, ()):
                            if e[0] == 'arg':
                                if e[1] < len(i.args): add |= eff(i.args[e[1]])
                            else: add.add(e)
                        if not add <= m[f.name]: m[f.name] |= add; ch = True
            self._mods = m
        return self._mods.get(name, set())

# externals: which pointer arguments they write through (None = all pointer args)
READONLY_EXT = set('''strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr printf fprintf puts fputs perror syslog openlog closelog
 free exit _exit close fclose unlink open access chdir getpwnam getgrnam getuid geteuid getgid getegid setuid setgid seteuid setegid setreuid setregid
 initgroups setgroups getenv execl execle execve execvp kill nice setpriority umask chmod fchmod chown fchown lchown rename write send fputc fflush fsync fdatasync
 signal sleep atoi strtol strtod isatty getpid getppid setsid fork dup dup2 strdup fopen fdopen opendir closedir localtime gmtime ctime strerror pam_strerror
 pam_end pam_open_session pam_close_session pam_setcred pam_acct_mgmt pam_authenticate pam_putenv pam_set_item ftell ftruncate lseek rewind flock fcntl fileno feof ferror abs rand srand random srandom
 sigaddset sigprocmask kill killpg alarm tcsetattr socket bind listen connect shutdown isalnum isalpha isdigit isspace toupper tolower __errno_location __ctype_b_loc
 malloc calloc putenv setenv unsetenv tzset time_dummy memcmp setgid getlogin sched_yield mkstemp_dummy link symlink mkfifo getdtablesize sysconf'''.split())
EXT_WRITES = {'snprintf': [0], 'sprintf': [0], 'vsnprintf': [0], 'strncpy': [0], 'strcpy': [0], 'strcat': [0], 'strncat': [0], 'memcpy': [0], 'memset': [0],
 'memmove': [0], 'bzero': [0], 'read': [1], 'recv': [1], 'fread': [0], 'fgets': [0], 'stat': [1], 'lstat': [1], 'fstat': [1], 'time': [0], 'gettimeofday': [0],
 'pipe': [0], 'waitpid': [1], 'wait': [0], 'getcwd': [0], 'gethostname': [0], 'strftime': [0], 'mktime': [0], 'select': [1, 2, 3, 4], 'realloc': [],
 'llvm.memcpy.p0.p0.i64': [0], 'llvm.memset.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0]}
def ext_writes(call):
    n = call.cname
    if n in READONLY_EXT: return []
    if n in EXT_WRITES: return [k for k in EXT_WRITES[n] if k < len(call.args)]
    return [k for k, a in enumerate(call.args) if a.type.kind == 12]

def field_of(v):
    """(struct, field, subindex) for the innermost field a GEP selects, else None."""
    st = steps(v)
    for s in reversed(st[1]):
        if s[0] == 'f': return s
    return None

_layouts = {}
def set_layouts(l): _layouts.clear(); _layouts.update(l)

def field_name(T, k):
    lay = _layouts.get(T.name or '')
    off = T.offs[k] if T.offs else None
    if lay and off is not None:
        c = [n for o, n in lay if o == off and n]
        if c: return c[0]
    return '#%d' % k

def gep_steps(g):
    """path steps of one GEP: ('f',S,field) / ('i',n or None,valueinst)"""
    out = []; T = g.gepty; idx = g.ops[1:]
    i0 = idx[0]
    if not (i0.kind == 'int' and i0.v == 0):
        out.append(('i', i0.v if i0.kind == 'int' else None))
    for i in idx[1:]:
        if T.kind == 10:
            out.append(('f', T.name, field_name(T, i.v))); T = T.elems[i.v]
        elif T.kind == 11:
            out.append(('i', i.v if i.kind == 'int' else None)); T = T.elem
        else: out.append(('i', None))
    # trailing index 0 on arrays = decay, keep canonical: drop
    return out

def steps(v):
    """(base value, [steps]) following GEPs and pointer casts."""
    path = []
    while True:
        if getattr(v, 'op', None) == 'gep':
            path = gep_steps(v) + path; v = v.ops[0]
        elif getattr(v, 'op', None) in ('bitcast', 'freeze'):
            v = v.ops[0]
        else: break
    p = [s for s in path if not (s[0] == 'i' and s[1] == 0)]
    return v, p

def eff(ptr):
    b, p = steps(ptr)
    f = None
    for s in reversed(p):
        if s[0] == 'f': f = s; break
    if f is not None and not (b.kind == 'gvar' or (isinstance(b, Inst) and b.op == 'alloca')): return {('field', f[1], f[2])}
    if b.kind == 'gvar': return {('global', b.name)} | ({('field', f[1], f[2])} if f else set())
    if b.kind == 'arg': return {('arg', b.idx)}
    if isinstance(b, Inst):
        if b.op == 'alloca': return set()
        if b.op in ('phi', 'select'):
            out = set()
            for o in b.ops:
                bb, _ = steps(o)
                if bb.kind == 'arg': out.add(('arg', bb.idx))
                elif bb.kind == 'gvar': out.add(('global', bb.name))
            out.add(('any',)); return out
        if b.op == 'load':
            bb, pp = steps(b.ops[0])
            return {('deref', field_str(b.ops[0]))}
        return {('any',)}
    return {('any',)}

def field_str(ptr):
    b, p = steps(ptr)
    s = b.name if b.kind in ('gvar', 'arg') else (('%' + (b.name or str(getattr(b, 'n', '?')))) if isinstance(b, Inst) else '?')
    for x in p:
        s += ('.' + x[2]) if x[0] == 'f' else '[%s]' % ('*' if x[1] is None else x[1])
    return s

def const_str(v):
    """C string constant a pointer value denotes, else None."""
    b, p = steps(v)
    if b.kind == 'gvar' and b.init is not None and b.const:
        off = 0
        for s in p:
            if s[0] == 'i' and s[1] is not None: off = s[1]
            else: return None
        if b.init.kind == 'str': return b.init.v[off:].split('\0')[0]
        if b.init.kind == 'zero': return ''
    return None

def strip(v):
    while isinstance(v, Inst) and v.op in ir.CASTS or (getattr(v, 'kind', '') == 'cexpr' and v.op in ir.CASTS): v = v.ops[0]
    return v

class World:
    """All binaries of the current tree."""
    def __init__(self, work, extra=()):
        bcs, objs = compile_all(work, extra)
        lay = ir.layouts(work, sorted(bcs))
        set_layouts(lay); self.layouts = lay
        ld = ir.Loader(lay)
        self.mods = {s: ld.load(p, s) for s, p in bcs.items()}
        self.objs = objs; self.work = work
        self.progs = {b: Prog(b, [self.mods[s] for s in st]) for b, st in objs.items()}
        self.nfuncs = sum(1 for m in self.mods.values() for f in m.funcs.values() if not f.decl)
    def prog(self, b): return self.progs[b]
def lca(prog, *preds):
    """the innermost functions whose call closure contains an instruction for every predicate"""
    sets = [prog.reaches(None, p) for p in preds]
    s = set.intersection(*sets)
    return sorted(f for f in s if not any(t.name in s and t.name != f for t in prog.callees(prog.funcs[f])))
