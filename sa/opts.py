"""Job option accessors: what bits is_X / set_X / clear_X of option.h read and write, from the current header."""
import re, os
from .build import AnalysisBroken, REPO, run, cflags, CLANG, OPT
from . import ir, core

def macros(work):
    src = os.path.join(work, 'optm.c')
    with open(src, 'w') as f: f.write('#include "global.h"\n#include "option.h"\n')
    t = run([CLANG, '-E', '-dM'] + cflags(work) + [src], cwd=work).decode()
    return sorted(set(re.findall(r'^#define ((?:is|set|clear)_[a-z_0-9]+)\(opt\)', t, re.M)))

class Bits:
    """concrete evaluation of a straight-line accessor over a 64-byte option array"""
    def __init__(self, f): self.f = f
    def run(self, mem):
        mem = list(mem); val = {}
        def ev(v):
            if v.kind == 'int': return v.v & 1 if v.type.width == 1 else v.v
            if v.kind in ('null', 'undef'): return 0
            if v.kind == 'arg': return ('p', 0)
            return val[v]
        b = self.f.blocks[0]; prev = None
        for _ in range(200):
            nxt = None
            for i in b.insts:
                o = i.op
                if o == 'phi': val[i] = next(ev(v) for v, pb in i.inc if pb is prev)
                elif o == 'gep':
                    p = ev(i.ops[0]); val[i] = ('p', p[1] + sum(ev(x) for x in i.ops[1:]))
                elif o == 'load':
                    k = ev(i.ops[0])[1]; x = mem[k]; val[i] = x - 256 if x > 127 else x
                elif o == 'store': mem[ev(i.ops[1])[1]] = ev(i.ops[0]) & 255
                elif o in ('sext', 'trunc'): 
                    x = ev(i.ops[0]); w = i.type.width; x &= (1 << w) - 1
                    val[i] = x - (1 << w) if w > 1 and x >> (w - 1) else x
                    if o == 'sext': val[i] = ev(i.ops[0])
                elif o == 'zext': val[i] = ev(i.ops[0]) & ((1 << i.ops[0].type.width) - 1)
                elif o in ('and', 'or', 'xor', 'add', 'shl'):
                    x, y = ev(i.ops[0]), ev(i.ops[1])
                    val[i] = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'shl': x << y if o == 'shl' else 0}[o]
                elif o == 'icmp':
                    x, y = ev(i.ops[0]), ev(i.ops[1])
                    val[i] = int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}.get(i.pred, 0))
                elif o == 'select': val[i] = ev(i.ops[1]) if ev(i.ops[0]) else ev(i.ops[2])
                elif o == 'br':
                    nxt = i.succ[0] if not i.ops or ev(i.ops[0]) & 1 else i.succ[1]
                elif o == 'ret': return (ev(i.ops[0]) if i.ops else None), mem
                else: raise AnalysisBroken('option accessor %s uses %s' % (self.f.name, o))
            prev, b = b, nxt
        raise AnalysisBroken('option accessor %s does not end' % self.f.name)

def table(work, layouts=None):
    """{name: ('is', bit, sense)} / {name: ('set', {bit: value})}; also OPTION_SIZE"""
    ms = macros(work)
    src = os.path.join(work, 'optp.c')
    with open(src, 'w') as f:
        f.write('#include "global.h"\n#include "option.h"\nint vp_size(unsigned char *o){ struct cl_t *c=0; return (int)sizeof(c->cl_option); }\n')
        for m in ms:
            if m.startswith('is_'): f.write('int vp_%s(unsigned char *opt){ return (%s(opt)) ? 1 : 0; }\n' % (m, m))
            else: f.write('void vp_%s(unsigned char *opt){ %s(opt); }\n' % (m, m))
    bc = os.path.join(work, 'optp.bc')
    run([CLANG, '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g'] + cflags(work) + [src, '-o', bc + '.raw'], cwd=work)
    run([OPT, '-passes=mem2reg', bc + '.raw', '-o', bc])
    mod = ir.Loader(layouts or {}).load(bc, 'optp')
    size = Bits(mod.funcs['vp_size']).run([0] * 64)[0]
    N = 64 * 8
    def bg(v): return [255 * v] * 64
    def flip(mem, b): m = list(mem); m[b >> 3] ^= 1 << (b & 7); return m
    out = {}
    for m in ms:
        B = Bits(mod.funcs['vp_' + m])
        if m.startswith('is_'):
            dep = {}
            for v in (0, 1):
                r0 = B.run(bg(v))[0]
                for b in range(N):
                    r = B.run(flip(bg(v), b))[0]
                    if r != r0: dep.setdefault(b, set()).add((1 - v, r))
            out[m] = ('is', dep, B.run(bg(0))[0], B.run(bg(1))[0])
        else:
            w = {}
            for v in (0, 1):
                mm = B.run(bg(v))[1]
                for b in range(N):
                    if (mm[b >> 3] >> (b & 7) & 1) != v: w[b] = 1 - v
            out[m] = ('set', w)
    return out, size

def simple(work, layouts=None):
    """{option: (byte, mask, sense)} for the single-bit is_ accessors"""
    t, size = table(work, layouts); out = {}
    for m, d in t.items():
        if d[0] == 'is' and len(d[1]) == 1:
            b = next(iter(d[1])); out[m[3:]] = (b >> 3, 1 << (b & 7), 1 if d[3] else 0)
    return out

def consts(work, names, headers=('global.h', 'save.h', 'option.h')):
    """current values of integer macros / enumerators"""
    src = os.path.join(work, 'optc.c')
    with open(src, 'w') as f:
        for h in headers: f.write('#include "%s"\n' % h)
        for k, n in enumerate(names): f.write('const long vpc_%d = (long)(%s);\n' % (k, n))
    bc = os.path.join(work, 'optc.bc')
    run([CLANG, '-c', '-emit-llvm', '-O0'] + cflags(work) + [src, '-o', bc], cwd=work)
    mod = ir.Loader({}).load(bc, 'optc')
    return {n: mod.globals['vpc_%d' % k].init.v for k, n in enumerate(names)}
def macro_names(work, pat, headers=('global.h', 'save.h', 'option.h')):
    src = os.path.join(work, 'optn.c')
    with open(src, 'w') as f: f.write(''.join('#include "%s"\n' % h for h in headers))
    t = run([CLANG, '-E', '-dM'] + cflags(work) + [src], cwd=work).decode()
    return sorted(set(re.findall(r'^#define (%s)\b' % pat, t, re.M)))
