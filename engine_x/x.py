#!/usr/bin/env python3
"""Exhaustive exploration of librseq's per-CPU helpers as compiled for the architectures other than the host's.

x.py target=T what=values|aliases|stops|moves|gating|tables|exits repo=/repo [events=2] [out=replay]   -> one JSON line; exit 1 = violation

The helpers are compiled by clang for the target, linked at fixed addresses, disassembled, and executed by
the interpreters in isa.py under a model of the kernel's rseq rules: every boundary-value combination
(values), every interruption point with every interference (stops), every id mismatch (gating); descriptor
and exit-point tables are judged on every one of those executions (tables).
"""
import json, os, re, struct, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import isa
from isa import Unknown, sx

# name: (clang triple, interpreter, extra compiler options, extra defines)
TARGETS = {
    'i386': ('i386-linux-gnu', lambda: isa.X86(32), ['-fno-pic', '-fomit-frame-pointer'], ['-DFIXED_TARGETS']),
    'x86_64': ('x86_64-linux-gnu', lambda: isa.X86(64), ['-fno-pic', '-mgeneral-regs-only'], ['-DNCAN=4']),
    'aarch64': ('aarch64-linux-gnu', isa.Aarch64, ['-mgeneral-regs-only'], ['-DNCAN=6']),
    'aarch64_be': ('aarch64_be-linux-gnu', isa.Aarch64, ['-mgeneral-regs-only'], ['-DNCAN=6']),
    'arm': ('armv7-linux-gnueabi', isa.Arm, ['-mtp=cp15', '-mfpu=none', '-mfloat-abi=soft'], ['-DNCAN=4']),
    'thumb': ('armv7-linux-gnueabi', isa.Thumb, ['-mtp=cp15', '-mthumb', '-mfpu=none', '-mfloat-abi=soft'], ['-DNCAN=4']),
    'riscv64': ('riscv64-linux-gnu', isa.Riscv, ['-march=rv64imac', '-mabi=lp64'], ['-DNCAN=6']),
    'riscv32': ('riscv32-linux-gnu', lambda: isa.Riscv(32), ['-march=rv32imac', '-mabi=ilp32'], ['-DNCAN=6']),
    'ppc64le': ('powerpc64le-linux-gnu', lambda: isa.Ppc(64, False), ['-mno-vsx', '-mno-altivec'], ['-DNCAN=6']),
    'ppc64': ('powerpc64-linux-gnu', lambda: isa.Ppc(64, True), ['-mno-vsx', '-mno-altivec', '-mabi=elfv2'], ['-DNCAN=6']),
    'ppc': ('powerpc-linux-gnu', lambda: isa.Ppc(32, True), [], ['-DNCAN=6']),
    's390x': ('s390x-linux-gnu', isa.S390, ['-msoft-float', '-march=z10'], ['-DNCAN=4']),
    'mips': ('mips-linux-gnu', lambda: isa.Mips(32, True), ['-mips32r2', '-mno-abicalls', '-fno-pic', '-G0'], ['-DNCAN=6']),
    'mipsel': ('mipsel-linux-gnu', lambda: isa.Mips(32, False), ['-mips32r2', '-mno-abicalls', '-fno-pic', '-G0'], ['-DNCAN=6']),
    'mips64': ('mips64-linux-gnuabi64', lambda: isa.Mips(64, True), ['-mips64r2', '-mno-abicalls', '-fno-pic', '-G0'], ['-DNCAN=6']),
    'mips64el': ('mips64el-linux-gnuabi64', lambda: isa.Mips(64, False), ['-mips64r2', '-mno-abicalls', '-fno-pic', '-G0'], ['-DNCAN=6']),
    'loongarch64': ('loongarch64-linux-gnu', isa.Loong, ['-msoft-float'], ['-DNCAN=6']),
}
USER, USER_END, TP, STK_LO, STK, MEM = 0x80000, 0x84000, 0x90000, 0x98000, 0xa8000, 0xb0000
RA = 0xaff00
FIELDS = ['v', 'expect', 'newv', 'v2', 'x2', 'dst', 'src', 'len', 'off', 'inc', 'load', 'cpu']

# what the abort signatures and their neighbourhood decode to; these end the process
TRAP = re.compile(r'^\s*(brk|udf|udf\.w|break|ebreak|unimp|c\.unimp|trap4|twui|twi|trap|ud1[lq]?|ud2|<unknown>|\.inst|\.word|\.long|csrr?\w*)\b')

class BuildError(Exception): pass
class Bad(Exception): pass

def sh(*cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def compile_target(name, repo, out, defs=(), opt='-O2', src='subj.c'):
    triple, _, copt, cdef = TARGETS[name]
    s, o = out + '.s', out + '.o'
    # -S without the integrated assembler: inline assembly is passed through as the compiler was given it
    sh('clang', '-xc', '-std=gnu11', '--target=' + triple, '-nostdlibinc', '-I' + HERE + '/stub', '-I' + repo + '/include', '-w', opt, '-fno-jump-tables', '-fno-vectorize', '-fno-slp-vectorize',
       '-fno-asynchronous-unwind-tables', '-fno-stack-protector', '-fno-integrated-as', *copt, *cdef, *defs, '-S', os.path.join(HERE, src), '-o', s)
    if name in ('arm', 'thumb'):    # GNU as accepts an optional % before a register name, LLVM's assembler does not
        t = open(s).read(); open(s, 'w').write(re.sub(r'%(r\d+)', r'\1', t))
    sh('clang', '--target=' + triple, *[x for x in copt if x.startswith(('-mips', '-mno-abicalls', '-fno-pic', '-mthumb', '-mfpu', '-mfloat', '-march', '-mabi=lp64', '-mabi=ilp32'))], '-c', s, '-o', o)
    sh('ld.lld', '-static', '-e', '0', '--image-base=0x10000', '--no-relax', o, '-o', out)

class Image: pass

def load(name, path):
    im = Image(); d = open(path, 'rb').read(); im.isa = TARGETS[name][1](); im.name = name
    is64 = d[4] == 2; big = d[5] == 2; E = '>' if big else '<'; im.E = E; im.end = 'big' if big else 'little'; im.isa.big = big
    shoff = struct.unpack_from(E + ('Q' if is64 else 'I'), d, 40 if is64 else 32)[0]
    shentsize, shnum, shstr = struct.unpack_from(E + 'HHH', d, 58 if is64 else 46)
    secs = []
    for i in range(shnum):
        o = shoff + i * shentsize
        if is64: nm, ty, fl, ad, off, sz, link, info, al, es = struct.unpack_from(E + 'IIQQQQIIQQ', d, o)
        else: nm, ty, fl, ad, off, sz, link, info, al, es = struct.unpack_from(E + '10I', d, o)
        secs.append([nm, ty, fl, ad, off, sz, link, es])
    strtab = secs[shstr]; nameof = lambda tab, o: d[tab[4] + o:d.index(b'\0', tab[4] + o)].decode()
    im.mem = bytearray(MEM); im.secs = {}; im.sym = {}; im.text = []
    for s in secs:
        n = nameof(strtab, s[0]); im.secs[n] = (s[3], s[5])
        if s[2] & 2:
            if s[3] + s[5] > USER: raise BuildError('image too large')
            if s[1] != 8: im.mem[s[3]:s[3] + s[5]] = d[s[4]:s[4] + s[5]]
            if s[2] & 4: im.text.append((s[3], s[3] + s[5]))
    for s in secs:
        if s[1] != 2: continue
        for o in range(s[4], s[4] + s[5], s[7]):
            if is64: nm, inf, oth, shx, val, sz = struct.unpack_from(E + 'IBBHQQ', d, o)
            else: nm, val, sz, inf, oth, shx = struct.unpack_from(E + 'IIIBBH', d, o)
            n = nameof(secs[s[6]], nm)
            if n: im.sym[n] = val
    im.W = im.isa.bits // 8; im.WM = (1 << im.isa.bits) - 1
    im.code = disasm(name, im, path)
    g = lambda a, n: int.from_bytes(im.mem[a:a + n], im.end); im.rd = g
    im.sig = g(im.sym['subj_sig'], 4)
    im.off = [g(im.sym['subj_offs'] + 4 * i, 4) for i in range(5)]
    im.rseq = TP + 64
    if name in ('x86_64', 'i386'): im.mem[TP:TP + im.W] = TP.to_bytes(im.W, 'little')     # the thread pointer points to itself
    ptrs = lambda sec: [g(a, 8) for a in range(im.secs[sec][0], sum(im.secs[sec]), 8)] if sec in im.secs else []
    im.csptr = ptrs('__rseq_cs_ptr_array'); e = ptrs('__rseq_exit_point_array'); im.exits = set(zip(e[0::2], e[1::2]))
    im.descs = [a for a in range(im.secs['__rseq_cs'][0], sum(im.secs['__rseq_cs']), 32)] if '__rseq_cs' in im.secs else []
    return im

def disasm(name, im, path):
    t = ['--triple=thumbv7-linux-gnueabi'] if name == 'thumb' else ['--triple=armv7-linux-gnueabi'] if name == 'arm' else []
    txt = sh('llvm-objdump', '-d', '-z', '--no-show-raw-insn', *t, *im.isa.objdump, path)
    ents = []
    for line in txt.splitlines():
        mm = re.match(r'^\s*([0-9a-f]+):\s+(.*)$', line)
        if mm: ents.append([int(mm[1], 16), mm[2].strip()])
        elif ents and line.strip().startswith('rdhwr'): ents[-1][1] = line.strip()
    code = {}
    addrs = [e[0] for e in ents]
    for i, (a, s) in enumerate(ents):
        nxt = addrs[i + 1] if i + 1 < len(addrs) else a + 4
        s = im.isa.clean(s)
        s = re.sub(r'^lock\s+', '', s)
        p = s.split(None, 1); fn = None
        if p:
            try: fn = im.isa.dec(p[0], isa.split_ops(p[1]) if len(p) > 1 else [], a, nxt)
            except (Unknown, ValueError, IndexError, KeyError) as e: fn = None
        code[a] = (fn, nxt, s)
    for i, a in enumerate(addrs[:-1]):      # a prefix printed on a line of its own is one instruction with what follows
        if code[a][2] == 'lock': n = code[addrs[i + 1]]; code[a] = (n[0], n[1], 'lock ' + n[2])
    return code

class Machine:
    def __init__(self, im):
        self.im = im; self.mem = bytearray(im.mem); self.pristine = bytes(self.mem); self.end = im.end; self.dirty = []
        self.cs_addr = im.rseq + im.off[2]; self.cs_low = self.cs_addr + (8 - im.W if im.end == 'big' else 0)
        self.A = im.sym['A']; self.can_out = self.A + (12 + 8) * im.W; self.toc = im.sym.get('.TOC.', 0)
        self.descache = {}
    def ld(self, a, n):
        if not 0x10000 <= a <= MEM - n or USER_END - n < a < USER_END + 0x1000: raise Bad('load from unmapped address %#x' % a)
        return int.from_bytes(self.mem[a:a + n], self.end)
    def st(self, a, n, v):
        if not 0x10000 <= a <= MEM - n or USER_END - n < a < USER_END + 0x1000: raise Bad('store to unmapped address %#x' % a)
        self.dirty.append((a, bytes(self.mem[a:a + n])))
        self.mem[a:a + n] = (v & (1 << 8 * n) - 1).to_bytes(n, self.end)
        if STK_LO <= a < STK: return
        if a < self.cs_addr + 8 and a + n > self.cs_addr: self.cs = self.rd64(self.cs_addr); return
        if self.can_out <= a < self.can_out + 8 * self.im.W: return
        self.stores.append((self.pc, a, n, v & (1 << 8 * n) - 1))
    def rd64(self, a): return int.from_bytes(self.mem[a:a + 8], self.end)
    def poke(self, a, n, v): self.dirty.append((a, bytes(self.mem[a:a + n]))); self.mem[a:a + n] = (v & (1 << 8 * n) - 1).to_bytes(n, self.end)
    def reset(self):
        for a, b in reversed(self.dirty): self.mem[a:a + len(b)] = b
        self.dirty = []; self.stores = []; self.cs = 0; self.steps = 0; self.seen = None
    def desc(self, p):
        d = self.descache.get(p)
        if d is None:
            if not 0x10000 <= p <= USER - 32: return None
            r = lambda o, n: int.from_bytes(self.mem[p + o:p + o + n], self.end)
            d = self.descache[p] = (r(0, 4), r(4, 4), r(8, 8), r(16, 8), r(24, 8))
        return d
    def kernel(self):
        """Preemption, migration or signal at this instruction: what the kernel does before returning to user mode."""
        p = self.cs
        if not p: return False
        d = self.desc(p)
        if d is None: raise Bad('rseq_cs holds %#x, not a readable descriptor: the kernel ends the process' % p)
        ver, fl, start, ln, ab = d
        if ver: raise Bad('descriptor version %d: the kernel ends the process' % ver)
        if (ab - start) % (1 << 64) < ln: raise Bad('abort handler inside its own section: the kernel ends the process')
        if int.from_bytes(self.mem[ab - 4:ab], self.end) != self.im.sig: raise Bad('no signature before the abort handler %#x: the kernel ends the process' % ab)
        self.poke(self.cs_addr, 8, 0); self.cs = 0
        if (self.pc - start) % (1 << 64) < ln:
            self.pc = ab; self.aborted = True
            return True
        return False
    def start(self, fn):
        self.stores = []; self.aborted = False; self.pc = 0; self.cs = self.rd64(self.cs_addr)
        e = self.im.sym[fn] & ~self.im.isa.mode_bits
        self.im.isa.init(self, e, STK - 512, TP, RA); self.pc = e; self.nstep = 0; self.dirty_user = False
    def step(self):
        pc = self.pc
        c = self.im.code.get(pc)
        if c is None: raise Bad('execution reaches %#x, which is not code' % pc)
        fn, nxt, txt = c
        if fn is None:
            if TRAP.match(txt): raise Bad('execution runs into a trapping instruction at %#x: %s' % (pc, txt))
            if any(q and q <= pc < q + 32 for q in [self.cs] + self.im.csptr): raise Bad('execution runs into the critical-section descriptor at %#x' % pc)
            raise Unknown('%#x: %s' % (pc, txt))
        t = fn(self)
        if t is None: t = nxt
        if self.im.isa.delay and getattr(fn, 'branch', False):
            dfn, dn, dtxt = self.im.code.get(nxt, (None, 0, '?'))
            if dfn is None: raise Unknown('%#x: %s' % (nxt, dtxt))
            dfn(self)
            if t == nxt: t = dn
        self.nstep += 1
        if self.nstep > 20000: raise Bad('the helper does not return')
        if self.mon: self.monitor(pc, t)
        self.pc = t
    mon = None
    def monitor(self, pc, t): self.mon(self, pc, t)

# ---------------------------------------------------------------- tables: judged on every step
def table_monitor(res, exits):
    def mon(m, pc, t):
        p = m.cs
        if not p: return
        d = m.desc(p)
        if d is None:
            if p: raise Bad('rseq_cs holds %#x, not a descriptor' % p)
            return
        ver, fl, start, ln, ab = d
        if p not in res['descs']:
            res['descs'].add(p)
            if p % 32: raise Bad('descriptor %#x is not aligned on 32 bytes' % p)
            if ver or fl: raise Bad('descriptor %#x has version %d, flags %#x' % (p, ver, fl))
            if not ln or ln > 4096: raise Bad('descriptor %#x describes a section of %d bytes' % (p, ln))
            if start not in m.im.code or start + ln not in m.im.code or ab not in m.im.code: raise Bad('descriptor %#x: start %#x, end %#x and abort %#x are not all instructions' % (p, start, start + ln, ab))
            if (ab - start) % (1 << 64) < ln: raise Bad('descriptor %#x: the abort handler is inside the section' % p)
            if int.from_bytes(m.mem[ab - 4:ab], m.end) != m.im.sig: raise Bad('descriptor %#x: no signature before the abort handler' % p)
            if exits and not any(m.desc(q) == d for q in m.im.csptr if q): raise Bad('descriptor %#x (start %#x) is not in __rseq_cs_ptr_array' % (p, start))
        if start <= pc < start + ln:
            res['in_section'] += 1
            if exits and not start <= t < start + ln and t != start + ln and t != ab:
                if (start, t) not in m.im.exits: raise Bad('section at %#x is left to %#x (from %#x: %s), which is not listed as an exit point' % (start, t, pc, m.im.code[pc][2]))
                res['exits'].add((start, t))
    return mon

# ---------------------------------------------------------------- the pseudo-code
class Op:
    def __init__(self, name):
        self.fn = name; p = name[2:].rsplit('_', 2); self.kind, self.mo, self.mode = p[0], p[1], p[2]

def ops_of(im):
    return [Op(n) for n in sorted(im.sym) if n.startswith('w_') and n not in ('w_UNLOAD', 'w_CLEAR') and n not in im.skip]

def oracle(im, kind, a, rd, cpu_ok):
    """-> (ret, [(addr, size, value, final)])"""
    W, WM = im.W, im.WM
    if not cpu_ok: return -1, []
    if kind == 'CBNE_ST': return (1, []) if rd(a['v'], W) != a['expect'] & WM else (0, [(a['v'], W, a['newv'], 1)])
    if kind == 'ADD': return 0, [(a['v'], W, rd(a['v'], W) + a['inc'], 1)]
    if kind == 'POP':
        v = rd(a['v'], W)
        if v == a['expect'] & WM: return 1, []
        return 0, [(a['load'], W, v, 0), (a['v'], W, rd((v + a['off']) & WM, W), 1)]
    if kind == 'OFFADD':
        p = rd((rd(a['v'], W) + a['off']) & WM, W); return 0, [(p, W, rd(p, W) + a['inc'], 1)]
    if kind == 'CBNE_ST_ST': return (1, []) if rd(a['v'], W) != a['expect'] & WM else (0, [(a['v2'], W, a['x2'], 0), (a['v'], W, a['newv'], 1)])
    if kind == 'CBNE_CBNE_ST': return (1, []) if rd(a['v'], W) != a['expect'] & WM or rd(a['v2'], W) != a['x2'] & WM else (0, [(a['v'], W, a['newv'], 1)])
    if kind == 'CBNE_MEMCPY_ST': return (1, []) if rd(a['v'], W) != a['expect'] & WM else (0, [(a['dst'] + i, 1, rd(a['src'] + i, 1), 0) for i in range(a['len'])] + [(a['v'], W, a['newv'], 1)])
    raise KeyError(kind)

# user memory: words
def wd(im, i): return USER + i * 8 if im.W == 8 else USER + i * 4
V, V2, LD, N1, N2, N3, PP, BB, BB2, CTR, CTR2, DST, SRC = 0, 4, 8, 16, 20, 24, 32, 36, 44, 52, 54, 60, 80

class Run:
    def __init__(self, im, konst=None):
        self.im = im; self.m = Machine(im); self.fixed = 'gv' in im.sym; self.konst = konst
        self.can = [(0x1111111111111111 * (i + 1) ^ 0xdeadbeef00c0ffee) & im.WM for i in range(8)]
        self.stat = dict(cases=0, steps=0, ret0=0, ret1=0, retm1=0, aborts=0, events=0)
    def word(self, name):      # where v, v2, load are
        if self.fixed and name in ('v', 'v2', 'load'): return self.im.sym['gv'] + {'v': 0, 'v2': 1, 'load': 2}[name] * self.im.W
        return wd(self.im, {'v': V, 'v2': V2, 'load': LD}[name])
    def setup(self, words, a, cpu_id, cid, cpu_high=0):
        m, im = self.m, self.im; m.reset(); W = im.W
        for i in range(0, 128): m.poke(wd(im, i), W, 0x7700000000000000 + i * 0x0101 if W == 8 else 0x77000000 + i * 0x101)
        for ad, v in words.items(): m.poke(ad, W, v)
        args = dict(v=0, expect=0, newv=0, v2=0, x2=0, dst=0, src=0, len=0, off=0, inc=0, load=0, cpu=0); args.update(a)
        for i, f in enumerate(FIELDS): m.poke(m.A + i * W, W, args[f])
        if W == 8: m.poke(m.A + 11 * W, 8, (args['cpu'] & 0xffffffff) | cpu_high << 32)
        for i, c in enumerate(self.can): m.poke(m.A + (12 + i) * W, W, c)
        for i in range(8): m.poke(m.can_out + i * W, W, 0)
        for i in range(0, im.off[4], 8): m.poke(im.rseq + i, 8, 0)
        m.poke(im.rseq, 4, cpu_id); m.poke(im.rseq + im.off[1], 4, cpu_id); m.poke(im.rseq + im.off[3], 4, cid)
        return args
    def finish(self):
        while self.m.pc != RA: self.m.step()
        self.stat['steps'] += self.m.nstep
        return sx(self.m.r[self.im.isa.RET], 32)
    def canaries(self, op):
        n = next((int(d.split('=')[1]) for d in TARGETS[self.im.name][3] if d.startswith('-DNCAN')), 0)
        for i in range(n):
            v = self.m.ld(self.m.can_out + i * self.im.W, self.im.W)
            if v != self.can[i]: raise Bad('a value the caller keeps in a register was changed: %#x instead of %#x' % (v, self.can[i]))
    def check(self, cond, msg):
        if not cond: raise Bad(msg)
    def snapshot(self): return bytes(self.m.mem[USER:USER_END]) + (bytes(self.m.mem[self.im.sym['gv']:self.im.sym['gv'] + 4 * self.im.W]) if self.fixed else b'')
    def apply(self, img, writes):
        b = bytearray(img)
        for w in writes:
            ad, n, v = w[:3]; o = ad - USER
            if self.fixed and not USER <= ad < USER_END: o = USER_END - USER + ad - self.im.sym['gv']
            b[o:o + n] = (v & (1 << 8 * n) - 1).to_bytes(n, self.im.end)
        return bytes(b)
    def allowed(self, op, a):      # addresses the operation may store to: final word(s), attempt words
        return None

    # one undisturbed execution compared with the pseudo-code
    def plain(self, op, words, a, cpu_id=5, cid=3, cpu_high=0, also_private=True):
        m, im = self.m, self.im
        args = self.setup(words, a, cpu_id, cid, cpu_high); self.stat['cases'] += 1
        img = self.snapshot(); rest = None
        cur = cpu_id if op.mode == 'CPU' else cid
        want, writes = oracle(im, op.kind, args, m.ld, cur & 0xffffffff == args['cpu'] & 0xffffffff)
        m.start(op.fn); ret = self.finish(); self.count(ret)
        self.check(ret == want, 'returns %d, the pseudo-code %d' % (ret, want))
        got = self.snapshot(); exp = self.apply(img, writes)
        if got != exp: raise Bad('memory differs from the pseudo-code: %s' % diff(got, exp))
        for pc, ad, n, v in m.stores:
            if not (USER <= ad < USER_END or self.fixed and im.sym['gv'] <= ad < im.sym['gv'] + 4 * im.W): raise Bad('stray store to %#x from %#x: %s' % (ad, pc, im.code[pc][2]))
        self.canaries(op)
    def count(self, ret): self.stat[{0: 'ret0', 1: 'ret1', -1: 'retm1'}.get(ret, 'ret0')] += 1; self.stat['aborts'] += self.m.aborted

def diff(a, b):
    return ', '.join('%#x: %#04x instead of %#04x' % (USER + i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y)[:200]

def domain(im):
    b = im.isa.bits; H = 1 << (b - 1)
    d = [0, 1, im.WM, H, H - 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fff, 0x8000, 0xffff, 0x7ff, 0x800, 0x123456789abcdef0 & im.WM, H + 1]
    if b == 64: d += [1 << 32, 0x100000001, 0xffffffff80000000, 0x7fffffff00000000]
    return sorted(set(x & im.WM for x in d))

CPUS = [0, 5, 4095, 0x7fffffff]

def values(im, konst=None, repo=None):
    R = Run(im, konst); D = domain(im); W, WM = im.W, im.WM; w = lambda i: wd(im, i)
    AV, AV2, AL = R.word('v'), R.word('v2'), R.word('load')
    ids = [(5, 3, 5, 3)]
    def go(op, words, a, **kw):
        ctx['at'] = (op.fn, {hex(k): hex(v & WM) for k, v in words.items()}, {k: hex(v & WM) for k, v in a.items()}, kw)
        cpu = 5 if op.mode == 'CPU' else 3
        R.plain(op, words, dict(a, cpu=kw.pop('cpu', cpu)), **kw)
    for op in ops_of(im):
        k = op.kind
        if konst is not None and k not in ('POP', 'ADD', 'OFFADD'): continue
        K = [konst] if konst is not None else D
        if k == 'CBNE_ST':
            for x in D:
                for e in D:
                    for n in (D if x == e else D[:2]): go(op, {AV: x}, dict(v=AV, expect=e, newv=n))
        elif k == 'ADD':
            for x in D:
                for e in K: go(op, {AV: x}, dict(v=AV, inc=e))
        elif k == 'POP':
            for off in K:
                for e in D:
                    for t in (0, 1): go(op, {AV: (w(N1 + t) - off) & WM, w(N1 + t): 0x1234567 + e}, dict(v=AV, expect=e, off=off, load=AL))
            for e in D: go(op, {AV: e}, dict(v=AV, expect=e, off=(K[0]), load=AL))
        elif k == 'OFFADD':
            for off in K:
                for inc in (K if konst is not None else D):
                    for x in D[::3]: go(op, {w(PP): (w(BB) - off) & WM, w(BB): w(CTR), w(CTR): x}, dict(v=w(PP), off=off, inc=inc))
        elif k == 'CBNE_ST_ST':
            for x in D:
                for e in D: go(op, {AV: x}, dict(v=AV, expect=e, newv=e ^ 0x55, v2=AV2, x2=x ^ 0x77))
                for n in D: go(op, {AV: x}, dict(v=AV, expect=x, newv=n, v2=AV2, x2=n ^ 1)); go(op, {AV: x}, dict(v=AV, expect=x, newv=n ^ 1, v2=AV2, x2=n))
        elif k == 'CBNE_CBNE_ST':
            for x in D:
                for e in D:
                    go(op, {AV: x, AV2: 0x77}, dict(v=AV, expect=e, newv=0x123, v2=AV2, x2=0x77))
                    go(op, {AV: 0x77, AV2: x}, dict(v=AV, expect=0x77, newv=0x123, v2=AV2, x2=e)); go(op, {AV: x, AV2: e}, dict(v=AV, expect=x, newv=e ^ 3, v2=AV2, x2=e))
                    go(op, {AV: x, AV2: e}, dict(v=AV, expect=e, newv=e ^ 3, v2=AV2, x2=x))
        elif k == 'CBNE_MEMCPY_ST':
            for ln in list(range(0, 19)) + [255, 256, 257]:
                for so in range(0, 2):
                    for do in range(0, 3): go(op, {AV: 0x99}, dict(v=AV, expect=0x99, newv=0x321 + ln, dst=USER + 0x1000 + do, src=USER + 0x2000 + so, len=ln))
                # buffers that end where the mapped memory ends
                go(op, {AV: 0x99}, dict(v=AV, expect=0x99, newv=0x321 + ln, dst=USER + 0x1001, src=USER_END - ln, len=ln)); go(op, {AV: 0x99}, dict(v=AV, expect=0x99, newv=0x321 + ln, dst=USER_END - ln, src=USER + 0x2001, len=ln))
            for x in D:
                for e in D: go(op, {AV: x}, dict(v=AV, expect=e, newv=x ^ e ^ 0x5a, dst=USER + 0x1000, src=USER + 0x80, len=3))
        # the current id, whatever its value, and whatever the bits beside an int argument
        base = base_case(R, op)
        for c in CPUS:
            go(op, base[0], base[1], cpu=c, cpu_id=c if op.mode == 'CPU' else 77, cid=c if op.mode != 'CPU' else 77)
            if W == 8: go(op, base[0], base[1], cpu=c, cpu_id=c if op.mode == 'CPU' else 77, cid=c if op.mode != 'CPU' else 77, cpu_high=0xdeadbeef)
    return R.stat

# ---------------------------------------------------------------- operands the compiler can see to be related
AL_OPS = {'CBNE_ST': ['v', 'expect', 'newv', 'cpu'], 'ADD': ['v', 'inc', 'cpu'], 'POP': ['v', 'expect', 'off', 'load', 'cpu'], 'OFFADD': ['v', 'off', 'inc', 'cpu'],
          'CBNE_ST_ST': ['v', 'expect', 'v2', 'x2', 'newv', 'cpu'], 'CBNE_CBNE_ST': ['v', 'expect', 'v2', 'x2', 'newv', 'cpu'], 'CBNE_MEMCPY_ST': ['v', 'expect', 'dst', 'src', 'len', 'newv', 'cpu']}
AL_CALL = {'CBNE_ST': 'rseq_load_cbne_store__ptr', 'ADD': 'rseq_load_add_store__ptr', 'POP': 'rseq_load_cbeq_store_add_load_store__ptr', 'OFFADD': 'rseq_load_add_load_load_add_store__ptr',
           'CBNE_ST_ST': 'rseq_load_cbne_store_store__ptr', 'CBNE_CBNE_ST': 'rseq_load_cbne_load_cbne_store__ptr', 'CBNE_MEMCPY_ST': 'rseq_load_cbne_memcpy_store__ptr'}
AL_T = dict(v='intptr_t *', v2='intptr_t *', load='intptr_t *', dst='void *', src='void *', len='size_t', off='long', expect='intptr_t', newv='intptr_t', x2='intptr_t', inc='intptr_t', cpu='int')
PTRS = ('v', 'v2', 'load', 'dst', 'src')

def alias_pairs(kind, fixed):
    """(f, g, d): operand f is given as operand g plus d"""
    for g in AL_OPS[kind]:
        for f in AL_OPS[kind]:
            if f == g or fixed and (f in ('v', 'v2', 'load') or g in ('v', 'v2', 'load')): continue
            if f in PTRS and g not in PTRS: continue           # the addressed words have to exist
            for d in ((0, 12) if f in PTRS else (0,))       : yield f, g, d     # in words

def alias_source(path, fixed):
    out = []
    for kind in AL_OPS:
        if kind == 'OFFADD': out.append('#ifdef rseq_arch_has_load_add_load_load_add_store')
        for i, (f, g, d) in enumerate(alias_pairs(kind, fixed)):
            ex = {x: {'v': 'AV', 'v2': 'AV2', 'load': 'ALOAD', 'cpu': '(int) A.cpu'}.get(x, 'A.' + x) for x in AL_OPS[kind]}
            ex[f] = '(%s) ((intptr_t *) %s + %d)' % (AL_T[f], ex[g], d) if d else '(%s) (%s)' % (AL_T[f], ex[g])
            mo = 'REL' if kind in ('CBNE_ST_ST', 'CBNE_MEMCPY_ST') and i % 2 else 'RLX'
            out.append('F(a_%s_%s_%s_%s_%s_%d, %s(%s, %s, %s))' % (kind, f, g, mo, 'CID' if i % 3 == 1 else 'CPU', d, AL_CALL[kind], mo, 'CID' if i % 3 == 1 else 'CPU', ', '.join(ex[x] for x in AL_OPS[kind])))
        if kind == 'OFFADD': out.append('#endif')
    open(path, 'w').write('\n'.join(out) + '\n')

def aliases(im):
    R = Run(im); W, WM = im.W, im.WM; w = lambda i: wd(im, i); n = 0
    for fn in sorted(im.sym):
        if not fn.startswith('a_') or fn in im.skip: continue
        kind, f, g, mo, mode, d = re.fullmatch(r'a_(%s)_([a-z0-9]+)_([a-z0-9]+)_(\w+)_(\w+)_(\d+)' % '|'.join(sorted(AL_OPS, key=len, reverse=True)), fn).groups(); d = int(d) * W; n += 1
        op = Op('w_%s_%s_%s' % (kind, mo, mode)); op.fn = fn
        for cpu in (5, 8):
            for ln in ((0, 1, 3, 8, 9) if kind == 'CBNE_MEMCPY_ST' else (3,)):
                for cond in (0, 1, 2):
                    for hit in (1, 0):
                        words, a, _ = base_case(R, op); words = dict(words); a = dict(a, cpu=cpu)
                        if 'len' in a: a['len'] = ln; a['dst'] = w(DST); a['src'] = w(SRC)
                        a[f] = (a[g] + d) & WM if f != 'cpu' else sx(a[g], 32)
                        if f == 'len': a['len'] &= WM; 
                        if f == 'len' and a['len'] > 300: continue
                        v = a['v']
                        if kind == 'POP':
                            words = {w(N1): w(N2)}; words[v] = (w(N1) - a['off']) & WM
                            if cond == 1: words[v] = a['expect']
                            if cond == 2: continue
                            if cond == 0 and words[v] == a['expect'] & WM: continue
                        elif kind == 'OFFADD':
                            if cond: continue
                            words = {v: (w(BB) - a['off']) & WM, w(BB): w(CTR), w(CTR): 0x100}
                            if f == 'v' or g == 'v' and f not in ('inc', 'off', 'cpu'): continue
                        elif kind == 'ADD':
                            if cond: continue
                        else:
                            words[v] = a['expect'] & WM if cond != 1 else (a['expect'] + 1) & WM
                            if kind == 'CBNE_CBNE_ST':
                                if a['v2'] == v:
                                    if cond == 2: words[v] = a['x2'] & WM
                                else: words[a['v2']] = a['x2'] & WM if cond != 2 else (a['x2'] + 1) & WM
                            elif cond == 2: continue
                        cur = a['cpu'] & 0xffffffff if hit else (a['cpu'] ^ 1) & 0xffffffff; oth = (a['cpu'] ^ (0 if not hit else 3)) & 0xffffffff
                        ctx['at'] = (fn, {hex(x): hex(y) for x, y in words.items()}, {x: hex(y & WM) for x, y in a.items()}, 'hit' if hit else 'miss')
                        R.plain(op, words, a, cpu_id=cur if mode == 'CPU' else oth, cid=cur if mode != 'CPU' else oth)
    R.stat['instantiations'] = n
    return R.stat

def base_case(R, op):
    im = R.im; w = lambda i: wd(im, i); AV, AV2, AL = R.word('v'), R.word('v2'), R.word('load'); k = op.kind; c = R.konst
    off = c if c is not None else im.W; inc = c if c is not None else 8; WM = im.WM
    if k == 'CBNE_ST': return {AV: w(N1)}, dict(v=AV, expect=w(N1), newv=w(N2)), [(AV, w(N3))]
    if k == 'ADD': return {AV: w(N1)}, dict(v=AV, inc=inc), [(AV, w(N3))]
    if k == 'POP': return {AV: (w(N1) - off) & WM, w(N1): w(N2), w(N3): w(CTR)}, dict(v=AV, expect=0x1234, off=off, load=AL), [(AV, (w(N3) - off) & WM), (w(N1), w(N3)), (AV, 0x1234)]
    if k == 'OFFADD': return {w(PP): (w(BB) - off) & WM, w(BB): w(CTR), w(BB2): w(CTR2), w(CTR): 0x100, w(CTR2): 0x200}, dict(v=w(PP), off=off, inc=inc), [(w(PP), (w(BB2) - off) & WM), (w(BB), w(CTR2)), (w(CTR), 0x300)]
    if k == 'CBNE_ST_ST': return {AV: w(N1), AV2: w(N2)}, dict(v=AV, expect=w(N1), newv=w(N2), v2=AV2, x2=w(N1)), [(AV, w(N3)), (AV2, w(N3))]
    if k == 'CBNE_CBNE_ST': return {AV: w(N1), AV2: w(N2)}, dict(v=AV, expect=w(N1), newv=w(N3), v2=AV2, x2=w(N2)), [(AV, w(N3)), (AV2, w(N3))]
    if k == 'CBNE_MEMCPY_ST': return {AV: w(N1), w(DST): 0, w(SRC): 0x0102030405060708 & WM}, dict(v=AV, expect=w(N1), newv=w(N2), dst=w(DST), src=w(SRC), len=3), [(AV, w(N3)), (w(DST), 0xfefefefefefefefe & WM)]
    raise KeyError(k)

def finals(im, kind, a, rd):
    """words only the final store may write, and those an attempt may"""
    if kind == 'OFFADD': return [(wd(im, CTR), im.W), (wd(im, CTR2), im.W)], []
    att = {'POP': [(a['load'], im.W)], 'CBNE_ST_ST': [(a['v2'], im.W)], 'CBNE_MEMCPY_ST': [(a['dst'], a['len'])]}.get(kind, [])
    return [(a['v'], im.W)], att

def stops(im, nev=1, konst=None, only=None):
    """Every interruption point, every interference there; with nev=2 every pair of them."""
    R = Run(im, konst); m = R.m
    for op in ops_of(im):
        words0, a0, deps = base_case(R, op)
        variants = [words0] + [dict(words0, **{}) | {ad: v} for ad, v in deps]      # also with the condition false
        cur = 5 if op.mode == 'CPU' else 3
        inter = [('resched', None), ('migrate', None)] + [('write', d) for d in deps]
        if only: inter = [x for x in inter if x[0] == only]
        for words in variants:
            def one(events):
                args = R.setup(words, dict(a0, cpu=cur), 5, 3); img0 = R.snapshot(); rd = m.ld
                fin, att = finals(im, op.kind, args, rd)
                histories = [(img0, True)]; cpu_ok = True; img = img0; R.stat['cases'] += 1
                fin_written = False; trail = []
                m.start(op.fn); evq = list(events)
                # serialisations: the operation takes place between two consecutive events
                points = []
                def serial(): return oracle(im, op.kind, args, rd_of(img, R), cpu_ok)
                points.append((serial(), 0))
                env = []
                while True:
                    if evq and m.nstep == evq[0][0]:
                        _, what, d = evq.pop(0); R.stat['events'] += 1
                        if what == 'migrate': m.poke(im.rseq, 4, 9); m.poke(im.rseq + im.off[1], 4, 9); m.poke(im.rseq + im.off[3], 4, 2); cpu_ok = False
                        if what == 'write':
                            m.poke(d[0], im.W, d[1]); env.append((d[0], im.W, d[1])); img = R.apply(img, [env[-1]])
                        m.kernel(); points.append((serial(), len(env)))
                        continue
                    if m.pc == RA: break
                    ns = len(m.stores); m.step()
                    if not cpu_ok and len(m.stores) > ns: raise Bad('stores to %#x (%s) after the thread has left the CPU it was to run on' % (m.stores[-1][1], im.code[m.stores[-1][0]][2]))
                if evq: return False
                R.stat['steps'] += m.nstep
                ret = sx(m.r[im.isa.RET], 32); R.count(ret); got = R.snapshot()
                if ret == -1:
                    R.check(m.aborted or not cpu_ok, 'fails although it was neither interrupted nor moved')
                    exp = R.apply(img0, env)
                    allow = set()
                    for ad, n in att: allow.update(range(ad, ad + n))
                    for pc, ad, n, v in m.stores:
                        if not all(x in allow for x in range(ad, ad + n)): raise Bad('returns -1 after storing to %#x (%s)' % (ad, im.code[pc][2]))
                    for i, (x, y) in enumerate(zip(got, exp)):
                        if x != y and USER + i not in allow and not (R.fixed and i >= USER_END - USER): raise Bad('returns -1 but memory changed: %s' % diff(got, exp))
                else:
                    ok = False
                    for (want, writes), n in points:
                        if want != ret: continue
                        e = R.apply(R.apply(R.apply(img0, env[:n]), writes), env[n:])
                        if e == got: ok = True; break
                    if not ok:
                        # an attempt of an aborted... none: a returning operation ran exactly once
                        raise Bad('returns %d with a memory no serial order of the operation and the interference explains: %s' % (ret, diff(got, R.apply(img0, env))))
                R.canaries(op)
                return True
            k = 0
            while True:
                any_ = False
                for what, d in inter:
                    ctx['at'] = (op.fn, {hex(x): hex(y) for x, y in words.items()}, [(k, what, d)])
                    if not one([(k, what, d)]): continue
                    any_ = True
                    if nev > 1:
                        k2 = k
                        while True:
                            more = False
                            for w2, d2 in inter:
                                ctx['at'] = (op.fn, {hex(x): hex(y) for x, y in words.items()}, [(k, what, d), (k2, w2, d2)])
                                if one([(k, what, d), (k2, w2, d2)]): more = True
                            if not more: break
                            k2 += 1
                if not any_: break
                k += 1
    return R.stat

def rd_of(img, R):
    def rd(a, n):
        if USER <= a < USER_END: o = a - USER
        elif R.fixed: o = USER_END - USER + a - R.im.sym['gv']
        else: raise Bad('oracle: address %#x' % a)
        return int.from_bytes(img[o:o + n], R.im.end)
    return rd

def gating(im, konst=None):
    """The helper proceeds exactly when the given id is the current one (in its mode), with registered ids and the markers of unregistered threads."""
    R = Run(im, konst); U = [0xffffffff, 0xfffffffe]
    for op in ops_of(im):
        words, a, _ = base_case(R, op)
        for cpu_id in CPUS + U + [6]:
            for cid in CPUS + [6]:
                for cpu in CPUS + [6, 0x80000005, 0x105]:
                    if cpu_id in U and op.mode != 'CPU' and cpu == cid: continue    # the recorded known finding (mm_cid of an unregistered thread)
                    for hi in ((0,) if im.W == 4 or cpu not in (5, 6) else (0, 1)):
                        ctx['at'] = (op.fn, dict(cpu_id=hex(cpu_id), mm_cid=hex(cid), cpu=hex(cpu), high=hi))
                        R.plain(op, words, dict(a, cpu=cpu), cpu_id=cpu_id, cid=cid, cpu_high=hi)
    return R.stat

def tables(im, exits, konst=None):
    res = dict(descs=set(), exits=set(), in_section=0)
    R = Run(im, konst); m = R.m; m.mon = table_monitor(res, exits)
    for op in ops_of(im):
        words0, a0, deps = base_case(R, op); cur = 5 if op.mode == 'CPU' else 3
        for words in [words0] + [words0 | {ad: v} for ad, v in deps]:
            for cpu in (cur, 77):
                R.setup(words, dict(a0, cpu=cpu), 5, 3); R.stat['cases'] += 1; ctx['at'] = (op.fn, {hex(x): hex(y) for x, y in words.items()}, 'cpu=%d' % cpu); m.start(op.fn); R.count(R.finish()); n = m.nstep
                for k in range(n + 1):      # the kernel arrives at every instruction: every descriptor is usable there
                    R.setup(words, dict(a0, cpu=cpu), 5, 3); m.start(op.fn); R.stat['cases'] += 1; ctx['at'] = (op.fn, {hex(x): hex(y) for x, y in words.items()}, 'cpu=%d' % cpu, 'kernel at step %d' % k)
                    while m.pc != RA and m.nstep < k: m.step()
                    m.kernel(); R.stat['events'] += 1; R.count(R.finish())
                if exits:       # unloading: after rseq_prepare_unload()/rseq_clear_rseq_cs() the area refers to no descriptor
                    for fn in ('w_UNLOAD', 'w_CLEAR'):
                        for pre in (0, 1):
                            R.setup(words, dict(a0, cpu=cpu), 5, 3); m.start(op.fn); R.finish()
                            if pre: m.poke(m.cs_addr, 8, im.descs[0]); m.cs = im.descs[0]
                            ctx['at'] = (op.fn, 'then', fn); m.start(fn); R.finish(); R.stat['cases'] += 1
                            if m.rd64(m.cs_addr): raise Bad('%s leaves the descriptor %#x installed' % (fn, m.rd64(m.cs_addr)))
    if exits:
        for q in im.csptr:
            if q not in im.descs: raise Bad('__rseq_cs_ptr_array holds %#x, which is no descriptor of __rseq_cs' % q)
        if len(im.csptr) != len(im.descs) or len(set(im.csptr)) != len(im.descs): raise Bad('__rseq_cs_ptr_array lists %d descriptors of %d' % (len(set(im.csptr)), len(im.descs)))
    R.stat['descriptors'] = len(res['descs']); R.stat['exit_points'] = len(res['exits']); R.stat['in_section_steps'] = res['in_section']
    return R.stat

ctx = {}
KONST = [1, -1, 24, -8, 127, 128, 2047, 2048, -2048, -2049, 32767, 32768, -32768, -32769, 0x7fffffff, -0x80000000]

def main():
    a = dict(x.split('=', 1) for x in sys.argv[1:]); name = a['target']; what = a['what']; repo = a.get('repo', '/repo'); tot = {}; not_covered = []; defs = a.get('defs', '').split()
    d = tempfile.mkdtemp(prefix='vx-')
    try:
        builds = [(None, [])]
        if what == 'aliases':
            alias_source(d + '/alias.h', name == 'i386'); builds = [('alias', ['-DALIAS_FILE="%s/alias.h"' % d])]
        if what == 'values': builds += [(k, ['-DCONST_OPS=(%dL)' % k]) for k in KONST]
        konst_ok = False; failed = None
        for k, kd in builds:
            try:
                compile_target(name, repo, d + '/img', kd + defs, a.get('opt', '-O2'))
            except BuildError as e:
                if k is None: failed = str(e)
                else: not_covered.append('operand %s: does not assemble' % k); failed = failed or str(e)
                continue
            im = load(name, d + '/img'); im.skip = set()
            if k is not None: konst_ok = True
            ctx['build'] = 'operands %s' % ('run-time' if k is None else 'related' if k == 'alias' else 'constant %d' % k)
            while True:
              try:
                s = {'values': lambda: values(im, k), 'aliases': lambda: aliases(im), 'stops': lambda: stops(im, int(a.get('events', '1'))), 'moves': lambda: stops(im, 1, None, 'migrate'), 'gating': lambda: gating(im), 'tables': lambda: tables(im, False), 'exits': lambda: tables(im, True)}[what]()
                break
              except Unknown as e:
                not_covered.append('%s: instruction not modelled: %s' % (ctx['at'][0], e)); im.skip.add(ctx['at'][0]); continue
              except Bad as e:
                msg = '%s (%s) %s: %s' % (name, ctx['build'], ctx['at'][0], e)
                if 'out' in a:
                    with open(a['out'], 'w') as f:
                        f.write('%s\ncase: %r\nrepeat: python3 %s/x.py %s\n' % (msg, ctx['at'], HERE, ' '.join(x for x in sys.argv[1:] if not x.startswith('out='))))
                print(json.dumps({'violation': msg})); return 1
            for x, y in s.items(): tot[x] = tot.get(x, 0) + y
        if failed and what == 'values' and (konst_ok or tot):
            # The header compiles for this target, but not for every operand value.
            msg = '%s: some operand values cannot be compiled: %s' % (name, failed.strip().splitlines()[1] if len(failed.strip().splitlines()) > 1 else failed)
            if 'out' in a: open(a['out'], 'w').write(msg + '\n' + failed)
            print(json.dumps({'violation': msg})); return 1
        if failed: not_covered.append(failed[-600:])
        tot['target'] = name; tot['not_covered'] = not_covered
        print(json.dumps(tot)); return 0
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    try: rc = main()
    except Exception as e:      # nothing was decided: never an alarm
        import traceback
        rc = 0; print(json.dumps({'target': ([x[7:] for x in sys.argv if x.startswith('target=')] + ['?'])[0], 'cases': 0, 'not_covered': ['harness: ' + traceback.format_exc()[-600:]]}))
    sys.exit(rc)
