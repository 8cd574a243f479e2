"""Instruction interpreters for the architectures librseq supports, driven by llvm-objdump's disassembly.

Every instruction becomes a closure f(m) returning the next program counter, or None for the following
instruction.  m.r: integer registers, m.ld/m.st: memory.  An instruction the decoder does not know becomes
None: executing it raises Unknown (the wrapper is then reported as not covered, never as a violation).
"""
import re

class Unknown(Exception): pass

def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

def num(s):
    s = s.strip().lstrip('#$')
    if s.startswith('-'): return -int(s[1:], 0)
    return int(s, 0)

def split_ops(s):
    out, cur, depth = [], '', 0
    for c in s:
        if c in '[({': depth += 1
        if c in '])}': depth -= 1
        if c == ',' and not depth: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def label(s):
    return int(s.split()[0].lstrip('#'), 0)

class Isa:
    big = False; bits = 64; delay = False; align = 4; mode_bits = 0
    objdump = []
    def init(self, m, entry, sp, tp): raise NotImplementedError
    def clean(self, s):
        s = re.sub(r'\s*(//|@|#\s).*$', '', s)
        return re.sub(r'\s*<[^>]*>', '', s).strip()

# ---------------------------------------------------------------- AArch64
class Aarch64(Isa):
    RET = 0
    COND = dict(eq=lambda f: f[1], ne=lambda f: not f[1], hs=lambda f: f[2], cs=lambda f: f[2], lo=lambda f: not f[2], cc=lambda f: not f[2],
        mi=lambda f: f[0], pl=lambda f: not f[0], vs=lambda f: f[3], vc=lambda f: not f[3], hi=lambda f: f[2] and not f[1], ls=lambda f: not (f[2] and not f[1]),
        ge=lambda f: f[0] == f[3], lt=lambda f: f[0] != f[3], gt=lambda f: not f[1] and f[0] == f[3], le=lambda f: f[1] or f[0] != f[3], al=lambda f: True)
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 33; m.f = (0, 0, 0, 0); m.r[31] = sp; m.r[30] = ra; m.tp = tp
    def reg(self, s):
        s = s.lower()
        if s in ('xzr', 'wzr'): return 32, 64 if s[0] == 'x' else 32
        if s == 'sp': return 31, 64
        if s == 'wsp': return 31, 32
        mm = re.fullmatch(r'([xw])(\d+)', s)
        if not mm: raise Unknown(s)
        return int(mm[2]), 64 if mm[1] == 'x' else 32
    def val(self, parts):      # parts: operand [, shift]
        s = parts[0]
        if s[0] in '#-' or s[0].isdigit():
            v = num(s)
            if len(parts) > 1: v <<= num(parts[1].split()[1])
            return lambda m: v
        n, b = self.reg(s); mask = (1 << b) - 1
        if n == 32: return lambda m: 0
        if len(parts) > 1:
            op, amt = parts[1].split(); amt = num(amt)
            if op == 'lsl': return lambda m: (m.r[n] & mask) << amt & mask
            if op == 'lsr': return lambda m: (m.r[n] & mask) >> amt
            if op == 'asr': return lambda m: sx(m.r[n], b) >> amt & mask
            if op == 'sxtw': return lambda m: sx(m.r[n], 32) << amt & ((1 << 64) - 1)
            if op == 'uxtw': return lambda m: (m.r[n] & 0xffffffff) << amt
            raise Unknown(parts[1])
        return lambda m: m.r[n] & mask
    def set(self, n, b):
        mask = (1 << b) - 1
        if n == 32: return lambda m, v: None
        def f(m, v): m.r[n] = v & mask
        return f
    def addr(self, ops):       # list of remaining operands -> (addr fn with side effects)
        s = ops[0]; pre = s.endswith('!'); inner = split_ops(s.rstrip('!')[1:-1]); bn, _ = self.reg(inner[0])
        off = self.val(inner[1:]) if len(inner) > 1 else (lambda m: 0)
        M = (1 << 64) - 1
        if pre:
            def f(m): m.r[bn] = (m.r[bn] + off(m)) & M; return m.r[bn]
            return f
        if len(ops) > 1:
            post = num(ops[1])
            def f(m): a = m.r[bn]; m.r[bn] = (a + post) & M; return a
            return f
        return lambda m: (m.r[bn] + off(m)) & M
    def dec(self, mn, ops, pc, nxt):
        M = (1 << 64) - 1
        if mn in ('nop', 'dmb', 'dsb', 'isb', 'hint', 'bti', 'yield', 'paciasp', 'autiasp'): return lambda m: None
        if mn == 'ret': return lambda m: m.r[30]
        if mn == 'b': t = label(ops[0]); return lambda m: t
        if mn == 'br': n, _ = self.reg(ops[0]); return lambda m: m.r[n]
        if mn == 'bl':
            t = label(ops[0])
            def f(m): m.r[30] = nxt; return t
            return f
        if mn.startswith('b.'): c = self.COND[mn[2:]]; t = label(ops[0]); return lambda m: t if c(m.f) else None
        if mn in ('cbz', 'cbnz'):
            v = self.val(ops[:1]); t = label(ops[1]); z = mn == 'cbz'
            return lambda m: t if (v(m) == 0) == z else None
        if mn in ('tbz', 'tbnz'):
            v = self.val(ops[:1]); k = num(ops[1]); t = label(ops[2]); z = mn == 'tbz'
            return lambda m: t if (v(m) >> k & 1 == 0) == z else None
        if mn in ('adr', 'adrp'):
            st = self.set(*self.reg(ops[0])); t = label(ops[1])
            return lambda m: st(m, t)
        if mn == 'mrs':
            if ops[1].lower() != 'tpidr_el0': raise Unknown(ops[1])
            st = self.set(*self.reg(ops[0])); return lambda m: st(m, m.tp)
        if mn in ('mov', 'mvn', 'neg', 'movz', 'movn'):
            n, b = self.reg(ops[0]); st = self.set(n, b); v = self.val(ops[1:])
            if mn in ('mov', 'movz'): return lambda m: st(m, v(m))
            if mn in ('mvn', 'movn'): return lambda m: st(m, ~v(m))
            return lambda m: st(m, -v(m))
        if mn == 'movk':
            n, b = self.reg(ops[0]); v = num(ops[1]); sh = num(ops[2].split()[1]) if len(ops) > 2 else 0
            def f(m): m.r[n] = (m.r[n] & ~(0xffff << sh) | v << sh) & ((1 << b) - 1)
            return f
        if mn in ('add', 'sub', 'and', 'orr', 'eor', 'adds', 'subs', 'ands', 'cmp', 'cmn', 'tst', 'bic', 'orn', 'lsl', 'lsr', 'asr', 'mul'):
            if mn in ('cmp', 'cmn', 'tst'): ops = ['xzr' if ops[0][0] in 'xs' else 'wzr'] + ops; mn = dict(cmp='subs', cmn='adds', tst='ands')[mn]
            n, b = self.reg(ops[0]); st = self.set(n, b); a = self.val(ops[1:2]); v = self.val(ops[2:]); mask = (1 << b) - 1; top = b - 1
            fl = mn[-1] == 's' and mn != 'ls'; op = mn[:-1] if mn in ('adds', 'subs', 'ands') else mn
            if op == 'add':
                def f(m):
                    x, y = a(m), v(m) & mask; r = x + y
                    if fl: m.f = (r >> top & 1, int(r & mask == 0), r >> b & 1, ((x ^ r) & (y ^ r)) >> top & 1)
                    st(m, r)
            elif op == 'sub':
                def f(m):
                    x, y = a(m), v(m) & mask; r = (x - y) & mask
                    if fl: m.f = (r >> top & 1, int(r == 0), int(x >= y), ((x ^ y) & (x ^ r)) >> top & 1)
                    st(m, r)
            else:
                g = {'and': lambda x, y: x & y, 'orr': lambda x, y: x | y, 'eor': lambda x, y: x ^ y, 'bic': lambda x, y: x & ~y, 'orn': lambda x, y: x | ~y,
                     'lsl': lambda x, y: x << (y % b), 'lsr': lambda x, y: x >> (y % b), 'asr': lambda x, y: sx(x, b) >> (y % b), 'mul': lambda x, y: x * y}[op]
                def f(m):
                    r = g(a(m), v(m)) & mask
                    if fl: m.f = (r >> top & 1, int(r == 0), 0, 0)
                    st(m, r)
            return f
        if mn in ('sxtw', 'uxtw', 'sxtb', 'uxtb', 'sxth', 'uxth'):
            n, b = self.reg(ops[0]); st = self.set(n, b); k, _ = self.reg(ops[1]); w = dict(w=32, b=8, h=16)[mn[3]]
            if mn[0] == 's': return lambda m: st(m, sx(m.r[k], w) if k != 32 else 0)
            return lambda m: st(m, m.r[k] & ((1 << w) - 1) if k != 32 else 0)
        if mn in ('csel', 'csinc', 'csinv', 'csneg', 'cset', 'csetm', 'cinc'):
            n, b = self.reg(ops[0]); st = self.set(n, b); c = self.COND[ops[-1]]
            if mn == 'cset': return lambda m: st(m, 1 if c(m.f) else 0)
            if mn == 'csetm': return lambda m: st(m, -1 if c(m.f) else 0)
            x = self.val(ops[1:2]); y = self.val(ops[2:3])
            if mn == 'cinc': return lambda m: st(m, x(m) + 1 if c(m.f) else x(m))
            g = {'csel': lambda v: v, 'csinc': lambda v: v + 1, 'csinv': lambda v: ~v, 'csneg': lambda v: -v}[mn]
            return lambda m: st(m, x(m) if c(m.f) else g(y(m)))
        mm = re.fullmatch(r'(ld|st)(u?r|l?ar|lr|ur|apr|lur)(b|h|sb|sh|sw)?', mn)
        if mm:
            n, b = self.reg(ops[0]); sz = {None: b // 8, 'b': 1, 'sb': 1, 'h': 2, 'sh': 2, 'sw': 4}[mm[3]]
            if ops[1][0] != '[':
                if mm[1] != 'ld': raise Unknown(mn)
                t = label(ops[1]); ad = lambda m: t
            else: ad = self.addr(ops[1:])
            acq = 'a' in mm[2] or 'l' in mm[2]
            if mm[1] == 'ld':
                st = self.set(n, b); sg = mm[3] and mm[3][0] == 's'
                def f(m):
                    v = m.ld(ad(m), sz); st(m, sx(v, sz * 8) if sg else v)
            else:
                v = self.val(ops[:1]); 
                def f(m): a = ad(m); m.st(a, sz, v(m))
            return f
        if mn in ('ldp', 'stp'):
            (n1, b), (n2, _) = self.reg(ops[0]), self.reg(ops[1]); ad = self.addr(ops[2:]); sz = b // 8
            if mn == 'ldp':
                s1, s2 = self.set(n1, b), self.set(n2, b)
                def f(m): a = ad(m); x, y = m.ld(a, sz), m.ld(a + sz, sz); s1(m, x); s2(m, y)
            else:
                v1, v2 = self.val(ops[:1]), self.val(ops[1:2])
                def f(m): x, y = v1(m), v2(m); a = ad(m); m.st(a, sz, x); m.st(a + sz, sz, y)
            return f
        raise Unknown(mn)

# ---------------------------------------------------------------- ARM (A32 and T32)
class Arm(Isa):
    bits = 32; RET = 0; thumb = False
    COND = Aarch64.COND
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 16; m.f = (0, 0, 0, 0); m.r[13] = sp; m.r[14] = ra; m.tp = tp; m.it = []
    def reg(self, s):
        s = s.lower().rstrip('!')
        if s in ('sp', 'lr', 'pc', 'ip', 'fp', 'sl'): return dict(sp=13, lr=14, pc=15, ip=12, fp=11, sl=10)[s]
        mm = re.fullmatch(r'r(\d+)', s)
        if not mm: raise Unknown(s)
        return int(mm[1])
    def val(self, parts, pc, base=False):
        s = parts[0]
        if s[0] in '#-' or s[0].isdigit(): v = num(s) & 0xffffffff; return lambda m: v
        n = self.reg(s)
        if n == 15:
            p = pc + (4 if self.thumb else 8)
            if base: p &= ~3
            base = lambda m: p
        else: base = lambda m: m.r[n]
        if len(parts) > 1:
            op, amt = parts[1].split(); amt = num(amt) if amt[0] == '#' else None
            if amt is None: raise Unknown(parts[1])
            if op == 'lsl': return lambda m: base(m) << amt & 0xffffffff
            if op == 'lsr': return lambda m: base(m) >> amt
            if op == 'asr': return lambda m: sx(base(m), 32) >> amt & 0xffffffff
            raise Unknown(parts[1])
        return base
    def rlist(self, s):
        out = []
        for p in s.strip('{}').split(','):
            p = p.strip()
            if '-' in p: a, b = p.split('-'); out += range(self.reg(a), self.reg(b) + 1)
            else: out.append(self.reg(p))
        return out
    def addr(self, ops, pc):
        s = ops[0]
        if s[0] != '[': t = label(s); return lambda m: t
        pre = s.endswith('!'); inner = split_ops(s.rstrip('!')[1:-1]); bn = self.reg(inner[0]); b = self.val(inner[:1], pc, True)
        if len(inner) > 1 and inner[1][0] == '-' : nn = self.val([inner[1][1:]] + inner[2:], pc); off = lambda m: -nn(m)
        else: off = self.val(inner[1:], pc) if len(inner) > 1 else (lambda m: 0)
        if pre:
            def f(m): m.r[bn] = (m.r[bn] + off(m)) & 0xffffffff; return m.r[bn]
            return f
        if len(ops) > 1:
            post = self.val(ops[1:], pc)
            def f(m): a = m.r[bn]; m.r[bn] = (a + post(m)) & 0xffffffff; return a
            return f
        return lambda m: (b(m) + off(m)) & 0xffffffff
    BASE = ('push', 'pop', 'clz', 'ldrsh', 'add', 'sub', 'mov', 'movw', 'movt', 'mvn', 'ldr', 'str', 'ldrb', 'strb', 'ldrh', 'strh', 'ldrd', 'strd', 'ldm', 'stm', 'ldmib', 'ldmdb', 'stmib', 'stmdb', 'cmp', 'cmn', 'tst', 'teq',
        'b', 'bx', 'bl', 'adds', 'subs', 'dmb', 'dsb', 'isb', 'nop', 'mrc', 'and', 'orr', 'eor', 'bic', 'ands', 'orrs', 'eors', 'movs', 'mvns', 'lsl', 'lsr', 'asr', 'lsls', 'lsrs', 'asrs', 'rsb', 'rsbs', 'adr', 'cbz', 'cbnz', 'mul', 'uxtb', 'ldrsb', 'adc', 'sbc', 'rsc')
    def dec(self, mn, ops, pc, nxt):
        mn = mn.replace('.w', '').replace('.n', '')
        if mn in ('addw', 'subw'): mn = mn[:3]
        mm = re.fullmatch(r'it([te]*)', mn)
        if mm:
            c = self.COND[ops[0]]; seq = [True] + [x == 't' for x in mm[1]]
            def f(m): m.it = [(c, s) for s in seq]
            return f
        if mn not in self.BASE and len(mn) > 2 and mn[-2:] in self.COND and mn[:-2] in self.BASE:
            c = self.COND[mn[-2:]]; g = self.dec1(mn[:-2], ops, pc, nxt)
            if self.thumb: return self.wrap(g, c)
            return lambda m: g(m) if c(m.f) else None
        if mn not in self.BASE: raise Unknown(mn)
        g = self.dec1(mn, ops, pc, nxt)
        return self.wrap(g) if self.thumb else g
    def wrap(self, g, c=None):      # T32: predicated by an IT block, or (branches) by their own condition
        def f(m):
            if m.it:
                k, s = m.it.pop(0)
                if bool(k(m.f)) != s: return None
                return g(m)
            if c and not c(m.f): return None
            return g(m)
        return f
    def dec1(self, mn, ops, pc, nxt):
        M = 0xffffffff; R = self.reg; T = self.thumb
        def put(n, v):
            def f(m):
                m.r[n] = v(m) & M
                if n == 15: return m.r[15] & ~1
            return f
        if mn in ('nop', 'dmb', 'dsb', 'isb'): return lambda m: None
        if mn == 'clz': k = R(ops[1]); return put(R(ops[0]), lambda m: 32 - m.r[k].bit_length())
        if mn == 'b': t = label(ops[0]); return lambda m: t
        if mn == 'bl':
            t = label(ops[0])
            def f(m): m.r[14] = nxt; return t
            return f
        if mn == 'bx': n = R(ops[0]); return lambda m: m.r[n] & ~1
        if mn in ('cbz', 'cbnz'): n = R(ops[0]); t = label(ops[1]); z = mn == 'cbz'; return lambda m: t if (m.r[n] == 0) == z else None
        if mn == 'mrc':
            if [o.replace('#0x', '#') for o in ops[:2]] + ops[3:5] != ['p15', '#0', 'c13', 'c0']: raise Unknown('mrc')
            n = R(ops[2])
            def f(m): m.r[n] = m.tp
            return f
        if mn == 'push':
            l = self.rlist(ops[0])
            def f(m):
                a = (m.r[13] - 4 * len(l)) & M; m.r[13] = a
                for i, n in enumerate(l): m.st(a + 4 * i, 4, m.r[n])
            return f
        if mn == 'pop': return self.ldm(13, self.rlist(ops[0]), 0, True)
        if mn in ('ldm', 'ldmib', 'ldmdb'): l = self.rlist(ops[1]); return self.ldm(R(ops[0]), l, {'ldm': 0, 'ldmib': 4, 'ldmdb': -4 * len(l)}[mn], ops[0].endswith('!'))
        if mn in ('stm', 'stmib', 'stmdb'):
            n = R(ops[0]); l = self.rlist(ops[1]); d = {'stm': 0, 'stmib': 4, 'stmdb': -4 * len(l)}[mn]; wb = ops[0].endswith('!')
            def f(m):
                a = m.r[n]
                for i, k in enumerate(l): m.st(a + d + 4 * i, 4, m.r[k])
                if wb: m.r[n] = (a + (-4 if mn == 'stmdb' else 4) * len(l)) & M
            return f
        if mn == 'adr':
            n = R(ops[0]); 
            if ops[1][0] == '#': t = ((pc + (4 if T else 8)) & ~3) + num(ops[1])
            else: t = label(ops[1])
            return put(n, lambda m: t)
        if mn in ('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh', 'ldrsh'):
            n = R(ops[0]); ad = self.addr(ops[1:], pc); sz = {'ldr': 4, 'ldrb': 1, 'ldrh': 2, 'ldrsb': 1, 'ldrsh': 2}[mn]
            return put(n, (lambda m: sx(m.ld(ad(m), sz), 8 * sz)) if mn[:4] == 'ldrs' else (lambda m: m.ld(ad(m), sz)))
        if mn in ('str', 'strb', 'strh'):
            n = R(ops[0]); ad = self.addr(ops[1:], pc); sz = {'str': 4, 'strb': 1, 'strh': 2}[mn]
            def f(m): v = m.r[n]; a = ad(m); m.st(a, sz, v)
            return f
        if mn in ('ldrd', 'strd'):
            a1, a2 = R(ops[0]), R(ops[1]); ad = self.addr(ops[2:], pc)
            if mn == 'ldrd':
                def f(m): a = ad(m); m.r[a1], m.r[a2] = m.ld(a, 4), m.ld(a + 4, 4)
            else:
                def f(m): a = ad(m); m.st(a, 4, m.r[a1]); m.st(a + 4, 4, m.r[a2])
            return f
        if mn == 'movt':
            n = R(ops[0]); v = num(ops[1]) << 16
            def f(m): m.r[n] = m.r[n] & 0xffff | v
            return f
        if mn == 'uxtb': n, k = R(ops[0]), R(ops[1]); return put(n, lambda m: m.r[k] & 0xff)
        if mn in ('cmp', 'cmn', 'tst', 'teq'):
            a = self.val(ops[:1], pc); v = self.val(ops[1:], pc); op = mn
            def f(m): self.alu({'cmp': 'sub', 'cmn': 'add', 'tst': 'and', 'teq': 'eor'}[op], a(m), v(m), m, True)
            return f
        fl = mn in ('adds', 'subs', 'ands', 'orrs', 'eors', 'movs', 'mvns', 'lsls', 'lsrs', 'asrs', 'rsbs'); op = mn[:-1] if fl else mn
        if op in ('mov', 'movw', 'mvn'):
            n = R(ops[0]); v = self.val(ops[1:], pc); neg = op == 'mvn'
            def f(m):
                x = v(m) ^ (M if neg else 0)
                if fl: m.f = (x >> 31, int(x == 0), m.f[2], m.f[3])
                m.r[n] = x
                if n == 15: return x & ~1
            return f
        if op in ('add', 'sub', 'and', 'orr', 'eor', 'bic', 'lsl', 'lsr', 'asr', 'rsb', 'mul'):
            if len(ops) == 2: ops = [ops[0], ops[0], ops[1]]
            n = R(ops[0]); a = self.val(ops[1:2], pc); v = self.val(ops[2:], pc)
            def f(m):
                m.r[n] = self.alu(op, a(m), v(m), m, fl)
                if n == 15: return m.r[n] & ~1
            return f
        raise Unknown(mn)
    def ldm(self, n, l, d, wb):
        def f(m):
            a = m.r[n]; vals = [m.ld((a + d + 4 * i) & 0xffffffff, 4) for i in range(len(l))]
            if wb: m.r[n] = (a + (4 * len(l) if d >= 0 else -4 * len(l))) & 0xffffffff
            for k, v in zip(l, vals): m.r[k] = v
            if 15 in l: return m.r[15] & ~1
        return f
    def alu(self, op, x, y, m, fl):
        M = 0xffffffff; c, v = m.f[2], m.f[3]
        if op == 'rsb': x, y, op = y, x, 'sub'
        if op == 'add': r = x + y; c = r >> 32 & 1; r &= M; v = ((x ^ r) & (y ^ r)) >> 31 & 1
        elif op == 'sub': r = (x - y) & M; c = int(x >= y); v = ((x ^ y) & (x ^ r)) >> 31 & 1
        elif op == 'and': r = x & y
        elif op == 'orr': r = x | y
        elif op == 'eor': r = x ^ y
        elif op == 'bic': r = x & ~y & M
        elif op == 'lsl': r = x << (y & 0xff) & M
        elif op == 'lsr': r = x >> (y & 0xff)
        elif op == 'asr': r = sx(x, 32) >> min(y & 0xff, 31) & M
        elif op == 'mul': r = x * y & M
        if fl: m.f = (r >> 31, int(r == 0), c, v)
        return r
class Thumb(Arm):
    thumb = True; align = 2; mode_bits = 1

# ---------------------------------------------------------------- RISC-V
class Riscv(Isa):
    def __init__(self, bits=64): self.bits = bits
    RET = 10; align = 2; objdump = ['-M', 'numeric']
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 32; m.r[2] = sp; m.r[4] = tp; m.r[1] = ra
    def reg(self, s):
        mm = re.fullmatch(r'x(\d+)', s)
        if not mm: raise Unknown(s)
        return int(mm[1])
    def mem(self, s):
        mm = re.fullmatch(r'(-?\w*)\((x\d+)\)', s)
        if not mm: raise Unknown(s)
        o = num(mm[1]) if mm[1] else 0; b = self.reg(mm[2]); M = (1 << self.bits) - 1
        return lambda m: (m.r[b] + o) & M
    def dec(self, mn, ops, pc, nxt):
        B = self.bits; M = (1 << B) - 1; R = self.reg
        def put(n, fn):
            if n == 0: return lambda m: (fn(m), None)[1]
            def f(m): m.r[n] = fn(m) & M
            return f
        if mn in ('nop', 'fence', 'c.nop', 'unimp'):
            if mn == 'unimp': raise Unknown(mn)
            return lambda m: None
        if mn == 'ret': return lambda m: m.r[1]
        if mn in ('jr',):
            if '(' in ops[0]: mm = re.fullmatch(r'(-?\w*)\((\w+)\)', ops[0]); k = num(mm[1] or '0'); n = R(mm[2]); return lambda m: (m.r[n] + k) & M & ~1
            n = R(ops[0]); return lambda m: m.r[n]
        if mn == 'j': t = label(ops[0]); return lambda m: t
        if mn == 'jal':
            n = R(ops[0]) if len(ops) > 1 else 1; t = label(ops[-1])
            def f(m):
                if n: m.r[n] = nxt
                return t
            return f
        if mn == 'jalr' and len(ops) == 1:
            k = 0
            if '(' in ops[0]: mm = re.fullmatch(r'(-?\w*)\((\w+)\)', ops[0]); k = num(mm[1] or '0'); n = R(mm[2])
            else: n = R(ops[0])
            def f(m): t = (m.r[n] + k) & M & ~1; m.r[1] = nxt; return t
            return f
        br = {'beq': lambda a, b: a == b, 'bne': lambda a, b: a != b, 'bltu': lambda a, b: a < b, 'bgeu': lambda a, b: a >= b,
              'blt': lambda a, b: sx(a, B) < sx(b, B), 'bge': lambda a, b: sx(a, B) >= sx(b, B), 'bgt': lambda a, b: sx(a, B) > sx(b, B), 'ble': lambda a, b: sx(a, B) <= sx(b, B)}
        if mn in br: a, b = R(ops[0]), R(ops[1]); t = label(ops[2]); c = br[mn]; return lambda m: t if c(m.r[a], m.r[b]) else None
        if mn.endswith('z') and mn[:-1] in br: a = R(ops[0]); t = label(ops[1]); c = br[mn[:-1]]; return lambda m: t if c(m.r[a], 0) else None
        if mn == 'li': v = num(ops[1]); return put(R(ops[0]), lambda m: v)
        if mn == 'mv': k = R(ops[1]); return put(R(ops[0]), lambda m: m.r[k])
        if mn == 'lui': v = sx(num(ops[1]) << 12, 32); return put(R(ops[0]), lambda m: v)
        if mn == 'auipc': v = pc + sx(num(ops[1]) << 12, 32); return put(R(ops[0]), lambda m: v)
        if mn in ('ld', 'lw', 'lb', 'lbu', 'lh', 'lhu', 'lwu'):
            ad = self.mem(ops[1]); sz = {'d': 8, 'w': 4, 'h': 2, 'b': 1}[mn[1]]; u = mn.endswith('u')
            return put(R(ops[0]), (lambda m: m.ld(ad(m), sz)) if u else (lambda m: sx(m.ld(ad(m), sz), sz * 8)))
        if mn in ('sd', 'sw', 'sb', 'sh'):
            ad = self.mem(ops[1]); sz = {'d': 8, 'w': 4, 'h': 2, 'b': 1}[mn[1]]; n = R(ops[0])
            return lambda m: m.st(ad(m), sz, m.r[n])
        alu = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
               'sll': lambda a, b: a << (b & B - 1), 'srl': lambda a, b: a >> (b & B - 1), 'sra': lambda a, b: sx(a, B) >> (b & B - 1), 'mul': lambda a, b: a * b,
               'slt': lambda a, b: int(sx(a, B) < sx(b, B)), 'sltu': lambda a, b: int(a < b), 'addw': lambda a, b: sx(a + b, 32), 'subw': lambda a, b: sx(a - b, 32)}
        if mn in alu and ops[2][0] == 'x': a, b, g = R(ops[1]), R(ops[2]), alu[mn]; return put(R(ops[0]), lambda m: g(m.r[a], m.r[b]))
        imm = {'addi': 'add', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'slli': 'sll', 'srli': 'srl', 'srai': 'sra', 'slti': 'slt', 'sltiu': 'sltu', 'addiw': 'addw'}
        if mn in imm: a, v, g = R(ops[1]), num(ops[2]) & M, alu[imm[mn]]; return put(R(ops[0]), lambda m: g(m.r[a], v))
        if mn in ('sext.w', 'neg', 'not', 'seqz', 'snez', 'zext.b'):
            k = R(ops[1]); g = {'sext.w': lambda v: sx(v, 32), 'neg': lambda v: -v, 'not': lambda v: ~v, 'seqz': lambda v: int(v == 0), 'snez': lambda v: int(v != 0), 'zext.b': lambda v: v & 0xff}[mn]
            return put(R(ops[0]), lambda m: g(m.r[k]))
        raise Unknown(mn)

# ---------------------------------------------------------------- LoongArch
class Loong(Isa):
    RET = 4; objdump = ['-M', 'numeric']
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 32; m.r[3] = sp; m.r[2] = tp; m.r[1] = ra
    def reg(self, s):
        mm = re.fullmatch(r'\$r(\d+)', s)
        if not mm: raise Unknown(s)
        return int(mm[1])
    def dec(self, mn, ops, pc, nxt):
        M = (1 << 64) - 1; R = self.reg
        def put(n, fn):
            if n == 0: return lambda m: (fn(m), None)[1]
            def f(m): m.r[n] = fn(m) & M
            return f
        if mn in ('nop', 'dbar', 'ibar'): return lambda m: None
        if mn == 'ret': return lambda m: m.r[1]
        if mn == 'jr': n = R(ops[0]); return lambda m: m.r[n]
        if mn == 'b': t = pc + num(ops[0]); return lambda m: t
        if mn == 'bl':
            t = pc + num(ops[0])
            def f(m): m.r[1] = nxt; return t
            return f
        br = {'beq': lambda a, b: a == b, 'bne': lambda a, b: a != b, 'bltu': lambda a, b: a < b, 'bgeu': lambda a, b: a >= b, 'blt': lambda a, b: sx(a, 64) < sx(b, 64), 'bge': lambda a, b: sx(a, 64) >= sx(b, 64)}
        if mn in br: a, b = R(ops[0]), R(ops[1]); t = pc + num(ops[2]); c = br[mn]; return lambda m: t if c(m.r[a], m.r[b]) else None
        if mn in ('beqz', 'bnez'): a = R(ops[0]); t = pc + num(ops[1]); z = mn == 'beqz'; return lambda m: t if (m.r[a] == 0) == z else None
        if mn == 'move': k = R(ops[1]); return put(R(ops[0]), lambda m: m.r[k])
        if mn == 'pcalau12i': v = (pc + sx(num(ops[1]), 20) * 4096) & ~0xfff; return put(R(ops[0]), lambda m: v)
        if mn in ('pcaddi', 'pcaddu12i'): v = pc + sx(num(ops[1]), 20) * (4 if mn == 'pcaddi' else 4096); return put(R(ops[0]), lambda m: v)
        if mn == 'lu12i.w': v = sx(num(ops[1]) << 12, 32); return put(R(ops[0]), lambda m: v)
        if mn == 'lu32i.d': n = R(ops[0]); v = sx(num(ops[1]), 20) << 32; return put(n, lambda m: v | m.r[n] & 0xffffffff)
        if mn == 'lu52i.d': k = R(ops[1]); v = num(ops[2]) << 52; return put(R(ops[0]), lambda m: v | m.r[k] & (1 << 52) - 1)
        mm = re.fullmatch(r'(ldx?|stx?|ldptr|stptr)\.(d|w|wu|h|hu|b|bu)', mn)
        if mm:
            sz = {'d': 8, 'w': 4, 'h': 2, 'b': 1}[mm[2][0]]; b = R(ops[1]); n = R(ops[0])
            if mm[1].endswith('x'): k = R(ops[2]); ad = lambda m: (m.r[b] + m.r[k]) & M
            else: o = num(ops[2]); ad = lambda m: (m.r[b] + o) & M
            if mm[1][0] == 'l': return put(n, (lambda m: m.ld(ad(m), sz)) if mm[2].endswith('u') else (lambda m: sx(m.ld(ad(m), sz), 8 * sz)))
            return lambda m: m.st(ad(m), sz, m.r[n])
        alu = {'add.d': lambda a, b: a + b, 'sub.d': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'add.w': lambda a, b: sx(a + b, 32), 'sub.w': lambda a, b: sx(a - b, 32),
               'slt': lambda a, b: int(sx(a, 64) < sx(b, 64)), 'sltu': lambda a, b: int(a < b), 'sll.d': lambda a, b: a << (b & 63), 'srl.d': lambda a, b: a >> (b & 63), 'sra.d': lambda a, b: sx(a, 64) >> (b & 63), 'sll.w': lambda a, b: sx(a << (b & 31), 32)}
        if mn in alu: a, b, g = R(ops[1]), R(ops[2]), alu[mn]; return put(R(ops[0]), lambda m: g(m.r[a], m.r[b]))
        imm = {'addi.d': 'add.d', 'addi.w': 'add.w', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'slti': 'slt', 'sltui': 'sltu', 'slli.d': 'sll.d', 'srli.d': 'srl.d', 'srai.d': 'sra.d', 'slli.w': 'sll.w'}
        if mn in imm: a, v, g = R(ops[1]), num(ops[2]) & M, alu[imm[mn]]; return put(R(ops[0]), lambda m: g(m.r[a], v))
        raise Unknown(mn)

# ---------------------------------------------------------------- PowerPC
class Ppc(Isa):
    RET = 3
    def __init__(self, bits, big): self.bits = bits; self.big = big
    def init(self, m, entry, sp, tp, ra):
        m.r = [0] * 32; m.cr = [0] * 32; m.ca = 0; m.lr = ra; m.ctr = 0; m.r[1] = sp; m.r[13 if self.bits == 64 else 2] = tp; m.r[12] = entry
        if self.bits == 64: m.r[2] = m.toc
    def reg(self, s):
        if not re.fullmatch(r'r?\d+', s): raise Unknown(s)
        n = int(s.lstrip('r'))
        if n > 31: raise Unknown(s)
        return n
    def mem(self, s):
        mm = re.fullmatch(r'(-?\w+)\((\d+)\)', s)
        if not mm: raise Unknown(s)
        o = num(mm[1]); b = self.reg(mm[2]); M = (1 << self.bits) - 1
        return b, o, (lambda m: ((m.r[b] if b else 0) + o) & M)
    def dec(self, mn, ops, pc, nxt):
        B = self.bits; M = (1 << B) - 1; R = self.reg; mn = mn.rstrip('+-')
        def put(n, fn):
            def f(m): m.r[n] = fn(m) & M
            return f
        if mn in ('nop', 'lwsync', 'sync', 'hwsync', 'isync', 'eieio', 'ptesync'): return lambda m: None
        if mn == 'blr': return lambda m: m.lr
        if mn == 'bctr': return lambda m: m.ctr
        if mn == 'b': t = label(ops[0]); return lambda m: t
        if mn == 'bl':
            t = label(ops[0])
            def f(m): m.lr = nxt; return t
            return f
        if mn in ('bt', 'bf'): k = num(ops[0]); t = label(ops[1]); w = int(mn == 'bt'); return lambda m: t if m.cr[k] == w else None
        cc = {'beq': (2, 1), 'bne': (2, 0), 'blt': (0, 1), 'bge': (0, 0), 'bgt': (1, 1), 'ble': (1, 0)}
        if mn in cc:
            fld = int(ops[0].lstrip('cr')) if len(ops) > 1 else 0; k, w = cc[mn]; k += 4 * fld; t = label(ops[-1]); return lambda m: t if m.cr[k] == w else None
        if mn == 'bclr':
            bo, k = num(ops[0]), num(ops[1])
            if bo not in (12, 4, 20): raise Unknown(mn)
            return (lambda m: m.lr) if bo == 20 else (lambda m: m.lr if m.cr[k] == int(bo == 12) else None)
        if mn in ('crmove', 'crnot'):
            a, b = num(ops[0]), num(ops[1]); x = int(mn == 'crnot')
            def f(m): m.cr[a] = m.cr[b] ^ x
            return f
        if mn in ('crxor', 'creqv', 'cror', 'crand', 'crnor', 'crnand', 'crandc', 'crorc', 'crset', 'crclr'):
            if len(ops) == 1: a = b = c = num(ops[0])
            else: a, b, c = num(ops[0]), num(ops[1]), num(ops[2])
            g = {'crxor': lambda x, y: x ^ y, 'crclr': lambda x, y: 0, 'crset': lambda x, y: 1, 'creqv': lambda x, y: x ^ y ^ 1, 'cror': lambda x, y: x | y, 'crand': lambda x, y: x & y, 'crnor': lambda x, y: (x | y) ^ 1, 'crnand': lambda x, y: (x & y) ^ 1, 'crandc': lambda x, y: x & (y ^ 1), 'crorc': lambda x, y: x | (y ^ 1)}[mn]
            def f(m): m.cr[a] = g(m.cr[b], m.cr[c])
            return f
        if mn in ('mfocrf', 'mfcr'):
            n = R(ops[0]); return put(n, lambda m: sum(b << (31 - i) for i, b in enumerate(m.cr)))
        if mn == 'rlwinm':
            n, a, s_, mb, me = R(ops[0]), R(ops[1]), num(ops[2]), num(ops[3]), num(ops[4])
            if mb > me: raise Unknown(mn)
            mk = ((1 << (me - mb + 1)) - 1) << (31 - me)
            def rot(m): v = m.r[a] & 0xffffffff; return ((v << s_ | v >> (32 - s_)) & 0xffffffff) & mk
            return put(n, rot)
        if mn in ('cntlzw', 'cntlzd'):
            a = R(ops[1]); w = 32 if mn[-1] == 'w' else 64; return put(R(ops[0]), lambda m: w - (m.r[a] & ((1 << w) - 1)).bit_length())
        if mn in ('addic', 'subfic'):
            n, a, v = R(ops[0]), R(ops[1]), num(ops[2])
            def f(m): t = (m.r[a] + (v & M)) if mn == 'addic' else ((~m.r[a] & M) + (v & M) + 1); m.ca = t >> B & 1; m.r[n] = t & M
            return f
        if mn in ('subfe', 'adde', 'subfc', 'addc', 'addze', 'subfze'):
            n, a = R(ops[0]), R(ops[1]); b = R(ops[2]) if len(ops) > 2 else None
            def f(m):
                x = m.r[a]; y = 0 if b is None else m.r[b]
                if mn[:3] == 'sub': x = ~x & M
                t = x + y + (1 if mn == 'subfc' else 0 if mn == 'addc' else m.ca); m.ca = t >> B & 1; m.r[n] = t & M
            return f
        mm = re.fullmatch(r'isel(lt|gt|eq)?', mn)
        if mm:
            n, a, b = R(ops[0]), R(ops[1]), R(ops[2]); k = {'lt': 0, 'gt': 1, 'eq': 2}[mm[1]] if mm[1] else num(ops[3])
            return put(n, lambda m: (m.r[a] if a else 0) if m.cr[k] else m.r[b])
        if mn in ('btlr', 'bflr'): k = num(ops[0]); w = int(mn == 'btlr'); return lambda m: m.lr if m.cr[k] == w else None
        if mn in ('bdzlr', 'bdnzlr', 'bdz'):
            t = label(ops[0]) if mn == 'bdz' else None
            def f(m): m.ctr = (m.ctr - 1) & M; return (m.lr if t is None else t) if (m.ctr != 0) == (mn == 'bdnzlr') else None
            return f
        if mn in ('rldic', 'rldicl', 'rldicr', 'rldimi'):
            n, a, s_, b = R(ops[0]), R(ops[1]), num(ops[2]), num(ops[3]); full = (1 << 64) - 1
            mb, me = (b, 63 - s_) if mn in ('rldic', 'rldimi') else (b, 63) if mn == 'rldicl' else (0, b)
            if mb > me: raise Unknown(mn)
            mk = ((1 << (me - mb + 1)) - 1) << (63 - me)
            return put(n, lambda m: ((m.r[a] << s_ | m.r[a] >> (64 - s_)) & full) & mk | (m.r[n] & ~mk if mn == 'rldimi' else 0))
        if mn == 'bdnz':
            t = label(ops[0])
            def f(m): m.ctr = (m.ctr - 1) & M; return t if m.ctr else None
            return f
        if mn == 'mtctr': n = R(ops[0]); return lambda m: setattr(m, 'ctr', m.r[n])
        if mn == 'mflr': n = R(ops[0]); return put(n, lambda m: m.lr)
        if mn == 'mtlr': n = R(ops[0]); return lambda m: setattr(m, 'lr', m.r[n])
        mm = re.fullmatch(r'cmp(l?)([wd])(i?)', mn)
        if mm:
            fld = 0
            if len(ops) == 3: fld = int(ops[0].lstrip('cr')); ops = ops[1:]
            w = 32 if mm[2] == 'w' else 64; a = R(ops[0]); wm = (1 << w) - 1
            if mm[3]: v = num(ops[1]); y = lambda m: v
            else: b = R(ops[1]); y = lambda m: m.r[b]
            sgn = not mm[1]
            def f(m):
                p, q = m.r[a] & wm, y(m) & wm
                if sgn: p, q = sx(p, w), sx(q, w)
                m.cr[4 * fld:4 * fld + 4] = [int(p < q), int(p > q), int(p == q), 0]
            return f
        if mn == 'li': v = num(ops[1]); return put(R(ops[0]), lambda m: v)
        if mn == 'lis': v = sx(num(ops[1]) << 16, 32); return put(R(ops[0]), lambda m: v)
        if mn == 'mr': k = R(ops[1]); return put(R(ops[0]), lambda m: m.r[k])
        if mn in ('addi', 'addis'):
            a = R(ops[1]); v = num(ops[2]) if mn == 'addi' else sx(num(ops[2]) << 16, 32)
            return put(R(ops[0]), lambda m: (m.r[a] if a else 0) + v)
        if mn in ('ori', 'oris', 'xori', 'xoris', 'andi.', 'rotlwi'):
            if mn in ('andi.', 'rotlwi'): raise Unknown(mn)
            a = R(ops[1]); v = num(ops[2]) << (16 if mn.endswith('s') else 0)
            return put(R(ops[0]), (lambda m: m.r[a] | v) if mn[0] == 'o' else (lambda m: m.r[a] ^ v))
        alu = {'add': lambda a, b: a + b, 'subf': lambda a, b: b - a, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'nor': lambda a, b: ~(a | b)}
        if mn in alu: a, b, g = R(ops[1]), R(ops[2]), alu[mn]; return put(R(ops[0]), lambda m: g(m.r[a], m.r[b]))
        if mn in ('neg', 'extsw', 'extsh', 'extsb', 'not'):
            k = R(ops[1]); g = {'neg': lambda v: -v, 'extsw': lambda v: sx(v, 32), 'extsh': lambda v: sx(v, 16), 'extsb': lambda v: sx(v, 8), 'not': lambda v: ~v}[mn]
            return put(R(ops[0]), lambda m: g(m.r[k]))
        if mn in ('sldi', 'srdi', 'slwi', 'srwi', 'sradi', 'srawi', 'clrldi', 'clrlwi'):
            k = R(ops[1]); s = num(ops[2])
            g = {'sldi': lambda v: v << s, 'srdi': lambda v: v >> s, 'slwi': lambda v: (v & 0xffffffff) << s & 0xffffffff, 'srwi': lambda v: (v & 0xffffffff) >> s, 'sradi': lambda v: sx(v, 64) >> s, 'srawi': lambda v: sx(v, 32) >> s,
                 'clrldi': lambda v: v & (1 << 64 - s) - 1, 'clrlwi': lambda v: v & (1 << 32 - s) - 1}[mn]
            return put(R(ops[0]), lambda m: g(m.r[k]))
        mm = re.fullmatch(r'(ld|lwz|lwa|lbz|lhz|lha|std|stw|stb|sth)(u?)(x?)', mn)
        if mm:
            st = mm[1][:2] == 'st'; c = mm[1][2] if st else mm[1][1]; sz = {'d': 8, 'w': 4, 'b': 1, 'h': 2}[c]; sg = mm[1] in ('lwa', 'lha'); n = R(ops[0]); u = mm[2]
            if mm[3]: b, k = R(ops[1]), R(ops[2]); ad = lambda m: ((m.r[b] if b else 0) + m.r[k]) & M
            else: b, _, ad = self.mem(ops[1])
            if st:
                def f(m):
                    a = ad(m); m.st(a, sz, m.r[n])
                    if u: m.r[b] = a
            else:
                def f(m):
                    a = ad(m); v = m.ld(a, sz)
                    if u: m.r[b] = a
                    m.r[n] = (sx(v, 8 * sz) if sg else v) & M
            return f
        raise Unknown(mn)

# ---------------------------------------------------------------- s390x
class S390(Isa):
    RET = 2; big = True; align = 2; objdump = ['--mcpu=z14']
    MASK = {'e': 8, 'ne': 7, 'l': 4, 'h': 2, 'nl': 11, 'nh': 13, 'le': 12, 'he': 10, 'nle': 3, 'nhe': 5, 'lh': 6, 'nlh': 9, 'o': 1, 'no': 14, 'z': 8, 'nz': 7, 'm': 4, 'p': 2, 'nm': 11, 'np': 13}
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 16; m.cc = 0; m.a = [0] * 16; m.a[0] = tp >> 32; m.a[1] = tp & 0xffffffff; m.r[15] = sp; m.r[14] = ra
    def reg(self, s):
        mm = re.fullmatch(r'%?r(\d+)', s)
        if not mm: raise Unknown(s)
        return int(mm[1])
    def mem(self, s):
        mm = re.fullmatch(r'(-?\w+)(?:\(([^)]*)\))?', s)
        if not mm: raise Unknown(s)
        o = num(mm[1]); rs = [self.reg(x.strip()) for x in mm[2].split(',')] if mm[2] else []; M = (1 << 64) - 1
        rs = [x for x in rs if x]      # register 0 as base or index means none
        return lambda m: (o + sum(m.r[x] for x in rs)) & M
    def dec(self, mn, ops, pc, nxt):
        M = (1 << 64) - 1; R = self.reg; H = 0xffffffff << 32
        def cmp_(m, a, b): m.cc = 0 if a == b else 1 if a < b else 2
        def put64(n, v, m): m.r[n] = v & M
        def put32(n, v, m): m.r[n] = m.r[n] & H | v & 0xffffffff
        if mn in ('nop', 'nopr', 'jgnop', 'jnop'): return lambda m: None
        if mn == 'bcr': 
            if num(ops[0]) == 0 or ops[1] in ('%r0', '0'): return lambda m: None
            if num(ops[0]) == 15: n = R(ops[1]); return lambda m: m.r[n]
            raise Unknown(mn)
        if mn == 'br' and ops[0] in ('0', '%r0'): return lambda m: None
        if mn == 'ipm': n = R(ops[0]); return lambda m: m.r.__setitem__(n, m.r[n] & ~0xff000000 | m.cc << 28)
        if mn == 'br': n = R(ops[0]); return lambda m: m.r[n]
        if mn in ('j', 'jg'): t = label(ops[0]); return lambda m: t
        if mn == 'brasl':
            n = R(ops[0]); t = label(ops[1])
            def f(m): m.r[n] = nxt; return t
            return f
        mm = re.fullmatch(r'b(n?(?:e|l|h|le|he|lh|o|z|m|p))r', mn)
        if mm and mm[1] in self.MASK: k = self.MASK[mm[1]]; n = R(ops[0]); return lambda m: m.r[n] if n and k >> (3 - m.cc) & 1 else None
        mm = re.fullmatch(r'jg?(n?(?:e|l|h|le|he|lh|o|z|m|p))', mn)
        if mm and mm[1] in self.MASK: k = self.MASK[mm[1]]; t = label(ops[0]); return lambda m: t if k >> (3 - m.cc) & 1 else None
        mm = re.fullmatch(r'c(l?)(g?)([ri])b(n?(?:e|l|h|le|he|lh))', mn)
        if mm:
            w = 64 if mm[2] else 32; k = self.MASK[mm[4]]; a = R(ops[0]); wm = (1 << w) - 1; ad = self.mem(ops[2])
            if mm[3] == 'r': b = R(ops[1]); y = lambda m: m.r[b] & wm
            else: v = num(ops[1]) & wm; y = lambda m: v
            lg = bool(mm[1])
            def f(m):
                p, q = m.r[a] & wm, y(m)
                if not lg: p, q = sx(p, w), sx(q, w)
                return ad(m) if k >> (3 - (0 if p == q else 1 if p < q else 2)) & 1 else None
            return f
        if mn == 'tmll':
            n = R(ops[0]); v = num(ops[1])
            def f(m): t = m.r[n] & v & 0xffff; m.cc = 0 if not t else 3 if t == v else 2 if t >> (v.bit_length() - 1) else 1
            return f
        mm = re.fullmatch(r'c(l?)(g?)([ri])j(n?(?:e|l|h|le|he|lh))', mn)
        if mm:
            w = 64 if mm[2] else 32; k = self.MASK[mm[4]]; t = label(ops[2]); a = R(ops[0]); wm = (1 << w) - 1
            if mm[3] == 'r': b = R(ops[1]); y = lambda m: m.r[b] & wm
            else: v = num(ops[1]) & wm; y = lambda m: v
            lg = bool(mm[1])
            def f(m):
                p, q = m.r[a] & wm, y(m)
                if not lg: p, q = sx(p, w), sx(q, w)
                cc = 0 if p == q else 1 if p < q else 2
                return t if k >> (3 - cc) & 1 else None
            return f
        if mn == 'ear': n = R(ops[0]); k = int(ops[1].lstrip('%a')); return lambda m: put32(n, m.a[k], m)
        if mn == 'larl': n = R(ops[0]); t = label(ops[1]); return lambda m: put64(n, t, m)
        if mn in ('lgrl', 'lrl', 'lgfrl', 'llgfrl'):
            n = R(ops[0]); t = label(ops[1])
            if mn == 'lgrl': return lambda m: put64(n, m.ld(t, 8), m)
            if mn == 'lrl': return lambda m: put32(n, m.ld(t, 4), m)
            return lambda m: put64(n, sx(m.ld(t, 4), 32) if mn[2] == 'f' else m.ld(t, 4), m)
        if mn in ('stgrl', 'strl'): n = R(ops[0]); t = label(ops[1]); z = 8 if mn == 'stgrl' else 4; return lambda m: m.st(t, z, m.r[n])
        if mn == 'lghi': n = R(ops[0]); v = num(ops[1]); return lambda m: put64(n, v, m)
        if mn in ('lhi', 'iilf'): n = R(ops[0]); v = num(ops[1]); return lambda m: put32(n, v, m)
        if mn in ('lgfi', 'llilf', 'llill'): n = R(ops[0]); v = num(ops[1]); return lambda m: put64(n, v, m)
        if mn in ('lg', 'l', 'lgf', 'llgf', 'lgb', 'llgc', 'llc', 'ly'):
            n = R(ops[0]); ad = self.mem(ops[1])
            if mn == 'lg': return lambda m: put64(n, m.ld(ad(m), 8), m)
            if mn in ('l', 'ly'): return lambda m: put32(n, m.ld(ad(m), 4), m)
            if mn == 'lgf': return lambda m: put64(n, sx(m.ld(ad(m), 4), 32), m)
            if mn == 'llgf': return lambda m: put64(n, m.ld(ad(m), 4), m)
            if mn == 'lgb': return lambda m: put64(n, sx(m.ld(ad(m), 1), 8), m)
            if mn == 'llgc': return lambda m: put64(n, m.ld(ad(m), 1), m)
            return lambda m: put32(n, m.ld(ad(m), 1), m)
        if mn in ('lh', 'lgh', 'llgh', 'llh', 'lb', 'lhy'):
            n = R(ops[0]); ad = self.mem(ops[1]); z = 1 if mn == 'lb' else 2; sg = mn[:2] != 'll'; p_ = put64 if 'g' in mn else put32
            return lambda m: p_(n, sx(m.ld(ad(m), z), 8 * z) if sg else m.ld(ad(m), z), m)
        if mn in ('lgh', 'lghr', 'lhr', 'llghr', 'llhr', 'llgcr', 'llcr', 'lgbr', 'lbr'):
            n, k = R(ops[0]), R(ops[1]); w = 8 if mn[-2] in 'cb' else 16; sg = mn[:2] != 'll'; p_ = put64 if 'g' in mn else put32
            return lambda m: p_(n, sx(m.r[k], w) if sg else m.r[k] & (1 << w) - 1, m)
        if mn in ('ltg', 'lt', 'ltgf'):
            n = R(ops[0]); ad = self.mem(ops[1]); z = 8 if mn == 'ltg' else 4
            def f(m): v = sx(m.ld(ad(m), z), 8 * z); cmp_(m, v, 0); put32(n, v, m) if mn == 'lt' else put64(n, v, m)
            return f
        if mn in ('cghsi', 'chsi', 'chhsi', 'clghsi', 'clfhsi', 'clhhsi', 'cli', 'cliy'):
            ad = self.mem(ops[0]); z = {'cghsi': 8, 'chsi': 4, 'chhsi': 2, 'clghsi': 8, 'clfhsi': 4, 'clhhsi': 2, 'cli': 1, 'cliy': 1}[mn]; lg = mn[1] == 'l'; v = num(ops[1])
            return lambda m: cmp_(m, m.ld(ad(m), z) if lg else sx(m.ld(ad(m), z), 8 * z), v & (1 << 8 * z) - 1 if lg else v)
        if mn in ('risbg', 'risbgn'):
            n, k = R(ops[0]), R(ops[1]); i3, i4 = num(ops[2]) & 63, num(ops[3]); i5 = num(ops[4]) & 63 if len(ops) > 4 else 0; z = i4 & 128; i4 &= 63
            mk = sum(1 << (63 - b % 64) for b in (range(i3, i4 + 1) if i3 <= i4 else list(range(i3, 64)) + list(range(0, i4 + 1))))
            def f(m):
                v = m.r[k]; v = (v << i5 | v >> (64 - i5)) & M; v = v & mk | (0 if z else m.r[n] & ~mk); m.r[n] = v
                if mn == 'risbg': cmp_(m, sx(v, 64), 0)
            return f
        if mn in ('llihf', 'llihh', 'llihl', 'llilh'): n = R(ops[0]); v = num(ops[1]) << {'llihf': 32, 'llihh': 48, 'llihl': 32, 'llilh': 16}[mn]; return lambda m: put64(n, v, m)
        if mn in ('oilf', 'oihf'):
            n = R(ops[0]); v = num(ops[1]) << (32 if mn == 'oihf' else 0)
            def f(m): m.r[n] |= v; m.cc = int(bool((m.r[n] >> (32 if mn == 'oihf' else 0)) & 0xffffffff))
            return f
        if mn in ('iihf',): n = R(ops[0]); v = num(ops[1]) << 32; return lambda m: m.r.__setitem__(n, m.r[n] & 0xffffffff | v)
        if mn in ('mvhhi',): ad = self.mem(ops[0]); v = num(ops[1]); return lambda m: m.st(ad(m), 2, v)
        if mn in ('stg', 'st', 'sty', 'stc', 'stcy', 'sth'):
            n = R(ops[0]); ad = self.mem(ops[1]); z = {'stg': 8, 'st': 4, 'sty': 4, 'stc': 1, 'stcy': 1, 'sth': 2}[mn]; return lambda m: m.st(ad(m), z, m.r[n])
        if mn in ('ic', 'icy'):
            n = R(ops[0]); ad = self.mem(ops[1])
            def f(m): m.r[n] = m.r[n] & ~0xff | m.ld(ad(m), 1)
            return f
        if mn in ('mvghi', 'mvhi', 'mvi'): ad = self.mem(ops[0]); v = num(ops[1]); z = {'mvghi': 8, 'mvhi': 4, 'mvi': 1}[mn]; return lambda m: m.st(ad(m), z, v)
        if mn == 'mvc':
            m1 = re.fullmatch(r'(\w+)\((\d+),(%r\d+)\)', ops[0].replace(' ', ''))
            if not m1: raise Unknown(mn)
            d = self.mem('%s(%s)' % (m1[1], m1[3])); s = self.mem(ops[1]); L = int(m1[2])
            def f(m):
                a, b = d(m), s(m)
                for i in range(L): m.st(a + i, 1, m.ld(b + i, 1))
            return f
        if mn in ('stmg', 'lmg'):
            a, b = R(ops[0]), R(ops[1]); ad = self.mem(ops[2]); l = []; k = a
            while True:
                l.append(k)
                if k == b: break
                k = (k + 1) % 16
            if mn == 'stmg':
                def f(m):
                    p = ad(m)
                    for i, n in enumerate(l): m.st(p + 8 * i, 8, m.r[n])
            else:
                def f(m):
                    p = ad(m); vs = [m.ld(p + 8 * i, 8) for i in range(len(l))]
                    for n, v in zip(l, vs): m.r[n] = v
            return f
        if mn in ('c', 'cg', 'cr', 'cgr', 'cghi', 'chi', 'clgr', 'clr', 'cl', 'clg', 'cgfi', 'cfi', 'cgf', 'clfi', 'clgfi'):
            n = R(ops[0]); w = 64 if 'g' in mn else 32; wm = (1 << w) - 1; lg = mn[:2] == 'cl'
            if mn in ('cr', 'cgr', 'clgr', 'clr'): b = R(ops[1]); y = lambda m: m.r[b] & wm
            elif mn in ('cghi', 'chi', 'cgfi', 'cfi', 'clfi', 'clgfi'): v = num(ops[1]) & wm; y = lambda m: v
            elif mn == 'cgf': ad = self.mem(ops[1]); y = lambda m: sx(m.ld(ad(m), 4), 32) & wm
            else: ad = self.mem(ops[1]); y = lambda m: m.ld(ad(m), w // 8)
            if lg: return lambda m: cmp_(m, m.r[n] & wm, y(m))
            return lambda m: cmp_(m, sx(m.r[n], w), sx(y(m), w))
        if mn in ('ltgr', 'ltr', 'lgr', 'lr', 'lgfr', 'llgfr', 'ltgfr'):
            n, k = R(ops[0]), R(ops[1])
            if mn == 'lgr': return lambda m: put64(n, m.r[k], m)
            if mn == 'lr': return lambda m: put32(n, m.r[k], m)
            if mn == 'lgfr': return lambda m: put64(n, sx(m.r[k], 32), m)
            if mn == 'llgfr': return lambda m: put64(n, m.r[k] & 0xffffffff, m)
            w = 64 if mn == 'ltgr' else 32
            def f(m):
                v = sx(m.r[k], w); cmp_(m, v, 0)
                if mn == 'ltr': put32(n, v, m)
                else: put64(n, v, m)
            return f
        if mn in ('aghi', 'ahi', 'agr', 'ar', 'ag', 'a', 'agfi', 'afi', 'algr', 'slgr', 'sgr', 'sr', 'agrk', 'sgrk', 'aghik'):
            n = R(ops[0]); w = 64 if 'g' in mn else 32; src = n; o = ops[1]
            if mn.endswith('k'): src = R(ops[1]); o = ops[2]
            if re.fullmatch(r'%r\d+', o): b = R(o); y = lambda m: sx(m.r[b], w)
            elif '(' in o: ad = self.mem(o); y = lambda m: sx(m.ld(ad(m), w // 8), w)
            else: v = num(o); y = lambda m: v
            sub = mn[0] == 's'
            def f(m):
                r = sx(m.r[src], w) - y(m) if sub else sx(m.r[src], w) + y(m); t = sx(r, w)
                m.cc = 3 if t != r else 0 if t == 0 else 1 if t < 0 else 2
                if mn in ('algr', 'slgr'): m.cc = 0     # logical condition codes are not modelled
                put64(n, r, m) if w == 64 else put32(n, r, m)
            if mn in ('algr', 'slgr'): raise Unknown(mn)
            return f
        if mn in ('la', 'lay'): n = R(ops[0]); ad = self.mem(ops[1]); return lambda m: put64(n, ad(m), m)
        if mn in ('sllg', 'srlg', 'srag'): n, k = R(ops[0]), R(ops[1]); s = num(ops[2]) & 63; g = {'sllg': lambda v: v << s, 'srlg': lambda v: v >> s, 'srag': lambda v: sx(v, 64) >> s}[mn]; return lambda m: put64(n, g(m.r[k]), m)
        if mn in ('xgr', 'xr', 'ngr', 'nr', 'ogr', 'or'):
            n, k = R(ops[0]), R(ops[1]); w = 64 if 'g' in mn else 32; wm = (1 << w) - 1; g = {'x': lambda a, b: a ^ b, 'n': lambda a, b: a & b, 'o': lambda a, b: a | b}[mn[0]]
            def f(m):
                v = g(m.r[n], m.r[k]) & wm; m.cc = int(v != 0); put64(n, v, m) if w == 64 else put32(n, v, m)
            return f
        raise Unknown(mn)

# ---------------------------------------------------------------- MIPS
class Mips(Isa):
    RET = 2; delay = True
    def __init__(self, bits, big): self.bits = bits; self.big = big
    def init(self, m, entry, sp, tp, ra): m.r = [0] * 32; m.r[29] = sp; m.r[31] = ra; m.r[25] = entry; m.tp = tp
    NAMES = dict(zero=0, at=1, gp=28, sp=29, fp=30, ra=31)
    def reg(self, s):
        s = s.lstrip('$')
        if s in self.NAMES: return self.NAMES[s]
        if not s.isdigit(): raise Unknown(s)
        return int(s)
    def mem(self, s):
        mm = re.fullmatch(r'(-?\w*)\((\$\w+)\)', s)
        if not mm: raise Unknown(s)
        o = num(mm[1]) if mm[1] else 0; b = self.reg(mm[2]); M = (1 << self.bits) - 1
        return lambda m: (m.r[b] + o) & M
    # returns (fn, is_branch): a branch's fn returns the target or None; the delay slot is executed by the caller
    def dec(self, mn, ops, pc, nxt):
        B = self.bits; M = (1 << B) - 1; R = self.reg; w32 = (lambda v: sx(v, 32)) if B == 64 else (lambda v: v)
        def put(n, fn):
            if n == 0: return lambda m: (fn(m), None)[1]
            def f(m): m.r[n] = fn(m) & M
            return f
        def br(f): f.branch = True; return f
        if mn in ('nop', 'sync', 'ssnop', 'ehb'): return lambda m: None
        if mn == 'jr': n = R(ops[0]); return br(lambda m: m.r[n])
        if mn in ('b', 'j'): t = label(ops[0]); return br(lambda m: t)
        if mn in ('bal', 'jal'):
            t = label(ops[0])
            def f(m): m.r[31] = nxt + 4; return t
            return br(f)
        if mn in ('beq', 'bne'): a, b = R(ops[0]), R(ops[1]); t = label(ops[2]); e = mn == 'beq'; return br(lambda m: t if (m.r[a] == m.r[b]) == e else None)
        if mn in ('beqz', 'bnez'): a = R(ops[0]); t = label(ops[1]); e = mn == 'beqz'; return br(lambda m: t if (m.r[a] == 0) == e else None)
        if mn == 'rdhwr':
            if ops[1] != '$29': raise Unknown(mn)
            return put(R(ops[0]), lambda m: m.tp)
        if mn == 'lui': v = sx(num(ops[1]) << 16, 32); return put(R(ops[0]), lambda m: v)
        if mn == 'move': k = R(ops[1]); return put(R(ops[0]), lambda m: m.r[k])
        if mn == 'li': v = num(ops[1]); return put(R(ops[0]), lambda m: v)
        if mn in ('lw', 'ld', 'lb', 'lbu', 'lh', 'lhu', 'lwu'):
            ad = self.mem(ops[1]); sz = {'w': 4, 'd': 8, 'b': 1, 'h': 2}[mn[1]]
            return put(R(ops[0]), (lambda m: m.ld(ad(m), sz)) if mn.endswith('u') else (lambda m: sx(m.ld(ad(m), sz), sz * 8)))
        if mn in ('sw', 'sd', 'sb', 'sh'): ad = self.mem(ops[1]); sz = {'w': 4, 'd': 8, 'b': 1, 'h': 2}[mn[1]]; n = R(ops[0]); return lambda m: m.st(ad(m), sz, m.r[n])
        alu = {'addu': lambda a, b: w32(a + b), 'daddu': lambda a, b: a + b, 'subu': lambda a, b: w32(a - b), 'dsubu': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'nor': lambda a, b: ~(a | b),
               'slt': lambda a, b: int(sx(a, B) < sx(b, B)), 'sltu': lambda a, b: int(a < b)}
        if len(ops) == 2 and mn in ('addiu', 'daddiu', 'addu', 'daddu'): ops = [ops[0]] + ops
        if mn in alu: a, b, g = R(ops[1]), R(ops[2]), alu[mn]; return put(R(ops[0]), lambda m: g(m.r[a], m.r[b]))
        imm = {'addiu': 'addu', 'daddiu': 'daddu', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'slti': 'slt', 'sltiu': 'sltu'}
        if mn in imm: a, v, g = R(ops[1]), num(ops[2]) & M, alu[imm[mn]]; return put(R(ops[0]), lambda m: g(m.r[a], v))
        if mn in ('ext', 'dext', 'dextu', 'dextm'):
            k, o, l = R(ops[1]), num(ops[2]), num(ops[3])
            return put(R(ops[0]), (lambda m: w32((m.r[k] & 0xffffffff) >> o & (1 << l) - 1)) if mn == 'ext' else (lambda m: m.r[k] >> o & (1 << l) - 1))
        sh = {'sll': lambda v, s: w32((v & 0xffffffff) << s), 'srl': lambda v, s: w32((v & 0xffffffff) >> s), 'sra': lambda v, s: sx(v, 32) >> s, 'dsll': lambda v, s: v << s, 'dsrl': lambda v, s: v >> s, 'dsra': lambda v, s: sx(v, 64) >> s,
              'dsll32': lambda v, s: v << s + 32, 'dsrl32': lambda v, s: v >> s + 32, 'dsra32': lambda v, s: sx(v, 64) >> s + 32}
        if mn in sh: k = R(ops[1]); s = num(ops[2]); g = sh[mn]; return put(R(ops[0]), lambda m: g(m.r[k], s))
        raise Unknown(mn)

# ---------------------------------------------------------------- x86 (AT&T)
class X86(Isa):
    RET = 0; align = 1
    def __init__(self, bits): self.bits = bits
    N64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
    def init(self, m, entry, sp, tp, ra):
        m.r = [0] * 16; m.f = (0, 0, 0, 0); m.tp = tp; sp -= self.bits // 8; m.st(sp, self.bits // 8, ra); m.r[7] = sp
    def reg(self, s):
        s = s.lstrip('%')
        T = getattr(X86, '_T', None)
        if T is None:
            T = {}
            for i, n in enumerate(self.N64):
                T[n] = (i, 64)
                if i < 8: T['e' + n[1:]] = (i, 32); T[n[1:]] = (i, 16)
                else: T[n + 'd'] = (i, 32); T[n + 'w'] = (i, 16); T[n + 'b'] = (i, 8)
            for i, n in enumerate(['al', 'bl', 'cl', 'dl', 'sil', 'dil', 'bpl', 'spl']): T[n] = (i, 8)
            X86._T = T
        if s not in T: raise Unknown(s)
        return T[s]
    def clean(self, s):
        s = re.sub(r'\s+#\s.*$', '', s)
        return re.sub(r'\s*<[^>]*>', '', s).strip()
    def addr(self, s, nxt):
        mm = re.fullmatch(r'(?:%(fs|gs):)?(-?\w*)(?:\(([^)]*)\))?', s)
        if not mm: raise Unknown(s)
        seg = mm[1]; o = num(mm[2]) if mm[2] else 0; parts = [p.strip() for p in mm[3].split(',')] if mm[3] else []; M = (1 << self.bits) - 1
        if parts and parts[0] == '%rip': a = (nxt + o) & M; return lambda m: a
        b = self.reg(parts[0])[0] if parts and parts[0] else None; x = self.reg(parts[1])[0] if len(parts) > 1 else None; sc = int(parts[2]) if len(parts) > 2 else 1
        def f(m):
            v = o
            if b is not None: v += m.r[b]
            if x is not None: v += m.r[x] * sc
            if seg: v += m.tp
            return v & M
        return f
    def rd(self, s, w, nxt):
        if s[0] == '$': v = num(s) & (1 << w) - 1; return lambda m: v
        if s[0] == '%' and ':' not in s:
            n, b = self.reg(s); wm = (1 << w) - 1; return lambda m: m.r[n] & wm
        a = self.addr(s, nxt); return lambda m: m.ld(a(m), w // 8)
    def wr(self, s, w, nxt):
        if s[0] == '%' and ':' not in s:
            n, b = self.reg(s); wm = (1 << w) - 1
            if w >= 32:
                def f(m, v): m.r[n] = v & wm
            else:
                def f(m, v): m.r[n] = m.r[n] & ~wm | v & wm
            return f
        a = self.addr(s, nxt); return lambda m, v: m.st(a(m), w // 8, v)
    CC = {'e': lambda f: f[0], 'ne': lambda f: not f[0], 's': lambda f: f[1], 'ns': lambda f: not f[1], 'b': lambda f: f[2], 'ae': lambda f: not f[2], 'be': lambda f: f[2] or f[0], 'a': lambda f: not (f[2] or f[0]),
          'l': lambda f: f[1] != f[3], 'ge': lambda f: f[1] == f[3], 'le': lambda f: f[0] or f[1] != f[3], 'g': lambda f: not f[0] and f[1] == f[3], 'o': lambda f: f[3], 'no': lambda f: not f[3]}
    def dec(self, mn, ops, pc, nxt):
        W = {'b': 8, 'w': 16, 'l': 32, 'q': 64}; P = self.bits // 8
        if mn == 'lock': raise Unknown('lock')
        if mn in ('nop', 'nopw', 'nopl', 'mfence', 'lfence', 'sfence', 'pause', 'endbr64', 'endbr32', 'xchgw') : 
            if mn == 'xchgw' and ops != ['%ax', '%ax']: raise Unknown(mn)
            return lambda m: None
        if mn in ('ret', 'retl', 'retq'):
            def f(m): t = m.ld(m.r[7], P); m.r[7] += P; return t
            return f
        if mn in ('call', 'calll', 'callq'):
            t = label(ops[0])
            def f(m): m.r[7] -= P; m.st(m.r[7], P, nxt); return t
            return f
        if mn == 'jmp': t = label(ops[0]); return lambda m: t
        if mn[0] == 'j' and mn[1:] in self.CC: c = self.CC[mn[1:]]; t = label(ops[0]); return lambda m: t if c(m.f) else None
        if mn.startswith('set') and mn[3:] in self.CC: c = self.CC[mn[3:]]; w = self.wr(ops[0], 8, nxt); return lambda m: w(m, int(bool(c(m.f))))
        if mn in ('pushl', 'pushq', 'push'):
            v = self.rd(ops[0], P * 8, nxt)
            def f(m): x = v(m); m.r[7] -= P; m.st(m.r[7], P, x)
            return f
        if mn in ('popl', 'popq', 'pop'):
            w = self.wr(ops[0], P * 8, nxt)
            def f(m): x = m.ld(m.r[7], P); m.r[7] += P; w(m, x)
            return f
        if mn == 'movabsq': v = num(ops[0]); w = self.wr(ops[1], 64, nxt); return lambda m: w(m, v)
        if mn == 'movslq': r = self.rd(ops[0], 32, nxt); w = self.wr(ops[1], 64, nxt); return lambda m: w(m, sx(r(m), 32))
        if mn in ('movzbl', 'movzwl', 'movsbl', 'movsbq', 'movzbq'): k = W[mn[4]]; r = self.rd(ops[0], k, nxt); w = self.wr(ops[1], W[mn[5]], nxt); return lambda m: w(m, sx(r(m), k) if mn[3] == 's' else r(m))
        if mn == 'cltq': return lambda m: m.r.__setitem__(0, sx(m.r[0], 32) & (1 << 64) - 1)
        if mn.startswith('cmov') and mn[-1] in 'lq' and mn[4:-1] in self.CC:
            k = W[mn[-1]]; c = self.CC[mn[4:-1]]; r = self.rd(ops[0], k, nxt); o = self.rd(ops[1], k, nxt); w = self.wr(ops[1], k, nxt); return lambda m: w(m, r(m) if c(m.f) else o(m))
        if mn[-1] not in W: raise Unknown(mn)
        k = W[mn[-1]]; op = mn[:-1]; wm = (1 << k) - 1; top = k - 1
        if op == 'mov': r = self.rd(ops[0], k, nxt); w = self.wr(ops[1], k, nxt); return lambda m: w(m, r(m))
        if op == 'lea': a = self.addr(ops[0], nxt); w = self.wr(ops[1], k, nxt); return lambda m: w(m, a(m))
        if op in ('inc', 'dec', 'neg', 'not'):
            r = self.rd(ops[0], k, nxt); w = self.wr(ops[0], k, nxt)
            def f(m):
                x = r(m); v = {'inc': x + 1, 'dec': x - 1, 'neg': -x, 'not': ~x}[op] & wm
                if op != 'not':
                    of = {'inc': v == 1 << top, 'dec': v == (1 << top) - 1, 'neg': v == 1 << top and x == v}[op]
                    m.f = (int(v == 0), v >> top, m.f[2] if op != 'neg' else int(x != 0), int(of))
                w(m, v)
            return f
        if op in ('shl', 'shr', 'sar') and len(ops) == 2 and ops[0][0] == '$':
            s = num(ops[0]); r = self.rd(ops[1], k, nxt); w = self.wr(ops[1], k, nxt)
            def f(m):
                x = r(m); v = {'shl': x << s, 'shr': x >> s, 'sar': sx(x, k) >> s}[op] & wm; m.f = (int(v == 0), v >> top, 0, 0); w(m, v)
            return f
        if op in ('add', 'sub', 'cmp', 'and', 'test', 'or', 'xor', 'xadd'):
            a = self.rd(ops[0], k, nxt); b = self.rd(ops[1], k, nxt); w = self.wr(ops[1], k, nxt) if op not in ('cmp', 'test') else None
            if op == 'xadd': raise Unknown(mn)
            def f(m):
                y, x = a(m), b(m)
                if op == 'add': r = x + y; v = r & wm; m.f = (int(v == 0), v >> top, r >> k & 1, ((x ^ v) & (y ^ v)) >> top & 1)
                elif op in ('sub', 'cmp'): v = (x - y) & wm; m.f = (int(v == 0), v >> top, int(x < y), ((x ^ y) & (x ^ v)) >> top & 1)
                else: v = x & y if op in ('and', 'test') else x | y if op == 'or' else x ^ y; m.f = (int(v == 0), v >> top, 0, 0)
                if w: w(m, v)
            return f
        raise Unknown(mn)
