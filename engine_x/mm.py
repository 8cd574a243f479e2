#!/usr/bin/env python3
"""The litmus threads of engine_l as compiled for another architecture, under that architecture's memory model.

mm.py target=T names=FILE repo=/repo [opt=-O2] [shard=i/n] [out=replay]   -> one JSON line; exit 1 = violation

Every thread is executed by the interpreters of isa.py for every combination of values its loads of shared
variables can return; its accesses, barriers, acquires and releases form its trace.  For every combination
of traces every choice of the store each load reads from and every coherence order is enumerated, and the
candidate executions the memory model allows are judged.  Memory models (axiomatic, multi-copy atomic):
an execution is allowed if each location is coherent (program order per location, reads-from, coherence and
from-reads are acyclic) and the order seen by all (what barriers, acquires, releases - or, on TSO machines,
the program order except store to load - keep, plus communication between threads) is acyclic.  Power's
non-multi-copy-atomic behaviours are not included; an isync/isb is taken to order the loads before it.
"""
import itertools, json, os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import x
from x import Bad, BuildError, Unknown
K_MP, K_SB, K_R, K_22W, K_LB, K_CORR, K_TEAR, K_CHAIN, K_CTRL_SB, K_S, K_SAME = range(11)
TSO = {'i386', 'x86_64', 's390x'}
MAXLOADS = 20; ROUNDS = 5
R, W, RW = {'R'}, {'W'}, {'R', 'W'}

def fence_of(name, s):
    """(before, after, store-to-load too) of a barrier instruction, or None."""
    p = s.replace(',', ' ').split(); mn = p[0] if p else ''; o = p[1] if len(p) > 1 else ''
    if name in ('i386', 'x86_64'):
        return (RW, RW, True) if s.startswith('lock ') or mn == 'mfence' or (mn.startswith('xchg') and '(' in s) else None
    if name == 's390x':
        if mn == 'br' and o in ('0', '%r0'): return RW, RW, True
        if mn == 'bcr' and o in ('14', '15') and p[2] in ('0', '%r0'): return RW, RW, True
        return (RW, RW, True) if mn in ('cs', 'csg') else None
    if name in ('aarch64', 'aarch64_be', 'arm', 'thumb'):
        mn = mn.split('.')[0]
        if mn == 'isb': return R, RW, True
        if mn not in ('dmb', 'dsb'): return None
        if o in ('', 'ish', 'sy', 'osh', '#0xb', '#0xf'): return RW, RW, True
        if o in ('ishld', 'ld', 'oshld'): return R, RW, True
        if o in ('ishst', 'st', 'oshst'): return W, W, True
        if o.startswith('nsh'): return None     # this CPU only
        raise Unknown(s)
    if name.startswith('riscv'):
        if mn == 'fence.tso': return RW, RW, False
        if mn != 'fence': return None
        if len(p) < 3: return RW, RW, True
        g = lambda t: {c.upper() for c in t if c in 'rw'}
        return g(o), g(p[2]), True
    if name.startswith('ppc'):
        if mn in ('hwsync', 'ptesync', 'msync') or (mn == 'sync' and o in ('', '0', '2')): return RW, RW, True
        if mn == 'lwsync' or (mn == 'sync' and o == '1'): return RW, RW, False
        if mn == 'eieio': return W, W, True
        return (R, RW, True) if mn == 'isync' else None
    if name.startswith('mips'):
        if mn != 'sync': return None
        k = int(o, 0) if o else 0
        return {0: (RW, RW, True), 4: (W, W, True), 16: (RW, RW, True), 17: (R, RW, True), 18: (RW, W, True), 19: (R, R, True)}.get(k) or (RW, RW, True)
    if name == 'loongarch64':
        if mn != 'dbar': return None
        k = int(o, 0) if o else 0
        if not 0x10 <= k <= 0x1f: return RW, RW, True
        b = set(); a = set()
        if not k & 8: b.add('R')
        if not k & 4: b.add('W')
        if not k & 2: a.add('R')
        if not k & 1: a.add('W')
        return b, a, True
    raise Unknown(name)

class Stop(Exception): pass
class Ev:
    __slots__ = ('k', 'a', 'n', 'v', 'acq', 'rel', 'rcsc', 'i')
    def __init__(s, k, a, n, v, acq, rel, rcsc): s.k = k; s.a = a; s.n = n; s.v = v; s.acq = acq; s.rel = rel; s.rcsc = rcsc

class LM(x.Machine):
    def flags(self):
        t = self.im.code[self.pc][2].split()[0] if self.im.name.startswith('aarch64') else ''
        return t.startswith(('ldar', 'ldapr')), t.startswith('stlr'), t.startswith(('ldar', 'stlr'))
    def shared(self, a, n): return a < self.sh + 512 and a + n > self.sh
    def ld(self, a, n):
        if not self.shared(a, n): return super().ld(a, n)
        if len(self.script) <= self.nl:
            if self.nl >= MAXLOADS: raise Stop('cut')
            self.need = (a, n); raise Stop('need')
        v = self.script[self.nl]; self.nl += 1
        q, r, c = self.flags(); self.tr.append(Ev('R', a, n, v, q, False, c)); return v
    def st(self, a, n, v):
        if not self.shared(a, n): return super().st(a, n, v)
        q, r, c = self.flags(); self.tr.append(Ev('W', a, n, v & (1 << 8 * n) - 1, False, r, c))

class Trace: pass

class Threads:
    def __init__(self, name, path):
        self.im = im = x.load(name, path); self.name = name; self.m = LM(im); self.m.sh = im.sym['SH']; self.res = im.sym['RES']; self.runs = 0; self.cache = {}; self.m.mon = None
        for pc, (fn, nxt, txt) in list(im.code.items()):
            f = fence_of(name, txt)
            if f is None or fn is None: continue
            def g(m, fn=fn, f=f): m.tr.append(f); return fn(m)
            if getattr(fn, 'branch', False): raise Unknown(txt)
            im.code[pc] = (g, nxt, txt)
    def run(self, thr, script):
        m = self.m; m.reset(); m.script = script; m.nl = 0; m.tr = []; m.start('t_' + thr); self.runs += 1
        try:
            while m.pc != x.RA: m.step()
        except Stop as e: return e.args[0]
        except Bad as e: return 'bad: %s' % e
        return 'done'
    def traces(self, thr, cand):
        """All traces of the thread when a load of cell (address, size) can return the values cand[cell]; cand maps byte address -> set of bytes for multi-cell loads."""
        key = (thr, cand.key)
        if key in self.cache: return self.cache[key]
        out = []; todo = [()]
        while todo:
            s = todo.pop()
            r = self.run(thr, s)
            if r == 'need':
                own = [e for e in self.m.tr if isinstance(e, Ev) and e.k == 'W']
                for v in cand.values(*self.m.need, own): todo.append(s + (v,))
                continue
            if r == 'cut': continue
            t = Trace(); t.bad = r[5:] if r[:3] == 'bad' else None; t.ev = [e for e in self.m.tr if isinstance(e, Ev)]; W_ = self.im.W
            t.res = [x.sx(int.from_bytes(self.m.mem[self.res + W_ * k:self.res + W_ * k + W_], self.im.end), 8 * W_) for k in range(4)]
            t.lob = self.local(self.m.tr); out.append(t)
        self.cache[key] = out; return out
    def local(self, tr):
        ev = [(p, e) for p, e in enumerate(tr) if isinstance(e, Ev)]; fs = [(p, f) for p, f in enumerate(tr) if not isinstance(f, Ev)]
        tso = self.name in TSO; lob = []
        for i, (pa, a) in enumerate(ev):
            for j in range(i + 1, len(ev)):
                pb, b = ev[j]
                o = (tso and not (a.k == 'W' and b.k == 'R')) or a.acq or b.rel or (a.rel and b.acq and a.rcsc and b.rcsc)
                o = o or (b.k == 'W' and a.a < b.a + b.n and b.a < a.a + a.n)
                o = o or any(pa < p < pb and a.k in f[0] and b.k in f[1] and (f[2] or not (a.k == 'W' and b.k == 'R')) for p, f in fs)
                if o: lob.append((i, j))
        return lob

class Cand:
    """Values loads may return: per byte, the byte values of the stores seen so far; a load of exactly a stored piece takes its values whole."""
    def __init__(self, end): self.whole = {}; self.end = end; self.key = frozenset()
    def add(self, e):
        s = self.whole.setdefault((e.a, e.n), set())
        if e.v in s: return False
        s.add(e.v); self.key = frozenset((k, frozenset(v)) for k, v in self.whole.items()); return True
    def cells(self, a, n, whole):
        cut = {a, a + n}
        for (b, k) in whole:
            if b < a + n and a < b + k: cut |= {c for c in (b, b + k) if a < c < a + n}
        cut = sorted(cut); return [(p, q - p) for p, q in zip(cut, cut[1:])]
    def values(self, a, n, own):
        whole = dict(self.whole)
        for e in own: whole[(e.a, e.n)] = whole.get((e.a, e.n), set()) | {e.v}
        cs = self.cells(a, n, whole); opts = []
        for p, k in cs:
            o = {bytes(k)}
            for (b, l), vs in whole.items():
                if b <= p and p + k <= b + l:
                    for v in vs: o.add(v.to_bytes(l, self.end)[p - b:p - b + k])
            opts.append(sorted(o))
        return sorted({int.from_bytes(b''.join(c), self.end) for c in itertools.product(*opts)})

def acyclic(n, edges):
    out = [[] for _ in range(n)]; deg = [0] * n
    for a, b in edges: out[a].append(b); deg[b] += 1
    st = [i for i in range(n) if not deg[i]]; seen = 0
    while st:
        v = st.pop(); seen += 1
        for w in out[v]:
            deg[w] -= 1
            if not deg[w]: st.append(w)
    return seen == n

def executions(T, trs, stat, sc=False):
    """All executions of the chosen traces that the memory model allows: yields the final memory as {cell: bytes}."""
    ev = []; lob = []; po = []
    for t, tr in enumerate(trs):
        base = len(ev)
        for i, e in enumerate(tr.ev): ev.append((t, e))
        lob += [(base + i, base + i + 1) for i in range(len(tr.ev) - 1)] if sc else [(base + a, base + b) for a, b in tr.lob]
    n = len(ev); end = T.im.end
    cuts = sorted({c for _, e in ev for c in (e.a, e.a + e.n)})
    cells = [(p, q - p) for p, q in zip(cuts, cuts[1:]) if any(e.a <= p and q <= e.a + e.n for _, e in ev)]
    covers = lambda e, c: e.a <= c[0] and c[0] + c[1] <= e.a + e.n
    byt = lambda e, c: e.v.to_bytes(e.n, end)[c[0] - e.a:c[0] - e.a + c[1]]
    per = []
    for c in cells:
        ws = [i for i, (t, e) in enumerate(ev) if e.k == 'W' and covers(e, c)]; rs = [i for i, (t, e) in enumerate(ev) if e.k == 'R' and covers(e, c)]
        alts = []
        for co in itertools.permutations(ws):
            if any(ev[co[i]][0] == ev[co[j]][0] and co[i] > co[j] for i in range(len(co)) for j in range(i + 1, len(co))): continue
            choices = []
            for r in rs:
                b = byt(ev[r][1], c)
                choices.append([-1] * (b == bytes(c[1])) + [w for w in ws if byt(ev[w][1], c) == b])
            for rf in itertools.product(*choices):
                coh = []; ob = []; pos = {w: k for k, w in enumerate(co)}
                def edge(a, b):
                    coh.append((a, b))
                    if ev[a][0] != ev[b][0]: ob.append((a, b))
                for k in range(len(co) - 1): coh.append((co[k], co[k + 1]))
                for i in range(len(co)):
                    for j in range(i + 1, len(co)):
                        if ev[co[i]][0] != ev[co[j]][0]: ob.append((co[i], co[j]))
                for r, w in zip(rs, rf):
                    if w >= 0: edge(w, r)
                    for w2 in co[pos[w] + 1 if w >= 0 else 0:]: edge(r, w2)
                acc = sorted(ws + rs)
                for i, a in enumerate(acc):
                    for b in acc[i + 1:]:
                        if ev[a][0] == ev[b][0]: coh.append((a, b))
                stat['candidates'] += 1
                if acyclic(n, coh): alts.append((ob, byt(ev[co[-1]][1], c) if co else bytes(c[1])))
        if not alts: return
        per.append(alts)
    for pick in itertools.product(*per):
        stat['executions'] += 1
        if acyclic(n, lob + [e for ob, _ in pick for e in ob]):
            stat['allowed'] += 1
            yield {c: f for c, (_, f) in zip(cells, pick)}

def judge(T, kind, trs, mem):
    r = [t.res for t in trs]; q = r[-1]; sh = T.m.sh
    def m(i):
        a = sh + 64 * i; b = bytearray(T.im.W)
        for (p, n), v in mem.items():
            if a <= p < a + T.im.W: b[p - a:p - a + n] = v
        return x.sx(int.from_bytes(b, T.im.end), 8 * T.im.W)
    V = x.sx(0x1111222233334444 & T.im.WM, T.im.isa.bits)
    if kind in (K_MP, K_SAME, K_CHAIN):
        if q[0] and not q[1]: return 'the flag was seen but the data published before it was not'
        if r[0][3]: return 'the release helper returned %d' % r[0][3]
        return 3 if q[0] and q[1] else 1
    if kind == K_SB: return 'both threads missed the other\'s store across full barriers' if not r[0][0] and not r[1][0] else 2 | bool(r[0][0] and r[1][0])
    if kind == K_CTRL_SB: return 3 if not r[0][0] and not r[1][0] else 0
    if kind == K_R: return 'the later store did not come with the earlier one' if m(1) == 2 and not r[1][0] else 3
    if kind == K_S: return 'a store after the barrier was overtaken by one published before the flag' if r[1][0] and m(0) == 2 else 3 if r[1][0] else 0
    if kind == K_22W: return 'write barriers did not keep the stores in order' if m(0) == 1 and m(1) == 1 else 3
    if kind == K_LB: return 'both threads read the other\'s later store' if r[0][0] and r[1][0] else 3
    if kind == K_CORR: return 'a variable went back to an older value' if r[1][0] > r[1][1] else (2 if r[1][0] != r[1][1] else 0) | (r[1][1] == 2)
    if kind == K_TEAR: return 'half a value was seen: %#x' % (r[1][0] & T.im.WM) if r[1][0] not in (0, V) else 3 if r[1][0] else 0
    raise AssertionError(kind)

def litmus(T, kind, names, stat):
    cand = [Cand(T.im.end) for n in names]      # what the other threads can have stored
    for rnd in range(ROUNDS):
        per = [T.traces(n, c) for n, c in zip(names, cand)]
        if not any([c.add(e) for i, c in enumerate(cand) for j, ts in enumerate(per) if i != j for t in ts for e in t.ev if e.k == 'W']): break
    must = 0; outs = 0
    for trs in itertools.product(*per):
        for mem in executions(T, trs, stat, kind == K_SAME):
            outs += 1; j = next((t.bad for t in trs if t.bad), None) or judge(T, kind, trs, mem)
            if isinstance(j, str): return j, (trs, mem)
            must |= j
    stat['litmus'] += 1; stat['outcomes'] += outs
    if must != 3:
        if kind == K_CTRL_SB: raise Unknown('the control test does not show store buffering')
        return 'a store or load that the program makes never happens (outcomes %d of %d executions)' % (must, outs), None
    return None, None

def show(e): return '%s%s %#x/%d = %#x' % ('acquire ' if e.acq else 'release ' if e.rel else '', 'load' if e.k == 'R' else 'store', e.a, e.n, e.v)

def main():
    a = dict(s.split('=', 1) for s in sys.argv[1:]); name = a['target']; i, n = map(int, a.get('shard', '0/1').split('/'))
    d = tempfile.mkdtemp(prefix='vmm-'); stat = dict(litmus=0, candidates=0, executions=0, allowed=0, outcomes=0); nc = []
    try:
        try: x.compile_target(name, a.get('repo', '/repo'), d + '/img', a.get('defs', '').split(), a.get('opt', '-O2'), 'lit.c')
        except BuildError as e:
            if a.get('opt', '-O2') != '-O2': raise
            x.compile_target(name, a.get('repo', '/repo'), d + '/img2', [], '-O2')      # the helpers alone do compile: it is the ordering primitives that do not
            msg = '%s: the memory-ordering primitives do not compile for this architecture, the helpers do' % name
            if 'out' in a: open(a['out'], 'w').write(msg + '\n' + str(e))
            print(json.dumps({'violation': msg})); return 1
        T = Threads(name, d + '/img'); tests = [l.split() for l in open(a['names'])]
        for k, (kind, nm) in enumerate(tests):
            if k % n != i: continue
            kind = int(kind); th = nm.split('+')
            try:
                weak_ctl = name not in TSO and 'w_once' in th and kind == K_MP
                bad, where = litmus(T, kind, th, stat)
                if weak_ctl:
                    if not bad: nc.append('control: unordered message passing is not observed')
                    continue
            except Unknown as e: nc.append('%s: %s' % (nm, e)); continue
            except Bad as e: bad, where = str(e), None
            if bad:
                msg = '%s%s litmus %s: %s' % (name, a.get('opt', '-O2'), nm, bad)
                if 'out' in a:
                    with open(a['out'], 'w') as f:
                        f.write(msg + '\nshared variables at %#x + 64 * (x 0, y 1, z 2, w 3, i 4, h 5, b 6, p 7)\n' % T.m.sh)
                        for t, tr in zip(th, where[0] if where else ()):
                            f.write('thread %s: %s -> r = %s\n   kept in order: %s\n' % (t, '; '.join('(%d) %s' % (q, show(e)) for q, e in enumerate(tr.ev)), tr.res, tr.lob))
                        f.write('repeat: python3 %s/mm.py %s\n' % (HERE, ' '.join(s for s in sys.argv[1:] if not s.startswith('out='))))
                print(json.dumps({'violation': msg})); return 1
        stat['runs'] = T.runs
    except BuildError as e: nc.append(str(e)[-600:])
    finally: shutil.rmtree(d, ignore_errors=True)
    stat['target'] = name; stat['not_covered'] = nc; print(json.dumps(stat)); return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:      # nothing was decided: never an alarm
        import traceback
        rc = 0; print(json.dumps({'target': ([s[7:] for s in sys.argv if s.startswith('target=')] + ['?'])[0], 'litmus': 0, 'not_covered': ['harness: ' + traceback.format_exc()[-600:]]}))
    sys.exit(rc)
