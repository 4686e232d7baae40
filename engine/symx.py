"""symx: path exploration and obligation discharge for one scenario of an instrumented harness binary."""
import fnmatch, os, sys, struct, subprocess, time, random, math, tempfile, json, shutil
from fractions import Fraction
import z3
from nf import NF, snap, TooBig

FUNCS = ["sqrt","pow","exp","log","log10","sin","cos","tan","tanh","sinh","cosh","atan","asin","acos","atan2","fabs","floor","ceil","fmod","cbrt","exp2","log2","trunc","round","log1p","expm1"]
CONST,INPUT=0,1
FADD,FSUB,FMUL,FDIV,FREM,FNEG=2,3,4,5,6,7
ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,SHL,LSHR,ASHR,AND,OR,XOR=range(10,23)
TRUNC,ZEXT,SEXT,FPTOSI,FPTOUI,SITOFP,UITOFP,EXTRACT,CONCAT=range(30,39)
FCMP,ICMP,FUNC=50,70,100
def d2f(b): return struct.unpack('<d', struct.pack('<Q', b))[0]

class Trace:
    pass

def run(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stderr.decode(errors='replace')[:4000]
    except subprocess.TimeoutExpired:
        return 'timeout', ''

class Explorer:
    def __init__(self, symexe, natexe, scn, opts):
        self.sym, self.nat, self.scn, self.o = symexe, natexe, scn, opts
        self.tmp = tempfile.mkdtemp(prefix='sx_', dir=opts.get('tmp'))
        # global hash-consed nodes (shared over paths)
        self.nodes = [None]; self.ix = {}
        self.inputs = {}   # name -> (gid, ty, lo, hi)
        self.nf = NF(); self.nfc = {}; self.nfbad = set(); self.z3c = {}; self.axioms = {}
        self.nz3 = {}; self.cmp_s = 0.0
        self.nonzero = set()
        self.st = dict(paths=0, dead=0, branches=0, flips_unsat=0, flips_sat=0, flips_unknown=0, queries=0, unsat=0, sat=0, unknown=0,
                       solver_s=0.0, nf_s=0.0, checks=0, proved=0, undecided=0, nodes=0, validated=0, native_runs=0, domain_queries=0, domain_open=0, ops=0)
        self.violations = []; self.undecided = []; self.notes = []
        self.cov = set(); self.leaks = {}; self.labels = {}; self.samples = []
        self.deadline = time.time() + opts.get('budget', 300)
        self.rng = random.Random(opts.get('seed', 1) * 7919 + hash_str(scn))
        self.qto = opts.get('query_ms', 8000)
    # ------------------------------------------------------------ running
    def runsym(self, prefix, inputs):
        t = os.path.join(self.tmp, 'tr'); i = os.path.join(self.tmp, 'in'); p = os.path.join(self.tmp, 'px')
        with open(i, 'w') as f:
            for k, v in inputs.items(): f.write('%s %s\n' % (k, v if isinstance(v, int) else repr(float(v))))
        with open(p, 'w') as f: f.write('\n'.join(prefix) + '\n')
        if os.path.exists(t): os.unlink(t)
        env = dict(os.environ, SX_TRACE=t, SX_INPUT=i, SX_PREFIX=p, SX_MAXEV=str(self.o.get('maxev', 3000)))
        rc, err = run([self.sym, self.scn], env, self.o.get('run_timeout', 60))
        tr = Trace(); tr.ev = []; tr.end = None; tr.inp = {}; tr.val = {}; tr.err = err; tr.rc = rc
        raw = {}; order = []
        if os.path.exists(t):
            for line in open(t, errors='replace'):
                w = line.split()
                if not w: continue
                c = w[0]
                if c == 'E': tr.ev.append(w[1:])
                elif c == 'N': raw[int(w[1])] = tuple(int(x) for x in w[2:]); order.append(int(w[1]))
                elif c == 'I': tr.inp[int(w[1])] = (w[3], int(w[2]), float(w[4]), float(w[5]))
                elif c == 'V': self.cov.add(line[2:].strip())
                elif c == 'L': 
                    k = line.split(None, 2)[2].strip(); self.leaks[k] = self.leaks.get(k, 0) + int(w[1])
                elif c == 'END':
                    tr.end = w[1]; self.st['ops'] += int(w[2].split('=')[1])
        # intern
        m = {0: 0}
        for n in order:
            op, ty, a, b, cc, v = raw[n]
            if op == INPUT:
                name, ity, lo, hi = tr.inp[n]
                key = (INPUT, ty, name, 0, 0)
            elif op == CONST: key = (CONST, ty, 0, 0, cc)
            elif TRUNC <= op <= UITOFP: key = (op, ty, m[a], b, cc)
            else:
                x, y = m.get(a, 0), m.get(b, 0)
                key = (op, ty, x, y, cc)
            g = self.ix.get(key)
            if g is None:
                g = len(self.nodes); self.nodes.append(key); self.ix[key] = g
                if op == INPUT: self.inputs[name] = (g, ty, lo, hi)
            m[n] = g; tr.val[g] = v
        for e in tr.ev:
            if e[0] in ('b', 'c', 'a'): e[1] = m[int(e[1])]
            elif e[0] in ('k', 'q'): e[2] = m[int(e[2])]
            elif e[0] in ('e', 'l', 'i'): e[2] = m[int(e[2])]; e[3] = m[int(e[3])]
            elif e[0] == 'd': e[2] = m[int(e[2])]; e[3] = m[int(e[3])]; e[4] = m[int(e[4])]
        tr.inputs_used = {nm: (d2f(raw[n][5]) if ty >= 1000 else sgn(raw[n][5], ty)) for n, (nm, ty, lo, hi) in tr.inp.items() if n in raw}
        return tr
    def runnat(self, inputs):
        t = os.path.join(self.tmp, 'ntr'); i = os.path.join(self.tmp, 'nin')
        with open(i, 'w') as f:
            for k, v in inputs.items(): f.write('%s %s\n' % (k, v if isinstance(v, int) else repr(float(v))))
        if os.path.exists(t): os.unlink(t)
        env = dict(os.environ, SX_TRACE=t, SX_INPUT=i, ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:new_delete_type_mismatch=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=0')
        self.st['native_runs'] += 1
        rc, err = run([self.nat, self.scn], env, self.o.get('run_timeout', 60) * 2)
        tr = Trace(); tr.ev = []; tr.end = None; tr.err = err; tr.rc = rc
        if os.path.exists(t):
            for line in open(t, errors='replace'):
                w = line.split()
                if not w: continue
                if w[0] == 'E': tr.ev.append(w[1:])
                elif w[0] == 'END': tr.end = w[1]
        return tr
    # ------------------------------------------------------------ z3 encoding
    def zin(self, g):
        _, ty, name, _, _ = self.nodes[g]
        return z3.Real(name) if ty >= 1000 else z3.BitVec(name, ty)
    def bounds(self):
        r = []
        for name, (g, ty, lo, hi) in self.inputs.items():
            v = self.zin(g)
            if ty >= 1000: r += [v >= qv(Fraction(repr(lo))), v <= qv(Fraction(repr(hi)))]
            else: r += [v >= z3.BitVecVal(int(lo), ty), v <= z3.BitVecVal(int(hi), ty)]
        return r
    def enc(self, g):
        c = self.z3c.get(g)
        if c is not None: return c
        st = [g]
        while st:
            x = st[-1]
            if x in self.z3c: st.pop(); continue
            op, ty, a, b, cc = self.nodes[x]
            deps = []
            if op not in (CONST, INPUT):
                if a and a not in self.z3c: deps.append(a)
                if not (TRUNC <= op <= UITOFP) and b and b not in self.z3c: deps.append(b)
            if deps: st.extend(deps); continue
            st.pop()
            self.z3c[x] = self.enc1(x, op, ty, a, b, cc)
        return self.z3c[g]
    def ax(self, g, *l): self.axioms.setdefault(g, []).extend(l)
    def enc1(self, g, op, ty, a, b, cc):
        Z = self.z3c
        if op == INPUT: return self.zin(g)
        if op == CONST:
            if ty >= 1000:
                s = snap(d2f(cc))
                if s[0] == 'q': return qv(s[1])
                v = z3.Real('cs!%d' % g); self.ax(g, v * v == qv(s[2]), v > 0 if s[1] > 0 else v < 0); return v
            if ty == 1: return z3.BoolVal(bool(cc & 1))
            return z3.BitVecVal(cc, ty)
        if op == FADD: return Z[a] + Z[b]
        if op == FSUB: return Z[a] - Z[b]
        if op == FMUL: return Z[a] * Z[b]
        if op == FDIV: return Z[a] / Z[b]
        if op == FNEG: return -Z[a]
        if FCMP <= op < FCMP + 16:
            p = op - FCMP
            k = self.nfcmp(a, b)
            if k is not None: return z3.BoolVal(k == 0 if p == 1 else k < 0)
            return {1: lambda: Z[a] == Z[b], 4: lambda: Z[a] < Z[b]}[p]()
        if ICMP <= op < ICMP + 10:
            p = op - ICMP; x, y = Z[a], Z[b]
            if cc == 1:
                x = b2bv(x); y = b2bv(y)
            return [lambda: x == y, lambda: x != y, lambda: z3.UGT(x, y), lambda: z3.UGE(x, y), lambda: z3.ULT(x, y), lambda: z3.ULE(x, y), lambda: x > y, lambda: x >= y, lambda: x < y, lambda: x <= y][p]()
        if ty == 1 and op in (AND, OR, XOR):
            return {AND: z3.And, OR: z3.Or, XOR: z3.Xor}[op](Z[a], Z[b])
        if op in (ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR):
            x, y = Z[a], Z[b]
            return {ADD: lambda: x + y, SUB: lambda: x - y, MUL: lambda: x * y, UDIV: lambda: z3.UDiv(x, y), SDIV: lambda: x / y, UREM: lambda: z3.URem(x, y), SREM: lambda: z3.SRem(x, y), SHL: lambda: x << y, LSHR: lambda: z3.LShR(x, y), ASHR: lambda: x >> y, AND: lambda: x & y, OR: lambda: x | y, XOR: lambda: x ^ y}[op]()
        if op == TRUNC:
            r = z3.Extract(ty - 1, 0, Z[a]); return r == z3.BitVecVal(1, 1) if ty == 1 else r
        if op == ZEXT: return z3.If(Z[a], z3.BitVecVal(1, ty), z3.BitVecVal(0, ty)) if b == 1 else z3.ZeroExt(ty - b, Z[a])
        if op == SEXT: return z3.If(Z[a], z3.BitVecVal(-1, ty), z3.BitVecVal(0, ty)) if b == 1 else z3.SignExt(ty - b, Z[a])
        if op in (SITOFP, UITOFP):
            if b == 1: return z3.If(Z[a], qv(Fraction(-1 if op == SITOFP else 1)), qv(Fraction(0)))
            return z3.ToReal(z3.BV2Int(Z[a], is_signed=(op == SITOFP)))
        if op in (FPTOSI, FPTOUI):
            i = z3.If(Z[a] >= 0, z3.ToInt(Z[a]), -z3.ToInt(-Z[a])); return z3.Int2BV(i, ty)
        if op == EXTRACT: return z3.Extract(cc + ty - 1, cc, Z[a])
        if op == CONCAT: return z3.Concat(Z[a], Z[b])
        if op >= FUNC:
            n = FUNCS[op - FUNC]; x = Z[a]
            if n == 'fabs': return z3.If(x >= 0, x, -x)
            if n == 'floor': return z3.ToReal(z3.ToInt(x))
            if n == 'ceil': return -z3.ToReal(z3.ToInt(-x))
            if n == 'trunc': return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
            v = z3.Real('f!%d' % g)
            if n == 'sqrt': self.ax(g, z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            elif n == 'pow':
                p = Z[b]
                self.ax(g, z3.Implies(x > 0, v > 0), z3.Implies(z3.And(x == 0, p > 0), v == 0), z3.Implies(x == 1, v == 1), z3.Implies(p == 0, v == 1), z3.Implies(p == 1, v == x),
                        z3.Implies(z3.And(x > 0, x < 1, p > 0), v < 1), z3.Implies(z3.And(x > 1, p > 0), v > 1), z3.Implies(z3.And(x >= 0, x <= 1, p >= 1), v <= x),
                        z3.Implies(z3.And(x > 0, x < 1, p < 0), v > 1), z3.Implies(z3.And(x > 1, p < 0), v < 1))
                c = self.nodes[b]
                if c[0] == CONST:
                    s = snap(d2f(c[4]))
                    if s[0] == 'q' and s[1].denominator <= 6 and abs(s[1].numerator) <= 12:
                        q, nn = s[1].denominator, s[1].numerator
                        xp = x if q == 1 else z3.Real('r!%d' % g)
                        if q > 1: self.ax(g, z3.Implies(x >= 0, z3.And(xp >= 0, zpow(xp, q) == x)))
                        if nn >= 0: self.ax(g, z3.Implies(z3.Or(x >= 0, z3.BoolVal(q == 1)), v == zpow(xp, nn)))
                        else: self.ax(g, z3.Implies(z3.Or(x > 0, z3.And(x != 0, z3.BoolVal(q == 1))), v * zpow(xp, -nn) == 1))
                for h, k2 in list(self.z3f.get('pow', {}).items()):
                    if self.nodes[h][2] == a:
                        pass
                    if self.nodes[h][3] == b: # same exponent: monotone in the base
                        y, w = Z[self.nodes[h][2]], k2
                        self.ax(g, z3.Implies(z3.And(p > 0, x >= 0, y >= 0), z3.And((x < y) == (v < w), (x == y) == (v == w))))
                self.z3f.setdefault('pow', {})[g] = v
            elif n == 'exp':
                self.ax(g, v > 0, z3.Implies(x == 0, v == 1), v >= 1 + x, z3.Implies(x < 0, v < 1), z3.Implies(x > 0, v > 1))
                for h, w in list(self.z3f.get('exp', {}).items()):
                    y = Z[self.nodes[h][2]]
                    self.ax(g, (x < y) == (v < w), (x == y) == (v == w), z3.Implies(x == -y, v * w == 1))
                self.z3f.setdefault('exp', {})[g] = v
            elif n == 'tanh':
                self.ax(g, v > -1, v < 1, (x > 0) == (v > 0), (x < 0) == (v < 0))
                for h, w in list(self.z3f.get('tanh', {}).items()):
                    y = Z[self.nodes[h][2]]
                    self.ax(g, (x < y) == (v < w), (x == y) == (v == w), (x == -y) == (v == -w), (-y < x) == (-w < v))
                self.z3f.setdefault('tanh', {})[g] = v
            elif n in ('sin', 'cos'):
                self.ax(g, v >= -1, v <= 1)
            elif n == 'log': self.ax(g, z3.Implies(x == 1, v == 0), z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0), z3.Implies(x > 0, v <= x - 1))
            elif n == 'acos': self.ax(g, v >= 0, v <= qv(Fraction(22, 7)))
            return v
        if op == FREM:
            v = z3.Real('frem!%d' % g); return v
        raise NotImplementedError('op %d' % op)
    z3f = None
    def nfcmp(self, a, b):
        """a - b when its normal form is a constant (where a and b are defined), else None"""
        if self.cmp_s > 20: return None
        t = time.time(); keep = set(self.nfbad); self.nf.ranges = self.inputs; old = self.nf.t_end; self.nf.t_end = t + 1
        try: k = self.nf.as_const(self.nf.sub(self.norm(a), self.norm(b)))
        except (TooBig, NotImplementedError, ZeroDivisionError, RecursionError): k = None; self.nfbad = keep
        self.cmp_s += time.time() - t; self.nf.t_end = old
        return k
    def cone(self, gs):
        seen = set(); st = list(gs)
        while st:
            x = st.pop()
            if not x or x in seen: continue
            seen.add(x); op, ty, a, b, cc = self.nodes[x]
            if op in (CONST, INPUT): continue
            st.append(a)
            if not (TRUNC <= op <= UITOFP): st.append(b)
        return seen
    def solve(self, gs_terms, extra=(), timeout=None, model=False):
        """gs_terms: list of (gid, bool) path condition literals; extra: z3 formulas with the gids they mention"""
        cs = []; gs = []
        for g, v in gs_terms:
            if isinstance(v, bool): cs.append(self.enc(g) if v else z3.Not(self.enc(g)))
            else: cs.append(self.enc(g) == z3.BitVecVal(v, self.nodes[g][1]))
            gs.append(g)
        ex = []
        for f, deps in extra:
            ex.append(f); gs += list(deps)
        c = self.cone(gs)
        axs = [a for g in c for a in self.axioms.get(g, ())]
        for nz in self.nonzero_facts(c): axs.append(nz)
        used = set(self.nodes[g][2] for g in c if self.nodes[g][0] == INPUT)
        bnd = []
        for name, (g, ty, lo, hi) in self.inputs.items():
            if name not in used: continue
            v = self.zin(g)
            if ty >= 1000: bnd += [v >= qv(Fraction(repr(lo))), v <= qv(Fraction(repr(hi)))]
            else: bnd += [v >= z3.BitVecVal(int(lo), ty), v <= z3.BitVecVal(int(hi), ty)]
        return self.z3check(bnd + axs + cs + ex, timeout, model)
    def nonzero_facts(self, c):
        return []
    def z3check(self, fs, timeout=None, model=False):
        t0 = time.time(); to = timeout or self.qto
        rem = int((self.deadline - t0) * 1000)
        if rem < 200: 
            self.st['queries'] += 1; self.st['unknown'] += 1
            return ('unknown', None)
        s = z3.Solver(); s.set('timeout', min(to, rem)); s.add(*fs)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        m = None
        if r == z3.sat and model: m = s.model()
        self.st['queries'] += 1; self.st['solver_s'] += time.time() - t0
        r = str(r); self.st[r] += 1
        return (r, m)
    def model_inputs(self, m, base):
        out = dict(base)
        for name, (g, ty, lo, hi) in self.inputs.items():
            v = m.eval(self.zin(g), model_completion=False)
            if ty >= 1000:
                if z3.is_rational_value(v): out[name] = float(v.as_fraction())
                elif z3.is_algebraic_value(v): out[name] = float(v.approx(30).as_fraction())
            elif z3.is_bv_value(v):
                out[name] = sgn(v.as_long(), ty)
        return out
    # ------------------------------------------------------------ normal form
    def norm(self, g):
        c = self.nfc.get(g)
        if c is not None: return c
        N = self.nf; st = [g]
        while st:
            x = st[-1]
            if x in self.nfc: st.pop(); continue
            if x in self.nfbad: raise TooBig('known')
            op, ty, a, b, cc = self.nodes[x]
            deps = []
            real = ty >= 1000
            if op not in (CONST, INPUT) and op not in (SITOFP, UITOFP) and real:
                if a and a not in self.nfc: deps.append(a)
                if b and b not in self.nfc: deps.append(b)
            if deps: st.extend(deps); continue
            st.pop(); C = self.nfc
            try: C[x] = self.norm1(x, op, ty, a, b, cc, N, C)
            except TooBig: self.nfbad.add(x); raise
        return self.nfc[g]
    def norm1(self, x, op, ty, a, b, cc, N, C):
            if op == INPUT: r = N.atomv(('in', cc if False else self.nodes[x][2]), x)
            elif op == CONST:
                s = snap(d2f(cc))
                r = N.const(s[1]) if s[0] == 'q' else N.mul(N.const(s[1]), N.root(N.const(s[2]), 2))
            elif op == FADD: r = N.add(C[a], C[b])
            elif op == FSUB: r = N.sub(C[a], C[b])
            elif op == FMUL: r = N.mul(C[a], C[b])
            elif op == FDIV: r = N.div(C[a], C[b])
            elif op == FNEG: r = N.neg(C[a])
            elif op >= FUNC: r = N.func(FUNCS[op - FUNC], C[a], C[b] if b else None)
            elif op == FREM: r = N.atomv(('f:frem', N.key(C[a]), N.key(C[b])), C[a], C[b])
            else: r = N.atomv(('int', x), x)
            return r
    def nf_z3(self, poly):
        """polynomial over atoms -> (z3 expr, axioms, nonzero conditions)"""
        seen = {}; ax = []
        def atom(i):
            if i in seen: return seen[i]
            k = self.nf.atoms[i]
            if k[0] == 'in': v = z3.Real(k[1])
            else:
                v = z3.Real('n!%d' % i); seen[i] = v
                if k[0] == 'root':
                    n, d = P(k[3][0]), D(k[3][1])
                    ax.append(v >= 0); ax.append(zpow(v, k[1]) * d == n)
                elif k[0] == 'exp': ax.append(v > 0)
                elif k[0] == 'pow':
                    n, d = P(k[3][0]), D(k[3][1]); ax.append(z3.Implies(n * d > 0, v > 0))
                    pn, pd = P(k[4][0]), D(k[4][1])
                    ax.append(z3.Implies(pn == pd, v * d == n)); ax.append(z3.Implies(pn == 0, v == 1)); ax.append(z3.Implies(pn == 2 * pd, v * d * d == n * n)); ax.append(z3.Implies(z3.And(n == 0, pn * pd > 0), v == 0))
                elif k[0] in ('sin', 'cos'): ax.extend([v <= 1, v >= -1])
                elif k[0] == 'int':
                    ax.append(v == self.enc(k[2])); 
                    for g in self.cone([k[2]]): ax.extend(self.axioms.get(g, ()))
            seen[i] = v
            return v
        def P(p):
            ts = []
            for m, c in p.items():
                t = qv(c)
                for a, e in m: t = t * zpow(atom(a), e)
                ts.append(t)
            return z3.Sum(ts) if ts else qv(Fraction(0))
        def D(d):
            r = qv(Fraction(1))
            for k, e in d.items():
                f = P(self.nf.factors[k]); ax.append(f != 0); r = r * zpow(f, e)
            return r
        e = P(poly)
        return e, ax
    # ------------------------------------------------------------ float evaluation of the DAG
    def feval(self, gs, inputs):
        val = {}
        order = sorted(self.cone(gs))
        # nodes are interned children first
        for x in order:
            op, ty, a, b, cc = self.nodes[x]
            try: val[x] = self.fe1(op, ty, a, b, cc, val, inputs)
            except (ZeroDivisionError, ValueError, OverflowError): val[x] = float('nan')
        return val
    def fe1(self, op, ty, a, b, cc, V, inputs):
        if op == INPUT:
            return inputs[a] if ty >= 1000 else inputs[a] & ((1 << ty) - 1)
        if op == CONST: return d2f(cc) if ty >= 1000 else cc & ((1 << ty) - 1)
        if op == FADD: return V[a] + V[b]
        if op == FSUB: return V[a] - V[b]
        if op == FMUL: return V[a] * V[b]
        if op == FDIV: return V[a] / V[b]
        if op == FREM: return math.fmod(V[a], V[b])
        if op == FNEG: return -V[a]
        if FCMP <= op < FCMP + 16: return int(V[a] == V[b]) if op == FCMP + 1 else int(V[a] < V[b])
        M = (1 << ty) - 1 if ty < 1000 else 0
        if ICMP <= op < ICMP + 10:
            x, y = V[a], V[b]; sx, sy = sgn(x, cc), sgn(y, cc)
            return int([x == y, x != y, x > y, x >= y, x < y, x <= y, sx > sy, sx >= sy, sx < sy, sx <= sy][op - ICMP])
        if op == ADD: return (V[a] + V[b]) & M
        if op == SUB: return (V[a] - V[b]) & M
        if op == MUL: return (V[a] * V[b]) & M
        if op == UDIV: return V[a] // V[b]
        if op == UREM: return V[a] % V[b]
        if op == SDIV: return int(Fraction(sgn(V[a], ty), sgn(V[b], ty))) & M
        if op == SREM: return int(math.fmod(sgn(V[a], ty), sgn(V[b], ty))) & M
        if op == SHL: return (V[a] << V[b]) & M
        if op == LSHR: return V[a] >> V[b]
        if op == ASHR: return (sgn(V[a], ty) >> V[b]) & M
        if op == AND: return V[a] & V[b]
        if op == OR: return V[a] | V[b]
        if op == XOR: return V[a] ^ V[b]
        if op == TRUNC: return V[a] & M
        if op == ZEXT: return V[a]
        if op == SEXT: return sgn(V[a], b) & M
        if op == SITOFP: return float(sgn(V[a], b))
        if op == UITOFP: return float(V[a])
        if op in (FPTOSI, FPTOUI): return int(V[a]) & M
        if op == EXTRACT: return (V[a] >> cc) & M
        if op == CONCAT: return (V[a] << self.nodes[b][1]) | V[b]
        n = FUNCS[op - FUNC]; x = V[a]
        if n == 'fabs': return abs(x)
        if n == 'cbrt': return math.copysign(abs(x) ** (1/3), x)
        if n == 'exp2': return 2.0 ** x
        if n == 'round': return math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5)
        if n in ('floor', 'ceil', 'trunc'): return float(getattr(math, n)(x))
        if b: return getattr(math, n)(x, V[b])
        return getattr(math, n)(x)
    # ------------------------------------------------------------ exploration
    def explore(self):
        self.z3f = {}
        work = [([], {})]
        maxp = self.o.get('max_paths', 400)
        done_checks = set()
        while work:
            if time.time() > self.deadline or self.st['paths'] >= maxp:
                self.note('exploration cut: %d unexplored prefixes' % len(work)); self.st['undecided'] += 1
                self.undecided.append('paths-not-explored'); break
            prefix, inp = work.pop()
            tr = self.runsym(prefix, inp)
            if tr.end is None or tr.end == 'diverge' or tr.end == 'maxevents':
                self.note('run ended %s rc=%s %s' % (tr.end, tr.rc, tr.err[-300:])); self.undecided.append('run:%s' % tr.end); self.st['undecided'] += 1
                if tr.rc == 'timeout':
                    # hang candidate: replay natively
                    self.replay_end(tr, inp, 'terminates')
                if tr.end is None: continue
            self.st['paths'] += 1
            inputs = dict(tr.inputs_used)
            for k, v in inp.items(): inputs.setdefault(k, v)
            consistent = all(lo <= inputs.get(nm, lo) <= hi for nm, (g, ty, lo, hi) in self.inputs.items() if nm in inputs)
            pc = []; nd = 0; dead = False; idx = -1
            for e in tr.ev:
                idx += 1
                if e[0] == 'x': dead = True; break
                if e[0] == 'a':
                    if tr.val.get(e[1], 1) & 1 == 0: consistent = False
                    pc.append((e[1], True))
                elif e[0] in ('b', 'c'):
                    nd += 1; self.st['branches'] += 1
                    if e[0] == 'b': taken = e[2] == '1'; lit = (e[1], taken); neg = (e[1], not taken)
                    else: taken = int(e[2]); lit = (e[1], taken); neg = None
                    if tr.val.get(e[1]) is None: match = True
                    else: match = (bool(tr.val[e[1]] & 1) == taken) if e[0] == 'b' else (tr.val[e[1]] == taken)
                    if not match: consistent = False
                    if nd > len(prefix):
                        # flip
                        base = [('b1' if x[2] == '1' else 'b0') if x[0] == 'b' else 'c' + x[2] for x in tr.ev[:idx] if x[0] in 'bc']
                        if e[0] == 'b':
                            r, m = self.solve(pc + [neg], model=True)
                            self.st['flips_' + r] += 1
                            if r != 'unsat':
                                work.append((base + ['b0' if taken else 'b1'], self.model_inputs(m, inputs) if m else inputs))
                        else:
                            # enumerate all other feasible concretisations
                            seen = [taken]
                            while True:
                                ex = [(z3.And([self.enc(e[1]) != z3.BitVecVal(v, self.nodes[e[1]][1]) for v in seen]), [e[1]])]
                                r, m = self.solve(pc, extra=ex, model=True); self.st['flips_' + r] += 1
                                if r != 'sat' or len(seen) > 300:
                                    if r == 'unknown': self.undecided.append('concretisation')
                                    break
                                v = m.eval(self.enc(e[1]), model_completion=True).as_long(); seen.append(v)
                                work.append((base + ['c%d' % v], self.model_inputs(m, inputs)))
                        if not consistent:
                            r, _ = self.solve(pc + [lit])
                            if r == 'unsat': dead = True; break
                    pc.append(lit)
            if dead: self.st['dead'] += 1; continue
            checks = [e for e in tr.ev if e[0] in 'keliqd']
            if not consistent:
                r, m = self.solve(pc, model=True, timeout=self.qto * 2)
                if r == 'unsat': self.st['dead'] += 1; continue
                if r == 'sat':
                    cand = self.model_inputs(m, inputs)
                    if self.sat_point(pc, cand): inputs = cand; consistent = True
                if not consistent:
                    p = self.find_point(pc, inputs)
                    if p: inputs = p; consistent = True
            if tr.end and tr.end.startswith('signal'):
                self.replay_end(tr, inputs, 'no-crash:' + tr.end, pc=pc, consistent=consistent)
            self.discharge(tr, pc, checks, inputs, consistent, done_checks)
            if consistent: self.validate(tr, inputs, pc)
            if self.enough(): break
        self.st['nodes'] = len(self.nodes) - 1
        shutil.rmtree(self.tmp, ignore_errors=True)
        return self
    def note(self, s):
        if len(self.notes) < 20: self.notes.append(s)
    def sat_point(self, pc, inputs):
        if not self.complete(inputs): return False
        for nm, (g, ty, lo, hi) in self.inputs.items():
            if not (lo <= inputs[nm] <= hi): return False
        v = self.feval([g for g, _ in pc], inputs)
        for g, t in pc:
            x = v[g]
            if x != x: return False
            if isinstance(t, bool):
                if bool(x) != t: return False
            elif x != t: return False
        return True
    def complete(self, inputs):
        for nm, (g, ty, lo, hi) in self.inputs.items():
            if nm not in inputs: inputs[nm] = (lo + hi) / 2 if ty >= 1000 else int(lo)
        return True
    def rand_point(self, base, k):
        p = dict(base)
        for nm, (g, ty, lo, hi) in self.inputs.items():
            if k % 3 == 2 and self.rng.random() < 0.5 and nm in base: continue
            if ty >= 1000:
                m = k % 4
                if m == 1: p[nm] = self.rng.choice([lo, hi, (lo + hi) / 2, max(lo, min(hi, 0.0)), max(lo, min(hi, 1.0)), lo + (hi - lo) * self.rng.random()])
                else: p[nm] = lo + (hi - lo) * self.rng.random()
            else: p[nm] = self.rng.randint(int(lo), int(hi))
        return p
    def find_point(self, pc, base, n=200):
        for k in range(n):
            p = self.rand_point(base, k)
            if self.sat_point(pc, p): return p
        return None
    # ------------------------------------------------------------ obligations
    def discharge(self, tr, pc, checks, inputs, consistent, done):
        pckey = tuple(pc)
        failing = []
        for e in checks:
            self.st['checks'] += 1
            lab = e[1]
            L = self.labels.setdefault(lab, {'kind': e[0], 'paths': 0, 'reached_sat': 0, 'proved': 0})
            L['paths'] += 1
            if consistent: L['reached_sat'] += 1
            key = (lab, e[0], tuple(e[2:5]) if e[0] == 'd' else tuple(e[2:4]) if e[0] in 'eli' else e[2])
            r = self.decide(e, pc, inputs, consistent)
            if r == 'proved': self.st['proved'] += 1; L['proved'] += 1
            elif r == 'trivial-fail' or r == 'sat' or r == 'unknown' or isinstance(r, dict): failing.append((e, r))
        for e, r in failing:
            self.handle(e, r, pc, inputs, consistent)
            if self.enough(): return
    def decide(self, e, pc, inputs, consistent):
        k = e[0]
        if k == 'k':
            if not e[2]: 
                if e[3] == '1': return 'proved'
                return 'trivial-fail'
            r, m = self.solve(pc, extra=[(z3.Not(self.enc(e[2])), [e[2]])], model=True)
        elif k == 'i':
            if e[2] == e[3]: return 'proved'
            r, m = self.solve(pc, extra=[(self.enc(e[2]) != self.enc(e[3]), [e[2], e[3]])], model=True)
        elif k == 'l':
            if e[2] == e[3]: return 'proved'
            r, m = self.solve(pc, extra=[(self.enc(e[2]) > self.enc(e[3]), [e[2], e[3]])], model=True)
            if r == 'unknown':
                d = self.try_nf(lambda: self.nf.sub(self.norm(e[3]), self.norm(e[2])))
                if d is not None:
                    try:
                        n, ax = self.nf_z3(d[0]); dp = self.nf.dpoly(d[1]); dd, ax2 = self.nf_z3(dp)
                        r, m = self.solve(pc, extra=[(z3.And(ax + ax2 + [n * dd < 0]), [e[2], e[3]])], model=True)
                    except TooBig: pass
        elif k == 'q':
            if self.nodes[e[2]][0] == CONST: return 'proved'
            d = self.try_nf(lambda: self.norm(e[2]))
            if d is not None and self.nf.as_const(d) is not None: return self.z3triv({})
            return 'trivial-fail'
        elif k in ('e', 'd'):
            if k == 'e' and e[2] == e[3]:
                self.z3triv({}); return self.domain(e, pc, inputs, consistent)
            if k == 'e': d = self.try_nf(lambda: self.nf.sub(self.norm(e[2]), self.norm(e[3])))
            else:
                d = self.try_nf(lambda: self.deriv_diff(e))
                if d is None: self.note('deriv %s: no normal form' % e[1]); return 'unknown'
            if d is not None and not d[0]:
                self.z3triv({}); return self.domain(e, pc, inputs, consistent)
            # quick concrete refutation before asking the solver for a general model
            if consistent:
                p = self.refute(e, pc, inputs)
                if p: return p
            if k == 'e':
                r, m = self.solve(pc, extra=[(self.enc(e[2]) != self.enc(e[3]), [e[2], e[3]])], model=True)
            else: r, m = 'unknown', None
            if r == 'unknown' and d is not None:
                n, ax = self.nf_z3(d[0])
                r, m = self.solve(pc, extra=[(z3.And(ax + [n != 0]), [x for x in e[2:4]])], model=True)
        if r == 'unsat': return 'proved'
        if r == 'sat':
            return {'model': self.model_inputs(m, inputs)}
        return 'unknown'
    def deriv_diff(self, e):
        var = self.norm(e[4]); a = list(var[0])[0][0][0]
        if len(var[0]) != 1 or self.nf.atoms[a][0] != 'in': raise NotImplementedError('derivative variable is not an input')
        return self.nf.sub(self.norm(e[2]), self.nf.diff(self.norm(e[3]), a))
    def try_nf(self, f):
        t0 = time.time(); self.nf.ranges = self.inputs; self.nf.t_end = t0 + self.o.get('nf_time', 20)
        try: return f()
        except (TooBig, NotImplementedError, ZeroDivisionError, RecursionError) as x:
            self.note('nf: %s %s' % (type(x).__name__, x)); return None
        finally: self.st['nf_s'] += time.time() - t0
    def z3triv(self, poly):
        n, ax = self.nf_z3(poly)
        r, _ = self.z3check(ax + [n != 0], 1000)
        return 'proved' if r == 'unsat' else 'unknown'
    def domain(self, e, pc, inputs, consistent):
        """the equality was shown where the expressions are defined; now: are they defined on the whole path?"""
        if not self.o.get('domain', True): return 'proved'
        c = self.cone([x for x in e[2:4]])
        pk = tuple(sorted(set(pc), key=str))
        for g in sorted(c):
            op, ty, a, b, cc = self.nodes[g]
            cond = None
            if op == FDIV and self.nodes[b][0] != CONST: cond = lambda: self.enc(b) == 0
            elif op == FUNC and self.nodes[a][0] != CONST: cond = lambda: self.enc(a) < 0
            elif op == FUNC + 3: cond = lambda: self.enc(a) <= 0
            if cond is None: continue
            key = (g, pk)
            if key in self.nonzero or (g, None) in self.nonzero: continue
            # first without the path condition (cheap, reusable), then with it
            self.st['domain_queries'] += 1
            r, m = self.solve([x for x in pc if False], extra=[(cond(), [g])], timeout=1500)
            if r == 'unsat': self.nonzero.add((g, None)); continue
            r, m = self.solve(pc, extra=[(cond(), [g])], timeout=4000, model=True)
            if r == 'unsat': self.nonzero.add(key); continue
            self.nonzero.add(key)
            self.st['domain_open'] += 1
            if r == 'sat':
                p = self.model_inputs(m, inputs)
                if self.complete(p) and self.native_fails(e, p, nan_only=True): return {'model': p, 'why': 'undefined operation'}
            self.note('definedness of %s node %d not shown (%s)' % (e[1], g, r))
        return 'proved'
    def refute(self, e, pc, inputs):
        for k in range(-1, 24):
            p = dict(inputs) if k < 0 else self.rand_point(inputs, k)
            if k >= 0 and not self.sat_point(pc, p): continue
            if e[0] == 'e':
                v = self.feval([e[2], e[3]], p); a, b = v[e[2]], v[e[3]]
                if bad_eq(a, b): return {'model': p}
            elif e[0] == 'd':
                v = self.feval([e[2]], p); a = v[e[2]]
                nm = self.nodes[e[4]][2]; h = 1e-5 * max(1.0, abs(p[nm]))
                v1 = self.feval([e[3]], dict(p, **{nm: p[nm] + h}))[e[3]]; v0 = self.feval([e[3]], dict(p, **{nm: p[nm] - h}))[e[3]]
                fd = (v1 - v0) / (2 * h)
                if a == a and fd == fd and abs(a - fd) > 1e-4 * max(1e-2, abs(a), abs(fd)): return {'model': p}
        return None
    def native_fails(self, e, p, nan_only=False):
        tr = self.runnat(p)
        lab = e[1] if e else None
        if tr.end is None or tr.end.startswith('signal') or tr.end == 'sanitizer':
            return 'native run ended %s: %s' % (tr.end, summarize(tr.err))
        if tr.end == 'assume-false': return None
        if e is None: return None
        hits = [x for x in tr.ev if x[1] == lab and x[0] == e[0]]
        if not hits: 
            return None
        for x in hits:
            if x[0] == 'k':
                if x[2] == '0': return 'assertion false'
            elif x[0] == 'i':
                if x[2] != x[3]: return '%s != %s' % (x[2], x[3])
            elif x[0] == 'e':
                a, b = float(x[2]), float(x[3])
                if bad_eq(a, b) and (not nan_only or a != a or b != b or math.isinf(a) or math.isinf(b)): return '%r != %r' % (a, b)
            elif x[0] == 'l':
                a, b = float(x[2]), float(x[3])
                if a > b + 1e-9 * max(1, abs(a), abs(b)) or (a != a) != (b != b): return '%r > %r' % (a, b)
            elif x[0] == 'd':
                r = self.native_deriv(e, p, lab, float(x[2]))
                if r: return r
            elif x[0] == 'q':
                q2 = dict(p)
                for k in range(6):
                    q = self.rand_point(p, 0)
                    t2 = self.runnat(q)
                    for y in t2.ev:
                        if y[0] == 'q' and y[1] == lab and abs(float(y[2]) - float(x[2])) > 1e-9: return 'depends on inputs: %s vs %s' % (x[2], y[2])
        return None
    def native_deriv(self, e, p, lab, d):
        nm = self.nodes[e[4]][2]
        if nm not in p: return None
        fds = []
        for hs in (1e-4, 1e-5, 1e-6):
            h = hs * max(1.0, abs(p[nm])); f = []
            for s in (1, -1):
                t = self.runnat(dict(p, **{nm: p[nm] + s * h}))
                y = [x for x in t.ev if x[0] == 'd' and x[1] == lab]
                if not y: return None
                f.append(float(y[-1][3]))
            fds.append((f[0] - f[1]) / (2 * h))
        fd = fds[1]; err = max(abs(fds[0] - fds[1]), abs(fds[2] - fds[1]))
        tol = max(20 * err, 1e-5 * max(1e-2, abs(fd), abs(d)))
        if d != d or abs(d - fd) > tol: return 'derivative %r, finite difference %r' % (d, fd)
        return None
    def handle(self, e, r, pc, inputs, consistent):
        cands = []
        if isinstance(r, dict): cands.append(r['model'])
        if consistent: cands.append(dict(inputs))
        for p in cands:
            self.complete(p)
            w = self.native_fails(e, p)
            if w: self.violate(e[1], p, w); return
        # robust search near the model / on the path
        tries = self.o.get('replay_tries', 12)
        for k in range(tries * 5):
            p = self.rand_point(cands[0] if cands else inputs, k)
            if not self.sat_point(pc, p): continue
            tries -= 1
            if tries < 0: break
            w = self.native_fails(e, p)
            if w: self.violate(e[1], p, w); return
        self.st['undecided'] += 1
        self.undecided.append('%s (%s)' % (e[1], 'sat-not-reproduced' if isinstance(r, dict) else r))
    def replay_end(self, tr, inputs, label, pc=(), consistent=True):
        p = dict(inputs); self.complete(p)
        n = self.runnat(p)
        if n.rc == 'timeout': self.violate(label, p, 'native run does not terminate within the limit'); return
        if n.end is None or n.end.startswith('signal') or n.end == 'sanitizer':
            self.violate(label, p, 'native run ended %s rc=%s %s' % (n.end, n.rc, summarize(n.err)))
        else: self.note('symbolic run ended %s but native run ended %s' % (tr.end, n.end)); self.undecided.append(label)
    def enough(self):
        """recorded findings do not use up the number of violations reported per scenario"""
        return sum(not any(fnmatch.fnmatch(v['label'], k) for k in self.o.get('known', ())) for v in self.violations) >= self.o.get('max_viol', 3)
    def violate(self, label, p, why):
        if any(v['label'] == label for v in self.violations): return
        self.violations.append(dict(scenario=self.scn, label=label, inputs={k: p[k] for k in sorted(p)}, why=why))
    def validate(self, tr, inputs, pc):
        if self.st['validated'] >= self.o.get('max_validate', 60): return
        n = self.runnat(inputs)
        if n.rc == 'timeout': return
        if n.end is None or n.end.startswith('signal') or n.end == 'sanitizer':
            if not (tr.end or '').startswith('signal'):
                self.violate('memory-safety', inputs, 'native run ended %s rc=%s %s' % (n.end, n.rc, summarize(n.err)))
            return
        sy = [e for e in tr.ev if e[0] in 'keliqd']
        if len(sy) != len(n.ev) or any(a[0] != b[0] or a[1] != b[1] for a, b in zip(sy, n.ev)):
            # a path boundary hit by rounding is possible; do not count as validated
            self.note('native event sequence differs from the symbolic path'); return
        # compare operand values: encoding evaluated at the inputs vs the native program
        gs = [g for e in sy for g in (e[2:4] if e[0] in 'eld' else [])]
        v = self.feval(gs, inputs) if gs else {}
        for a, b in zip(sy, n.ev):
            if a[0] in 'el':
                for g, s in ((a[2], b[2]), (a[3], b[3])):
                    x, y = v[g], float(s)
                    if x == x and y == y and abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
                        self.note('ENCODING MISMATCH %s: %r vs native %r' % (a[1], x, y)); self.undecided.append('encoding-mismatch:' + a[1]); return
        self.st['validated'] += 1
        if len(self.samples) < 2:
            self.samples.append(dict(scenario=self.scn, inputs={k: inputs[k] for k in sorted(inputs)[:12]}, decisions=sum(1 for e in tr.ev if e[0] in 'bc'),
                                     checks=[' '.join(str(x) for x in b[:4]) for b in n.ev[:4]]))

def bad_eq(a, b):
    if a != a and b != b: return False
    if a != a or b != b: return True
    if math.isinf(a) or math.isinf(b): return a != b
    return abs(a - b) > 1e-7 * max(1e-3, abs(a), abs(b)) and abs(a - b) > 1e-10
def summarize(err):
    for l in err.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Kokkos::' in l: return l.strip()[:200]
    return err.strip().split('\n')[-1][:200] if err.strip() else ''
def qv(f): return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
def zpow(v, e):
    r = None
    for _ in range(e): r = v if r is None else r * v
    return r if r is not None else z3.RealVal(1)
def b2bv(x): return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v
def hash_str(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) & 0x7fffffff
    return h
def run_scenario(symexe, natexe, scn, opts):
    t0 = time.time()
    x = Explorer(symexe, natexe, scn, opts)
    try: x.explore()
    except Exception as ex:
        import traceback
        x.undecided.append('engine:%s' % ex); x.notes.append(traceback.format_exc()[-1500:])
        shutil.rmtree(x.tmp, ignore_errors=True)
    return dict(scenario=scn, stats=x.st, violations=x.violations, undecided=x.undecided, notes=x.notes, cov=sorted(x.cov), leaks=x.leaks, labels=x.labels, samples=x.samples,
                inputs={k: [v[2], v[3]] for k, v in x.inputs.items()}, wall=time.time() - t0)
if __name__ == '__main__':
    r = run_scenario(sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4]) if len(sys.argv) > 4 else {})
    print(json.dumps(r, indent=1))
