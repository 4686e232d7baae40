"""Rational-function normal form over Q with algebraic/transcendental atoms.

A value is (num, den): num a sparse polynomial {mono: Fraction}, den a dict {factor_id: exp}.
mono is a sorted tuple of (atom_id, exp).  Atoms: inputs, q-th roots, exp, symbolic powers, sin/cos, other.
The normal form is only used to hand the solver an equivalent, simpler negated obligation.
"""
import time
from fractions import Fraction
import math

class TooBig(Exception): pass
LIMIT = 60000

F0 = Fraction(0); F1 = Fraction(1)

_snap_cache = {}
def snap(c):
    """double constant -> ('q', Fraction) or ('s', sign, Fraction) meaning sign*sqrt(Fraction)"""
    r = _snap_cache.get(c)
    if r is None:
        r = _snap(c); _snap_cache[c] = r
    return r
def _snap(c):
    if c == int(c) and abs(c) < 2**60: return ('q', Fraction(int(c)))
    ex = Fraction(c)
    d = repr(c)
    digits = d.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 12: return ('q', Fraction(d))
    if ex.denominator <= 2**40: return ('q', ex)
    f = ex.limit_denominator(20000)
    if f != 0 and abs(f - ex) <= abs(ex) * Fraction(1, 10**15): return ('q', f)
    # product of a simple rational and a power of ten
    import sys
    s = ex * ex
    f = s.limit_denominator(20000)
    if f > 0 and abs(f - s) <= s * Fraction(1, 10**15): return ('s', 1 if c > 0 else -1, f)
    return ('q', ex)

class NF:
    def __init__(self):
        self.atoms = []      # info per atom: (kind, ...)
        self.atom_ix = {}
        self.factors = []    # polys (frozen dict), monic
        self.factor_ix = {}
        self.ranges = {}     # input name -> (.., .., lo, hi)
        self.t_end = None; self.sgn_c = {}
        self.ZERO = ({}, {}); self.ONE = ({(): F1}, {})
    # ---- atoms
    def atom(self, key, *payload):
        i = self.atom_ix.get(key)
        if i is None:
            i = len(self.atoms); self.atoms.append(key + payload); self.atom_ix[key] = i
        return i
    def const(self, f):
        return ({(): Fraction(f)}, {}) if f else ({}, {})
    def atomv(self, key, *payload): return ({((self.atom(key, *payload), 1),): F1}, {})
    # ---- polys
    def padd(self, p, q):
        if len(p) < len(q): p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v = v + c
                if v: r[m] = v
                else: del r[m]
        return r
    def mmul(self, a, b):
        if not a: return b
        if not b: return a
        r = []; i = j = 0; la = len(a); lb = len(b)
        while i < la and j < lb:
            x = a[i]; y = b[j]
            if x[0] == y[0]: r.append((x[0], x[1] + y[1])); i += 1; j += 1
            elif x[0] < y[0]: r.append(x); i += 1
            else: r.append(y); j += 1
        r.extend(a[i:]); r.extend(b[j:])
        return tuple(r)
    def pmul(self, p, q):
        if not p or not q: return {}
        if len(p) * len(q) > LIMIT * 40: raise TooBig()
        if self.t_end and len(p) * len(q) > 500 and time.time() > self.t_end: raise TooBig('time')
        r = {}
        mm = self.mmul
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mm(m1, m2); c = c1 * c2
                v = r.get(m)
                if v is None: r[m] = c
                else:
                    v = v + c
                    if v: r[m] = v
                    else: del r[m]
        if len(r) > LIMIT: raise TooBig()
        return r
    def ppow(self, p, n):
        r = {(): F1}
        for _ in range(n): r = self.pmul(r, p)
        return r
    def factor(self, p):
        """intern monic version; returns (id, leading coefficient)"""
        items = sorted(p.items()); lc = items[0][1]
        key = tuple((m, c / lc) for m, c in items)
        i = self.factor_ix.get(key)
        if i is None:
            i = len(self.factors); self.factors.append(dict(key)); self.factor_ix[key] = i
        return i, lc
    # ---- reduction of atoms with algebraic relations
    def needs_red(self, p):
        for m in p:
            for a, e in m:
                k = self.atoms[a]
                if k[0] == 'root' and e >= k[1]: return True
                if k[0] == 'sin' and e >= 2: return True
        return False
    def reduce(self, v):
        while self.needs_red(v[0]):
            groups = {}
            for m, c in v[0].items():
                hit = None
                for ix, (a, e) in enumerate(m):
                    k = self.atoms[a]
                    if (k[0] == 'root' and e >= k[1]) or (k[0] == 'sin' and e >= 2): hit = (ix, a, e, k); break
                if hit is None:
                    groups.setdefault(None, {})[m] = c; continue
                ix, a, e, k = hit
                q = k[1] if k[0] == 'root' else 2
                n, r = divmod(e, q)
                m2 = m[:ix] + (((a, r),) if r else ()) + m[ix+1:]
                g = groups.setdefault((a, n), {})
                g[m2] = g.get(m2, F0) + c
                if not g[m2]: del g[m2]
            acc = (groups.pop(None, {}), {})
            for (a, n), p in groups.items():
                k = self.atoms[a]
                if k[0] == 'root': base = k[3]
                else:
                    cs = self.atomv(('cos', k[1]), k[2])
                    base = self.sub(self.ONE, self._mul(cs, cs))
                t = (p, {})
                for _ in range(n): t = self._mul(t, base)
                acc = self.add(acc, t)
            v = (acc[0], self._dmul(acc[1], v[1]))
        return v
    def _dmul(self, a, b):
        if not a: return b
        if not b: return a
        r = dict(a)
        for k, e in b.items(): r[k] = r.get(k, 0) + e
        return r
    def dpoly(self, den):
        r = {(): F1}
        for k, e in sorted(den.items()):
            r = self.pmul(r, self.ppow(self.factors[k], e))
        return r
    # ---- field operations
    def add(self, x, y):
        if not x[0]: return y
        if not y[0]: return x
        if x[1] == y[1]: return self.cancel((self.padd(x[0], y[0]), x[1]))
        l = dict(x[1])
        for k, e in y[1].items(): l[k] = max(l.get(k, 0), e)
        fx = {k: e - x[1].get(k, 0) for k, e in l.items() if e > x[1].get(k, 0)}
        fy = {k: e - y[1].get(k, 0) for k, e in l.items() if e > y[1].get(k, 0)}
        p = self.pmul(x[0], self.dpoly(fx)) if fx else x[0]
        q = self.pmul(y[0], self.dpoly(fy)) if fy else y[0]
        return self.reduce(self.cancel((self.padd(p, q), l)))
    def neg(self, x): return ({m: -c for m, c in x[0].items()}, x[1])
    def sub(self, x, y): return self.add(x, self.neg(y))
    def _mul(self, x, y):
        if not x[0] or not y[0]: return self.ZERO
        return self.cancel((self.pmul(x[0], y[0]), self._dmul(x[1], y[1])))
    def mul(self, x, y): return self.reduce(self._mul(x, y))
    def cancel(self, v):
        num, den = v
        if not num: return self.ZERO
        if not den: return v
        out = dict(den); ch = False
        for k in list(den):
            f = self.factors[k]
            # monomial factor (single atom)
            if len(f) == 1:
                (m, _), = f.items()
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    mn = min((next((e for (b, e) in mm if b == a), 0) for mm in num), default=0)
                    t = min(mn, out[k])
                    if t:
                        nn = {}
                        for mm, c in num.items():
                            nn[tuple((b, e - t) if b == a else (b, e) for b, e in mm if not (b == a and e == t))] = c
                        num = nn; out[k] -= t; ch = True
                        if not out[k]: del out[k]
            else:
                while k in out and len(num) >= 1:
                    q = self.exact_div(num, f)
                    if q is None: break
                    num = q; out[k] -= 1; ch = True
                    if not out[k]: del out[k]
        return (num, out) if ch else v
    def exact_div(self, p, f):
        """exact polynomial division p/f or None (lex order on monomials); bounded effort"""
        if len(p) < len(f): 
            return None
        if len(p) > 4000 or len(f) > 400: return None
        if any(self.atoms[a][0] in ('root', 'sin') for m in f for a, e in m): return None
        # quick test: degrees per atom
        vars_f = {}
        for m in f:
            for a, e in m: vars_f[a] = max(vars_f.get(a, 0), e)
        vars_p = {}
        for m in p:
            for a, e in m: vars_p[a] = max(vars_p.get(a, 0), e)
        for a, e in vars_f.items():
            if vars_p.get(a, 0) < e: return None
        # lex order: compare exponent vectors over the sorted atoms
        vs = sorted(set(vars_p) | set(vars_f)); ix = {a: i for i, a in enumerate(vs)}
        def vec(m):
            v = [0] * len(vs)
            for a, e in m: v[ix[a]] = e
            return tuple(v)
        P = {vec(m): c for m, c in p.items()}; G = {vec(m): c for m, c in f.items()}
        # quick numeric filter: evaluate both modulo a prime at a point where f == 0 is hard to get; skip
        lf = max(G); cf = G[lf]; rest = [(m, c) for m, c in G.items() if m != lf]
        import heapq
        heap = [tuple(-x for x in m) for m in P]; heapq.heapify(heap)
        Q = {}; steps = 0
        while P:
            while heap:
                m = tuple(-x for x in heap[0])
                if m in P: break
                heapq.heappop(heap)
            d = tuple(x - y for x, y in zip(m, lf))
            if min(d) < 0: return None
            c = P.pop(m) / cf; Q[d] = c
            steps += 1
            if steps > 4000: return None
            for mm, cc in rest:
                t = tuple(x + y for x, y in zip(mm, d)); v = P.get(t)
                if v is None: P[t] = -c * cc; heapq.heappush(heap, tuple(-x for x in t))
                else:
                    v -= c * cc
                    if v: P[t] = v
                    else: del P[t]
        return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in Q.items()}
    def inv(self, x):
        num, den = x
        if not num: raise ZeroDivisionError()
        dp = self.dpoly(den)
        if len(num) == 1:
            (m, c), = num.items()
            nd = {}
            for a, e in m:
                i, _ = self.factor({((a, 1),): F1}); nd[i] = nd.get(i, 0) + e
            return self.reduce(self.cancel(({k: v / c for k, v in dp.items()}, nd)))
        # common monomial content
        common = None
        for m in num:
            d = dict(m)
            common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items() if d.get(a, 0)}
            if not common: break
        nd = {}
        if common:
            nn = {}
            for m, c in num.items():
                nn[tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0))] = c
            num = nn
            for a, e in common.items():
                i, _ = self.factor({((a, 1),): F1}); nd[i] = nd.get(i, 0) + e
        i, lc = self.factor(num); nd[i] = nd.get(i, 0) + 1
        return self.reduce(self.cancel(({k: v / lc for k, v in dp.items()}, nd)))
    def div(self, x, y): return self.mul(x, self.inv(y))
    def ipow(self, x, n):
        if n < 0: return self.ipow(self.inv(x), -n)
        r = self.ONE
        b = x
        while n:
            if n & 1: r = self.mul(r, b)
            n >>= 1
            if n: b = self.mul(b, b)
        return r
    # ---- keys
    def key(self, x):
        return (tuple(sorted(x[0].items())), tuple(sorted(x[1].items())))
    def as_const(self, x):
        if not x[0]: return F0
        if len(x[0]) == 1 and () in x[0] and not x[1]: return x[0][()]
        return None
    # ---- functions
    def root(self, x, q):
        c = self.as_const(x)
        if c is not None and c == 0: return self.ZERO
        if c is not None and c > 0: return self.root_const(c, q)
        # content extraction (positive rational content of numerator)
        num, den = x
        g = None
        for v in num.values():
            a = abs(v)
            if g is None: g = a
            else: g = Fraction(math.gcd(g.numerator * a.denominator, a.numerator * g.denominator), g.denominator * a.denominator)
        base = ({m: v / g for m, v in num.items()}, den)
        out = None
        if q == 2:
            sq = self.pull_squares(base)
            if sq is not None:
                out, base = sq
                c = self.as_const(base)
                if c is not None and c > 0:
                    r = self._mul(out, self.root_const(c, 2))
                    return self._mul(self.root_const(g, 2), r) if g != 1 else r
        k = self.key(base)
        # perfect power of a single monomial of known-nonnegative form: only even powers under sqrt give |.|; leave as atom
        at = self.atomv(('root', q, k), base)
        r = at if out is None else self._mul(out, at)
        if g != 1: r = self._mul(self.root_const(g, q), r)
        return r
    # ---- signs from input ranges (interval arithmetic), perfect squares
    def arange(self, a):
        k = self.atoms[a]
        if k[0] == 'in':
            r = self.ranges.get(k[1])
            if r is not None: return (Fraction(r[2]), Fraction(r[3]))
        elif k[0] in ('root', 'exp'): return (F0, None)
        elif k[0] in ('sin', 'cos'): return (-F1, F1)
        return (None, None)
    def prange(self, p):
        lo = hi = F0
        for m, c in p.items():
            l = h = c
            for a, e in m:
                x, y = self.arange(a)
                if e % 2 == 0:
                    if x is None and y is None: u, v = F0, None
                    elif x is not None and x >= 0: u, v = x ** e, (None if y is None else y ** e)
                    elif y is not None and y <= 0: u, v = y ** e, (None if x is None else x ** e)
                    else: u, v = F0, (None if x is None or y is None else max(x ** e, y ** e))
                else: u, v = (None if x is None else x ** e), (None if y is None else y ** e)
                if None in (l, h, u, v):
                    # only keep sign information
                    sl = 1 if l is not None and l >= 0 else (-1 if h is not None and h <= 0 else 0)
                    su = 1 if u is not None and u >= 0 else (-1 if v is not None and v <= 0 else 0)
                    sg = sl * su
                    if sg > 0: l, h = F0, None
                    elif sg < 0: l, h = None, F0
                    else: l, h = None, None
                else:
                    t = (l * u, l * v, h * u, h * v); l, h = min(t), max(t)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None: return (None, None)
        return (lo, hi)
    def sign(self, p):
        if len(p) > 200: return 0
        lo, hi = self.prange(p)
        if lo is not None and lo >= 0: return 1
        if hi is not None and hi <= 0: return -1
        return 0
    def psqrt(self, p):
        """polynomial r with r*r == p, or None"""
        if len(p) > 300 or not p: return None
        if any(self.atoms[a][0] in ('root', 'sin') for m in p for a, e in m): return None
        vs = sorted({a for m in p for a, e in m}); ix = {a: i for i, a in enumerate(vs)}
        def vec(m):
            v = [0] * len(vs)
            for a, e in m: v[ix[a]] = e
            return tuple(v)
        P = {vec(m): c for m, c in p.items()}
        lt = max(P); c = P[lt]
        if c <= 0 or any(x % 2 for x in lt): return None
        sn, sd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if sn * sn != c.numerator or sd * sd != c.denominator: return None
        rc = Fraction(sn, sd); rl = tuple(x // 2 for x in lt)
        R = {rl: rc}; P.pop(lt)
        for _ in range(len(p) + 2):
            if not P: return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in R.items()}
            m = max(P); d = tuple(x - y for x, y in zip(m, rl))
            if min(d, default=0) < 0 or d >= rl: return None
            k = P[m] / (2 * rc)
            for mm, cc in list(R.items()) + [(d, k / 2)]:
                t = tuple(x + y for x, y in zip(mm, d)); v = P.get(t, F0) - 2 * k * cc
                if v: P[t] = v
                else: P.pop(t, None)
            R[d] = k
        return None
    def pull_squares(self, x):
        """x = out^2 * rest with out known nonnegative, or None"""
        num, den = x; onum = {(): F1}; oden = {}; ch = False
        if len(num) > 300: return None
        # square monomial content
        common = None
        for m in num:
            d = dict(m); common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common: break
        for a, e in sorted((common or {}).items()):
            if self.atoms[a][0] in ('root', 'sin'): continue
            h = e // 2
            if not h: continue
            lo, hi = self.arange(a)
            sg = 1 if h % 2 == 0 or (lo is not None and lo >= 0) else (-1 if hi is not None and hi <= 0 else 0)
            if not sg: continue
            num = {tuple((b, f - 2 * h) if b == a else (b, f) for b, f in m if not (b == a and f == 2 * h)): c for m, c in num.items()}
            onum = {tuple(sorted(m + ((a, h),))): c * sg for m, c in onum.items()}; ch = True
        if len(num) > 1:
            r = self.psqrt(num)
            if r is not None:
                sg = self.sign(r)
                if sg:
                    onum = self.pmul(onum, {m: c * sg for m, c in r.items()}); num = {(): F1}; ch = True
        nden = {}
        for k, e in den.items():
            f = self.factors[k]; h = e // 2; sg = 0
            if h and not any(self.atoms[a][0] in ('root', 'sin') for m in f for a, _ in m):
                sg = 1 if h % 2 == 0 else self.sign(f)
            if sg:
                oden[k] = h; ch = True
                if sg < 0: onum = {m: -c for m, c in onum.items()}
                if e % 2: nden[k] = 1
            else: nden[k] = e
        if not ch: return None
        return (onum, oden), (num, nden)
    def root_const(self, c, q):
        def fac(n):
            f = {}; d = 2
            while d * d <= n and d < 5000:
                while n % d == 0: f[d] = f.get(d, 0) + 1; n //= d
                d += 1
            if n > 1: f[n] = f.get(n, 0) + 1
            return f
        exps = fac(c.numerator)
        for p, e in fac(c.denominator).items(): exps[p] = exps.get(p, 0) - e
        r = self.ONE
        for p, e in exps.items():
            k, s = divmod(e, q)
            r = self._mul(r, self.const(Fraction(p) ** k))
            if s:
                b = self.const(p)
                r = self._mul(r, self.ipow(self.atomv(('root', q, self.key(b)), b), s))
        return r
    def fabs(self, x):
        c = self.as_const(x)
        if c is not None: return self.const(abs(c))
        # |x| = root2(x^2) with content pulled out
        return self.root(self.mul(x, x), 2)
    def exp(self, x):
        if not x[0]: return self.ONE
        r = self.ONE
        if not x[1]:
            for m, c in x[0].items():
                base = ({m: Fraction(1, c.denominator)}, {})
                a = self.atomv(('exp', self.key(base)), base)
                r = self.mul(r, self.ipow(a, c.numerator))
            return r
        items = sorted(x[0].items()); s = 1 if items[0][1] > 0 else -1
        b = x if s > 0 else self.neg(x)
        a = self.atomv(('exp', self.key(b)), b)
        return a if s > 0 else self.inv(a)
    def pow(self, x, p):
        c = self.as_const(p)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 64: return self.ipow(x, int(c))
            if c.denominator <= 12 and abs(c.numerator) <= 64:
                return self.ipow(self.root(x, c.denominator), c.numerator)
        return self.powd(x, p)
    def pos_factors(self, x):
        """x as a product of simpler bases raised to rational exponents, or None: list of (value, Fraction exponent).
        All factors but the last are known to be positive (nonnegative), so real powers and logarithms distribute over them."""
        num, den = x; out = []; rest = {(): F1}; rden = {}
        if not num: return [(x, F1)]
        def consts(c):
            for q, sg in ((c.numerator, 1), (c.denominator, -1)):
                d = 2
                while d * d <= q and d < 5000:
                    while q % d == 0: out.append((self.const(d), Fraction(sg))); q //= d
                    d += 1
                if q > 1: out.append((self.const(q), Fraction(sg)))
        common = None
        for m in num:
            d = dict(m); common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common: break
        common = common or {}
        if common:
            num = {tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in num.items()}
        for a, e in sorted(common.items()):
            k = self.atoms[a]; lo, hi = self.arange(a); v = ({((a, 1),): F1}, {})
            if k[0] == 'root': out.append((k[3], Fraction(e, k[1])))
            elif k[0] in ('exp', 'pow') or (lo is not None and lo >= 0): out.append((v, Fraction(e)))
            elif hi is not None and hi <= 0 and e % 2 == 0: out.append((self.neg(v), Fraction(e)))
            else: rest = self.pmul(rest, {((a, e),): F1})
        g = None
        for c in num.values():
            t = abs(c); g = t if g is None else Fraction(math.gcd(g.numerator * t.denominator, t.numerator * g.denominator), g.denominator * t.denominator)
        if len(num) == 1:
            (m, c), = num.items()
            rest = {k: v * (1 if c > 0 else -1) for k, v in rest.items()}
        else: rest = self.pmul(rest, {m: c / g for m, c in num.items()})
        consts(g)
        for k, e in sorted(den.items()):
            f = self.factors[k]; sg = self.sign(f)
            ats = [self.atoms[a][0] for m in f for a, _ in m]
            if len(f) == 1 and len(ats) == 1 and ats[0] == 'root':
                kk = self.atoms[next(iter(f))[0][0]]; out.append((kk[3], Fraction(-e, kk[1]))); continue
            if not sg: rden[k] = e; continue
            h = None
            for c in f.values():
                t = abs(c); h = t if h is None else Fraction(math.gcd(h.numerator * t.denominator, t.numerator * h.denominator), h.denominator * t.denominator)
            if h != 1: consts(h ** -e) if e else None
            out.append((({m: c * sg / h for m, c in f.items()}, {}), Fraction(-e)))
            if sg < 0 and e % 2: rest = {m: -c for m, c in rest.items()}
        r = (rest, rden)
        if self.as_const(r) != 1: out.append((r, F1))
        return out
    def powd(self, x, p):
        """x^p for symbolic p, distributed over factors of x and terms of p"""
        r = self.ONE
        for b, e in self.pos_factors(x):
            q = self.mul(p, self.const(e))
            if not q[0]: continue
            if len(b[0]) == 1 and not b[1]:
                (m, c), = b[0].items()
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    k = self.atoms[m[0][0]]
                    if k[0] == 'exp': r = self.mul(r, self.exp(self.mul(k[2], q))); continue
                    if k[0] == 'pow': r = self.mul(r, self.pow(k[3], self.mul(k[4], q))); continue
                    if k[0] == 'root': r = self.mul(r, self.pow(k[3], self.mul(q, self.const(Fraction(1, k[1]))))); continue
            elif b is not x and e != 1: 
                r = self.mul(r, self.pow(b, q)); continue
            r = self.mul(r, self.powb(b, q))
        return r
    def powb(self, b, q):
        num, den = q; r = self.ONE
        for m, c in sorted(num.items()):
            t = self.cancel(({m: c}, den))
            tc = self.as_const(t)
            if tc is not None:
                r = self.mul(r, self.ipow(b, int(tc)) if tc.denominator == 1 and abs(tc) <= 64 else self.ipow(self.root(b, tc.denominator), tc.numerator) if tc.denominator <= 12 and abs(tc.numerator) <= 64 else self.powa(b, t)); continue
            (mm, cc), = t[0].items()
            if abs(cc.numerator) > 64: r = self.mul(r, self.powa(b, t)); continue
            a = self.powa(b, ({mm: Fraction(1, cc.denominator)}, t[1]))
            r = self.mul(r, self.ipow(a, cc.numerator))
        return r
    def powa(self, b, q): return self.atomv(('pow', self.key(b), self.key(q)), b, q)
    def log(self, x):
        r = self.ZERO
        fs = self.pos_factors(x)
        for b, e in fs:
            if len(b[0]) == 1 and not b[1]:
                (m, c), = b[0].items()
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    k = self.atoms[m[0][0]]
                    if k[0] == 'exp': r = self.add(r, self.mul(k[2], self.const(e))); continue
                    if k[0] == 'pow': r = self.add(r, self.mul(self.mul(k[4], self.const(e)), self.log(k[3]))); continue
            if len(fs) > 1 and e != 1 and self.as_const(b) is None and len(b[0]) > 1: r = self.add(r, self.mul(self.const(e), self.log(b))); continue
            r = self.add(r, self.mul(self.const(e), self.atomv(('f:log', self.key(b)), b)))
        return r
    def func(self, name, x, y=None):
        if name == 'sqrt': return self.root(x, 2)
        if name == 'cbrt': return self.root(x, 3)
        if name == 'fabs': return self.fabs(x)
        if name == 'exp': return self.exp(x)
        if name == 'pow': return self.pow(x, y)
        if name in ('tanh', 'sinh', 'cosh'):
            E = self.exp(x); I = self.inv(E)
            if name == 'sinh': return self.mul(self.sub(E, I), self.const(Fraction(1, 2)))
            if name == 'cosh': return self.mul(self.add(E, I), self.const(Fraction(1, 2)))
            E2 = self.mul(E, E)
            return self.div(self.sub(E2, self.ONE), self.add(E2, self.ONE))
        if name in ('sin', 'cos', 'tan'):
            if not x[0]: return self.ONE if name == 'cos' else self.ZERO
            items = sorted(x[0].items()); s = 1 if items[0][1] > 0 else -1
            b = x if s > 0 else self.neg(x); k = self.key(b)
            if name == 'cos': return self.atomv(('cos', k), b)
            sn = self.atomv(('sin', k), b); sn = sn if s > 0 else self.neg(sn)
            if name == 'sin': return sn
            return self.div(sn, self.atomv(('cos', k), b))
        if name == 'log' and x[0]: return self.log(x)
        if name == 'log' or name == 'log10' or name == 'log2':
            c = self.as_const(x)
            if c == 1: return self.ZERO
        if y is not None: return self.atomv(('f:' + name, self.key(x), self.key(y)), x, y)
        return self.atomv(('f:' + name, self.key(x)), x)
    # ---- derivative of a value w.r.t. an input atom
    def diff(self, v, var, memo=None):
        if memo is None: memo = {}
        num, den = v
        dn = self.pdiff(num, var, memo)
        r = self._mul(dn, ({(): F1}, den)) if dn[0] else self.ZERO
        for k, e in den.items():
            df = self.pdiff(self.factors[k], var, memo)
            if df[0]:
                t = self.mul(df, self.mul((num, den), self.const(-e)))
                t = self.mul(t, ({(): F1}, {k: 1}))
                r = self.add(r, t)
        return self.reduce(r)
    def pdiff(self, p, var, memo):
        ats = set(a for m in p for a, e in m)
        r = self.ZERO
        for a in ats:
            da = self.adiff(a, var, memo)
            if not da[0]: continue
            q = {}
            for m, c in p.items():
                for ix, (b, e) in enumerate(m):
                    if b == a:
                        m2 = m[:ix] + (((b, e - 1),) if e > 1 else ()) + m[ix+1:]
                        q[m2] = q.get(m2, F0) + c * e
            r = self.add(r, self.mul((q, {}), da))
        return r
    def adiff(self, a, var, memo):
        if (a, var) in memo: return memo[(a, var)]
        k = self.atoms[a]; me = ({((a, 1),): F1}, {})
        if k[0] == 'in': r = self.ONE if a == var else self.ZERO
        elif k[0] == 'root':
            d = self.diff(k[3], var, memo)
            r = self.ZERO if not d[0] else self.mul(self.mul(d, self.const(Fraction(1, k[1]))), self.div(me, k[3]))
        elif k[0] == 'exp':
            d = self.diff(k[2], var, memo); r = self.mul(d, me) if d[0] else self.ZERO
        elif k[0] == 'pow':
            dx = self.diff(k[3], var, memo); dp = self.diff(k[4], var, memo); r = self.ZERO
            if dx[0]: r = self.mul(self.mul(k[4], me), self.div(dx, k[3]))
            if dp[0]: r = self.add(r, self.mul(self.mul(dp, me), self.func('log', k[3])))
        elif k[0] == 'sin':
            d = self.diff(k[2], var, memo); r = self.mul(d, self.atomv(('cos', k[1]), k[2])) if d[0] else self.ZERO
        elif k[0] == 'cos':
            d = self.diff(k[2], var, memo); r = self.neg(self.mul(d, self.atomv(('sin', k[1]), k[2]))) if d[0] else self.ZERO
        elif k[0] == 'f:log':
            d = self.diff(k[2], var, memo); r = self.div(d, k[2]) if d[0] else self.ZERO
        elif k[0] == 'f:log10':
            d = self.diff(k[2], var, memo); r = self.div(d, self.mul(k[2], self.func('log', self.const(10)))) if d[0] else self.ZERO
        elif k[0] == 'f:atan':
            d = self.diff(k[2], var, memo); r = self.div(d, self.add(self.ONE, self.mul(k[2], k[2]))) if d[0] else self.ZERO
        elif k[0] in ('f:asin', 'f:acos'):
            d = self.diff(k[2], var, memo)
            r = self.ZERO
            if d[0]:
                r = self.div(d, self.root(self.sub(self.ONE, self.mul(k[2], k[2])), 2))
                if k[0] == 'f:acos': r = self.neg(r)
        elif k[0] in ('f:floor', 'f:ceil', 'f:trunc', 'f:round', 'int'): r = self.ZERO
        else: raise NotImplementedError(k[0])
        memo[(a, var)] = r
        return r
