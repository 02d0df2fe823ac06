"""Rounding-error analysis of one path: for every term a bound of its magnitude and a
bound of its accumulated first-order rounding error, in units of the roundoff u.  Both are
Laurent polynomials with nonnegative coefficients in the magnitudes of the inputs and of
the denominators.  Whether the error bound can exceed the allowed multiple of the scale
stated by the harness, for any nonnegative values, is a query to the solver."""
import os, time
from fractions import Fraction
import z3
from encode import Unsupported
from poly import BITS, MASK

ONE = ()
DEBUG = os.environ.get('ACCDEBUG')


def mul1(a, b):
    d = dict(a)
    for g, e in b:
        x = d.get(g, 0) + e
        if x:
            d[g] = x
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def padd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            r[m] = r.get(m, 0) + c
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mul1(m, n)
            r[k] = r.get(k, 0) + c * d
    if len(r) > 20000:
        raise Unsupported("error bound too large")
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def squares(A):
    """a symmetric matrix as sum d l l^T with d > 0, or None"""
    A = [list(r) for r in A]
    n, out = len(A), []
    for k in range(n):
        d = A[k][k]
        if d < 0 or d == 0 and any(A[k][l] for l in range(n)):
            return None
        if d == 0:
            continue
        l = [A[k][j] / d for j in range(n)]
        out.append((d, l))
        for a in range(n):
            for b in range(n):
                A[a][b] -= d * l[a] * l[b]
    return out


class Acc:
    def __init__(self, enc, path):
        self.enc, self.p = enc, path
        self.u = set()                       # components of unit quaternions
        for g in enc.R.units:
            self.u.update(g)
        self.sq = {}                         # magnitude of a root -> inputs it is not smaller than
        self.memo = {}
        self.dens = {}
        self.sups = {}
        self.scaled = set()

    # ---- exact magnitudes ----
    def factor(self, p):
        """|p| as (coefficient, monomial); a polynomial that is no monomial gets a name"""
        R = self.enc.R
        k, q = R.primitive(p)
        if R.is_const(q):
            return Fraction(abs(k * q.get(0, 0))), ONE
        if len(q) == 1:
            m, c = next(iter(q.items()))
            mono, i = {}, 0
            while m:
                e = m & MASK
                if e:
                    mono[i] = e
                m >>= BITS
                i += 1
            return Fraction(abs(k * c)), tuple(sorted((("x", i), e) for i, e in mono.items()))
        lead = q[max(q)]
        key = ("p", frozenset((m, c if lead > 0 else -c) for m, c in q.items()))
        self.dens[key] = q
        return Fraction(abs(k)), ((key, 1),)

    def mag(self, r):
        """|r| of a fraction, exactly, as a monomial"""
        R = self.enc.R
        if not r.n:
            return Fraction(0), ONE
        c, m = self.factor(r.n)
        c /= r.dc
        for f, e in r.df:
            cf, mf = self.factor(R.factors[f])
            c /= cf ** e
            m = mul1(m, tuple((g, -x * e) for g, x in mf))
        return c, m

    def absval(self, n):
        c, m = self.mag(self.enc.rat(n))
        # components of a unit vector that are not divided by
        return {m: c} if c else {}

    def magnode(self, n):
        """|n| of a term, exactly; magnitudes in the scale stand for themselves"""
        while self.p.nodes[n][0] in ("EXT64", "NEG", "ABS"):
            n = self.p.nodes[n][2]
        return self.mag(self.enc.rat(n))

    def sup(self, p):
        """a bound of |p|, p a polynomial in components of unit vectors only"""
        R = self.enc.R
        cheap = Fraction(sum(abs(c) for c in p.values()))
        if cheap <= 1 or R.is_const(p):
            return cheap
        key = frozenset(p.items())
        if key not in self.sups:
            self.sups[key] = min(cheap, self.quadratic(p) or cheap)
        return self.sups[key]

    def quadratic(self, p):
        """a bound of a quadratic form in the components of one unit vector: b such that
        b - p and b + p are sums of squares (the solver confirms the decomposition)"""
        R = self.enc.R
        vs = set(R.pvars(p))
        g = [u for u in R.units if vs <= set(u)]
        if not g:
            return None
        g = list(g[0])
        A = [[Fraction(0)] * len(g) for _ in g]
        for m, c in p.items():
            idx, i = [], 0
            while m:
                idx += [i] * (m & MASK)
                m >>= BITS
                i += 1
            if not idx:
                for k in range(len(g)):
                    A[k][k] += c
            elif len(idx) == 2:
                a, b = g.index(idx[0]), g.index(idx[1])
                A[a][b] += Fraction(c, 2)
                A[b][a] += Fraction(c, 2)
            else:
                return None
        import numpy as np
        top = max(abs(np.linalg.eigvalsh(np.array([[float(x) for x in r] for r in A]))))
        b = Fraction(int(top * 64 + 1e-6) + (top * 64 % 1 > 1e-6), 64)
        t = time.time()
        x = [z3.Real(f"u{k}") for k in range(len(g))]
        for sgn in (1, -1):
            sq = squares([[(b if k == l else 0) - sgn * A[k][l] for l in range(len(g))] for k in range(len(g))])
            if sq is None:
                return None
            form = z3.Sum([z3.RealVal(str((b if k == l else 0) - sgn * A[k][l])) * x[k] * x[l] for k in range(len(g)) for l in range(len(g))])
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(form != z3.Sum([z3.RealVal(0)] + [z3.RealVal(str(d)) * z3.Sum([z3.RealVal(str(c)) * v for c, v in zip(l, x)]) ** 2 for d, l in sq]))
            r = s.check()
            self.enc.st.add("magnitude", r, time.time() - t)
            if r != z3.unsat:
                return None
        return b

    def tight(self, n):
        """a bound of the magnitude from the normal form, if that is a polynomial"""
        r = self.enc.rat(n)
        if r.df or len(r.n) > 200:
            return None
        parts = {}
        for m, c in r.n.items():
            i, x, out, unit = 0, m, [], 0
            while x:
                e = x & MASK
                if e:
                    if i in self.u:
                        unit |= e << (BITS * i)
                    else:
                        out.append((("x", i), e))
                x >>= BITS
                i += 1
            parts.setdefault(tuple(out), {})[unit] = c
        return {m: self.sup(p) / r.dc for m, p in parts.items()}

    # ---- the analysis ----
    def __call__(self, n):
        M = self.memo
        stack = [n]
        while stack:
            k = stack[-1]
            if k in M:
                stack.pop(); continue
            op, w, a, b, c, bits = self.p.nodes[k]
            deps = [] if op in ("VAR", "CONST") else [x for x in (a, b, c) if x]
            todo = [x for x in deps if x not in M]
            if todo:
                stack.extend(todo); continue
            M[k] = self.op(k, op, w, a, b, c, bits)
            if any(x in self.scaled for x in deps):
                self.scaled.add(k)
            if op in ("ADD", "SUB", "FMA", "MUL") and len(M[k][0]) and self.u and self.unitish(a, b, c):
                t = self.tight(k)
                if t is not None and sum(t.values()) < sum(M[k][0].values()):
                    M[k] = t, M[k][1]
            stack.pop()
        return M[n]

    def unitish(self, *ns):
        """no magnitudes of the scale below"""
        return all(self.p.nodes[n][0] != "ABS" and n not in self.scaled for n in ns if n)

    def power_of_two(self, n):
        """a constant by which multiplication is exact"""
        op, w, a, b, c, bits = self.p.nodes[n]
        if op != "CONST":
            return None
        r = self.enc.rat(n)
        v = Fraction(r.n.get(0, 0), r.dc)
        return v if v == 0 or bin(abs(v.numerator)).count("1") == 1 and bin(v.denominator).count("1") == 1 else None

    def op(self, k, op, w, a, b, c, bits):
        M = self.memo
        if op == "VAR":
            i = self.enc.inputs[self.enc.varname[k]]
            return {ONE: Fraction(1)} if i in self.u else {((("x", i), 1),): Fraction(1)}, {}
        if op == "CONST":
            return self.absval(k), {}
        if op in ("NEG", "EXT64"):
            return M[a]
        if op == "ABS":
            self.scaled.add(k)
            c, m = self.magnode(a)
            return ({m: c} if c else {}), M[a][1]
        if op == "TRUNC32":
            m, e = M[a]
            return m, e if self.enc.width == 32 else padd(e, pscale(m, 1 << 29))
        if op in ("ADD", "SUB"):
            for x, y in ((a, b), (b, a)):
                if self.power_of_two(x) == 0:
                    return M[y]
            m = padd(M[a][0], M[b][0])
            return m, padd(M[a][1], M[b][1], m)
        if op == "MUL":
            for x, y in ((a, b), (b, a)):
                p = self.power_of_two(x)
                if p is not None:
                    return pscale(M[y][0], abs(p)), pscale(M[y][1], abs(p))
            (ma, ea), (mb, eb) = M[a], M[b]
            m = pmul(ma, mb)
            return m, padd(pmul(ea, mb), pmul(ma, eb), m)
        if op == "FMA":
            (ma, ea), (mb, eb), (mc, ec) = M[a], M[b], M[c]
            m = padd(pmul(ma, mb), mc)
            return m, padd(pmul(ea, mb), pmul(ma, eb), ec, m)
        if op == "DIV":
            return self.div(M[a], M[b], b)
        if op == "POWI":
            n = bits - (1 << 64) if bits >> 63 else bits
            if abs(n) > 8:
                raise Unsupported("large power")
            base, ea = M[a]
            if n < 0:
                cd, d = self.magnode(a)
                if not cd:
                    raise Unsupported("division by zero")
                base = {d: cd}
            m, e = {ONE: Fraction(1)}, {}
            for _ in range(abs(n)):
                m, e = pmul(m, base), padd(pmul(e, base), pmul(m, ea), pmul(m, base))
            if n < 0:
                inv = {tuple((g, -x * -n) for g, x in d): 1 / cd ** -n}
                return inv, padd(pmul(pmul(e, inv), inv), inv)
            return m, e
        if op == "SQRT":
            r = self.enc.rat(k)
            cd, d = self.mag(r)
            if not cd:
                return {}, {}
            self.note_root(a, cd, d)
            D = {d: cd}
            inv = {tuple((g, -x) for g, x in d): 1 / cd}
            return D, padd(pscale(pmul(M[a][1], inv), Fraction(1, 2)), D)
        if op in ("SIN", "COS"):
            self.enc.rat(k)
            m = self.absval(k)
            return m, {ONE: Fraction(1)}
        raise Unsupported("error bound of " + op)

    def div(self, A, B, b):
        cd, d = self.magnode(b)
        if not cd:
            raise Unsupported("division by zero")
        inv = {tuple((g, -x) for g, x in d): 1 / cd}
        m = pmul(A[0], inv)
        return m, padd(pmul(A[1], inv), pmul(pmul(m, B[1]), inv), m)

    def note_root(self, a, cd, d):
        """a root of a sum of squares is not smaller than any of the summands"""
        R = self.enc.R
        if len(d) != 1 or d[0][1] != 1:
            return
        r = self.enc.rat(a)
        if r.df:
            return
        for m, c in r.n.items():
            if c < 0:
                return
        for m, c in r.n.items():
            i, x = 0, m
            while x and not x & MASK:
                x >>= BITS
                i += 1
            if x == 2 and c > 0:             # c / dc x^2 <= cd^2 D^2
                f = Fraction(cd * cd * r.dc, c)
                if f <= 1:
                    self.sq[("x", i)] = d[0][0]

    # ---- the claim ----
    def reduced(self, p, keep):
        """p with everything replaced by a bound that the scale does not mention"""
        r = {}
        for m, c in p.items():
            out = ONE
            for g, e in m:
                if e > 0 and g not in keep:
                    if g[0] == "x" and g[1] in self.u:
                        continue
                    if g in self.sq:
                        g = self.sq[g]
                out = mul1(out, ((g, e),))
            r[out] = r.get(out, 0) + c
        return r

    def exceeds(self, e, s, limit, st, timeout):
        """can the error e exceed limit * s?"""
        keep = {g for m in s for g, _ in m}
        e = self.reduced(e, keep)
        if DEBUG:
            print("    ratio", max([float(c / s[m]) if m in s else 1e99 for m, c in e.items()] + [0]), [m for m in e if m not in s][:3])
        t = time.time()
        # each monomial as a nonnegative number of its own
        names = {m: z3.Real(f"m{i}") for i, m in enumerate(sorted(set(e) | set(s), key=repr))}
        so = z3.Solver()
        so.set("timeout", int(timeout * 1000))
        for v in names.values():
            so.add(v >= 0)
        q = lambda p, k=1: z3.Sum([z3.RealVal(0)] + [z3.RealVal(str(c * k)) * names[m] for m, c in p.items()])
        so.add(q(e) > q(s, limit))
        r = so.check()
        st.add("accuracy", r, time.time() - t)
        if r == z3.unsat:
            return False
        # with the relations between the magnitudes
        t = time.time()
        gens = {}
        var = lambda g: gens.setdefault(g, z3.Real(f"a{len(gens)}"))
        low = {}
        for m in list(e) + list(s):
            for g, x in m:
                low[g] = min(low.get(g, 0), x)
        def term(p, k=1):
            out = []
            for m, c in p.items():
                f = z3.RealVal(str(c * k))
                d = dict(m)
                for g in low:
                    for _ in range(d.get(g, 0) - low[g]):
                        f = f * var(g)
                out.append(f)
            return z3.Sum([z3.RealVal(0)] + out)
        so = z3.Solver()
        so.set("timeout", int(timeout * 1000))
        so.add(term(e) > term(s, limit))
        done = set()
        while set(gens) - done:
            for g in list(set(gens) - done):
                done.add(g)
                so.add(var(g) > 0 if low.get(g, 0) < 0 else var(g) >= 0)
                if g[0] == "x" and g[1] in self.u:
                    so.add(var(g) <= 1)
                if g in self.sq:
                    so.add(var(g) <= var(self.sq[g]))
                if g[0] == "p":
                    bound = []
                    for m, c in g[1]:
                        f, i = z3.RealVal(abs(c)), 0
                        while m:
                            for _ in range(m & MASK):
                                f = f * var(("x", i))
                            m >>= BITS
                            i += 1
                        bound.append(f)
                    so.add(var(g) <= z3.Sum(bound))
        r = so.check()
        st.add("accuracy with relations", r, time.time() - t)
        return r != z3.unsat
