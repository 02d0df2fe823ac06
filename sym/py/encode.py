"""From a dumped path (term DAG + events) to solver queries over the reals."""
import math, struct, time
from fractions import Fraction
import z3
from poly import Ring, Field, Rat, Blowup

EQ, NE, LT, LE, GT, GE = range(6)
RELNAME = ["==", "!=", "<", "<=", ">", ">="]
NEGREL = {EQ: NE, NE: EQ, LT: GE, GE: LT, LE: GT, GT: LE}
SWAP = {EQ: EQ, NE: NE, LT: GT, GT: LT, LE: GE, GE: LE}


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, what):
        self.what = what


def bits_to_fraction(bits, width):
    x = struct.unpack("<d", struct.pack("<Q", bits))[0] if width == 64 else struct.unpack("<f", struct.pack("<I", bits))[0]
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant")
    return Fraction(x)


def quarter_turn(op, x, w):
    """exact sine or cosine at the floats that denote multiples of pi/2"""
    q = round(x / (math.pi / 2))
    near = q * (math.pi / 2)
    if w == 32:
        near = struct.unpack("<f", struct.pack("<f", near))[0]
    if x == near and abs(q) <= 64:
        t = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}[q % 4]
        return t[0] if op == "SIN" else t[1]
    return None


class Path:
    def __init__(self, fn):
        self.nodes, self.ev, self.status = {}, [], "missing"
        self.nbranch = self.nops = 0
        for ln in open(fn, errors="replace"):
            p = ln.rstrip("\n").split(" ")
            if p[0] == "N":
                self.nodes[int(p[1])] = (p[2], int(p[3]), int(p[4]), int(p[5]), int(p[6]), int(p[7], 16))
            elif p[0] == "END":
                self.status = p[1]
                self.nbranch, self.nops = int(p[2]), int(p[3])
            elif p[0] == "B":
                self.ev.append(("B", p[1], int(p[2]), int(p[3]), int(p[4]), int(p[5])))
            elif p[0] == "H":
                self.ev.append(("H", int(p[1]), int(p[2]), " ".join(p[3:])))
            elif p[0] == "V":
                self.ev.append(("V", int(p[1]), p[2]))
            elif p[0] == "A":
                self.ev.append(("A", int(p[1]), int(p[2]), int(p[3])))
            elif p[0] == "U":
                self.ev.append(("U", [int(x) for x in p[1:]]))
            elif p[0] == "C":
                tol = struct.unpack("<d", struct.pack("<Q", int(p[4], 16)))[0]
                self.ev.append(("C", int(p[1]), int(p[2]), int(p[3]), tol, " ".join(p[5:])))
            elif p[0] == "S":
                self.ev.append(("S", int(p[1]), int(p[2]), " ".join(p[3:])))
            elif p[0] == "E":
                self.ev.append(("E", int(p[1]), int(p[2]), " ".join(p[3:])))
            elif p[0] == "P":
                self.ev.append(("P", int(p[1]), " ".join(p[2:])))
            elif p[0] == "W":
                self.ev.append(("W", int(p[1]), " ".join(p[2:])))
            elif p[0] == "D":
                self.ev.append(("D", int(p[1])))
            elif p[0] == "F":
                self.ev.append(("F", int(p[1])))
            elif p[0] == "T":
                self.ev.append(("T", " ".join(p[1:])))

    def decisions(self):
        return "".join(chr(48 + (e[4] if e[0] == "B" else e[2])) for e in self.ev if e[0] in "BH")


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}
        self.unsat = self.sat = self.unknown = 0

    def add(self, kind, res, dt):
        self.queries += 1
        self.solver_s += dt
        self.by[kind] = self.by.get(kind, 0) + 1
        if res == z3.unsat:
            self.unsat += 1
        elif res == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


class Enc:
    """real-arithmetic encoding of one path"""

    def __init__(self, path, stats, width, splits=(), timeout=20.0, budget=None):
        self.p, self.st, self.width = path, stats, width
        self.R = Ring()
        self.F = Field(self.R)
        self.memo = {}
        self.splits, self.nsplit = list(splits), 0
        self.timeout = timeout
        self.z = []                    # z3 variable per generator
        self.side = []                 # z3 constraints defining generators
        self.facts = []                # (rel, Rat) meaning Rat rel 0: assumptions and path condition
        self.sgn = {}                  # frozenset(primitive poly) -> set of rels known
        self.inputs = {}               # input name -> generator
        self.sqrts = {}
        self.absid = 0
        self.units_done = set()
        self.varname = {e[1]: e[2] for e in path.ev if e[0] == "V"}
        self.unitgrp = [e[1] for e in path.ev if e[0] == "U"]
        for g in self.unitgrp:         # unit groups must be inputs
            for n in g:
                if path.nodes[self.strip(n)][0] != "VAR":
                    raise Unsupported("unit vector of non-inputs")
        for n in sorted(self.varname):
            self.input(n)
        for g in self.unitgrp:
            gi = [self.inputs[self.varname[self.strip(n)]] for n in g]
            one = {0: 1}
            for u in gi[1:]:
                one = self.R.padd(one, {2 << (10 * u): -1})
            self.R.set_rel(gi[0], one)
            self.R.units.append(gi)
            s = sum(self.z[u] * self.z[u] for u in gi)
            self.side.append((set(gi), s == 1))

    def strip(self, n):
        while self.p.nodes[n][0] == "EXT64":
            n = self.p.nodes[n][2]
        return n

    def newgen(self, name):
        i = self.R.gen(name)
        self.z.append(z3.Real(name))
        return i

    def input(self, n):
        name = self.varname[n]
        if name not in self.inputs:
            self.inputs[name] = self.newgen(name)
        return self.inputs[name]

    # ---- terms ----
    def rat(self, n):
        m = self.memo
        stack = [n]
        while stack:
            k = stack[-1]
            if k in m:
                stack.pop(); continue
            op, w, a, b, c, bits = self.p.nodes[k]
            deps = [] if op in ("VAR", "CONST") else [x for x in (a, b, c) if x]
            todo = [x for x in deps if x not in m]
            if todo:
                stack.extend(todo); continue
            m[k] = self.op(k, op, w, a, b, c, bits)
            stack.pop()
        return m[n]

    def op(self, k, op, w, a, b, c, bits):
        F, m = self.F, self.memo
        if op == "VAR":
            return F.poly(self.R.var(self.inputs[self.varname[k]]))
        if op == "CONST":
            return F.const(bits_to_fraction(bits, w))
        if op == "ADD":
            return F.add(m[a], m[b])
        if op == "SUB":
            return F.add(m[a], m[b], -1)
        if op == "MUL":
            return F.mul(m[a], m[b])
        if op == "NEG":
            return F.neg(m[a])
        if op == "DIV":
            if not m[b].n:
                raise Unsupported("division by zero")
            return F.div(m[a], m[b])
        if op == "FMA":
            return F.add(F.mul(m[a], m[b]), m[c])
        if op == "POWI":
            e = bits - (1 << 64) if bits >> 63 else bits
            if e < 0 and not m[a].n:
                raise Unsupported("division by zero")
            return F.pow(m[a], e)
        if op == "SQRT":
            return self.sqrt(m[a])
        if op == "HYPOT":
            return self.sqrt(F.add(F.mul(m[a], m[a]), F.mul(m[b], m[b])))
        if op == "EXT64":
            return m[a]
        if op == "TRUNC32":
            if self.width == 32 or not m[a].n:
                return m[a]
            # rounding to single precision inside a double-precision computation
            i = self.newgen(f"round32!{k}")
            z = self.z[i]
            self.side.append(({i}, z3.And(z <= z3.Q(1, 1 << 24), z >= -z3.Q(1, 1 << 24))))
            return F.mul(m[a], F.poly(self.R.padd({0: 1}, self.R.var(i))))
        if op in ("SIN", "COS"):
            v = m[a]
            if self.R.is_const(v.n) and not v.df:
                t = quarter_turn(op, float(Fraction(v.n.get(0, 0), v.dc)), w)
                if t is not None:
                    return F.const(Fraction(t))
            raise Unsupported(op + " of a general argument")
        raise Unsupported("operation " + op)

    def absrat(self, p):
        """Rat for |p|, p polynomial"""
        s = self.sign(p)
        return self.F.poly(self.R.pscale(p, s))

    def sign(self, p):
        """+1 when p >= 0, -1 when p <= 0, on this path (case split if needed)"""
        if self.R.is_const(p):
            return 1 if p.get(0, 0) >= 0 else -1
        k, q = self.R.primitive(p)
        s = 1 if k > 0 else -1
        key = ("s", frozenset(q.items()))
        if key in self.sgn:
            return s * self.sgn[key]
        r = self.F.poly(q)
        if self.prove_light(GE, r):
            v = 1
        elif self.prove_light(LE, r):
            v = -1
        elif self.query([self.zrel(LT, r)], "sign", 0.5) == z3.unsat:
            v = 1
        elif self.query([self.zrel(GT, r)], "sign", 0.5) == z3.unsat:
            v = -1
        else:
            if self.nsplit >= len(self.splits):
                raise NeedSplit(len(self.splits))
            v = self.splits[self.nsplit]
            self.nsplit += 1
            self.fact(GE if v > 0 else LE, r)
        self.sgn[key] = v
        return s * v

    def sqrt(self, r):
        R, F = self.R, self.F
        if not r.n:
            return r
        # sqrt(n/(dc prod f^e)) = sqrt(n dc prod_{e odd} f) / (dc prod f^ceil(e/2))
        n = R.pscale(r.n, r.dc)
        den = {}
        dsign = 1
        for f, e in r.df:
            if e & 1:
                n = R.pmul(n, R.factors[f])
            h = (e + 1) // 2
            den[f] = h
            if h & 1:
                dsign *= self.sign(R.factors[f])
        res = self.sqrt_poly(n)
        return F.norm(R.pscale(res, dsign), r.dc, den)

    def sqrt_poly(self, n):
        R = self.R
        k, q = R.primitive(n)
        if R.is_const(n):
            c = n[0]
            from math import isqrt
            if c >= 0 and isqrt(c) ** 2 == c:
                return {0: isqrt(c)}
            # sqrt of a constant: square-free part by small primes
            out, rest = 1, c
            for pr in (2, 3, 5, 7, 11, 13):
                while rest % (pr * pr) == 0:
                    rest //= pr * pr
                    out *= pr
            fs = []
            for pr in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
                if rest > pr and rest % pr == 0:
                    rest //= pr
                    fs.append(pr)
            if fs:                         # product of roots of primes: one form for each number
                r = {0: out}
                for x in fs + ([rest] if rest != 1 else []):
                    r = R.pmul(r, self.sqrt_poly({0: x}))
                return r
            n = {0: rest}
        else:
            out = 1
            root = R.square_root(n)
            if root is not None:
                return R.pscale(root, self.sign(root))
            # pull out even powers of single variables and a square content
            from math import isqrt
            for i in R.pvars(n):
                sh = 10 * i
                e = min((m >> sh) & 1023 for m in n)
                if e >= 2:
                    e -= e & 1
                    n2 = {m - (e << sh): c for m, c in n.items()}
                    v = R.var(i)
                    h = R.ppow(v, e // 2)
                    if (e // 2) & 1:
                        h = R.pscale(h, self.sign(v))
                    return R.pmul(h, self.sqrt_poly(n2))
            # pull out known factors that occur squared
            for f in list(R.factors):
                if len(f) < 2 or len(f) > len(n):
                    continue
                d = R.pdiv(n, f)
                d2 = R.pdiv(d, f) if d else None
                if d2:
                    return R.pmul(R.pscale(f, self.sign(f)), self.sqrt_poly(d2))
            ck = abs(k)
            sq = 1
            for pr in (2, 3, 5, 7):
                while ck % (pr * pr) == 0:
                    ck //= pr * pr
                    sq *= pr
            if sq > 1:
                n = {m: c // (sq * sq) for m, c in n.items()}
                out = sq
        key = frozenset(n.items())
        if key not in self.sqrts:
            i = self.newgen(f"sqrt!{len(self.sqrts)}")
            self.R.set_rel(i, n)
            self.sqrts[key] = i
            z = self.z[i]
            self.side.append((set(self.R.pvars(n)) | {i}, z3.And(z >= 0, z * z == self.zpoly(n))))
            v = frozenset(R.var(i).items())
            self.sgn.setdefault(v, set()).add(GE)
            self.sgn[("s", v)] = 1
        return R.pscale(R.var(self.sqrts[key]), out)

    # ---- facts ----
    def relkey(self, rel, r):
        """normalise  Rat rel 0  to (rel, primitive poly) if it has no denominators with unknown sign"""
        n = r.n
        for f, e in r.df:
            if e & 1 and rel not in (EQ, NE):
                n = self.R.pmul(n, self.R.factors[f])
        k, q = self.R.primitive(n)
        if k < 0:
            rel = SWAP[rel]
        return rel, q

    def fact(self, rel, r):
        self.facts.append((rel, r))
        rel, q = self.relkey(rel, r)
        if q and not self.R.is_const(q):
            self.sgn.setdefault(frozenset(q.items()), set()).add(rel)
            self.R.split(q)       # registers its factors
            if rel in (GE, GT):
                self.sgn[("s", frozenset(q.items()))] = 1
            elif rel in (LE, LT):
                self.sgn[("s", frozenset(q.items()))] = -1

    # ---- z3 ----
    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            fs = []
            i = 0
            x = m
            while x:
                e = x & 1023
                if e:
                    fs.extend([self.z[i]] * e)
                x >>= 10
                i += 1
            t = z3.RealVal(c)
            if fs:
                t = z3.Product(fs) if len(fs) > 1 else fs[0]
                if c != 1:
                    t = c * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zrel(self, rel, r):
        """z3 formula for  Rat rel 0 (denominators are nonzero by side conditions)"""
        e = self.zpoly(r.n)
        vs = set(self.R.pvars(r.n))
        cons = []
        for f, k in r.df:
            fp = self.zpoly(self.R.factors[f])
            cons.append(fp != 0)
            if k & 1 and rel not in (EQ, NE):
                e = e * fp
        z = {EQ: e == 0, NE: e != 0, LT: e < 0, LE: e <= 0, GT: e > 0, GE: e >= 0}[rel]
        return z3.And(z, *cons) if cons else z

    def ratvars(self, r):
        vs = set(self.R.pvars(r.n))
        for f, _ in r.df:
            vs |= set(self.R.pvars(self.R.factors[f]))
        return vs

    def sidelist(self):
        return [c for _, c in self.side] + [self.zrel(rel, r) for rel, r in self.facts]

    def deg(self, p):
        d = 0
        for m in p:
            s = 0
            while m:
                s += m & 1023
                m >>= 10
            d = max(d, s)
        return d

    def query(self, extra, kind, timeout=None, want_model=False):
        s = z3.SolverFor("QF_NRA") if not self.linear else z3.SolverFor("QF_LRA")
        s.set("timeout", int(1000 * (timeout or self.timeout)))
        for c in self.sidelist():
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.st.add(kind, r, time.time() - t)
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r

    @property
    def linear(self):
        return not self.side and all(self.deg(r.n) <= 1 and not r.df for _, r in self.facts)

    # ---- light prover: sign analysis over recorded factors, decided by z3 ----
    def prove_light(self, rel, r):
        """facts |- r rel 0, where r is a product of factors whose relations are known.
        The factors are abstracted to fresh solver variables constrained by the
        recorded facts about them."""
        R = self.R
        if not r.n:
            return rel in (EQ, LE, GE)
        k, fs = R.split(r.n)
        e = z3.RealVal(k)
        cons = []
        for src in (list(fs.items()), list(r.df)):
            for f, ex in src:
                v = z3.Real(f"f!{f}")
                e = e * v if ex & 1 else e * v * v
                q = R.factors[f]
                for kr in self.sgn.get(frozenset(q.items()), ()):
                    cons.append({EQ: v == 0, NE: v != 0, LT: v < 0, LE: v <= 0, GT: v > 0, GE: v >= 0}[kr])
                ss = self.sgn.get(("s", frozenset(q.items())))
                if ss:
                    cons.append(v >= 0 if ss > 0 else v <= 0)
                if (f, ex) in r.df:
                    cons.append(v != 0)
                # even polynomials with positive coefficients
                if all(c > 0 for c in q.values()) and all(all(((m >> (10 * i)) & 1) == 0 for i in range(len(R.names))) for m in q):
                    cons.append(v >= 0)
                    if 0 in q:
                        cons.append(v > 0)
        neg = {EQ: e != 0, NE: e == 0, LT: e >= 0, LE: e > 0, GT: e <= 0, GE: e < 0}[rel]
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 2000)
        s.add(*cons)
        s.add(neg)
        t = time.time()
        res = s.check()
        self.st.add("factor-lemma", res, time.time() - t)
        return res == z3.unsat

    def holds(self, rel, r, timeout=None):
        """'proved', 'refuted' (with model) or 'unknown' for: facts |- r rel 0"""
        if not r.n or (self.R.is_const(r.n) and not r.df):
            c = Fraction(r.n.get(0, 0), r.dc) if r.n else Fraction(0)
            t = {EQ: c == 0, NE: c != 0, LT: c < 0, LE: c <= 0, GT: c > 0, GE: c >= 0}[rel]
            # the solver still gives the verdict on the simplified formula
            s = z3.Solver()
            t0 = time.time()
            z = z3.RealVal(str(c))
            s.add({EQ: z != 0, NE: z == 0, LT: z >= 0, LE: z > 0, GT: z <= 0, GE: z < 0}[rel])
            res = s.check()
            self.st.add("simplified", res, time.time() - t0)
            assert (res == z3.unsat) == t
            if t:
                return "proved", None
            return "refuted", None
        if rel != EQ and self.prove_light(rel, r):
            return "proved", None
        if rel == NE and self.prove_light(NE, r):
            return "proved", None
        res, m = self.query([self.zrel(NEGREL[rel], r)], "property", timeout, True)
        if res == z3.unsat:
            return "proved", None
        if res == z3.sat:
            return "refuted", m
        return "unknown", None

    def model_values(self, m):
        out = {}
        for name, i in self.inputs.items():
            v = m.eval(self.z[i], model_completion=True) if m is not None else None
            if v is None:
                out[name] = 0.0
            elif z3.is_rational_value(v):
                out[name] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[name] = float(v.approx(20).as_fraction())
            else:
                out[name] = 0.0
        return out
