"""Second, independent route from a path to the solver: the term DAG is handed over
node by node, without the polynomial normaliser of poly.py/encode.py."""
import math, struct, time
from fractions import Fraction
import z3
from encode import EQ, NE, LT, LE, GT, GE, NEGREL, Unsupported, bits_to_fraction, quarter_turn


def zr(rel, a, b):
    return {EQ: a == b, NE: a != b, LT: a < b, LE: a <= b, GT: a > b, GE: a >= b}[rel]


class Raw:
    def __init__(self, path, width):
        self.p, self.width, self.memo, self.side = path, width, {}, {}
        self.varname = {e[1]: e[2] for e in path.ev if e[0] == "V"}

    def term(self, n):
        stack, m = [n], self.memo
        while stack:
            k = stack[-1]
            if k in m:
                stack.pop(); continue
            op, w, a, b, c, bits = self.p.nodes[k]
            deps = [] if op in ("VAR", "CONST") else [x for x in (a, b, c) if x]
            todo = [x for x in deps if x not in m]
            if todo:
                stack.extend(todo); continue
            m[k] = self.op(k, op, w, a, b, c, bits)
            stack.pop()
        return m[n]

    def op(self, k, op, w, a, b, c, bits):
        m = self.memo
        if op == "VAR":
            return z3.Real(self.varname[k])
        if op == "CONST":
            return z3.RealVal(str(bits_to_fraction(bits, w)))
        if op == "ADD":
            return m[a] + m[b]
        if op == "SUB":
            return m[a] - m[b]
        if op == "MUL":
            return m[a] * m[b]
        if op == "NEG":
            return -m[a]
        if op == "EXT64":
            return m[a]
        if op == "DIV":
            v = z3.Real(f"q{k}")
            self.side[k] = [v * m[b] == m[a], m[b] != 0]
            return v
        if op == "SQRT":
            v = z3.Real(f"s{k}")
            self.side[k] = [v * v == m[a], v >= 0]
            return v
        if op == "FMA":
            return m[a] * m[b] + m[c]
        if op == "POWI":
            e = bits - (1 << 64) if bits >> 63 else bits
            x = z3.RealVal(1)
            for _ in range(abs(e)):
                x = x * m[a]
            if e >= 0:
                return x
            v = z3.Real(f"q{k}")
            self.side[k] = [v * x == 1, m[a] != 0]
            return v
        if op == "TRUNC32":
            if self.width == 32:
                return m[a]
            d = z3.Real(f"d{k}")
            self.side[k] = [d <= z3.Q(1, 1 << 24), d >= -z3.Q(1, 1 << 24)]
            return m[a] * (1 + d)
        if op in ("SIN", "COS") and self.p.nodes[a][0] == "CONST":
            t = quarter_turn(op, float(bits_to_fraction(self.p.nodes[a][5], w)), w)
            if t is not None:
                return z3.RealVal(t)
        raise Unsupported(op)

    def needed(self, nodes):
        seen, st = set(), list(nodes)
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            op, w, a, b, c, bits = self.p.nodes[k]
            if op not in ("VAR", "CONST"):
                st += [x for x in (a, b, c) if x]
        return seen

    def refute(self, e, timeout):
        """solver verdict on: assumptions and path condition and not(assertion e)"""
        _, rel, a, b, tol, lab = e
        roots, cons = [a, b], []
        for x in self.p.ev:
            if x[0] == "A":
                roots += [x[2], x[3]]
                cons.append(zr(x[1], self.term(x[2]), self.term(x[3])))
            elif x[0] == "U":
                roots += x[1]
                ts = [self.term(n) for n in x[1]]
                cons.append(sum(t * t for t in ts) == 1)
            elif x[0] == "B":
                r = {"eq": EQ, "lt": LT, "le": LE}[x[1]]
                roots += [x[2], x[3]]
                cons.append(zr(r if x[4] else NEGREL[r], self.term(x[2]), self.term(x[3])))
        ta, tb = self.term(a), self.term(b)
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout * 1000))
        for k in self.needed(roots):
            for f in self.side.get(k, ()):
                s.add(f)
        s.add(*cons)
        if tol:
            s.add(z3.Or(ta - tb > z3.RealVal(str(Fraction(tol))), tb - ta > z3.RealVal(str(Fraction(tol)))))
        else:
            s.add(zr(NEGREL[rel], ta, tb))
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        return r, time.time() - t0
