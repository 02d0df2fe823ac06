"""Bit-precise exploration: values are IEEE numbers (QF_FP), including NaN, the
infinities, signed zeros and subnormals."""
import math, os, struct, time
import z3
from encode import Path, Unsupported, EQ, NE, LT, LE, GT, GE
from engine import Obligation, Native
import ieee

SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
SPECIAL = [0.0, -0.0, 1.0, -1.0, float("nan"), float("inf"), -float("inf"), 5e-324, 2.2250738585072014e-308, 2.220446049250313e-16,
           2.3e-16, 1.1e-16, 1.1920929e-07, 1.2e-7, 1e-12, 1e-9, 1e-6, 1e-3, 1.0000000000000002, 0.9999999999999999, 1.00000012, 1.1, 100.0, 1e300, 1e-300]


FN = {"ADD": z3.fpAdd, "SUB": z3.fpSub, "MUL": z3.fpMul, "DIV": z3.fpDiv}


def special(x):
    """NaN, an infinity or a zero, or a choice between such"""
    return z3.is_fp_value(x) and (x.isNaN() or x.isInf() or x.isZero())


KINDS = ("nan", "+inf", "-inf", "+0", "-0")


def of_kind(k, S):
    return {"nan": z3.fpNaN, "+inf": z3.fpPlusInfinity, "-inf": z3.fpMinusInfinity, "+0": z3.fpPlusZero, "-0": z3.fpMinusZero}[k](S)


def kind(x):
    return "nan" if x.isNaN() else ("-" if x.isNegative() else "+") + ("inf" if x.isInf() else "0")


def split(x):
    """{kind: condition} when x is a choice between special values, else None"""
    if special(x):
        return {kind(x): z3.BoolVal(True)}
    if x.decl().kind() != z3.Z3_OP_ITE:
        return None
    a, b, c = split(x.arg(1)), split(x.arg(2)), x.arg(0)
    if a is None or b is None:
        return None
    out = {k: z3.And(c, v) for k, v in a.items()}
    for k, v in b.items():
        v = z3.And(z3.Not(c), v)
        out[k] = z3.Or(out[k], v) if k in out else v
    return out


def join(parts, S):
    """[(condition, value)], the last one holding when no other does"""
    r = parts[-1][1]
    for c, v in reversed(parts[:-1]):
        r = z3.If(c, v, r)
    k = split(r)
    if k is None or len(k) == 1:
        return r if k is None else of_kind(next(iter(k)), S)
    k = [(z3.simplify(c), of_kind(n, S)) for n, c in sorted(k.items())]
    k = [x for x in k if not z3.is_false(x[0])]
    r = k[-1][1]
    for c, v in reversed(k[:-1]):
        r = z3.If(c, v, r)
    return r


def signed(x, y, S, what):
    """an infinity or a zero whose sign is the product of the signs of x and y"""
    neg, pos = of_kind("-" + what, S), of_kind("+" + what, S)
    return z3.If(z3.Xor(z3.fpIsNegative(x), z3.fpIsNegative(y)), neg, pos)


def binary(op, x, y, S):
    """The operation; where an operand is a NaN, an infinity or a zero, the rules of IEEE 754
    instead of the circuit."""
    for first, v in ((True, x), (False, y)):
        k = None if z3.is_fp_value(v) else split(v)
        if k:
            f = lambda n: binary(op, of_kind(n, S), y, S) if first else binary(op, x, of_kind(n, S), S)
            return join([(c, f(n)) for n, c in k.items()], S)
    nan, vx, vy = z3.fpNaN(S), z3.is_fp_value(x), z3.is_fp_value(y)
    if vx and vy:
        return z3.simplify(FN[op](RNE, x, y))
    if vx and x.isNaN() or vy and y.isNaN():
        return nan
    inf, zero = vx and x.isInf() or vy and y.isInf(), vx and x.isZero() or vy and y.isZero()
    if op in ("ADD", "SUB") and inf:
        z, w = (x, y if op == "ADD" else z3.fpNeg(y)) if vx else (y if op == "ADD" else z3.simplify(z3.fpNeg(y)), x)
        other = of_kind("+inf" if z.isNegative() else "-inf", S)
        return z3.If(z3.Or(z3.fpIsNaN(w), w == other), nan, z)
    if op == "MUL" and (inf or zero):
        w = y if vx else x
        bad = z3.fpIsZero(w) if inf else z3.fpIsInf(w)
        return z3.If(z3.Or(z3.fpIsNaN(w), bad), nan, signed(x, y, S, "inf" if inf else "0"))
    if op == "DIV" and (inf or zero):
        w = y if vx else x
        bad = z3.fpIsInf(w) if inf else z3.fpIsZero(w)
        return z3.If(z3.Or(z3.fpIsNaN(w), bad), nan, signed(x, y, S, "inf" if inf == vx else "0"))
    return FN[op](RNE, x, y)


def unary(op, x, S):
    k = None if z3.is_fp_value(x) else split(x)
    if k:
        return join([(c, unary(op, of_kind(n, S), S)) for n, c in k.items()], S)
    y = {"NEG": z3.fpNeg, "ABS": z3.fpAbs, "SQRT": lambda v: z3.fpSqrt(RNE, v)}[op](x)
    return z3.simplify(y) if z3.is_fp_value(x) else y


class FpEnc:
    def __init__(self, path, stats, cache):
        self.p, self.st, self.cache = path, stats, cache
        self.memo, self.inputs = {}, {}
        self.name = {e[1]: e[2] for e in path.ev if e[0] == "V"}
        self.facts = []

    def term(self, n):
        m, st = self.memo, [n]
        while st:
            k = st[-1]
            if k in m:
                st.pop(); continue
            op, w, a, b, c, bits = self.p.nodes[k]
            deps = [] if op in ("VAR", "CONST") else [a] if op == "POWI" else [x for x in (a, b, c) if x]
            todo = [x for x in deps if x not in m]
            if todo:
                st.extend(todo); continue
            m[k] = self.op(k, op, w, a, b, c, bits)
            st.pop()
        return m[n]

    def op(self, k, op, w, a, b, c, bits):
        m, S = self.memo, SORT[w]
        if op == "VAR":
            v = z3.FP(self.name[k], S)
            self.inputs[self.name[k]] = (v, w)
            return v
        if op == "CONST":
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, w), S))
        if op == "EXT64" or op == "TRUNC32":
            return z3.fpFPToFP(RNE, m[a], S)
        if op in ("ADD", "SUB", "MUL", "DIV"):
            return binary(op, m[a], m[b], S)
        if op in ("NEG", "ABS", "SQRT"):
            return unary(op, m[a], S)
        if op == "POWI":
            e = bits - (1 << 64) if bits >> 63 else bits
            r, x, n = None, m[a], abs(e)
            while n:
                if n & 1:
                    r = x if r is None else binary("MUL", r, x, S)
                n >>= 1
                if n:
                    x = binary("MUL", x, x, S)
            one = z3.FPVal(1.0, S)
            return one if r is None else binary("DIV", one, r, S) if e < 0 else r
        if op == "FMA":
            return z3.fpFMA(RNE, m[a], m[b], m[c])
        if op in ("FLOOR", "CEIL", "TRUNCI", "ROUND"):
            return z3.fpRoundToIntegral({"FLOOR": z3.RTN(), "CEIL": z3.RTP(), "TRUNCI": z3.RTZ(), "ROUND": z3.RNA()}[op], m[a])
        if op == "COPYSIGN":
            mag = z3.fpAbs(m[a])
            return z3.If(z3.fpIsNegative(m[b]), z3.fpNeg(mag), mag)
        raise Unsupported("bit-precise operation " + op)

    def cmp(self, rel, a, b):
        x, y = self.term(a), self.term(b)
        if rel == "uno":
            return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        return {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ}[rel](x, y)

    def rel(self, rel, a, b):
        x, y = self.term(a), self.term(b)
        return {EQ: z3.fpEQ, NE: lambda p, q: z3.Not(z3.fpEQ(p, q)), LT: z3.fpLT, LE: z3.fpLEQ, GT: z3.fpGT, GE: z3.fpGEQ}[rel](x, y)

    def vars(self, e):
        out, st, seen = set(), [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
        return out

    def query(self, extra, kind, timeout, sliced=True):
        """Only the facts that share inputs with the question, directly or not, matter;
        the others are satisfiable by themselves.  Equal questions are asked once."""
        facts = self.facts
        if sliced:
            vs = set().union(*[self.vars(x) for x in extra]) if extra else set()
            left, facts = [(f, self.vars(f)) for f in self.facts], []
            while True:
                hit = [(f, w) for f, w in left if w & vs]
                if not hit:
                    break
                facts += [f for f, _ in hit]
                vs = vs.union(*[w for _, w in hit])
                left = [(f, w) for f, w in left if not any(f is g for g, _ in hit)]
            key = frozenset(x.sexpr() for x in list(extra) + facts)
            if key in self.cache and self.cache[key] is not None:
                self.st.hits = getattr(self.st, "hits", 0) + 1
                return self.cache[key], None
        s = z3.SolverFor("QF_FP")
        s.set("timeout", int(timeout * 1000))
        s.add(*facts, *extra)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.st.add(kind, r, time.time() - t)
        if sliced:
            self.cache[key] = r if r != z3.unknown else None
            return r, None
        return r, (s.model() if r == z3.sat else None)

    def values(self, m):
        out = {}
        for n, (v, w) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if x.isNaN():
                out[n] = float("nan")
            elif x.isInf():
                out[n] = -float("inf") if x.isNegative() else float("inf")
            elif x.isZero():
                out[n] = -0.0 if x.isNegative() else 0.0
            else:
                b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                out[n] = struct.unpack("<d", struct.pack("<Q", b))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", b))[0]
        return out


class FpObligation(Obligation):
    def __init__(self, name, fp, out, seed=1, opts=None):
        super().__init__(name, fp, out, seed, opts)
        self.o["max_paths"] = max(self.o["max_paths"], 6000)
        if self.o["branch_timeout"] < 10:
            self.o["enough"] = 1
        if name.startswith("C24.total"):
            # no panic on any path, feasible or not
            self.o["branch_timeout"] = min(self.o["branch_timeout"], 0.3)

    def process(self, path, plen, splits):
        enc = FpEnc(path, self.st, self.__dict__.setdefault('cache', {}))
        self.lastalts = alts = []
        dec = path.decisions()
        self.res["nodes"] = max(self.res["nodes"], len(path.nodes))
        for n in enc.name:
            enc.term(n)
        for e in path.ev:
            if e[0] == "A":
                enc.facts.append(enc.rel(e[1], e[2], e[3]))
        i, todo = 0, []
        for e in path.ev:
            if e[0] == "F":
                self.res["functions"].add(e[1])
            elif e[0] == "H":
                if i >= plen:
                    for k in range(1, e[1]):
                        alts.append(dec[:i] + chr(48 + k))
                i += 1
            elif e[0] == "B":
                c = enc.cmp(e[1], e[2], e[3])
                taken = c if e[4] else z3.Not(c)
                if i >= plen:
                    self.res["decisions"] += 1
                    other = enc.query([z3.Not(taken)], "branch", self.o["branch_timeout"])[0] != z3.unsat
                    if other:
                        alts.append(dec[:i] + str(1 - e[4]))
                    if other and enc.query([taken], "branch", self.o["branch_timeout"])[0] == z3.unsat:
                        return alts, False
                enc.facts.append(taken)
                i += 1
            elif e[0] in "CSPW":
                todo.append(e)
        if path.status.startswith("unsupported") or path.status.startswith("crash"):
            return alts, True
        self.identities([e for e in todo if e[0] == "S" and e[1] == e[2]], path)
        for e in todo:
            lab = e[-1]
            self.res["checks"] += 1
            if e[0] == "P":
                if e[1]:
                    self.res["proved"] += 1
                else:
                    self.witness(enc, path, lab, None)
                continue
            if e[0] == "C":
                if e[4]:
                    raise Unsupported("tolerance in bit-precise mode")
                goal = enc.rel(e[1], e[2], e[3])
            elif e[0] == "W":
                x = enc.term(e[1])
                goal = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
            elif e[1] == e[2]:
                continue
            else:
                goal = enc.term(e[1]) == enc.term(e[2])
            # (rows of a batch that are not the same term: samples come before long searches)
            quick = e[0] == "S" and self.o["branch_timeout"] < 10
            r, m = enc.query([z3.Not(goal)], "property", 3.0 if quick else self.o["timeout"])
            if r == z3.unsat:
                self.res["proved"] += 1
                if len(self.res["samples"]) < 3:
                    self.res["samples"].append(dict(obligation=self.name, path=dec, assertion=lab, verdict="unsat"))
            elif r == z3.sat:
                r, m = enc.query([z3.Not(goal)], "counterexample", self.o["timeout"], False)
                if r == z3.sat:
                    self.witness(enc, path, lab, m)
                else:
                    self.res["open"].append((lab, "solver gave no model"))
            elif not self.directed(path, lab):
                self.res["open"].append((lab, "solver gave no verdict"))
        if path.status == "panic":
            self.res["checks"] += 1
            self.witness(enc, path, "panic", None)
        return alts, True

    def directed(self, path, lab):
        if len(self.res["violations"]) >= 4:
            return True
        self.tried = getattr(self, "tried", 0) + 1
        if self.tried > 60:
            return False
        """The solver gave no model of a failing path in time: ordinary and special values
        are run on the real code."""
        names, ch = [e[2] for e in path.ev if e[0] == "V"], self.chooses(path)
        for k in range(40):
            vals = {}
            for n in names:
                x = self.rnd.gauss(0, 1) if k % 4 < 2 or self.rnd.random() < 0.5 else self.rnd.choice(SPECIAL)
                vals[n] = float(ieee.np.float32(x)) if self.width == 32 else x
            nat = self.native(vals, ch)
            if nat.assumptions_ok(self.width, exact=True):
                v = nat.violations(self.width, exact=True)
                if v:
                    self.res["violations"].append(dict(obligation=self.name, assertion=lab, found="directed", exact=True, values=vals, chooses=ch, fails=[list(x) for x in v[:6]]))
                    return True
        return False

    def witness(self, enc, path, lab, m):
        if len(self.res["violations"]) >= 4:
            return
        if m is None:
            r, m = enc.query([], "counterexample", self.o["timeout"], False)
            if r == z3.unsat:
                return                     # contradictory assumptions
            if r != z3.sat:
                if self.directed(path, lab):
                    return
                self.res["open"].append((lab, "fails on a path whose inputs the solver could not give"))
                return
        vals, ch = enc.values(m), self.chooses(path)
        nat = self.native(vals, ch)
        v = nat.violations(self.width, exact=True) if nat.assumptions_ok(self.width, exact=True) else []
        if v:
            self.res["violations"].append(dict(obligation=self.name, assertion=lab, found="model", exact=True, values=vals, chooses=ch, fails=[list(x) for x in v[:6]]))
        else:
            self.res["open"].append((lab, f"the model {vals} does not reproduce natively"))

    def validate1(self, k):
        """run a concrete input on both sides, following its branches"""
        dec, vals, ch = "", {}, []
        for _ in range(400):
            path = self.sym(dec)
            for e in path.ev:
                if e[0] == "V" and e[2] not in vals:
                    x = self.rnd.choice(SPECIAL) if self.rnd.random() < 0.5 else self.rnd.choice([0.0, 1.0, self.rnd.gauss(0, 1)])
                    if self.width == 32:
                        x = struct.unpack("<f", struct.pack("<f", x))[0] if abs(x) < 1e38 or x != x or math.isinf(x) else 1e30
                        x = float(ieee.np.float32(x))
                    vals[e[2]] = x
            ev = ieee.Eval(path, vals)
            i, want, same = 0, "", True
            for e in path.ev:
                if e[0] == "H":
                    c = ord(dec[i]) - 48 if i < len(dec) else self.rnd.randrange(e[1])
                elif e[0] == "B":
                    c = int(bool(ev.cmp(e[1], e[2], e[3])))
                else:
                    continue
                want += chr(48 + c)
                i += 1
                if c != (e[4] if e[0] == "B" else e[2]):
                    same = False
                    break
            if same:
                break
            dec = want
        else:
            return
        if path.status not in ("ok", "panic", "stop"):
            return
        ok = all({EQ: x == y, NE: x != y, LT: x < y, LE: x <= y, GT: x > y, GE: x >= y}[r]
                 for r, x, y in ((e[1], ev(e[2]), ev(e[3])) for e in path.ev if e[0] == "A"))
        nat = self.native(vals, self.chooses(path))
        sy = [e for e in path.ev if e[0] in "CSPW"]
        na = [e for e in nat.ev if e[0] in "CSPW"]
        if len(sy) != len(na) or [e[0] for e in sy] != [e[0] for e in na] or nat.status != path.status:
            self.res["validation_mismatch"].append(f"{len(sy)} events ({path.status}) symbolically, {len(na)} natively ({nat.status}) at {vals}")
            return
        bits = lambda n, b: b & ((1 << self.width) - 1) if self.width == 32 else b
        for s, n in zip(sy, na):
            if s[0] == "P" and s[1] != n[1]:
                self.res["validation_mismatch"].append(f"{s[2]}: {s[1]} symbolically, {n[1]} natively at {vals}")
                return
            pairs = [(s[2], n[6]), (s[3], n[7])] if s[0] == "C" else []
            for node, b in pairs:
                x = ieee.bits64(ev(node))
                y = struct.unpack("<d", struct.pack("<Q", b))[0]
                if x != b and not (y != y and float(ev(node)) != float(ev(node))):
                    self.res["validation_mismatch"].append(f"{s[5]}: {float(ev(node))} symbolically, {y} natively at {vals}")
                    return
        if ok:
            bad = nat.violations(self.width, exact=True)
            if bad and not self.res["violations"] and not self.res["open"]:
                self.res["validation_mismatch"].append(f"discharged, but fails natively: {bad[:2]} at {vals}")
                return
        self.res["validated"] += 1
