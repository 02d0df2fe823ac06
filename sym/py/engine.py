"""Explore an obligation's paths, discharge its assertions with the solver, replay
counterexamples natively."""
import json, math, os, random, struct, subprocess, tempfile, time
from fractions import Fraction
import z3
from encode import Enc, Path, Stats, NeedSplit, Unsupported, EQ, NE, LT, LE, GT, GE, NEGREL, RELNAME, Rat
from poly import Blowup
import ieee
from cross import Raw

BREL = {"eq": EQ, "lt": LT, "le": LE}


def u2d(h):
    return struct.unpack("<d", struct.pack("<Q", int(h, 16)))[0]


# properties that promise results bit for bit
BITWISE = ("C12", "C17", "C21", "C22")


class Native:
    """parsed output of a run of the real code on concrete values"""

    def __init__(self, fn, bits=False, scale=1.0):
        self.ev, self.status, self.missing = [], "missing", []
        self.slack = 0.0        # accuracy of code that a contract stands for
        self.bits = bits        # equalities of terms are meant bit for bit
        if not os.path.exists(fn):
            return
        for ln in open(fn, errors="replace"):
            p = ln.rstrip("\n").split(" ")
            if p[0] == "END":
                self.status = p[1]
            elif p[0] == "A":
                self.ev.append(("A", int(p[1]), int(p[2]), float(p[3]), float(p[4])))
            elif p[0] == "U":
                self.ev.append(("U", float(p[1])))
            elif p[0] == "C":
                self.ev.append(("C", int(p[1]), u2d(p[2]), u2d(p[3]), u2d(p[4]), " ".join(p[5:]), int(p[2], 16), int(p[3], 16)))
            elif p[0] == "S":
                self.ev.append(("S", int(p[1], 16), int(p[2], 16), " ".join(p[3:])))
            elif p[0] == "P":
                self.ev.append(("P", int(p[1]), " ".join(p[2:])))
            elif p[0] == "E":
                self.ev.append(("E", u2d(p[1]), u2d(p[2]), " ".join(p[3:])))
            elif p[0] == "W":
                self.ev.append(("W", u2d(p[1]), " ".join(p[2:])))
            elif p[0] == "T" and p[1] == "contract":
                self.slack = 1e-3 * (1 + scale)
            elif p[0] == "MISSING":
                self.missing.append(p[1])

    def assumptions_ok(self, width, exact=False):
        tol = 1e-9 if width == 64 else 1e-4
        for e in self.ev:
            if e[0] == "A" and not e[1]:
                if exact or not (e[2] in (LE, GE, EQ) and abs(e[3] - e[4]) <= tol * max(1, abs(e[3]))):
                    return False
            if e[0] == "U" and not abs(e[1] - 1) <= tol:
                return False
        return True

    def violations(self, width, tolscale=1.0, exact=False, diff=None, accurate=None):
        """labels of the assertions that fail on the concrete run, with values;
        diff = [label, d]: a difference of d under this label is one, however small;
        accurate: what the values whose accuracy is stated are exactly"""
        t = (1e-6 if width == 64 else 5e-3) * tolscale
        out = []
        for e in self.ev:
            if e[0] == "C":
                rel, a, b, tol, lab = e[1:6]
                if rel == EQ and exact:
                    bad = not a == b
                elif rel == EQ:
                    bad = not (abs(a - b) <= max(tol, self.slack, t * max(1.0, abs(a), abs(b)) if tol == 0 else tol))
                else:
                    bad = not {NE: a != b, LT: a < b, LE: a <= b, GT: a > b, GE: a >= b}[rel]
                    if a != a or b != b:
                        bad = True
                if diff and lab == diff[0] and rel == EQ and abs(a - b) >= diff[1]:
                    bad = True
                if bad:
                    out.append((lab, f"{a!r} {RELNAME[rel]} {b!r}" + (f" (tolerance {tol:g})" if tol else "")))
            elif e[0] == "S" and e[1] != e[2] and (exact or self.bits):
                k = 52 if width == 64 else 23
                if min(e[1] & ~(1 << width - 1), e[2] & ~(1 << width - 1)) > ((1 << (width - 1 - k)) - 1) << k:
                    continue           # both NaN
                out.append((e[3], f"{e[1]:x} is not {e[2]:x}"))
            elif e[0] == "S" and e[1] != e[2]:
                if width == 64:
                    a, b = u2d(hex(e[1])), u2d(hex(e[2]))
                else:
                    a = struct.unpack("<f", struct.pack("<I", e[1] & 0xffffffff))[0]
                    b = struct.unpack("<f", struct.pack("<I", e[2] & 0xffffffff))[0]
                if (not (abs(a - b) <= t * max(1.0, abs(a), abs(b))) or diff and e[3] == diff[0] and abs(a - b) >= diff[1]) and not (a != a and b != b):
                    out.append((e[3], f"{a!r} is not {b!r}"))
            elif e[0] == "P" and not e[1]:
                out.append((e[2], "false"))
            elif e[0] == "W" and not math.isfinite(e[1]):
                out.append((e[2], repr(e[1])))
        es = [e for e in self.ev if e[0] == "E"]
        if accurate and len(accurate) == len(es):
            for e, x in zip(es, accurate):
                if x is not None and not abs(e[1] - x) <= 4 * ACCURACY * 2.0 ** (-53 if width == 64 else -24) * e[2]:
                    out.append((e[3], f"{e[1]!r} is off {x!r} by {abs(e[1] - x):.3g}, the scale is {e[2]:.3g}"))
        if self.status == "panic":
            out.append(("panic", "the code panicked"))
        elif self.status == "missing":
            out.append(("crash", "the program did not finish"))
        return out


class TimeUp(Exception):
    pass


BRANCH_CAP = 40
ACCURACY = 4000      # allowed rounding error in units of roundoff times the scale of the harness (replays: four times that)


class Obligation:
    def __init__(self, name, fp, out, seed=1, opts=None):
        self.name, self.fp, self.out = name, fp, out
        self.width = 32 if name.endswith(".f32") else 64
        self.st = Stats()
        self.o = dict(timeout=20.0, branch_timeout=3.0, max_paths=3000, deadline=None, validate=2, samples=60, refute=150.0)
        self.refute_s = 0.0
        self.o.update(opts or {})
        if self.o.get("seconds"):
            self.o["deadline"] = min(self.o["deadline"] or 1e18, time.time() + self.o["seconds"])
        self.rnd = random.Random(f"{seed}:{name}")
        self.tmp = tempfile.mkdtemp(prefix="symh-", dir=self.o.get("tmp"))
        self.res = dict(name=name, paths=0, infeasible=0, decisions=0, checks=0, proved=0, definedness=0, splits=0,
                        violations=[], open=[], functions=set(), validated=0, validation_mismatch=[], samples=[],
                        vacuous=False, inputs=[], nodes=0)
        self.proved_labels = {}
        self.cross_left = self.o.get("cross_total", 0.0)
        self.cexcache = {}

    # ---- running ----
    def sym(self, dec):
        fn = os.path.join(self.tmp, "o.txt")
        if os.path.exists(fn):
            os.remove(fn)
        p = subprocess.run([os.path.join(self.out, "symh"), self.name, fn, dec], capture_output=True, text=True, timeout=120)
        if not os.path.exists(fn):
            raise Unsupported(f"symbolic run ended with {p.returncode}: {p.stderr[-300:]}")
        return Path(fn)

    def native(self, values, chooses, exe=None, keep=None):
        vf = keep or os.path.join(self.tmp, "v.txt")
        fn = os.path.join(self.tmp, "n.txt")
        if os.path.exists(fn):
            os.remove(fn)
        with open(vf, "w") as f:
            for k, v in values.items():
                f.write(f"{k} {v!r}\n" if not isinstance(v, str) else f"{k} {v}\n")
            for c in chooses:
                f.write(f"#choose {c}\n")
        env = dict(os.environ, SYM_VALUES=vf)
        try:
            subprocess.run([exe or os.path.join(self.out, "nath"), self.name, fn, ""], env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            pass
        num = [abs(float(v)) for v in values.values() if not isinstance(v, str)]
        return Native(fn, self.name[:3] in BITWISE, max(num + [0.0]))

    # ---- exploration ----
    def run(self):
        work = [("", ())]
        seen = {""}
        first = None
        t0 = time.time()
        while work:
            if self.res["paths"] + self.res["infeasible"] >= self.o["max_paths"]:
                self.res["open"].append(("path-bound", f"more than {self.o['max_paths']} paths")); break
            if len(self.res["violations"]) >= self.o.get("enough", 3):
                break
            if self.o["deadline"] and time.time() > self.o["deadline"]:
                self.res["open"].append(("time", "deadline reached")); break
            prefix, splits = work.pop()
            path = self.sym(prefix)
            if path.status.startswith("bad-decision"):
                self.res["open"].append(("engine", "bad decision " + prefix)); continue
            if path.status.startswith("unsupported") or path.status.startswith("crash"):
                # the branches taken up to here still have alternatives; the path itself is undecided
                self.res["open"].append(("unsupported", f"{path.status} on path '{path.decisions()}'"))
            try:
                alts, ok = self.process(path, len(prefix), splits)
            except TimeUp:
                self.res["open"].append(("time", "deadline reached")); break
            except NeedSplit:
                self.res["splits"] += 1
                work.append((prefix, splits + (-1,)))
                work.append((prefix, splits + (1,)))
                continue
            except Unsupported as e:
                # a condition that is undefined on this path (division by zero)
                self.res["open"].append(("undefined", f"{e} on path '{path.decisions()}'"))
                self.refute(Enc(path, self.st, self.width, splits + (1,) * 40, self.o["timeout"]), path, "undefined", None, None, quiet=True)
                alts, ok = list(self.lastalts), True
            except Blowup as e:
                self.res["open"].append(("blowup", str(e))); alts, ok = [], True
                alts = [a for a in self.lastalts]
            for a in alts:
                if a not in seen:
                    seen.add(a)
                    work.append((a, ()))
            if ok:
                self.res["paths"] += 1
                self.res["ops"] = self.res.get("ops", 0) + len(path.nodes)
                if first is None:
                    first = path
            else:
                self.res["infeasible"] += 1
        self.res["wall_s"] = time.time() - t0
        if self.res["paths"] == 0 and not self.res["open"]:
            self.res["vacuous"] = True
            self.res["open"].append(("vacuous", "no feasible path reaches the assertions"))
        self.validate()
        self.res["functions"] = sorted(self.res["functions"])
        self.res["queries"] = self.st.queries
        self.res["solver_s"] = round(self.st.solver_s, 3)
        self.res["verdicts"] = dict(unsat=self.st.unsat, sat=self.st.sat, unknown=self.st.unknown)
        self.res["query_kinds"] = self.st.by
        for f in os.listdir(self.tmp):
            os.remove(os.path.join(self.tmp, f))
        os.rmdir(self.tmp)
        return self.res

    def chooses(self, path):
        return [e[2] for e in path.ev if e[0] == "H"]

    def process(self, path, plen, splits):
        nb = 0
        cap = BRANCH_CAP if self.name[:3] in BITWISE else 10 ** 9
        enc = Enc(path, self.st, self.width, splits, self.o["timeout"])
        self.lastalts = alts = []
        dec = path.decisions()
        self.res["nodes"] = max(self.res["nodes"], len(path.nodes))
        for e in path.ev:
            if e[0] == "A":
                r = enc.F.add(enc.rat(e[2]), enc.rat(e[3]), -1)
                if not r.n or enc.R.is_const(r.n) and not r.df:
                    h, _ = enc.holds(e[1], r)
                    if h != "proved":
                        return alts, False
                    continue
                enc.fact(e[1], r)
        i = 0
        todo = []
        for e in path.ev:
            if e[0] == "F":
                self.res["functions"].add(e[1])
            elif e[0] == "H":
                if i >= plen:
                    for k in range(1, e[1]):
                        alts.append(dec[:i] + chr(48 + k))
                i += 1
            elif e[0] == "B":
                rel, a, b, v = BREL[e[1]], e[2], e[3], e[4]
                r = enc.F.add(enc.rat(a), enc.rat(b), -1)
                taken = rel if v else NEGREL[rel]
                nb += 1
                if self.o["deadline"] and time.time() > self.o["deadline"]:
                    raise TimeUp()
                if i >= plen and nb > cap:
                    # rows that are treated by cases: all combinations are out of reach for large
                    # batches (small ones are explored completely)
                    self.o["max_paths"] = min(self.o["max_paths"], self.res["paths"] + self.res["infeasible"] + 1 if nb > 5 * cap else 60)
                    m = ("branching", f"more than {cap} decisions on a path: the later ones were not varied")
                    if m not in self.res["open"]:
                        self.res["open"].append(m)
                        self.o["deadline"] = min(self.o["deadline"] or 1e18, time.time() + 60)
                elif i >= plen:
                    self.res["decisions"] += 1
                    can_take, can_other = self.feasible(enc, taken, r), self.feasible(enc, NEGREL[taken], r)
                    if can_other:
                        alts.append(dec[:i] + str(1 - v))
                    if not can_take:
                        return alts, False
                elif splits and not self.feasible(enc, taken, r):
                    return alts, False     # the case split contradicts a branch
                if r.n and not (enc.R.is_const(r.n) and not r.df):
                    enc.fact(taken, r)
                i += 1
            elif e[0] == "D":
                todo.append((e, len(enc.facts)))
                self.definedness(enc, e[1], path)
            elif e[0] in "CSPWE":
                todo.append((e, None))
        if path.status.startswith("unsupported") or path.status.startswith("crash"):
            return alts, True
        self.identities([e for e, _ in todo if e[0] == "S" and e[1] == e[2]], path)
        for e, _ in todo:
            if len(self.res["violations"]) >= self.o.get("enough", 3):
                break
            if e[0] == "C":
                self.assertion(enc, path, e)
            elif e[0] == "S":
                self.identity(enc, path, e)
            elif e[0] == "P":
                self.res["checks"] += 1
                if e[1]:
                    self.res["proved"] += 1
                else:
                    self.refute(enc, path, e[2], None, None)
            elif e[0] == "E":
                self.accuracy(enc, path, e)
            elif e[0] == "W":
                pass
        if path.status == "panic":
            self.res["checks"] += 1
            self.refute(enc, path, "panic", None, None)
        if self.o.get("cross") and not self.res["violations"] and not self.res["open"]:
            self.crosscheck(path)
        return alts, True

    def crosscheck(self, path):
        """the proved assertions once more, without the normaliser"""
        c = self.res.setdefault("cross", dict(confirmed=0, unknown=0, skipped=0))
        for e in path.ev:
            if e[0] != "C":
                continue
            if self.cross_left <= 0:
                c["skipped"] += 1
                continue
            try:
                raw = Raw(path, self.width)
                r, dt = raw.refute(e, min(self.o["cross"], self.cross_left))
            except (Unsupported, RecursionError):
                c["skipped"] += 1
                continue
            self.cross_left -= dt
            self.st.add("cross-check", r, dt)
            if r == z3.unsat:
                c["confirmed"] += 1
            elif r == z3.sat:
                self.res["validation_mismatch"].append(f"the plain encoding refutes '{e[5]}' on path '{path.decisions()}'")
            else:
                c["unknown"] += 1

    def feasible(self, enc, rel, r):
        if not r.n:
            return rel in (EQ, LE, GE)
        if enc.R.is_const(r.n) and not r.df:
            c = Fraction(r.n[0], r.dc)
            return {EQ: c == 0, NE: c != 0, LT: c < 0, LE: c <= 0, GT: c > 0, GE: c >= 0}[rel]
        if enc.prove_light(NEGREL[rel], r):
            return False
        return enc.query([enc.zrel(rel, r)], "branch", self.o["branch_timeout"]) != z3.unsat

    # ---- assertions ----
    def diff(self, enc, a, b):
        return enc.F.add(enc.rat(a), enc.rat(b), -1)

    def assertion(self, enc, path, e):
        _, rel, a, b, tol, lab = e
        self.res["checks"] += 1
        try:
            if tol:
                d = self.diff(enc, a, b)
                t = enc.F.const(Fraction(tol))
                h1, m = enc.holds(LE, enc.F.add(d, t, -1))
                h2 = h1
                if h1 == "proved":
                    h2, m = enc.holds(GE, enc.F.add(d, t))
                h = h1 if h1 != "proved" else h2
            else:
                d = self.diff(enc, a, b)
                h, m = enc.holds(rel, d, 4.0 if rel == EQ else None)
        except Unsupported as x:
            self.res["open"].append((lab, f"{x}"))
            # the value is undefined on this path (division by zero, non-finite constant): look for a run
            self.refute(enc, path, lab, None, None, quiet=True)
            return
        if h == "proved":
            self.res["proved"] += 1
            self.proved_labels[lab] = self.proved_labels.get(lab, 0) + 1
            if len(self.res["samples"]) < 3:
                self.res["samples"].append(dict(obligation=self.name, path=path.decisions(), assertion=lab, verdict="unsat"))
            return
        self.refute(enc, path, lab, m, (rel, d, tol))

    def identity(self, enc, path, e):
        _, a, b, lab = e
        self.res["checks"] += 1
        if a == b:
            return
        try:
            h, m = enc.holds(EQ, self.diff(enc, a, b), 4.0)
        except Unsupported as x:
            self.res["open"].append((lab, str(x))); return
        if h == "proved":
            if not lab.startswith("strict:") and self.name[:3] not in BITWISE:
                self.res["proved"] += 1
                self.res.setdefault("real_equal_only", []).append(lab)
                return
            # equal over the reals but computed differently: rounding may tell them apart
            self.refute(enc, path, lab, None, None, extremes=True)
            return
        self.refute(enc, path, lab, m, (EQ, self.diff(enc, a, b), 0.0))

    def identities(self, es, path):
        """Both sides are one node of the hash-consed DAG, so they agree for every
        interpretation of the operations: the solver is asked, over terms of an
        uninterpreted sort, whether any of the pairs can differ."""
        if not es:
            return
        t = time.time()
        V = z3.DeclareSort("V")
        con = {}
        def const(n):
            if n not in con:
                con[n] = z3.Const(f"t{n}", V)
            return con[n]
        s = z3.Solver()
        s.add(z3.Or([const(e[1]) != const(e[2]) for e in es]))
        r = s.check()
        self.st.add("identity", r, time.time() - t)
        if r == z3.unsat:
            self.res["proved"] += len(es)
            self.res["identities"] = self.res.get("identities", 0) + len(es)
            if len(self.res["samples"]) < 3:
                self.res["samples"].append(dict(obligation=self.name, path=path.decisions(), assertion=es[0][3], identities=len(es), verdict="unsat"))
        else:
            self.res["open"].append(("identity", "solver did not confirm"))

    def definedness(self, enc, n, path):
        op, w, a, b, c, bits = path.nodes[n]
        self.res["definedness"] += 1
        rel = r = None
        try:
            if op == "DIV":
                rel, r = NE, enc.rat(b)
            elif op == "POWI":
                rel, r = NE, enc.rat(a)
            else:
                rel, r = GE, enc.rat(a)
            h, m = enc.holds(rel, r, 8.0)
        except Unsupported as x:
            h, m = "unknown", None
        if h == "proved":
            return
        lab = f"definedness of {'a division' if op != 'SQRT' else 'a square root'}"
        # only observable effects count: replay decides
        self.refute(enc, path, lab, m, (rel, r, 0.0) if r is not None else None, soft=True)
        if h == "refuted" or True:
            # past this point the value is defined only where the operand is
            try:
                enc.fact(rel, r)
            except Exception:
                pass

    def accuracy(self, enc, path, e):
        """the accumulated rounding error of a result against the stated scale"""
        from acc import Acc
        _, n, scale, lab = e
        self.res["checks"] += 1
        try:
            if getattr(enc, "acc", None) is None:
                enc.acc = Acc(enc, path)
            err, s = enc.acc(n)[1], enc.acc(scale)[0]
            bad = enc.acc.exceeds(err, s, ACCURACY, self.st, min(self.o["timeout"], 10.0))
        except Unsupported as x:
            self.res["open"].append((lab, str(x)))
            bad = None
        if bad is False:
            self.res["proved"] += 1
            self.proved_labels[lab] = self.proved_labels.get(lab, 0) + 1
            if len(self.res["samples"]) < 3:
                self.res["samples"].append(dict(obligation=self.name, path=path.decisions(), assertion=lab, verdict="unsat"))
            return
        if (lab, path.decisions()) in self.cexcache:
            return
        self.cexcache[lab, path.decisions()] = False
        started = time.time()
        found = False
        for k in range(self.o["samples"] * 3):
            if self.refute_s + time.time() - started > self.o["refute"]:
                break
            vals = self.spread(enc)
            exact = self.exact(path, vals)
            if exact is None:
                continue
            nat = self.native(vals, self.chooses(path))
            if not nat.assumptions_ok(self.width):
                continue
            v = [x for x in nat.violations(self.width, accurate=exact) if x[0] == lab]
            if v:
                self.res["violations"].append(dict(obligation=self.name, assertion=lab, found="point", values=vals, chooses=self.chooses(path),
                                                   accurate=exact, fails=[list(x) for x in v[:6]]))
                found = True
                break
        if not found and bad:
            self.res["open"].append((lab, "not proved and no counterexample reproduced"))
        self.refute_s += time.time() - started

    def spread(self, enc):
        """inputs of very different magnitudes"""
        r = self.rnd
        vals = {}
        for g in enc.R.units:
            v = [r.gauss(0, 1) for _ in g]
            n = math.sqrt(sum(x * x for x in v))
            for i, x in zip(g, v):
                vals[i] = x / n
        base = [10.0 ** r.choice([-6, -3, 0, 3, 6, 8]) for _ in range(2)]
        out = {}
        for n, i in enc.inputs.items():
            x = vals[i] if i in vals else r.gauss(0, 1) * r.choice(base + [1.0])
            out[n] = x if self.width == 64 else struct.unpack("<f", struct.pack("<f", x))[0]
        return out

    def exact(self, path, vals):
        """the values whose accuracy is stated, exactly; None off this path"""
        ev = ieee.MpEval(path, vals)
        try:
            for e in path.ev:
                if e[0] == "B":
                    x, y = ev(e[2]), ev(e[3])
                    if bool({EQ: x == y, LT: x < y, LE: x <= y}.get(BREL[e[1]])) != bool(e[4]):
                        return None
            return [float(ev(e[1])) for e in path.ev if e[0] == "E"]
        except (ArithmeticError, ValueError, TypeError):
            return None

    # ---- counterexamples ----
    def refute(self, enc, path, lab, model, goal, soft=False, quiet=False, extremes=False):
        """look for a concrete input that shows the violation on the real code"""
        key = (lab, path.decisions() if not soft else "")
        if key in self.cexcache:
            if not self.cexcache[key] and not soft and not quiet:
                pass
            return
        if len(self.res["violations"]) >= 4:
            return
        ch = self.chooses(path)
        cands = []
        started = time.time()
        if model is not None:
            cands.append(("model", enc.model_values(model)))
        for how, vals in self.candidates(enc, path, goal, cands, extremes):
            if how != "model" and self.refute_s + time.time() - started > self.o["refute"]:
                break
            nat = self.native(vals, ch)
            if not nat.assumptions_ok(self.width):
                continue
            v, small = nat.violations(self.width), None
            if not v and goal is not None and goal[0] == EQ and not goal[2]:
                small = self.small_difference(path, lab, vals, nat)
                v = nat.violations(self.width, diff=small) if small else []
            if v:
                self.cexcache[key] = True
                self.res["violations"].append(dict(obligation=self.name, assertion=lab, found=how, values=vals, chooses=ch, diff=small,
                                                   fails=[list(x) for x in v[:6]]))
                return
        self.refute_s += time.time() - started
        self.cexcache[key] = False
        if soft:
            self.res.setdefault("soft", []).append(lab)
            return
        if extremes:
            self.res["proved"] += 1
            self.res.setdefault("real_equal_only", []).append(lab)
            return
        if not quiet:
            self.res["open"].append((lab, "not proved and no counterexample reproduced"))

    def small_difference(self, path, lab, vals, nat):
        """A refuted equality whose sides differ by less than the general tolerance of the
        replay: accepted if both sides of the real run follow their exact real values much
        closer than these differ."""
        from ieee import MpEval
        sy = [e for e in path.ev if e[0] in "CSP"]
        na = [e for e in nat.ev if e[0] in "CSP"]
        if len(sy) != len(na):
            return None
        k = 9 if self.width == 64 else 4
        big = max([abs(float(v)) for v in vals.values()] + [0.0])
        ev = MpEval(path, vals)
        for s, n in zip(sy, na):
            if s[-1] != n[-1] and s[0] != "C" or s[0] == "P":
                continue
            if s[0] == "C" and (s[1] != EQ or s[4] or s[5] != lab):
                continue
            if s[0] == "S" and s[3] != lab:
                continue
            x, y = (s[2], s[3]) if s[0] == "C" else (s[1], s[2])
            if s[0] == "C":
                a, b = n[2], n[3]
            else:
                f = (lambda i: u2d(hex(i))) if self.width == 64 else (lambda i: struct.unpack("<f", struct.pack("<I", i & 0xffffffff))[0])
                a, b = f(n[1]), f(n[2])
            try:
                xa, xb = ev(x), ev(y)
                d = float(abs(xa - xb))
                if (d > 10.0 ** -k * float(max(abs(xa), abs(xb))) and d > 10.0 ** (-k - 3 if k == 9 else -5) * big
                        and abs(a - b) > 0 and float(abs(xa - a) + abs(xb - b)) < 0.1 * d):
                    return [lab, 0.5 * d]
            except (ArithmeticError, ValueError, TypeError):
                continue
        return None

    def candidates(self, enc, path, goal, cands, extremes):
        yield from cands
        if self.refute_s > self.o["refute"]:
            return
        # robust model from the solver
        if goal is not None:
            rel, d, tol = goal
            for bound, margin in ((4, "1/8"), (64, "1/64")):
                ex = []
                for i in enc.inputs.values():
                    ex += [enc.z[i] <= bound, enc.z[i] >= -bound]
                mg = z3.RealVal(margin)
                try:
                    n, den = enc.zpoly(d.n), z3.RealVal(d.dc)
                    for f, k in d.df:
                        for _ in range(k):
                            den = den * enc.zpoly(enc.R.factors[f])
                    if rel == EQ:
                        ex.append(z3.Or(n * n > (mg * mg) * den * den) if not tol else z3.Or(n > z3.RealVal(str(Fraction(tol) * 2)) * den, n < -z3.RealVal(str(Fraction(tol) * 2)) * den))
                        ex.append(den != 0)
                    else:
                        ex.append(enc.zrel(NEGREL[rel], d))
                except Exception:
                    continue
                r, m = enc.query(ex, "counterexample", 6.0, True)
                if r == z3.sat:
                    yield "robust model", enc.model_values(m)
        else:
            r, m = enc.query([], "counterexample", 6.0, True)
            if r == z3.sat:
                yield "model", enc.model_values(m)
        for k in range(self.o["samples"] * (3 if extremes else 1)):
            vals = self.sample(enc, 10.0 ** self.rnd.choice([3, 6, 9, 12, 16, 17, 18]) if extremes else 1.0)
            if goal is not None and not extremes:
                # the solver confirms that these inputs violate the assertion
                ex = [enc.z[enc.inputs[n]] == z3.RealVal(str(f)) for n, f in vals.items()]
                rel, d, tol = goal
                if tol == 0:
                    ex.append(enc.zrel(NEGREL[rel], d))
                if enc.query(ex, "counterexample-at-point", 2.0) != z3.sat:
                    continue
            yield ("solver-checked point" if goal is not None and not extremes else "point"), {n: float(f) for n, f in vals.items()}

    def sample(self, enc, scale=1.0):
        vals = {}
        grp = {}
        for g in enc.R.units:
            t = [Fraction(self.rnd.randint(-6, 6), self.rnd.choice([2, 3, 4])) for _ in g[1:]]
            s = sum(x * x for x in t)
            u = [(1 - s) / (1 + s)] + [2 * x / (1 + s) for x in t]
            k = self.rnd.randrange(len(u))
            u = u[k:] + u[:k]
            for i, x in zip(g, u):
                grp[i] = x
        for n, i in enc.inputs.items():
            if i in grp:
                vals[n] = grp[i]
            else:
                x = Fraction(self.rnd.randint(-64, 64), self.rnd.choice([1, 2, 4, 8, 16]))
                vals[n] = x * Fraction(int(scale)) if scale != 1.0 else x
        return vals

    # ---- validation of the encoding against the real code ----
    def validate(self):
        for k in range(self.o["validate"]):
            try:
                self.validate1(k)
            except Unsupported:
                return
            except Exception as e:
                self.res["validation_mismatch"].append(f"engine: {e!r}")
                return

    def validate1(self, k):
        path = self.sym("")
        dec = ""
        vals, ch = None, None
        for _ in range(400):
            if vals is None:
                enc = Enc(path, Stats(), self.width)
                # random inputs that satisfy the assumptions
                for _try in range(200):
                    vals = {n: float(f) for n, f in self.sample(enc).items()}
                    if self.width == 32:
                        import numpy as np
                        vals = {n: float(np.float32(v)) for n, v in vals.items()}
                    ev = ieee.Eval(path, vals)
                    if _try > 20:
                        # simple bounds of many inputs
                        for e in path.ev:
                            if e[0] == "A" and path.nodes[enc.strip(e[2])][0] == "VAR" and path.nodes[enc.strip(e[3])][0] == "CONST":
                                x, y = ev(e[2]), ev(e[3])
                                if not {EQ: x == y, NE: x != y, LT: x < y, LE: x <= y, GT: x > y, GE: x >= y}[e[1]]:
                                    vals[enc.varname[enc.strip(e[2])]] = float(y * round(self.rnd.random() * 64) / 64)
                        ev = ieee.Eval(path, vals)
                    if all({EQ: x == y, NE: x != y, LT: x < y, LE: x <= y, GT: x > y, GE: x >= y}[r]
                           for r, x, y in ((e[1], ev(e[2]), ev(e[3])) for e in path.ev if e[0] == "A")):
                        break
                else:
                    return
            # follow the decisions these inputs take
            ev = ieee.Eval(path, {**{n: 0.0 for n in ev.name.values()}, **vals}) if False else ieee.Eval(path, vals)
            i, want = 0, ""
            diverged = False
            for e in path.ev:
                if e[0] == "H":
                    c = ord(dec[i]) - 48 if i < len(dec) else self.rnd.randrange(e[1])
                    want += chr(48 + c)
                    if c != e[2]:
                        diverged = True
                        break
                    i += 1
                elif e[0] == "B":
                    missing = [n for n in (e[2], e[3])]
                    c = int(bool(ev.cmp(e[1], e[2], e[3])))
                    want += str(c)
                    if c != e[4]:
                        diverged = True
                        break
                    i += 1
            if not diverged:
                break
            dec = want
            path = self.sym(dec)
            newv = [e[2] for e in path.ev if e[0] == "V" and e[2] not in vals]
            if newv:
                vals = None
                # inputs appeared after a choice: redraw everything on the longer prefix
        else:
            return
        if path.status not in ("ok", "panic", "stop"):
            return
        nat = self.native(vals, self.chooses(path))
        if self.width == 64 and nat.assumptions_ok(64) and not self.res["violations"] and not self.res["open"]:
            bad = nat.violations(64, 1e3)
            if bad:
                self.res["validation_mismatch"].append(f"discharged, but fails natively: {bad[:2]} at {vals}")
                return
        if any(e[0] == "E" for e in path.ev) and nat.assumptions_ok(self.width) and not self.res["violations"] and not self.res["open"]:
            bad = nat.violations(self.width, 1e3, accurate=self.exact(path, vals))
            if bad:
                self.res["validation_mismatch"].append(f"discharged, but inaccurate natively: {bad[:2]} at {vals}")
                return
        ev = ieee.Eval(path, vals)
        sy = [e for e in path.ev if e[0] in "CSP"]
        na = [e for e in nat.ev if e[0] in "CSP"]
        if len(sy) != len(na):
            self.res["validation_mismatch"].append(f"{len(sy)} events symbolically, {len(na)} natively ({nat.status})")
            return
        bad = None
        # a contract stands for code of limited accuracy: agreement to a thousandth
        about = any(e[0] == "T" and e[1].startswith("contract") for e in path.ev)
        close = lambda a, b: abs(a - b) <= 1e-3 * (1 + max([abs(v) for v in vals.values()] + [abs(a), abs(b)]))
        for s, n in zip(sy, na):
            if s[0] == "C":
                for node, bits in ((s[2], n[6]), (s[3], n[7])):
                    x = ieee.bits64(ev(node))
                    if about and close(float(ev(node)), u2d(hex(bits))):
                        continue
                    if x != bits and not (math.isnan(u2d(hex(bits))) and math.isnan(float(ev(node)))) and not (x << 1 & (1 << 64) - 1 == 0 and bits << 1 & (1 << 64) - 1 == 0):
                        bad = (s[5], float(ev(node)), u2d(hex(bits)))
            elif s[0] == "P" and s[1] != n[1]:
                bad = (s[2], s[1], n[1])
        if bad:
            self.res["validation_mismatch"].append(f"{bad} at {vals}")
        else:
            self.res["validated"] += 1


def run_obligation(args):
    name, fp, out, seed, opts = args
    try:
        if fp:
            from fpenc import FpObligation
            return FpObligation(name, fp, out, seed, opts).run()
        return Obligation(name, fp, out, seed, opts).run()
    except Exception as e:
        import traceback
        return dict(name=name, error=traceback.format_exc()[-1500:], paths=0, infeasible=0, decisions=0, checks=0, proved=0, definedness=0,
                    splits=0, violations=[], open=[("engine", repr(e))], functions=[], validated=0, validation_mismatch=[], samples=[],
                    queries=0, solver_s=0.0, verdicts=dict(unsat=0, sat=0, unknown=0), query_kinds={}, nodes=0, wall_s=0)


if __name__ == "__main__":
    import sys, build
    out, meta = build.build()
    obs = [ln.split() for ln in subprocess.run([os.path.join(out, "symh")], capture_output=True, text=True).stdout.split("\n") if ln]
    from multiprocessing import Pool
    sel = [(n, int(fp) & 1, out, 1, dict(cross=float(os.environ.get('CROSS', 0)), cross_total=1e9)) for n, fp in obs if any(n.startswith(a) for a in sys.argv[1:])]
    with Pool(8) as p:
        for r in p.imap(run_obligation, sel):
            print(r["name"], r.get("cross", ""), f"paths {r['paths']}+{r['infeasible']} checks {r['proved']}/{r['checks']} def {r['definedness']} q {r['queries']} {r['solver_s']}s wall {r['wall_s']:.1f} val {r['validated']}", r["verdicts"])
            for k in ("open", "violations", "validation_mismatch", "soft", "error", "real_equal_only"):
                if r.get(k):
                    print("   ", k, str(r[k])[:700])
