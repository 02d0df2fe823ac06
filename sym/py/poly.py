"""Exact arithmetic of rational functions over Q in named generators, modulo
quadratic relations g^2 = r (unit vectors, square roots).  It is the encoder's
simplifier: terms of the program become num/den with den a product of recorded
factors, and two terms that are equal as algebraic functions get a zero
difference.  (Division in the ring is never by a zero divisor that the program
could evaluate: every divisor is a separate definedness obligation.)"""
from math import gcd, isqrt

BITS = 10
MASK = (1 << BITS) - 1
MAXTERMS = 400000


class Blowup(Exception):
    pass


class Ring:
    def __init__(self):
        self.names = []            # generator names
        self.rel = {}              # generator index -> replacement poly of g^2
        self.relorder = []         # reduce later generators first
        self.factors = []          # registry of denominator factors
        self.fid = {}
        self.units = []            # groups of indices with sum of squares 1
        self.terms_made = 0

    # ---- generators ----
    def gen(self, name):
        self.names.append(name)
        return len(self.names) - 1

    def var(self, i):
        return {1 << (BITS * i): 1}

    def set_rel(self, i, p):
        self.rel[i] = p
        self.relorder.insert(0, i)

    # ---- polynomials: dict packed-monomial -> int ----
    def padd(self, a, b, sb=1):
        if len(a) < len(b) and sb == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + sb * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    def pmul(self, a, b, red=True):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 60 * MAXTERMS:
            raise Blowup(f"{len(a)}x{len(b)}")
        self.terms_made += len(a) * len(b)
        if self.terms_made > 60_000_000:
            raise Blowup("budget")
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r) if red else r

    def reduce(self, p):
        if not self.rel:
            return p
        again = True
        while again:
            again = False
            for i in self.relorder:
                sh = BITS * i
                if any((m >> sh) & MASK > 1 for m in p):
                    p = self._red1(p, i)
                    again = True
        return p

    def _red1(self, p, i):
        sh = BITS * i
        r = self.rel[i]
        groups = {}
        for m, c in p.items():
            e = (m >> sh) & MASK
            k, rest = e // 2, m - ((e - (e & 1)) << sh)
            g = groups.setdefault(k, {})
            g[rest] = g.get(rest, 0) + c
        # Horner in r
        acc = {}
        for k in range(max(groups), -1, -1):
            if acc:
                acc = self.pmul(acc, r, red=False)
            if k in groups:
                acc = self.padd(acc, groups[k])
        if len(acc) > MAXTERMS:
            raise Blowup(f"{len(acc)} terms")
        return acc

    def ppow(self, p, n):
        r = {0: 1}
        while n:
            if n & 1:
                r = self.pmul(r, p)
            n >>= 1
            if n:
                p = self.pmul(p, p)
        return r

    def const_root(self, m):
        """i when the monomial m is the generator i, the root of a constant"""
        i = (m.bit_length() - 1) // 10
        if m == self.mono(i) and i in self.rel and set(self.rel[i]) == {0}:
            return i
        return None

    @staticmethod
    def mono(i):
        return 1 << (10 * i)

    def content(self, p):
        g = 0
        for c in p.values():
            g = gcd(g, c)
            if g == 1:
                break
        return g

    def primitive(self, p):
        """p = k * q, q primitive with positive leading coefficient"""
        if not p:
            return 0, {}
        k = self.content(p)
        if p[max(p)] < 0:
            k = -k
        return k, ({m: c // k for m, c in p.items()} if k != 1 else p)

    def is_const(self, p):
        return not p or (len(p) == 1 and 0 in p)

    def pvars(self, p):
        acc = 0
        for m in p:
            acc |= m
        return [i for i in range(len(self.names)) if (acc >> (BITS * i)) & MASK]

    @staticmethod
    def mdiv(a, b):
        """monomial a / b or None"""
        d = a - b
        if d < 0:
            return None
        # every field must not borrow
        x, y = a, b
        while y:
            if (x & MASK) < (y & MASK):
                return None
            x >>= BITS
            y >>= BITS
        return d

    def pdiv(self, p, q):
        """exact quotient p / q as polynomials (no relations used), or None"""
        if not p:
            return {}
        if self.is_const(q):
            c = q[0]
            if all(v % c == 0 for v in p.values()):
                return {m: v // c for m, v in p.items()}
            return None
        lq, sq = max(q), min(q)
        if self.mdiv(max(p), lq) is None or self.mdiv(min(p), sq) is None:
            return None
        if len(q) == 1:
            c = q[lq]
            r = {}
            for m, v in p.items():
                d = self.mdiv(m, lq)
                if d is None or v % c:
                    return None
                r[d] = v // c
            return r
        lc = q[lq]
        rest = [(m, c) for m, c in q.items() if m != lq]
        p = dict(p)
        out = {}
        import heapq
        heap = [-m for m in p]
        heapq.heapify(heap)
        budget = 200000 // max(1, len(rest)) + 2000
        while heap:
            m = -heapq.heappop(heap)
            c = p.pop(m, 0)
            if not c:
                continue
            d = self.mdiv(m, lq)
            if d is None or c % lc:
                return None
            k = c // lc
            out[d] = k
            budget -= 1
            if budget < 0:
                return None
            for m2, c2 in rest:
                mm = m2 + d
                v = p.get(mm)
                if v is None:
                    p[mm] = -k * c2
                    heapq.heappush(heap, -mm)
                else:
                    p[mm] = v - k * c2
        return out

    def psqrt(self, p):
        """polynomial square root (exact, no relations) or None; p nonempty"""
        if not p:
            return {}
        lm = max(p)
        lc = p[lm]
        if lc < 0 or isqrt(lc) ** 2 != lc:
            return None
        x, h, i = lm, 0, 0
        while x:
            if (x & MASK) & 1:
                return None
            h |= ((x & MASK) // 2) << (BITS * i)
            x >>= BITS
            i += 1
        r = {h: isqrt(lc)}
        rem = dict(p)
        del rem[lm]
        two = 2 * isqrt(lc)
        for _ in range(len(p) + 2):
            if not rem:
                return r
            m = max(rem)
            d = self.mdiv(m, h)
            if d is None or rem[m] % two:
                return None
            k = rem[m] // two
            # (r + k d)^2 = r^2 + 2 k d r + k^2 d^2
            for m2, c2 in r.items():
                mm = m2 + d
                v = rem.get(mm, 0) - 2 * k * c2
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
            mm = 2 * d
            v = rem.get(mm, 0) - k * k
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
            if d in r:
                return None
            r[d] = k
        return None

    def variants(self, p):
        """p rewritten with another member of a unit group eliminated"""
        yield p
        for grp in self.units:
            vs = set(self.pvars(p))
            if not (vs & set(grp)):
                continue
            lead = grp[0]
            for v in grp[1:]:
                # g_v^2 -> 1 - sum of the others (undo the usual lead)
                one = {0: 1}
                for u in grp:
                    if u != v:
                        one = self.padd(one, {2 << (BITS * u): -1})
                save, so = self.rel, self.relorder
                self.rel, self.relorder = {v: one}, [v]
                try:
                    q = self.reduce(p)
                finally:
                    self.rel, self.relorder = save, so
                yield q
            # homogenised even polynomial: multiply lower-degree terms by |g|^2
            q = self.homog(p, grp)
            if q is not None:
                yield q

    def homog(self, p, grp):
        def deg(m):
            return sum((m >> (BITS * u)) & MASK for u in grp)
        ds = {deg(m) for m in p}
        D = max(ds)
        if any((D - d) % 2 for d in ds):
            return None
        n2 = {2 << (BITS * u): 1 for u in grp}
        out = {}
        for d in ds:
            part = {m: c for m, c in p.items() if deg(m) == d}
            save, so = self.rel, self.relorder
            self.rel, self.relorder = {}, []
            try:
                for _ in range((D - d) // 2):
                    part = self.pmul(part, n2)
            finally:
                self.rel, self.relorder = save, so
            out = self.padd(out, part)
        return out

    def square_root(self, p):
        """q with q^2 = p modulo the relations, or None"""
        for v in self.variants(p):
            if not v:
                return {}
            k, q = self.primitive(v)
            if k < 0:
                continue
            if isqrt(k) ** 2 == k:
                r = self.psqrt(q)
                if r is not None:
                    return self.reduce(self.pscale(r, isqrt(k)))
        return None

    # ---- factor registry ----
    def factor(self, p):
        """id of a primitive non-constant poly"""
        key = frozenset(p.items())
        i = self.fid.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.fid[key] = i
        return i

    def split(self, p):
        """p = k * prod factors; returns (k, {fid: exp}); monomial part split off"""
        k, q = self.primitive(p)
        fs = {}
        if self.is_const(q):
            return k, fs
        # common monomial
        for i in self.pvars(q):
            sh = BITS * i
            e = min((m >> sh) & MASK for m in q)
            if e:
                q = {m - (e << sh): c for m, c in q.items()}
                fs[self.factor(self.var(i))] = e
        # known factors
        for i, f in enumerate(list(self.factors)):
            if len(f) == 1 or len(q) < len(f):
                continue
            while True:
                d = self.pdiv(q, f)
                if d is None:
                    break
                q = d
                fs[i] = fs.get(i, 0) + 1
        if self.is_const(q):
            return k * q.get(0, 1), fs
        k2, q = self.primitive(q)
        fs[self.factor(q)] = fs.get(self.factor(q), 0) + 1
        return k * k2, fs


class Rat:
    """num / (dc * prod factors^exp), dc > 0"""
    __slots__ = ("n", "dc", "df")

    def __init__(self, n, dc=1, df=()):
        self.n, self.dc, self.df = n, dc, df


class Field:
    def __init__(self, ring):
        self.R = ring

    def const(self, fr):
        return Rat({0: fr.numerator} if fr else {}, fr.denominator, ())

    def poly(self, p):
        return Rat(p, 1, ())

    def norm(self, n, dc, df):
        R = self.R
        if not n:
            return Rat({}, 1, ())
        for f in list(df):             # roots of constants leave the denominator
            fp = R.factors[f]
            if len(fp) == 1:
                i = R.const_root(next(iter(fp)))
                if i is not None:
                    c, e = R.rel[i][0], df[f]
                    if e & 1:
                        n = R.pmul(n, R.var(i))
                    dc *= c ** ((e + 1) // 2)
                    df = {g: x for g, x in df.items() if g != f}
        if dc < 0:
            dc = -dc
            n = R.pscale(n, -1)
        g = gcd(R.content(n), dc)
        if g > 1:
            n = {m: c // g for m, c in n.items()}
            dc //= g
        out = []
        for f, e in df.items():
            fp = R.factors[f]
            while e:
                d = R.pdiv(n, fp)
                if d is None:
                    break
                n = d
                e -= 1
            if e:
                out.append((f, e))
        return Rat(n, dc, tuple(sorted(out)))

    def add(self, a, b, s=1):
        R = self.R
        if not a.n:
            return b if s == 1 else Rat(R.pscale(b.n, -1), b.dc, b.df)
        if not b.n:
            return a
        if a.df == b.df:
            if a.dc == b.dc:
                return self.norm(R.padd(a.n, b.n, s), a.dc, dict(a.df))
            g = gcd(a.dc, b.dc)
            return self.norm(R.padd(R.pscale(a.n, b.dc // g), R.pscale(b.n, a.dc // g), s), a.dc // g * b.dc, dict(a.df))
        da, db = dict(a.df), dict(b.df)
        na, nb = a.n, b.n
        df = {}
        for f in set(da) | set(db):
            ea, eb = da.get(f, 0), db.get(f, 0)
            e = max(ea, eb)
            df[f] = e
            if e > ea:
                na = R.pmul(na, R.ppow(R.factors[f], e - ea))
            if e > eb:
                nb = R.pmul(nb, R.ppow(R.factors[f], e - eb))
        g = gcd(a.dc, b.dc)
        n = R.padd(R.pscale(na, b.dc // g), R.pscale(nb, a.dc // g), s)
        return self.norm(n, a.dc // g * b.dc, df)

    def neg(self, a):
        return Rat(self.R.pscale(a.n, -1), a.dc, a.df)

    def mul(self, a, b):
        R = self.R
        if not a.n or not b.n:
            return Rat({}, 1, ())
        an, bn = a.n, b.n
        da, db = dict(a.df), dict(b.df)
        # cancel across before multiplying
        for d, which in ((da, 1), (db, 0)):
            for f in list(d):
                fp = R.factors[f]
                while d[f]:
                    q = R.pdiv(bn if which else an, fp)
                    if q is None:
                        break
                    if which:
                        bn = q
                    else:
                        an = q
                    d[f] -= 1
                if not d[f]:
                    del d[f]
        n = R.pmul(an, bn)
        df = dict(da)
        for f, e in db.items():
            df[f] = df.get(f, 0) + e
        return self.norm(n, a.dc * b.dc, df)

    def inv(self, a):
        R = self.R
        n, k0 = a.n, a.dc
        num = {0: k0}
        for f, e in a.df:
            num = R.pmul(num, R.ppow(R.factors[f], e))
        k, fs = R.split(n)
        if not self.nonvanishing_gens(n):
            n2 = self.rationalise(n)
            if n2 is not None:
                conj, nn = n2
                num = R.pmul(num, conj)
                k, fs = R.split(nn)
        return self.norm(num, k, fs)

    def nonvanishing_gens(self, n):
        return True

    def rationalise(self, n):
        return None

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def pow(self, a, k):
        if k < 0:
            return self.inv(self.pow(a, -k))
        r = self.poly({0: 1})
        while k:
            if k & 1:
                r = self.mul(r, a)
            k >>= 1
            if k:
                a = self.mul(a, a)
        return r
