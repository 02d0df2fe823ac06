"""IEEE evaluation of a dumped term DAG (validates the encoding against native runs)."""
import ctypes, ctypes.util, math, struct
import numpy as np

_m = ctypes.CDLL(ctypes.util.find_library("m"))


def _f(name, n=1):
    g = getattr(_m, name)
    g.restype = ctypes.c_double
    g.argtypes = [ctypes.c_double] * n
    return g


def _ff(name, n=1):
    g = getattr(_m, name)
    g.restype = ctypes.c_float
    g.argtypes = [ctypes.c_float] * n
    return g


L64 = {k: _f(v, n) for k, v, n in (("SIN", "sin", 1), ("COS", "cos", 1), ("TAN", "tan", 1), ("ASIN", "asin", 1), ("ACOS", "acos", 1),
                                   ("ATAN", "atan", 1), ("ATAN2", "atan2", 2), ("EXP", "exp", 1), ("LOG", "log", 1), ("FMA", "fma", 3),
                                   ("POW", "pow", 2), ("HYPOT", "hypot", 2), ("CBRT", "cbrt", 1), ("FREM", "fmod", 2))}
L32 = {k: _ff(v, n) for k, v, n in (("SIN", "sinf", 1), ("COS", "cosf", 1), ("TAN", "tanf", 1), ("ASIN", "asinf", 1), ("ACOS", "acosf", 1),
                                    ("ATAN", "atanf", 1), ("ATAN2", "atan2f", 2), ("EXP", "expf", 1), ("LOG", "logf", 1), ("FMA", "fmaf", 3),
                                    ("POW", "powf", 2), ("HYPOT", "hypotf", 2), ("CBRT", "cbrtf", 1), ("FREM", "fmodf", 2))}


def bits64(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def from_bits(b, w):
    if w == 64:
        return np.float64(struct.unpack("<d", struct.pack("<Q", b))[0])
    return np.float32(struct.unpack("<f", struct.pack("<I", b))[0])


class Eval:
    def __init__(self, path, values):
        self.p, self.v = path, values
        self.name = {e[1]: e[2] for e in path.ev if e[0] == "V"}
        self.m = {}

    def __call__(self, n):
        m = self.m
        st = [n]
        with np.errstate(all="ignore"):
            while st:
                k = st[-1]
                if k in m:
                    st.pop(); continue
                op, w, a, b, c, bits = self.p.nodes[k]
                deps = [] if op in ("VAR", "CONST") else [x for x in (a, b, c) if x]
                todo = [x for x in deps if x not in m]
                if todo:
                    st.extend(todo); continue
                m[k] = self.op(k, op, w, a, b, c, bits)
                st.pop()
        return m[n]

    def op(self, k, op, w, a, b, c, bits):
        m = self.m
        T = np.float64 if w == 64 else np.float32
        if op == "VAR":
            return T(self.v[self.name[k]])
        if op == "CONST":
            return from_bits(bits, w)
        if op == "ADD":
            return T(m[a] + m[b])
        if op == "SUB":
            return T(m[a] - m[b])
        if op == "MUL":
            return T(m[a] * m[b])
        if op == "DIV":
            return T(np.divide(m[a], m[b]))
        if op == "NEG":
            return T(-m[a])
        if op == "ABS":
            return T(abs(m[a]))
        if op == "SQRT":
            return T(np.sqrt(m[a]))
        if op == "TRUNC32":
            return np.float32(m[a])
        if op == "EXT64":
            return np.float64(m[a])
        if op == "COPYSIGN":
            return T(np.copysign(m[a], m[b]))
        if op == "POWI":
            e = bits - (1 << 64) if bits >> 63 else bits
            rec = e < 0
            e = abs(e)
            r, y = T(1), m[a]
            while True:
                if e & 1:
                    r = T(r * y)
                e //= 2
                if not e:
                    break
                y = T(y * y)
            return T(np.divide(T(1), r)) if rec else r
        if op == "FLOOR":
            return T(np.floor(m[a]))
        if op == "CEIL":
            return T(np.ceil(m[a]))
        if op == "TRUNCI":
            return T(np.trunc(m[a]))
        if op == "ROUND":
            return T(math.floor(abs(float(m[a])) + 0.5) * (1 if m[a] >= 0 else -1))
        lib = L64 if w == 64 else L32
        args = [float(m[x]) for x in (a, b, c) if x]
        return T(lib[op](*args))

    def cmp(self, rel, a, b):
        x, y = self(a), self(b)
        return {"eq": x == y, "lt": x < y, "le": x <= y, "uno": (x != x) or (y != y)}[rel]


class MpEval(Eval):
    """The same terms over (nearly exact) real numbers."""

    def __init__(self, path, values):
        super().__init__(path, values)
        import mpmath
        self.mp = mpmath.mp.clone()
        self.mp.dps = 60

    def op(self, k, op, w, a, b, c, bits):
        m, mp = self.m, self.mp
        if op == "VAR":
            v = float(self.v[self.name[k]])
            return mp.mpf(v if w == 64 else float(np.float32(v)))
        if op == "CONST":
            return mp.mpf(float(from_bits(bits, w)))
        if op in ("TRUNC32", "EXT64"):
            return m[a]
        if op == "COPYSIGN":
            return abs(m[a]) * (1 if m[b] >= 0 else -1)
        if op == "POWI":
            return m[a] ** (bits - (1 << 64) if bits >> 63 else bits)
        if op == "DIV":
            return m[a] / m[b]
        f = {"ADD": lambda x, y: x + y, "SUB": lambda x, y: x - y, "MUL": lambda x, y: x * y, "NEG": lambda x: -x, "ABS": abs,
             "SQRT": mp.sqrt, "SIN": mp.sin, "COS": mp.cos, "TAN": mp.tan, "ASIN": mp.asin, "ACOS": mp.acos, "ATAN": mp.atan,
             "ATAN2": mp.atan2, "EXP": mp.exp, "LOG": mp.log, "FMA": lambda x, y, z: x * y + z, "HYPOT": mp.hypot}.get(op)
        if f is None:
            raise ValueError(op)
        return f(*[m[x] for x in (a, b, c) if x])
