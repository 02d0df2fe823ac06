"""Textual rewriting of LLVM IR: every scalar floating-point operation becomes
a call into the symbolic runtime (sym/rt/symrt.c).

rewrite(in_ll, out_ll, dispatch) -> dict with counts and the list of functions
of the crate under test that got an entry hook.
"""
import re, subprocess, sys

W = {"double": "d", "float": "f"}
FLAGS = r"(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*"
OPND = r"(%[\w.$-]+|%\"[^\"]+\"|[^\s,]+)"
RE_BIN = re.compile(r"^(\s*)(\S+) = (fadd|fsub|fmul|fdiv|frem) " + FLAGS + r"(double|float) " + OPND + ", " + OPND)
RE_NEG = re.compile(r"^(\s*)(\S+) = fneg " + FLAGS + r"(double|float) " + OPND)
RE_CMP = re.compile(r"^(\s*)(\S+) = fcmp " + FLAGS + r"(\w+) (double|float) " + OPND + ", " + OPND)
RE_TRUNC = re.compile(r"^(\s*)(\S+) = fptrunc " + FLAGS + r"double " + OPND + " to float")
RE_EXT = re.compile(r"^(\s*)(\S+) = fpext " + FLAGS + r"float " + OPND + " to double")
RE_BITS = re.compile(r"^(\s*)(\S+) = bitcast (double|float) " + OPND + r" to (i64|i32|<\S+ x \S+>)")
RE_TOINT = re.compile(r"^(\s*)(\S+) = (fptosi|fptoui) (double|float) " + OPND + r" to (\w+)")
RE_CALL = re.compile(r"@(?:llvm\.(\w+)\.f(32|64)(?:\.i32)?|(sin|cos|tan|asin|acos|atan|atan2|pow|exp|log|cbrt|hypot|fmod|sqrt|floor|ceil|round|trunc)(f?))\(")
RE_SAT = re.compile(r"^(.*@llvm\.fpto[us]i\.sat\.i\d+\.f(?:32|64)\()(double|float) ([^)]*)\)(.*)$")
# Vector arithmetic (matrixmultiply's SIMD kernels) is left native: it raises the
# invalid-operation trap on a boxed symbolic value.  Only sign-bit operations would
# not trap, so those are refused.
RE_VEC = re.compile(r"= fneg .*<\d+ x (?:double|float)>|@llvm\.(?:fabs|copysign)\.v\d+f")
PRED = {p: i for i, p in enumerate("false oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une true".split())}
# llvm intrinsic -> runtime function
INTR = {"sqrt": "sqrt", "fabs": "fabs", "copysign": "copysign", "powi": "powi", "sin": "sin", "cos": "cos",
        "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "atan2": "atan2", "pow": "pow",
        "exp": "exp", "log": "log", "fma": "fma", "maxnum": "max", "minnum": "min", "maximumnum": "max",
        "minimumnum": "min", "floor": "floor", "ceil": "ceil", "round": "round", "trunc": "trunc"}
RE_FMT = re.compile(r"4core3fmt5float([fd])NtB\w*_(?:5Debug|7Display|8LowerExp|8UpperExp)3fmt$")
W2 = {"d": "double", "f": "float"}
LIBM = {"fmod": "frem"}
ARITY = {"copysign": 2, "atan2": 2, "pow": 2, "hypot": 2, "max": 2, "min": 2, "frem": 2, "fma": 3}


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), text=True, capture_output=True, check=True)
    # drop the crate disambiguators:  cam_geom[928576ba]::x  ->  cam_geom::x
    return re.sub(r"\[[0-9a-f]{8,}\](?=::|>|$)", "", p.stdout, flags=re.M).split("\n")[:len(names)]


def rewrite(src, dst, contracts=(), crate="cam_geom"):
    """contracts: list of (regex on the symbol, harness function).  A function whose
    symbol matches first calls `i32 f(result slot, first argument)` and returns if that
    answers nonzero."""
    with open(src) as f:
        lines = f.read().split("\n")
    defs = []
    for ln in lines:
        if ln.startswith("define "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", ln)
            defs.append(m.group(1).strip('"'))
    dem = dict(zip(defs, demangle(defs)))
    # entry hooks: functions defined in the crate under test
    hook, names = {}, []
    for s in defs:
        d = dem[s]
        if re.match(r"<?&?(?:" + crate + r")::", d) or (" as " + crate + "::" in d and d.startswith("<")):
            if "symh::" in d.split(" as ")[0] and "closure" not in d and crate + "::" not in d.split(" as ")[0]:
                continue
            hook[s] = len(names)
            names.append(d)
    out, n, g = [], 0, 0
    used, unknown = set(), {}
    pend = fmt = repl = None
    replaced = {}
    cur = None
    for ln in lines:
        if ln.startswith("define "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", ln)
            cur = m.group(1).strip('"')
            out.append(ln)
            pend = hook.get(cur)
            m = RE_FMT.search(cur)
            repl = None
            for rx, fn in contracts:
                if re.match(rx, cur):
                    m2 = re.search(r"\(ptr sret[^%]*(%[\w.]+), ptr [^%]*(%[\w.]+)[,)]", ln)
                    if m2:
                        repl = (fn, m2.group(1), m2.group(2))
                        replaced[dem[cur]] = fn
            fmt = W2[m.group(1)] if m and re.search(r"\(ptr [^%]*%0, ptr [^%]*%1\)", ln) and re.match(r"define [^@]*i1 @", ln) else None
            continue
        if fmt:
            # the text of a symbolic number is not modelled: nothing is written
            m = re.match(r'^([\w.$"-]+):', ln)
            out.append("symentry:")
            out.append(f"  %symv = load {fmt}, ptr %0")
            v = "%symv"
            if fmt == "float":
                out.append("  %symw = call double @symrt_fpext(float %symv)"); used.add(("double @symrt_fpext", "(float)"))
                v = "%symw"
            out.append(f"  %syms = call i32 @symrt_is_symbolic(double {v})")
            out.append("  %symc = icmp ne i32 %syms, 0")
            out.append(f"  br i1 %symc, label %symret, label %{m.group(1) if m else '2'}")
            out.append("symret:")
            out.append("  ret i1 false")
            if not m:
                out.append("2:")
            fmt = None
        if repl:
            m = re.match(r'^([\w.$"-]+):', ln)
            if not m:
                raise SystemExit("rewrite: entry block without a label: " + cur)
            fn, a, b = repl
            out += ["symentry:", f"  %symr = call i32 @{fn}(ptr {a}, ptr {b})", "  %symc = icmp ne i32 %symr, 0",
                    f"  br i1 %symc, label %symret, label %{m.group(1)}", "symret:", "  ret void"]
            repl = None
        if pend is not None:
            c = f"  call void @symrt_enter(i32 {pend})"
            used.add(("void @symrt_enter", "(i32)"))
            if re.match(r"^[\w.$\"-]+:", ln):
                out.append(ln); out.append(c)
                pend = None
                continue
            out.append(c)
            pend = None
        if ln == "}":
            cur = None
        if cur is None or ("double" not in ln and "float" not in ln):
            out.append(ln); continue
        m = RE_BIN.match(ln)
        if m:
            i, r, op, t, a, b = m.groups(); f = f"symrt_{op}_{W[t]}"
            out.append(f"{i}{r} = call {t} @{f}({t} {a}, {t} {b})"); used.add((f"{t} @{f}", f"({t}, {t})")); n += 1; continue
        m = RE_NEG.match(ln)
        if m:
            i, r, t, a = m.groups(); f = f"symrt_fneg_{W[t]}"
            out.append(f"{i}{r} = call {t} @{f}({t} {a})"); used.add((f"{t} @{f}", f"({t})")); n += 1; continue
        m = RE_CMP.match(ln)
        if m:
            i, r, p, t, a, b = m.groups(); f = f"symrt_fcmp_{W[t]}"
            out.append(f"{i}{r} = call zeroext i1 @{f}(i32 {PRED[p]}, {t} {a}, {t} {b})"); used.add((f"zeroext i1 @{f}", f"(i32, {t}, {t})")); n += 1; continue
        m = RE_TRUNC.match(ln)
        if m:
            i, r, a = m.groups()
            out.append(f"{i}{r} = call float @symrt_fptrunc(double {a})"); used.add(("float @symrt_fptrunc", "(double)")); n += 1; continue
        m = RE_EXT.match(ln)
        if m:
            i, r, a = m.groups()
            out.append(f"{i}{r} = call double @symrt_fpext(float {a})"); used.add(("double @symrt_fpext", "(float)")); n += 1; continue
        m = RE_BITS.match(ln)
        if m and m.group(5) in ("i64", "i32"):
            i, r, t, a, it = m.groups(); f = f"symrt_bits_{W[t]}"
            out.append(f"{i}{r} = call {it} @{f}({t} {a})"); used.add((f"{it} @{f}", f"({t})")); n += 1; continue
        m = RE_TOINT.match(ln)
        if m:
            i, r, op, t, a, it = m.groups(); g += 1; f = f"symrt_guard_{W[t]}"
            out.append(f"{i}%symg{g} = call {t} @{f}({t} {a})")
            out.append(f"{i}{r} = {op} {t} %symg{g} to {it}"); used.add((f"{t} @{f}", f"({t})")); n += 1; continue
        m = RE_SAT.match(ln)
        if m and " = " in ln:
            pre, t, a, post = m.groups(); g += 1; f = f"symrt_guard_{W[t]}"
            out.append(f"  %symg{g} = call {t} @{f}({t} {a})")
            out.append(f"{pre}{t} %symg{g}){post}"); used.add((f"{t} @{f}", f"({t})")); n += 1; continue
        m = RE_CALL.search(ln)
        if m and re.search(r"\b(call|invoke)\b", ln):
            if m.group(1):
                nm, t = m.group(1), "double" if m.group(2) == "64" else "float"
                f = INTR.get(nm)
            else:
                nm, t = m.group(3), "float" if m.group(4) else "double"
                f = LIBM.get(nm, nm)
            if f:
                fn = f"symrt_{f}_{W[t]}"
                args = "(" + ", ".join([t] * ARITY.get(f, 1)) + ")"
                if f == "powi":
                    args = f"({t}, i32)"
                ln = ln[:m.start()] + "@" + fn + "(" + ln[m.end():]
                used.add((f"{t} @{fn}", args)); n += 1
            else:
                unknown[nm] = unknown.get(nm, 0) + 1
        if RE_VEC.search(ln):
            raise SystemExit("rewrite: vector floating-point operation: " + ln.strip())
        out.append(ln)
    declared = set()
    for s, a in sorted(used):
        if s in declared:
            continue
        declared.add(s)
        out.append(f"declare {s}{a}")
    text = "\n".join(out)
    # symbols already declared (harness extern block) must not be declared twice
    with open(dst, "w") as f:
        f.write(text)
    return {"rewritten_ops": n, "functions": names, "unknown_intrinsics": unknown,
            "contracts": replaced, "defined_functions": len(defs)}


if __name__ == "__main__":
    print({k: v for k, v in rewrite(sys.argv[1], sys.argv[2]).items() if k != "functions"})
