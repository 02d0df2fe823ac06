"""Build the symbolic executable and its native twins from /repo's working tree.

 symh  - the LLVM IR of harness + cam-geom + nalgebra + std (one module, fat LTO,
         optimiser off), every float operation rewritten, linked with symrt.c
 nath  - the same module, unrewritten, linked with native.c
 release/dev - ordinary cargo builds (counterexample replay), on demand
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
import rewrite

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYM = os.path.join(VERIF, "sym")
BUILD = os.path.join(VERIF, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def errs(s):
    i = s.find("error")
    return s[i:i + 4000] if i >= 0 else s[-2000:]


def _run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd[:6])}...: exit {p.returncode}\n{errs(p.stderr)}")
    return p


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-" + TRIPLE
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md")]
    for root, pats in ((os.path.join(REPO, "src"), None), (os.path.join(SYM, "harness", "src"), None),
                       (os.path.join(SYM, "rt"), None)):
        for d, _, fs in sorted(os.walk(root)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(SYM, "harness", f) for f in ("Cargo.toml",)]
    files += [os.path.join(SYM, "py", f) for f in ("rewrite.py", "build.py")]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def llvm_bin():
    root = _run(["rustc", "--print", "sysroot"], env=env()).stdout.strip()
    return os.path.join(root, "lib", "rustlib", TRIPLE, "bin")


# Functions of nalgebra replaced by their contract when an argument is symbolic: the
# harness function is called with the result slot and the argument; 0 means not replaced.
CONTRACTS = [
    (r"_RINvNtNtC\w*_8nalgebra6linalg4svd312svd_ordered3dEC\w*_4symh$", "symh_svd3"),
]


def _cargo(target, profile, extra, flags=""):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    if flags:
        e["RUSTFLAGS"] = flags
    h = os.path.join(SYM, "harness")
    # never trust mtimes: the crate under test and the harness are always recompiled
    pd = os.path.join(target, {"dev": "debug"}.get(profile, profile), ".fingerprint")
    if os.path.isdir(pd):
        for d in os.listdir(pd):
            if d.startswith("cam-geom-") or d.startswith("symh-"):
                shutil.rmtree(os.path.join(pd, d), ignore_errors=True)
    return _run(["cargo", "rustc", "--offline", "--profile", profile, "--bin", "symh",
                 "--manifest-path", os.path.join(h, "Cargo.toml"), "--"] + extra, env=e)


def build(log=lambda s: None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "out", key)
        meta = os.path.join(out, "meta.json")
        if os.path.exists(meta):
            return out, json.load(open(meta))
        od = os.path.join(BUILD, "out")
        if os.path.isdir(od):
            old = sorted(((os.path.getmtime(os.path.join(od, d)), d) for d in os.listdir(od)))
            for _, d in old[:-2]:
                shutil.rmtree(os.path.join(od, d), ignore_errors=True)
        t0 = time.time()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        rt = os.path.join(SYM, "rt")
        for f in ("symrt", "native"):
            _run(["gcc", "-O1", "-fno-fast-math", "-frounding-math", "-c", os.path.join(rt, f + ".c"), "-o", os.path.join(tmp, f + ".o")])
        # linker wrapper that records its command line and keeps the objects
        wrap = os.path.join(tmp, "ld.sh")
        keep = os.path.join(tmp, "keep")
        os.makedirs(keep)
        with open(wrap, "w") as f:
            f.write(f"""#!/bin/bash
for a in "$@"; do case "$a" in *.o) [ -f "$a" ] && cp "$a" {keep}/ ;; esac; done
printf '%s\\n' "$@" > {tmp}/link.args
exec cc "$@"
""")
        os.chmod(wrap, 0o755)
        target = os.path.join(BUILD, "target")
        deps = os.path.join(target, "sym", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith("symh-"):
                    os.remove(os.path.join(deps, f))
        _cargo(target, "sym", ["--emit=llvm-ir,link", "-C", "save-temps", "-C", "linker=" + wrap, "-C", "linker-flavor=gcc", "--cap-lints=allow",
                               "-C", "link-arg=" + os.path.join(tmp, "native.o")])
        t1 = time.time()
        lls = [f for f in os.listdir(deps) if re.fullmatch(r"symh-[0-9a-f]+\.ll", f)]
        if len(lls) != 1:
            raise BuildError("expected one post-LTO module, got " + str(lls))
        ll = os.path.join(deps, lls[0])
        exe = os.path.join(target, "sym", "symh")
        shutil.copy(exe, os.path.join(tmp, "nath"))
        info = rewrite.rewrite(ll, os.path.join(tmp, "sym.ll"), CONTRACTS)
        llc = os.path.join(llvm_bin(), "llc")
        _run([llc, "-O1", "-relocation-model=pic", "-filetype=obj", os.path.join(tmp, "sym.ll"), "-o", os.path.join(tmp, "sym.o")])
        t2 = time.time()
        args = open(os.path.join(tmp, "link.args")).read().split("\n")[:-1]
        new, done = [], False
        skip = False
        for i, a in enumerate(args):
            if skip:
                skip = False; continue
            if a == "-o":
                new += ["-o", os.path.join(tmp, "symh")]; skip = True; continue
            if a.endswith("native.o"):
                a = os.path.join(tmp, "symrt.o")
            elif a.endswith(".o"):
                kept = os.path.join(keep, os.path.basename(a))
                if ".rcgu.o" in a and os.path.basename(a).startswith("symh"):
                    if done:
                        raise BuildError("more than one code object: " + a)
                    a = os.path.join(tmp, "sym.o"); done = True
                elif os.path.exists(kept):
                    a = kept
            new.append(a)
        if not done:
            raise BuildError("LTO object not found in the link line")
        _run(["cc"] + new + ["-lm"])
        for f in ("sym.o",):
            os.remove(os.path.join(tmp, f))
        os.remove(os.path.join(tmp, "sym.ll"))
        info["build_seconds"] = {"cargo": round(t1 - t0, 2), "rewrite_codegen": round(t2 - t1, 2)}
        info["key"] = key
        json.dump(info, open(os.path.join(tmp, "meta.json"), "w"))
        os.rename(tmp, out)
        return out, info


def build_replay(profile):
    """ordinary cargo build (dev or release) linked with the concrete runtime"""
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        dst = os.path.join(BUILD, "out", key, "replay-" + profile)
        if os.path.exists(dst):
            return dst
        target = os.path.join(BUILD, "target")
        nat = os.path.join(BUILD, "out", key, "native.o")
        _cargo(target, profile, ["-C", "link-arg=" + nat])
        shutil.copy(os.path.join(target, {"dev": "debug"}.get(profile, profile), "symh"), dst)
        return dst


if __name__ == "__main__":
    t = time.time()
    o, m = build()
    print(o, {k: (v if k != "functions" else len(v)) for k, v in m.items()}, round(time.time() - t, 1))
