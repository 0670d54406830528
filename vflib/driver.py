import argparse
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

import jobs as J

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
REPLAY = os.path.join(ROOT, "replay")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2025-06-20-x86_64-unknown-linux-gnu"

# how /repo is compiled: cargo features of the harness, profile, code generation flags, toolchain
VARIANTS = {
    "std": dict(feats="std"),
    "checked": dict(feats="std", profile="checked"),
    "std-avx2": dict(feats="std", flags="-C target-feature=+avx2"),
    "alloc": dict(feats="alloc"),
    "std-ssse3": dict(feats="std", flags="-C target-feature=+ssse3"),
    "std-sse41": dict(feats="std", flags="-C target-feature=+sse4.1"),
    "alloc-ssse3": dict(feats="alloc", flags="-C target-feature=+ssse3"),
    "alloc-sse41": dict(feats="alloc", flags="-C target-feature=+sse4.1"),
    "alloc-avx2": dict(feats="alloc", flags="-C target-feature=+avx2"),
    "nightly": dict(feats="std,unstable", toolchain=NIGHTLY),
    "par": dict(feats="std,unstable,parallel", toolchain=NIGHTLY, crate="par"),
    # other processors: core and alloc are compiled from the toolchain's sources
    "neon": dict(feats="cross", target="aarch64-unknown-linux-gnu"),
    "wasm": dict(feats="cross", target="wasm32-unknown-unknown", flags="-C target-feature=+simd128"),
    "wasm-scalar": dict(feats="cross", target="wasm32-unknown-unknown"),
}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def clean_env(toolchain, flags=""):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(RUSTUP_TOOLCHAIN=toolchain, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", RUSTUP_AUTO_INSTALL="0", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def run(cmd, env=None, cwd=None, timeout=900, what=""):
    r = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what or cmd[0], r.stdout.decode("utf-8", "replace")[-3000:]))
    return r.stdout.decode("utf-8", "replace")


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".c", ".mjs")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_tools():
    """the engine and the native runner"""
    with Lock("tools"):
        key = tree_hash(os.path.join(ROOT, "engine"), os.path.join(ROOT, "runner"))
        stamp = os.path.join(BUILD, "tools.key")
        eng = os.path.join(BUILD, "engine", "release", "vfengine")
        rn = os.path.join(BUILD, "runner")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(eng) and os.path.exists(rn):
            return eng, rn
        env = clean_env(STABLE)
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
        run(["cargo", "build", "--release", "--offline", "-q"], env, os.path.join(ROOT, "engine"), what="engine build")
        run(["gcc", "-O1", "-mno-red-zone", "-rdynamic", os.path.join(ROOT, "runner", "runner.c"), "-o", rn, "-ldl", "-lpthread"], what="runner build")
        with open(stamp, "w") as f:
            f.write(key)
        return eng, rn


_sysroot = {}


def llvm_bin():
    if "s" not in _sysroot:
        s = run(["rustc", "--print", "sysroot"], clean_env(STABLE)).strip()
        _sysroot["s"] = os.path.join(s, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return _sysroot["s"]


def crate_of(variant):
    v = VARIANTS[variant]
    if v.get("crate"):
        return os.path.join(ROOT, v["crate"]), v["crate"]
    return os.path.join(ROOT, "harness"), "hx"


def sysroot(target):
    """core and alloc for a target that has no installed library, from the sources that come with the compiler"""
    with Lock("sysroot-" + target):
        d = os.path.join(BUILD, "sysroot-" + target)
        env = clean_env(STABLE)
        env["RUSTC_BOOTSTRAP"] = "1"
        key = run(["rustc", "-vV"], env)
        stamp = os.path.join(d, "key")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return d
        if os.path.exists(d):
            shutil.rmtree(d)
        lib = os.path.join(d, "lib/rustlib", target, "lib")
        os.makedirs(lib)
        src = os.path.join(os.path.dirname(llvm_bin()), "..", "src/rust/library")
        cb = os.path.join(d, "cb.rs")
        with open(cb, "w") as f:
            f.write("#![no_std]\n#![feature(compiler_builtins)]\n#![compiler_builtins]\n")
        for name, path in (("core", src + "/core/src/lib.rs"), ("compiler_builtins", cb), ("alloc", src + "/alloc/src/lib.rs")):
            run(["rustc", "--target", target, "--crate-type", "rlib", "--edition", "2024", "-O", "-C", "embed-bitcode=yes", "-C", "debuginfo=0",
                 "-C", "panic=abort", "-Z", "force-unstable-if-unmarked", "--cap-lints", "allow", "--sysroot", d, "--out-dir", lib, "--crate-name", name, path],
                env, what="compiling %s for %s" % (name, target))
        with open(stamp, "w") as f:
            f.write(key)
        return d


def translate(ll, so, d):
    """an AArch64 module as a shared object for this machine: same IR, its vector instructions in C (runner/shims.c)"""
    b = llvm_bin()
    s = open(ll).read()
    s = re.sub(r"(?m)^target (datalayout|triple) = .*$", "", s)
    s = re.sub(r'"(target-cpu|target-features|probe-stack|frame-pointer)"="[^"]*"', "", s).replace("@llvm.aarch64.neon.", "@vfshim.")
    n = os.path.join(d, "n.ll")
    with open(n, "w") as f:
        f.write('target triple = "x86_64-unknown-linux-gnu"\n' + s)
    run([b + "/opt", "-O1", n, "-o", n + ".bc"], what="opt")
    run([b + "/llc", "-relocation-model=pic", "-filetype=obj", n + ".bc", "-o", n + ".o"], what="llc")
    run(["gcc", "-O1", "-fPIC", "-shared", os.path.join(ROOT, "runner", "shims.c"), n + ".o", "-o", so], what="linking " + so)
    for x in (n, n + ".bc", n + ".o"):
        os.unlink(x)


def build(variant, features, kind):
    """kind ir: the module the engine executes; native: the shared object for replay"""
    v = VARIANTS[variant]
    src, name = crate_of(variant)
    tag = "%s-%s-%s" % (kind, variant, features.replace(",", "_"))
    with Lock(tag):
        d = os.path.join(BUILD, tag)
        key = tree_hash(os.path.join(REPO, "crates"), src, os.path.join(ROOT, "harness")) + hashlib.sha256(
            (repr(v) + open(os.path.join(REPO, "Cargo.toml")).read()).encode()).hexdigest()
        target = v.get("target")
        wasm = bool(target) and target.startswith("wasm")
        outp = os.path.join(d, "out.ll" if kind == "ir" else "out.wasm" if wasm else "out.so")
        stamp = os.path.join(d, "key")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(outp):
            return outp
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        if target and kind == "native" and not wasm:
            translate(build(variant, features, "ir"), outp, d)
            with open(stamp, "w") as f:
                f.write(key)
            return outp
        prof = v.get("profile", "release")
        flags = v.get("flags", "")
        if kind == "ir":
            flags += " -C no-prepopulate-passes -C save-temps"
        more = []
        if target:
            more = ["--target", target]
            flags += " --sysroot " + sysroot(target)
            if kind == "native":
                flags += " -C linker-flavor=wasm-ld -C link-arg=--allow-undefined -C linker=" + os.path.join(llvm_bin(), "rust-lld")
            else:
                flags += " -C linker=/bin/true"      # only the bitcode is wanted
        env = clean_env(v.get("toolchain", STABLE), flags.strip())
        env["CARGO_TARGET_DIR"] = os.path.join(d, "t")
        feats = ",".join(x for x in (features, v["feats"]) if x)
        cmd = ["cargo", "build", "--offline", "-q", "--profile", prof] + more + (["--features", feats] if feats and not v.get("crate") else [])
        run(cmd, env, src, what="compiling the harness (%s) against /repo" % tag)
        tdir = os.path.join(d, "t", target or "", prof)
        deps = os.path.join(tdir, "deps")
        if kind == "native":
            shutil.copy(os.path.join(tdir, "%s.wasm" % name if wasm else "lib%s.so" % name), outp)
        else:
            bcs = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".lto.input.bc") and f.startswith(name)]
            if not bcs:
                raise NoAnswer("no bitcode in " + deps)
            bc = max(bcs, key=os.path.getmtime)
            b = llvm_bin()
            names = set()
            for dd, _, fs in os.walk(os.path.join(src, "src")):
                for f in fs:
                    names |= set(re.findall(r"\b(h_[a-z]\w+)", open(os.path.join(dd, f)).read()))
            x1, x2 = os.path.join(d, "1.bc"), os.path.join(d, "2.bc")
            run([b + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(sorted(names)), bc, "-o", x1], what="opt")
            run([b + "/opt", "--strip-debug", "-passes=always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,dce),globaldce", x1, "-o", x2], what="opt")
            run([b + "/llvm-dis", x2, "-o", outp], what="llvm-dis")
            os.unlink(x1), os.unlink(x2)
        shutil.rmtree(os.path.join(d, "t"))
        with open(stamp, "w") as f:
            f.write(key)
        return outp


# ---- native replay ---------------------------------------------------------------------------------

def cache_offset(so):
    """where the words of std's table of CPU features are: the optimiser may have split it and dropped unused words"""
    b = llvm_bin() + "/llvm-nm"
    t = run([b if os.path.exists(b) else "nm", "-S", so])
    at = {}
    for l in t.splitlines():
        f = l.split()
        m = len(f) == 4 and "std_detect" in f[3] and re.search(r"5CACHE(\.\d+)?", f[3])
        if m:
            o, k = int(f[0], 16), int((m.group(1) or ".0")[1:])
            for i in range(int(f[1], 16) // 8):
                at[k + i] = o + 8 * i
    return at


INSN = {"ssse3": 1, "sse41": 2, "sse42": 4, "popcnt": 8, "avx": 16, "avx2": 32, "sse3": 64, "avx512": 128}
HAS = {
    "sse2": [], "sse3": ["sse3"], "ssse3": ["sse3", "ssse3"], "sse41": ["sse3", "ssse3", "sse41"],
    "avx": ["sse3", "ssse3", "sse41", "sse42", "popcnt", "avx"],
    "avx2": ["sse3", "ssse3", "sse41", "sse42", "popcnt", "avx", "avx2"],
    "avx2noos": ["sse3", "ssse3", "sse41", "sse42", "popcnt"],
}


def native(rn, so, harness, params, trace, cpu, caches, fill="a5", guard="e", step=False, tag="0", plan=()):
    tf = os.path.join(BUILD, "trace.%d.%s" % (os.getpid(), tag))
    with open(tf, "w") as f:
        f.write("\n".join(trace) + "\n")
    words = caches.get(re.sub(r"\+\w+", "", cpu)) or []
    if "+w" in cpu:
        harness += "+w" + cpu.split("+w")[1].split("@")[0]
    if "+t" in cpu:
        harness += "+t" + ("x" if cpu.partition("@")[0].endswith("x") else "") + ",".join(map(str, plan))
    so = so[cpu.partition("@")[2]]
    at = cache_offset_of(so) if words else {}
    ks = [k for k in sorted(at) if k < len(words)]
    cmd = [rn, so, harness, ",".join(map(str, params)) or "-", tf, fill, guard, ",".join(str(words[k]) for k in ks) or "-", ",".join("%x" % at[k] for k in ks) or "0"]
    if step:
        cmd.append("step")
    if so.endswith(".wasm"):
        cmd = ["node", os.path.join(ROOT, "runner", "runner.mjs")] + cmd[1:7]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        out = r.stdout.decode("utf-8", "replace").splitlines()
        if r.returncode not in (0, 7):
            out.append("FAIL exit %d" % r.returncode if r.returncode < 0 else "ERROR exit %d" % r.returncode)
    except subprocess.TimeoutExpired:
        out = ["FAIL timeout"]
    finally:
        os.unlink(tf)
    return out


_off = {}


def cache_offset_of(so):
    if so not in _off:
        _off[so] = cache_offset(so)
    return _off[so]


def props_of(judge):
    ps = [t[1:] for t in judge.split("+") if t.startswith("a")]
    return None if "" in ps else {int(x) for x in ps}


def failure(out, toks, props):
    """what a replay shows, in the words of the report"""
    for l in out:
        f = l.split()
        if l.startswith("FAIL assume"):
            return None
        if l.startswith("FAIL assert"):
            if props is None or int(f[2]) // 1000 in props:
                return "assertion %s fails" % f[2]
        elif l.startswith("FAIL panic") or l.startswith("FAIL nopanic"):
            if "p" in toks or "m" in toks:
                return "panic" if "FAIL panic" in l else "the announced panic does not happen"
        elif l.startswith(("FAIL signal", "FAIL dealloc", "FAIL exit", "FAIL timeout")):
            if "m" in toks or "p" in toks:
                return l[5:]
    return None


def confirm_threads(v, toks, props, rn, so, caches, limit=90):
    """the counterexample's inputs in two real threads, under every schedule with at most two switches
    at accesses to the library's writable data; a race says nothing about the inputs, so there the second
    thread is also given others"""
    traces = [v["trace"]]
    if v["kind"] == "memory:race":
        for fill in (0xff, 0x55):
            t, th = [], 0
            for l in v["trace"]:
                if l.startswith("T "):
                    th = int(l[2:])
                if th == 1 and l.startswith("S "):
                    l = "S " + "".join("%02x" % (int(l[i:i + 2], 16) ^ fill) for i in range(2, len(l), 2))
                t.append(l)
            traces.append(t)
    end = time.time() + limit
    first = None
    seen = None
    for cpu in dict.fromkeys(v["cpus"]):
        for depth in (0, 1, 2):
            for tr in traces:
                out = native(rn, so, v["harness"], v["params"], tr, cpu, caches, guard="f1")
                first = first or out
                n = next((int(l.split()[1]) for l in out if l.startswith("EVENTS")), 0)
                if v["kind"] == "memory:race" and not seen:
                    # both threads at the same place, one of them to write
                    evs = [l.split()[1:] for l in out if l.startswith("EV ")]
                    both = {a for t, a, w in evs if t == "0"} & {a for t, a, w in evs if t == "1"} & {a for t, a, w in evs if w == "1"}
                    if both:
                        v["trace"], v["plan"] = tr, []
                        seen = "both threads access offset %s of the library's data, one to write" % sorted(both)[0], [cpu] + out
                n = min(n, 400)
                plans = [()] if depth == 0 else [(i,) for i in range(1, n + 1)] if depth == 1 else [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
                for plan in plans:
                    if time.time() > end:
                        return seen or (None, first or [])
                    out = native(rn, so, v["harness"], v["params"], tr, cpu, caches, guard="f1", plan=plan)
                    what = failure(out, toks, props)
                    if what:
                        v["trace"], v["plan"] = tr, list(plan)
                        return "%s with two threads on %s, switching before the accesses %s" % (what, cpu, list(plan)), out
    return seen or (None, first or [])


def confirm(v, judge, rn, so, caches):
    """does the counterexample show on the compiled code?  returns (what, lines)"""
    toks = judge.split("+")
    props = props_of(judge)
    off = next((int(t[1:]) for t in toks if t[0] == "o"), 1)
    kind = v["kind"].split(":")[0]
    cpus = v["cpus"]
    params = v["params"]
    if any("+t" in c for c in cpus):
        return confirm_threads(v, toks, props, rn, so, caches)
    if kind == "cpu":
        cpu = cpus[min(v["run"], len(cpus) - 1)]
        out = native(rn, so, v["harness"], params, v["trace"], cpu, caches, step=True)
        seen = next((int(l.split()[1]) for l in out if l.startswith("INSN")), 0)
        bad = [n for n, b in INSN.items() if seen & b and n not in HAS[re.sub(r"[+@].*", "", cpu)]]
        return ("instructions of %s executed on a processor without them (%s)" % ("/".join(bad), cpu), out) if bad else (None, out)
    runs = {}
    for cpu in dict.fromkeys(cpus):
        for guard in ("e", "f%d" % off):
            for fill in ("00", "ff", "a5"):
                runs[cpu, guard, fill] = native(rn, so, v["harness"], params, v["trace"], cpu, caches, fill, guard)
    first = None
    if kind == "result":
        res = {k: [l for l in o if l.startswith(("RESULT", "FAIL signal", "FAIL panic", "PANICOK"))] for k, o in runs.items()}
        for (cpu, g, f), r in res.items():
            base = res[cpus[0], g, f]
            if r != base:
                return "results differ between %s and %s" % (cpus[0], cpu), ["%s: %s" % (cpus[0], base), "%s: %s" % (cpu, r)]
        return None, []
    for k, out in runs.items():
        what = failure(out, toks, props)
        if what:
            return "%s on %s" % (what, k[0]), out
        first = first or out
    if kind in ("memory", "ub") and "m" in toks:
        for (cpu, g, f), out in runs.items():
            ref = runs[cpu, g, "00"]
            if [l for l in out if l.startswith("RESULT")] != [l for l in ref if l.startswith("RESULT")]:
                return "the result depends on uninitialised memory on %s" % cpu, out + ref
    return None, first or []


# ---- one property ------------------------------------------------------------------------------------

def known():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) at=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(prop, v):
    for p, h, k, at, what in known():
        if p == prop and h == v["harness"] and v["kind"].startswith(k) and any(at in s for s in v["stack"]):
            return what
    return None


def describe(v):
    """the inputs of a counterexample in readable form"""
    out = []
    for t in v["trace"][:6]:
        if t.startswith("S "):
            h = t[2:]
            b = bytes.fromhex(h)
            out.append("%d bytes %s%s" % (len(b), h[:120], "..." if len(h) > 120 else ""))
        else:
            out.append("choice " + t[2:])
    return "; ".join(out)


def engine_run(eng, modules, joblist, tag, threads, deadline, solver, cross, timeout_ms):
    names = list(modules)

    def to_index(c):
        return ",".join(x if "@" not in x else "%s@%d" % (x.split("@")[0], names.index(x.split("@")[1])) for x in c.split(","))

    def to_name(x):
        a, _, b = x.partition("@")
        return a if not b else a + "@" + names[int(b)]

    jf = os.path.join(BUILD, "jobs.%d.%s" % (os.getpid(), tag))
    of = os.path.join(BUILD, "out.%d.%s" % (os.getpid(), tag))
    with open(jf, "w") as f:
        for h, p, c, j, mp in joblist:
            f.write("%s %s %s %s %d\n" % (h, ",".join(map(str, p)) or "-", to_index(c), j, mp))
    cmd = [eng]
    for m in modules.values():
        cmd += ["--module", m]
    cmd += ["--jobs", jf, "--out", of, "--threads", str(threads), "--deadline", str(deadline), "--timeout-ms", str(timeout_ms), "--solver", solver]
    if cross:
        cmd += ["--cross", cross]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=deadline + 240)
        if r.returncode != 0 or not os.path.exists(of):
            raise NoAnswer("engine: " + r.stdout.decode("utf-8", "replace")[-2000:])
        d = json.load(open(of))
        for v in d["violations"]:
            v["cpus"] = [to_name(x) for x in v["cpus"]]
        for w in d["witnesses"]:
            w["cpu"] = to_name(w["cpu"])
        d["caches"] = {to_name(k): x for k, x in d["caches"].items()}
        return d
    except subprocess.TimeoutExpired:
        raise NoAnswer("engine: did not stop at its deadline")
    finally:
        for p in (jf, of):
            if os.path.exists(p):
                os.unlink(p)


SUM = ["jobs", "jobs_done", "skipped", "paths", "panics_ok", "infeasible", "forks", "steps", "asserts", "asserts_syntactic", "mem_checks", "queries", "cache_hits", "solver_sat", "solver_unsat", "solver_unknown", "cross_checked", "cross_no_answer", "solver_s"]


def check(prop, tier, seed):
    t0 = time.time()
    eng, rn = build_tools()
    groups = J.plan(prop, tier)
    # one module per variant
    by = {}
    for g in groups:
        b = by.setdefault(g["variant"], {"features": set(), "jobs": [], "need": {}})
        b["features"] |= set(g["features"].split(","))
        b["jobs"] += g["jobs"]
        for h, c in g["need"].items():
            b["need"].setdefault(h, set()).update(c)
    rnd = random.Random(seed)
    total = {k: 0 for k in SUM}
    funcs, intr, slow, errors, samples, notes = {}, set(), [], [], [], []
    bounds = {}
    validated, validated_cpus, mism = 0, set(), []
    viol, unconfirmed, knowns = [], [], set()
    maxq = 0.0
    budget = 420 if tier == "quick" else 5400
    # compile everything first, in parallel: the module for the engine and the object for replay
    built = {}
    errs = []

    def job(variant, feats, kind):
        try:
            built[variant, feats, kind] = build(variant, feats, kind)
        except Exception as e:  # noqa
            errs.append(e)

    ths = []
    for variant, b in by.items():
        feats = ",".join(sorted(b["features"]))
        b["feats"] = feats
        b["extra"] = sorted({x.split("@")[1] for _, _, c, _ in b["jobs"] for x in c.split(",") if "@" in x})
    todo = dict.fromkeys((x, b["feats"]) for v, b in by.items() for x in [v] + b["extra"])
    for variant, feats in todo:
        for kind in ("ir", "native"):
            ths.append(threading.Thread(target=job, args=(variant, feats, kind)))
    sem_start = time.time()
    for i in range(0, len(ths), 4):
        for t in ths[i:i + 4]:
            t.start()
        for t in ths[i:i + 4]:
            t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], NoAnswer) else NoAnswer(repr(errs[0]))
    build_s = time.time() - sem_start
    t_engine = time.time()
    for variant, b in by.items():
        jl = list(dict.fromkeys((h, p, c, j, 200000) for h, p, c, j in b["jobs"]))
        # small sizes first: short counterexamples, and what they cost to solve is then cached
        jl.sort(key=lambda x: (max([y for y in x[1][:3]] or [0]) // 32, x[1][0] if x[1] else 0))
        left = budget - (time.time() - t_engine)
        if left < 5:
            left = 5
        mods = {x: built[x or variant, b["feats"], "ir"] for x in [""] + b["extra"]}
        so = {x: built[x or variant, b["feats"], "native"] for x in [""] + b["extra"]}
        d = engine_run(eng, mods, jl, variant, int(os.environ.get("VERIF_THREADS", "8")), left,
                       "z3-new -in -smt2", "cvc5 --incremental --produce-models --tlimit-per=20000" if tier == "thorough" and os.environ.get("VERIF_CROSS", "1") == "1" else None,
                       60000 if tier == "quick" else 300000)
        for k in SUM:
            total[k] += d[k]
        if os.environ.get("VERIF_DEBUG"):
            log("  %s: %d jobs, %d paths, %d solver calls, %.1f s of solver, %.1f s" % (variant, d["jobs_done"], d["paths"], d["queries"] - d["cache_hits"], d["solver_s"], time.time() - t_engine))
            for x in sorted(d["slow"], reverse=True)[:8]:
                log("     ", x)
        maxq = max(maxq, d["max_query_s"])
        for f, n in d["funcs"].items():
            funcs[f] = funcs.get(f, 0) + n
        intr |= set(d["intrinsics"])
        slow += d["slow"]
        for h, p, c, j, _ in jl:
            x = bounds.setdefault("%s/%s" % (variant, h), {"jobs": 0, "params_min": list(p), "params_max": list(p), "cpus": set()})
            x["jobs"] += 1
            n = min(len(p), len(x["params_min"]))
            x["params_min"] = [min(a, c2) for a, c2 in zip(x["params_min"], p)]
            x["params_max"] = [max(a, c2) for a, c2 in zip(x["params_max"][:n], p)]
            x["cpus"] |= set(c.split(","))
        errors += ["%s: %s" % (variant, e) for e in d["errors"]]
        jmap = {(h, tuple(p), c): j for h, p, c, j, _ in jl}
        for v in d["violations"]:
            judge = jmap.get((v["harness"], tuple(v["params"]), ",".join(v["cpus"])), "a+m+p")
            v["caches"] = d["caches"]
            what, lines = confirm(v, judge, rn, so, d["caches"])
            v.update(variant=variant, extra=b["extra"], features=b["feats"], judge=judge, caches=d["caches"])
            if what:
                k = is_known(prop, v)
                if k:
                    knowns.add(k)
                    continue
                v.update(native=what, native_output=lines[:20])
                viol.append(v)
                if len(viol) >= 5:
                    break
            else:
                unconfirmed.append(v)
        # cover goals: every kind of outcome was reached by some path
        if not d["violations"] and not d["skipped"] and not d["errors"]:
            for h, cs in b["need"].items():
                miss = cs - set(d["covers"].get(h, []))
                if miss:
                    raise NoAnswer("vacuous: %s never reaches outcome %s on %s" % (h, sorted(miss), variant))
        # the engine against the compiled code on concrete inputs taken from its own paths
        wit = d["witnesses"]
        rnd.shuffle(wit)
        for w in wit[:(60 if tier == "quick" else 400)]:
            if viol:
                break
            out = native(rn, so, w["harness"], w["params"], w["trace"], w["cpu"], d["caches"])
            res = [l[7:] for l in out if l.startswith("RESULT")]
            bad = [l for l in out if l.startswith(("FAIL assert", "FAIL signal", "FAIL exit", "FAIL panic", "FAIL timeout", "ERROR"))]
            if prop == "C17" or variant == "par":
                pass
            j = jmap.get((w["harness"], tuple(w["params"]), w["cpu"]), "")
            ps = props_of(j) if j else None
            bad = [l for l in bad if not (l.startswith("FAIL assert") and ps is not None and int(l.split()[2]) // 1000 not in ps)]
            if res != w["results"] or bad:
                mism.append((variant, w["harness"], w["params"], w["cpu"], w["results"][:3], res[:3], bad[:3]))
                continue
            validated += 1
            if len(samples) < 6:
                samples.append({"harness": w["harness"], "params": w["params"], "cpu": w["cpu"], "variant": variant, "inputs": [t[:80] for t in w["trace"][:3]], "results": [r[:80] for r in w["results"][:3]]})
        if viol:
            break
    wall = time.time() - t0
    mine = [f for f in funcs if re.search(r"(base64|base32|hex|uuid|unicode)_simd|vsimd", f)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["paths"],
            "transitions": total["steps"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states: complete symbolic paths; transitions: IR instructions executed symbolically; traces: inputs the solver produced for such paths, run on the compiled crate with equal results",
            "jobs": total["jobs"], "jobs_decided": total["jobs_done"] - len(errors), "jobs_not_run": total["skipped"],
            "solver_queries": total["queries"], "solver_calls": total["queries"] - total["cache_hits"],
            "query_cache_hits": total["cache_hits"], "solver_sat": total["solver_sat"], "solver_unsat": total["solver_unsat"],
            "solver_unknown": total["solver_unknown"], "cross_checked_by_cvc5": total["cross_checked"], "cvc5_gave_no_answer": total["cross_no_answer"],
            "solver_s": round(total["solver_s"], 2), "max_query_s": maxq,
            "assertions": total["asserts"], "assertions_closed_by_rewriting": total["asserts_syntactic"],
            "memory_accesses_checked": total["mem_checks"], "forks": total["forks"], "infeasible_paths": total["infeasible"],
            "announced_panics": total["panics_ok"],
            "functions_encoded": sorted(mine)[:400], "functions_encoded_count": len(mine),
            "machine_intrinsics": sorted(intr)[:200],
            "bounds": {k: {**x, "cpus": sorted(x["cpus"])} for k, x in bounds.items()},
            "modules": {v: {"features": b["feats"], **{k: str(x) for k, x in VARIANTS[v].items()}} for w, b in by.items() for v in [w] + b["extra"]},
            "undecided": errors[:20],
            "slowest_jobs": sorted(slow, reverse=True)[:5],
            "build_s": round(build_s, 1),
        },
        "assumptions": [
            "the bounds list, per harness, the smallest and largest value of each size parameter; nothing is claimed outside",
            "IR before LLVM's optimiser is what is decided; LLVM's later passes and the processor are trusted",
            "the engine's model of the x86 intrinsics and of LLVM instructions, validated on this run against the compiled code on the inputs counted above",
            "allocation does not fail",
        ],
        "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d jobs, %d paths, %d assertions, %d queries (%d solver calls, %.1f s), %d traces validated, wall %.1f s (build %.1f)" % (
        prop, tier, total["jobs_done"], total["paths"], total["asserts"], total["queries"], total["queries"] - total["cache_hits"], total["solver_s"], validated, wall, build_s))
    for k in sorted(knowns):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        v = viol[0]
        os.makedirs(REPLAY, exist_ok=True)
        v["property"] = prop
        name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps([v["harness"], v["params"], v["trace"]]).encode()).hexdigest()[:12])
        p = os.path.join(REPLAY, name)
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        log("counterexample: %s(%s) on %s, %s build: %s; on the compiled code: %s" % (
            v["harness"], ",".join(map(str, v["params"])), "/".join(v["cpus"]), v["variant"], v["msg"], v["native"]))
        log("  inputs: " + describe(v))
        log("  at: " + " < ".join(v["stack"][:4])[:600])
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if mism:
        raise NoAnswer("the engine and the compiled code disagree on %d inputs, first: %s" % (len(mism), mism[0]))
    if unconfirmed:
        # undefined behaviour that does not show in the result is property C16's business alone
        rest = [v for v in unconfirmed if not (v["kind"].split(":")[0] in ("memory", "ub") and prop != "C16")]
        for v in unconfirmed[:3]:
            log("not reproduced on the compiled code: %s(%s) on %s: %s %s at %s" % (
                v["harness"], v["params"], v["cpus"], v["kind"], v["msg"], " < ".join(v["stack"][:3])[:400]))
        if rest:
            raise NoAnswer("%d counterexamples do not reproduce on the compiled code" % len(rest))
    if errors:
        for e in errors[:5]:
            log("undecided: " + e[:500])
        if len(errors) > max(2, total["jobs"] // 50) or not all("inconclusive" in e for e in errors):
            raise NoAnswer("%d of %d jobs undecided" % (len(errors), total["jobs"]))
    if total["skipped"]:
        log("note: %d of %d jobs not run within the time budget" % (total["skipped"], total["jobs"]))
        if total["skipped"] > total["jobs"] // 2:
            raise NoAnswer("most jobs were not run")
    log("held on everything explored")
    return 0


def replay(path):
    v = json.load(open(path))
    _, rn = build_tools()
    so = {x: build(x or v["variant"], v["features"], "native") for x in [""] + v["extra"]}
    what, lines = confirm(v, v["judge"], rn, so, v["caches"])
    log("%s(%s) on %s: %s" % (v["harness"], v["params"], v["cpus"], v["msg"]))
    log("inputs: " + describe(v))
    for l in lines[:20]:
        log("  " + l)
    if what:
        log("reproduced: " + what)
        log("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    log("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            build_tools()
            for t in sorted({v["target"] for v in VARIANTS.values() if v.get("target")}):
                sysroot(t)
            sys.exit(0)
        if a.replay:
            sys.exit(replay(a.replay))
        sys.exit(check(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED") or "1")))
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        sys.exit(2)
