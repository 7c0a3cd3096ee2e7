"""Real C monitor: lower it to LLVM IR, run harnesses in the symbolic executor, replay counterexamples natively."""
import hashlib, json, os, pathlib, re, shutil, threading, time
from util import *

CSRC = REPO / "monitors" / "c" / "src"
CFLAGS = ["-w", "-std=c99", "-D_POSIX_C_SOURCE=200112L", "-fno-builtin", "-U_FORTIFY_SOURCE"]
LDF = ["-Wl,--wrap=fprintf", "-lm"]
def sources(cli=False):
    s = sorted(str(p) for p in CSRC.rglob("*.c") if "cli" not in p.relative_to(CSRC).parts[:-1])
    if cli:
        s += sorted(str(p) for p in (CSRC / "cli").glob("*.c"))
    return s
def incs():
    ds = sorted({str(p.parent) for p in CSRC.rglob("*.h")})
    return [f"-I{CSRC}", f"-I{CSRC/'internals'}", f"-I{VSYM_SRC}"]
_vsym = None
_vl = threading.Lock()
def vsym_bin():
    global _vsym
    with _vl:
        if _vsym is None:
            out = BUILD / "vsym"
            try:
                run(["bash", VSYM_SRC / "build.sh", out], timeout=600, check=True)
            except (OSError, RuntimeError):
                out = scratch() / "vsym"
                run(["bash", VSYM_SRC / "build.sh", out], timeout=600, check=True)
            _vsym = out
    return _vsym
_mon = {}
_ml = threading.Lock()
CL = ["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-ffreestanding", "-emit-llvm", "-c"]
PIPES = ["function(fix-irreducible,sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)",
         "function(mem2reg,fix-irreducible,loop-simplify,lcssa)"]
def ir(files, out, flags=()):
    d = fresh("i")
    bcs = []
    for k, f in enumerate(files):
        b = d / f"{k}.bc"
        run(CL + CFLAGS + list(flags) + incs() + [str(f), "-o", str(b)], check=True)
        bcs.append(str(b))
    run(["llvm-link-18"] + bcs + ["-o", str(out)], check=True)
    shutil.rmtree(d, ignore_errors=True)
def monitor_bc(flags=(), cli=False):
    key = (tuple(flags), cli)
    with _ml:
        l = _mon.setdefault(key, [threading.Lock(), None])
    with l[0]:
        if l[1] is None:
            out = fresh("m") / "mon.bc"
            ir([VSYM_SRC / "vsrt.c"] + sources(cli), out, flags)
            l[1] = out
    return l[1]
_nat = {}
def native_lib(flags=(), san="", cli=False):
    key = (tuple(flags), san, cli)
    with _ml:
        l = _nat.setdefault(key, [threading.Lock(), None])
    with l[0]:
        if l[1] is None:
            d = fresh("n")
            objs = []
            cc = ["clang-18", f"-fsanitize={san}", "-fno-omit-frame-pointer", "-g"] if san else ["gcc"]
            for k, f in enumerate(sources(cli)):
                o = d / f"{k}.o"
                extra = ["-Dmain=r2u2_cli_main"] if f.endswith("cli/main.c") else []
                run(cc + ["-c", "-O1"] + CFLAGS + list(flags) + extra + incs() + [f, "-o", str(o)], check=True)
                objs.append(str(o))
            l[1] = objs
    return l[1]
def bounds_flags(text):
    """flags that make the monitor use a generated bounds file (taken verbatim)"""
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    p = scratch() / f"bounds_{h}.h"
    with _ml:
        if not p.exists():
            p.write_text(text)
    return ["-include", str(p)]

def vsym(harness, flags=(), cli=False, timeout=None, query_ms=None, with_monitor=True, extra_files=(), vflags=()):
    """harness: C text defining vs_main.  Returns the executor's result (dict)."""
    timeout = timeout or (75 if TIER != "thorough" else 300)
    query_ms = query_ms or (30000 if TIER != "thorough" else 120000)
    d = fresh("h")
    (d / "h.c").write_text(harness)
    mon = monitor_bc(flags, cli) if with_monitor else None
    hb = d / "h.bc"
    ir([d / "h.c"] + list(extra_files) + ([] if with_monitor else [VSYM_SRC / "vsrt.c"]), hb, flags)
    l = d / "l.bc"
    if mon:
        run(["llvm-link-18", str(mon), str(hb), "-o", str(l)], check=True)
    else:
        l = hb
    res = None
    for pipe in PIPES:
        o = d / "o.bc"
        rc, so, se = run(["opt-18", f"-passes={pipe}", str(l), "-o", str(o)])
        if rc != 0:
            res = {"status": "unsupported", "what": "opt: " + se[-500:]}
            continue
        rc, so, se = run([vsym_bin(), "--entry", "vs_main", "--timeout", str(timeout), "--query-ms", str(query_ms)] + list(vflags) + [str(o)], timeout=timeout + 4 * query_ms / 1000 + 60, mem=3500)
        try:
            res = json.loads(so.strip().splitlines()[-1])
        except Exception:
            res = {"status": "unsupported", "what": f"executor ended with {rc}: {se[-500:]}"}
        if res["status"] == "ok" and (res.get("verdict") != "unknown" or res.get("query_s", 0) > query_ms / 1000):
            break
        if res["status"] == "unsupported" and "time limit" in res["what"]:
            break
    for f in ("h.bc", "o.bc", "l.bc"):
        try:
            os.unlink(d / f)
        except OSError:
            pass
    res["dir"] = str(d)
    return res

def inputs_text(inp):
    return "".join(f"{k} {v}\n" for k, v in inp.items())
NATIVE_TMPFILE = ""
def replay(harness, inp, flags=(), kind="assert", where="", cli=False, keep=None, with_monitor=True, extra_files=()):
    """Runs the harness natively on the real code with the model's inputs.  Returns (reproduced, text)."""
    uninit = "uninit" in kind
    san = "" if kind in ("assert", "hang") or uninit else "address,undefined" if kind.startswith("arith") else "address"
    d = fresh("r")
    (d / "h.c").write_text(harness)
    (d / "inputs").write_text(inputs_text(inp))
    cc = ["clang-18", f"-fsanitize={san}", "-fno-omit-frame-pointer", "-g"] if san else ["gcc"]
    objs = native_lib(flags, san, cli) if with_monitor else []
    exe = d / "h"
    run(cc + ["-O1"] + CFLAGS + list(flags) + incs() + [str(d / "h.c"), str(VSYM_SRC / "vsnat.c")] + [str(x) for x in extra_files] + objs + LDF + ["-o", str(exe)], check=True)
    env = base_env()
    env["VS_INPUTS"] = str(d / "inputs")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=0"
    env["MSAN_OPTIONS"] = "exitcode=77"
    pre = ["valgrind", "-q", "--error-exitcode=77"] if uninit else []
    rc, so, se = run(pre + [exe], timeout=20 if kind == "hang" else 60, env=env, cwd=str(d))
    if kind == "assert":
        ok = f"VS-FAIL {where}" in so
    elif kind == "hang":
        ok = rc == 124
    elif rc == 124:
        ok = False
    elif uninit:
        ok = rc == 77 and "ninitialised" in se
    else:
        ok = rc != 0 and "VS-ASSUME-FALSE" not in so or "runtime error" in se
    text = f"harness: h.c\ninputs: {inp}\nexpected: {kind} {where}\nnative run exit {rc}\n{so[-3000:]}\n{se[-3000:]}\n"
    (d / "result.txt").write_text(text)
    fl = " ".join(f if not f.startswith(str(scratch())) else "bounds.h" for f in flags)
    for f in flags:
        if f.startswith(str(scratch())):
            shutil.copy(f, d / "bounds.h")
    for x in extra_files:
        shutil.copy(x, d / pathlib.Path(x).name)
    (d / "run.sh").write_text("#!/bin/sh\n# rebuilds and runs the counterexample on the code in /repo\ncd \"$(dirname \"$0\")\"\n"
        + f"{' '.join(cc)} -O1 {' '.join(CFLAGS)} {fl} -I{CSRC} -I{CSRC}/internals -I{VSYM_SRC} h.c {VSYM_SRC}/vsnat.c {' '.join(sources(cli)) if with_monitor else ''} {' '.join(pathlib.Path(x).name for x in extra_files)} {' '.join(LDF)} -o /tmp/vs_replay_$$ && VS_INPUTS=inputs /tmp/vs_replay_$$; rc=$?; rm -f /tmp/vs_replay_$$; exit $rc\n")
    try:
        os.unlink(exe)
    except OSError:
        pass
    return ok, text, d

def decide(chk, name, harness, flags=(), timeout=None, query_ms=None, cli=False, expect_reach=(), with_monitor=True, extra_files=(), sample=None, keyfn=None, vflags=()):
    """Runs one harness, replays what it finds and books the result on the check.  Returns the result dict."""
    r = vsym(harness, flags, cli, timeout, query_ms, with_monitor, extra_files, vflags)
    with _bl:
        if r["status"] != "ok":
            chk.error(f"{name}: not decided: {r['what']}")
            return r
        chk.count("programs")
        chk.count("instructions_encoded", r["instructions"])
        chk.count("obligations", r["obligations"])
        chk.count("queries", r["queries"])
        chk.cov["solver_s"] = round(chk.cov.get("solver_s", 0) + r["query_s"], 3)
        chk.cov["encode_s"] = round(chk.cov.get("encode_s", 0) + r["exec_s"], 3)
        chk.cov["max_symbolic_inputs"] = max(chk.cov.get("max_symbolic_inputs", 0), r["atoms"])
        chk.add("functions_encoded", [f for f in r["functions"] if not f.startswith("vs_") and not re.search(r"\.\d+$", f)])
        if sample:
            chk.samples.append(sample)
        w = r.get("witness", {})
        if r["verdict"] == "holds":
            missing = [k for k in ("-1",) + tuple(map(str, expect_reach)) if not w.get(k)]
            if missing:
                chk.error(f"{name}: vacuous, points {missing} not reachable")
            n = chk.cov["programs"]
            if n > 12 and n % 25:
                return r
    # the executor's model of the monitor is compared with an ordinary build now and then (not what decides)
    if r["verdict"] == "holds":
        ok, text, d = replay(harness, {}, flags, "assert", "", cli, with_monitor=with_monitor, extra_files=extra_files)
        with _bl:
            chk.count("native_cross_checks")
            if "VS-FAIL" in text or not ("VS-END" in text or "VS-ASSUME-FALSE" in text):
                chk.violation(name + ": gcc build", "the gcc build fails with all inputs zero", d)
        return r
    with _bl:
        if r["verdict"] == "unknown":
            chk.error(f"{name}: solver gave no answer")
            return r
    bad = []
    for v in r["violations"]:
        ok, text, d = replay(harness, v["inputs"], flags, v["kind"], v["where"], cli, with_monitor=with_monitor, extra_files=extra_files)
        chk_key = keyfn(v) if keyfn else f"{name}: {v['kind'] if v['kind'] != 'assert' else v['where']}"
        with _bl:
            chk.count("counterexamples_replayed")
            if ok:
                chk.violation(chk_key, f"{v['kind']} {v['where']} with inputs {v['inputs']}", d)
                break
            bad.append(f"{v['kind']} {v['where']}: {text[-400:]}")
    else:
        with _bl:
            chk.error(f"{name}: counterexample did not reproduce: {bad[:1]}")
    return r
_bl = threading.RLock()
