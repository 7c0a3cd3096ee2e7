"""The real Rust monitor core for the executor: rustc's LLVM IR, brought to the form LLVM 18 reads, behind the C interface."""
import json, os, pathlib, re, tarfile, threading
from util import *
import cmon
RSRC = REPO / "monitors" / "rust" / "r2u2_core" / "src"
RUST = VERIF / "rust"
HOME = pathlib.Path(os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")) if False else pathlib.Path("/root/.cargo")
VERUS = pathlib.Path("/opt/veriftools/verus")
def rustc():
    tc = json.loads((VERUS / "version.json").read_text())["verus"]["toolchain"].split()[0]
    p = pathlib.Path("/root/.rustup/toolchains") / tc / "bin" / "rustc"
    return [str(p)] if p.exists() else ["rustc", "+" + tc]
def crate(name):
    ps = sorted(HOME.glob(f"registry/cache/*/{name}-[0-9]*.crate"))
    if not ps:
        raise CheckError(f"crate {name} is not in the cargo cache")
    d = fresh("crate")
    with tarfile.open(ps[-1]) as t:
        t.extractall(d, filter="data")
    return next(d.iterdir()) / "src" / "lib.rs"
ED = ["--edition", "2021", "--cap-lints", "allow"]
_d = {}
_l = threading.Lock()
def deps():
    with _l:
        if "deps" not in _d:
            o = fresh("rd")
            run(rustc() + ["--crate-type", "proc-macro", "--crate-name", "const_env", RUST / "const_env.rs", "--out-dir", o] + ED, check=True, timeout=300)
            for n in ("byteorder", "libm"):
                run(rustc() + ["--crate-type", "rlib", "--crate-name", n, "-O", crate(n), "--out-dir", o] + ED, check=True, timeout=300)
            _d["deps"] = o
    return _d["deps"]
def externs(o):
    return ["--extern", f"vstd={VERUS}/libvstd.rlib", "-L", VERUS, "--extern", f"byteorder={o}/libbyteorder.rlib", "--extern", f"libm={o}/liblibm.rlib", "--extern", f"const_env={o}/libconst_env.so", "-L", o]
CG = ["-C", "codegen-units=1", "-C", "panic=abort", "-C", "no-prepopulate-passes", "-C", "embed-bitcode=no"]
def build(out, flags=(), native=False):
    """flags: rustc options such as overflow checks.  Leaves core and shim as LLVM IR or a static library."""
    o = deps()
    em = ["--emit=llvm-ir,link"]
    run(rustc() + ["--crate-name", "r2u2_core", "--crate-type", "rlib", RSRC / "lib.rs", "--out-dir", out] + ED + externs(o) + em + CG + ["-C", "opt-level=1"] + list(flags), check=True, timeout=300)
    sh = rustc() + ["--crate-name", "rshim", RUST / "shim.rs", "--out-dir", out, "--extern", f"r2u2_core={out}/libr2u2_core.rlib"] + ED + ["-L", o, "-L", VERUS] + CG + ["-C", "opt-level=1"] + list(flags)
    if native:
        run(sh + ["--crate-type", "staticlib", "--cfg", 'feature="std"'], check=True, timeout=300)
    else:
        run(sh + ["--crate-type", "rlib", "--emit=llvm-ir"], check=True, timeout=300)
def strip_call(s, name):
    out, i, pat = [], 0, re.compile(r"(?<![\w.@%\"])" + name + r"\(")
    while True:
        m = pat.search(s, i)
        if not m:
            return "".join(out) + s[i:]
        out.append(s[i:m.start()])
        d, j = 1, m.end()
        while d:
            d += (s[j] == "(") - (s[j] == ")")
            j += 1
        i = j + (s[j:j + 1] == " ")
def down(s):
    lines = []
    for l in s.splitlines():
        if l.startswith("module asm") or "@llvm.lifetime." in l or l.startswith("!llvm.module.flags"):
            continue
        if l.startswith("attributes #"):
            l = l.split("=")[0] + "= { " + " ".join(w for w in ("noreturn", "nounwind") if re.search(rf"\b{w}\b", l)) + " }"
        if l.startswith("declare ") and re.search(r"panick|panic|unwrap_failed|expect_failed|index_fail|_fail\d*\(|copy_from_slice_impl", l):
            n = re.search(r"@([\w.$\"]+)\(", l).group(1)
            args = [a for a in re.split(r",(?![^()]*\))", l[l.index("@" + n) + len(n) + 2:l.rindex(")")]) if a.strip()]
            ty = [re.match(r"\s*(\{[^}]*\}|\w+)", a).group(1) for a in args]
            l = f"define linkonce_odr hidden void @{n}({', '.join(f'{t} %a{k}' for k, t in enumerate(ty))}) {{\n  call void @vs_assert(i1 zeroext false, ptr @vs_panic_text)\n  call void @vs_assume(i1 zeroext false)\n  unreachable\n}}"
        for f in ("pow", "sqrt"):
            if l.startswith("declare ") and re.search(rf"libm.*4math.*\d{f}\(", l):
                n = re.search(r"@([\w.$\"]+)\(", l).group(1)
                a = "double %a, double %b" if f == "pow" else "double %a"
                l = f"define linkonce_odr hidden double @{n}({a}) {{\n  %r = call double @{f}({a})\n  ret double %r\n}}"
        lines.append(l)
    s = "\n".join(lines) + "\n@vs_panic_text = linkonce_odr hidden constant [6 x i8] c\"panic\\00\"\n"
    for f in ("vs_assert", "vs_assume"):
        if f"@{f}(" in s and not re.search(rf"^declare .*@{f}\(", s, re.M):
            s += f"declare void @{f}(i1 zeroext{', ptr' if f == 'vs_assert' else ''})\n"
    for f in ("pow", "sqrt"):
        if f"call double @{f}(" in s:
            s += f"declare double @{f}(double{', double' if f == 'pow' else ''})\n"
    for n in ("captures", "range", "initializes", "memory", "nofpclass"):
        s = strip_call(s, n)
    s = re.sub(r"\bgetelementptr (?:inbounds |nuw |nusw )+", lambda m: "getelementptr inbounds " if "inbounds" in m.group(0) else "getelementptr ", s)
    s = re.sub(r"\btrunc (?:nuw |nsw )+", "trunc ", s)
    s = s.replace("icmp samesign ", "icmp ").replace("uitofp nneg ", "uitofp ")
    return re.sub(r"\b(?:dead_on_unwind|dead_on_return|nofree) ", "", s)
def monitor_bc(rflags=()):
    with _l2:
        k = ("bc", tuple(rflags))
        if k not in _d:
            o = fresh("rb")
            build(o, rflags)
            bcs = []
            for n in ("r2u2_core", "rshim"):
                (o / f"{n}.18.ll").write_text(down((o / f"{n}.ll").read_text()))
                run(["llvm-as-18", o / f"{n}.18.ll", "-o", o / f"{n}.bc"], check=True)
                bcs.append(str(o / f"{n}.bc"))
            cmon.ir([cmon.VSYM_SRC / "vsrt.c", RUST / "glue.c"], o / "glue.bc")
            run(["llvm-link-18"] + bcs + [o / "glue.bc", "-o", o / "mon.bc"], check=True)
            _d[k] = o / "mon.bc"
    return _d[k]
_l2 = threading.Lock()
def native(rflags=(), san=""):
    with _l2:
        k = ("nat", tuple(rflags))
        if k not in _d:
            o = fresh("rn")
            build(o, rflags, True)
            run(["gcc", "-c", "-O1"] + cmon.CFLAGS + cmon.incs() + [RUST / "glue.c", "-o", o / "glue.o"], check=True)
            _d[k] = [str(o / "glue.o"), str(o / "librshim.a"), "-lpthread", "-ldl", "-lm"]
    return _d[k]
def use(rflags=()):
    """from here on cmon's harnesses run on the Rust monitor"""
    cmon.monitor_bc = lambda flags=(), cli=False: monitor_bc(rflags)
    cmon.native_lib = lambda flags=(), san="", cli=False: native(rflags, san)
