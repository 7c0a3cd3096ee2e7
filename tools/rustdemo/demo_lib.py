import json, os, pathlib, subprocess, sys, tarfile, tempfile
HERE = pathlib.Path(__file__).resolve().parent
VERUS = pathlib.Path("/opt/veriftools/verus")
def run(c, **k):
    r = subprocess.run([str(x) for x in c], capture_output=True, text=True, timeout=250, **k)
    if r.returncode: sys.exit("cannot run: " + " ".join(map(str, c))[:300] + "\n" + r.stderr[-1500:])
    return r.stdout
def build(d):
    """the crate in the working directory with the driver main.rs"""
    tc = json.loads((VERUS / "version.json").read_text())["verus"]["toolchain"].split()[0]
    rustc = pathlib.Path("/root/.rustup/toolchains") / tc / "bin" / "rustc"
    ED = ["--edition", "2021", "--cap-lints", "allow", "--out-dir", d, "-L", d, "-L", VERUS]
    run([rustc, "--crate-type", "proc-macro", "--crate-name", "const_env", HERE / "const_env.rs"] + ED)
    for n in ("byteorder", "libm"):
        with tarfile.open(sorted(pathlib.Path("/root/.cargo").glob(f"registry/cache/*/{n}-[0-9]*.crate"))[-1]) as t: t.extractall(d / n, filter="data")
        run([rustc, "--crate-type", "rlib", "--crate-name", n, "-O", next((d / n).iterdir()) / "src" / "lib.rs"] + ED)
    ext = ["--extern", f"vstd={VERUS}/libvstd.rlib", "--extern", f"byteorder={d}/libbyteorder.rlib", "--extern", f"libm={d}/liblibm.rlib", "--extern", f"const_env={d}/libconst_env.so"]
    run([rustc, "--crate-type", "rlib", "--crate-name", "r2u2_core", "-O", "monitors/rust/r2u2_core/src/lib.rs"] + ED + ext)
    run([rustc, "--crate-name", "drv", HERE / "main.rs", "--extern", f"r2u2_core={d}/libr2u2_core.rlib"] + ED)
    return d / "drv"
def demo(progs, types, want):
    """progs: (specification, map, compiler options, trace)"""
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        exe = build(d)
        bs, ts = [], []
        for k, (spec, mp, opts, trace) in enumerate(progs):
            (d / "s.c2po").write_text(spec); (d / "s.map").write_text(mp); (d / f"t{k}").write_text(trace)
            run(["/opt/venv/bin/python3", "compiler/c2po.py", *opts, "--spec", d / "s.c2po", "--map", d / "s.map", "-o", d / f"s{k}.bin"])
            bs.append(str(d / f"s{k}.bin")); ts.append(str(d / f"t{k}"))
        got = run([exe, ",".join(bs), types, ",".join(ts)], env=dict(os.environ, RUST_MIN_STACK="268435456"))
    if "--show" in sys.argv:
        print(repr(got)); sys.exit(0)
    if got != want:
        print("expected", want.split(), "got", got.split()); sys.exit(1)
