"""Makes seeded/<id>/ from tools/seeds.py: patch.diff, demo.sh (+ demo.py), meta.json, and confirms it.
usage: seed.py ID...   (applies the change to a clean /repo, builds, runs tests and the demo, undoes it)"""
import json, pathlib, subprocess, sys, shutil
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from seeds import SEEDS
R, S = pathlib.Path("/repo"), pathlib.Path("/verif/seeded")
MON = '''import subprocess, sys, tempfile, pathlib
PY = "/opt/venv/bin/python3"
SPEC, MAP, TRACE, OPTS, WANT = {spec!r}, {map!r}, {trace!r}, {opts!r}, {want!r}
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "s.c2po").write_text(SPEC)
    (d / "t.csv").write_text(TRACE)
    m = []
    if MAP:
        (d / "s.map").write_text(MAP)
        m = ["--map", str(d / "s.map")]
    c = subprocess.run([PY, "compiler/c2po.py", *OPTS, "--spec", str(d / "s.c2po"), *m, "-o", str(d / "s.bin")], capture_output=True, text=True)
    r = subprocess.run(["monitors/c/build/r2u2", str(d / "s.bin"), str(d / "t.csv")], capture_output=True, text=True, timeout=60)
    got = r.stdout.split("\\n")
if "--show" in sys.argv:
    print(c.stdout, c.stderr, file=sys.stderr)
    print(repr(r.stdout))
    sys.exit(0)
key = lambda l: l.split(":")[0]
want = WANT.split("\\n")
# The order of lines of different formulas does not matter
if {{k: [l for l in want if key(l) == k] for k in map(key, want)}} != {{k: [l for l in got if key(l) == k] for k in map(key, got)}}:
    print("expected", want, "got", got)
    sys.exit(1)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i, s):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    d = S / i; d.mkdir(parents=True, exist_ok=True)
    if "demo" in s: (d / "demo.py").write_text(s["demo"])
    elif "rust" in s:
        for f in ("main.rs", "const_env.rs", "demo_lib.py"): shutil.copy(f"/verif/tools/rustdemo/{f}", d / f)
        t = "from demo_lib import demo\ndemo({!r}, {!r}, {!r})\n"
        (d / "demo.py").write_text(t.format(s["rust"], s["types"], ""))
        x = sh(f"/opt/venv/bin/python3 {d}/demo.py --show", cwd=R); want = eval(x.stdout or "''")
        if not want: return "no output " + x.stderr[-800:]
        print(want.split())
        (d / "demo.py").write_text(t.format(s["rust"], s["types"], want))
    else:
        (d / "demo.py").write_text(MON.format(spec=s["spec"], map=s.get("map", ""), trace=s["trace"], opts=s.get("opts", []), want=""))
        want = eval(sh(f"/opt/venv/bin/python3 {d}/demo.py --show", cwd=R).stdout)
        (d / "demo.py").write_text(MON.format(spec=s["spec"], map=s.get("map", ""), trace=s["trace"], opts=s.get("opts", []), want=want))
    (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python3 "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    r = sh(f"bash {d}/demo.sh", cwd=R)
    if r.returncode: return f"demo fails on clean tree: {r.stdout}{r.stderr}"
    try:
        for f, old, new in s["edits"]:
            p = R / f; t = p.read_text()
            if t.count(old) != 1: return f"{f}: {t.count(old)} matches"
            p.write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "build fails " + b.stderr[-500:]
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode == 0: return "demo passes with the change"
        msg = r.stdout[-400:] + r.stderr[-300:]
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            got = set(json.load(open("/tmp/seed_out.json"))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            if want - got: return f"tests fail: {sorted(want - got)[:5]}"
        return "ok " + msg
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
for i in [a for a in sys.argv[1:] if a[0] != "-"] or SEEDS:
    print(i, make(i, SEEDS[i]), flush=True)
