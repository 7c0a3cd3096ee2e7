"""Runs the real C2PO compiler.  A zygote imports it once from the current tree; every job runs its command-line
entry point (c2po.py) in a forked child, so each job is an ordinary fresh run of the command."""
import atexit, json, os, pathlib, subprocess, sys, threading
from util import *

ZYG = r'''
import sys, os, json, signal, runpy, io
comp = sys.argv[1]
sys.path.insert(0, comp)
sys.setrecursionlimit(max(sys.getrecursionlimit(), 1000))
sys.argv = ["c2po.py"]
import c2po.main
for line in sys.stdin:
    job = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(job.get("timeout", 60))
            o = os.open(job["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            e = os.open(job["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(o, 1); os.dup2(e, 2)
            os.chdir(job["cwd"])
            sys.stdin = open(os.devnull)
            sys.argv = [job.get("prog", "c2po.py")] + job["argv"]
            code = 0
            try:
                if job.get("code"):
                    exec(compile(job["code"], "<job>", "exec"), {"__name__": "__job__", "JOB": job})
                else:
                    runpy.run_path(os.path.join(comp, "c2po.py"), run_name="__main__")
            except SystemExit as ex:
                c = ex.code
                code = c if isinstance(c, int) else (0 if c is None else 1)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 70
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code & 0xff)
        finally:
            os._exit(71)
    _, st = os.waitpid(pid, 0)
    rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)
    print(json.dumps({"rc": rc}), flush=True)
'''
class Zygote:
    def __init__(self):
        self.p = subprocess.Popen([PY, "-c", ZYG, str(COMPILER)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base_env(), cwd=str(scratch()))
    def job(self, j):
        self.p.stdin.write((json.dumps(j) + "\n").encode()); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise CheckError("compiler does not start: " + self.p.stderr.read().decode()[-2000:])
        return json.loads(l)["rc"]
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()
_tl = threading.local()
_all = []
_free = []
_zl = threading.Lock()
def _close():
    for z in _all:
        z.close()
atexit.register(_close)
class Result:
    pass
def c2po(files, argv, timeout=60, code=None, extra=None):
    """files: {name: text} written in a fresh directory; argv: arguments; returns Result(rc,out,err,dir)"""
    with _zl:
        z = _free.pop() if _free else None
    if z is None:
        z = Zygote()
        _all.append(z)
    d = fresh("c")
    for n, t in files.items():
        (d / n).write_text(t) if isinstance(t, str) else (d / n).write_bytes(t)
    r = Result()
    r.dir = d
    j = {"argv": list(map(str, argv)), "cwd": str(d), "out": str(d / "_stdout"), "err": str(d / "_stderr"), "timeout": timeout}
    if code:
        j["code"] = code
    if extra:
        j.update(extra)
    r.rc = z.job(j)
    with _zl:
        _free.append(z)
    r.out = (d / "_stdout").read_text(errors="replace") if (d / "_stdout").exists() else ""
    r.err = (d / "_stderr").read_text(errors="replace") if (d / "_stderr").exists() else ""
    r.argv = argv
    r.files = files
    return r
def mapping(names):
    return "".join(f"{n}:{i}\n" for i, n in enumerate(names))
def build_spec(text, names=None, opts=(), map_text=None, ext=".c2po", timeout=60):
    files = {"s" + ext: text}
    argv = ["--spec", "s" + ext]
    if map_text is None and names is not None:
        map_text = mapping(names)
    if map_text is not None:
        files["s.map"] = map_text
        argv += ["--map", "s.map"]
    argv += ["-o", "s.bin", "--write-bounds", "b.h"] + list(opts)
    r = c2po(files, argv, timeout)
    b = r.dir / "s.bin"
    r.bin = b.read_bytes() if b.exists() else None
    b = r.dir / "b.h"
    r.bounds = b.read_text() if b.exists() else None
    r.ok = r.rc == 0 and r.bin is not None
    return r
