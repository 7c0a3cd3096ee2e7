"""Shared plumbing: paths, scratch space, process pool, check bookkeeping (evidence, known findings, exit codes)."""
import atexit, concurrent.futures, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
VSYM_SRC = VERIF / "vsym"
COMPILER = REPO / "compiler"
PY = "/opt/venv/bin/python3" if os.path.exists("/opt/venv/bin/python3") else sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(1, min(8, os.cpu_count() or 1))
T_START = time.time()

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif-"))
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch
_ctr = 0
_pid = os.getpid()
_lock = threading.Lock()
def fresh(prefix="d"):
    global _ctr
    with _lock:
        _ctr += 1
        n = _ctr
    d = scratch() / (f"{prefix}{n}" if os.getpid() == _pid else f"{prefix}{n}_{os.getpid()}")
    d.mkdir(parents=True)
    return d

def base_env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONUNBUFFERED", "PYTHONPATH", "CFLAGS", "LDFLAGS")}
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e

def run(cmd, timeout=120, cwd=None, env=None, inp=None, check=False, mem=None):
    if mem:
        cmd = ["prlimit", f"--as={mem << 20}"] + list(cmd)
    try:
        p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env or base_env(), input=inp)
    except subprocess.TimeoutExpired as ex:
        if check:
            raise RuntimeError(f"timeout: {cmd}")
        return 124, (ex.stdout or b"").decode("utf8", "replace"), "timeout"
    o, e = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    if check and p.returncode != 0:
        raise RuntimeError(f"command failed ({p.returncode}): {' '.join(map(str, cmd))}\n{o[-2000:]}{e[-4000:]}")
    return p.returncode, o, e

def pmap(fn, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))

class CheckError(Exception):
    pass

class Check:
    """Collects the outcome of one check and ends the process with the exit code the task defines."""
    def __init__(self, pid, level, technique=""):
        self.pid, self.level = pid, level
        self.viol, self.errors, self.known_hit = [], [], []
        self.cov, self.assume, self.samples = {}, [], []
        self.known = load_known(pid)
        self.t0 = time.time()
        self.nrep = 0
        self.fatal = False
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n
    def add(self, key, items):
        s = self.cov.setdefault(key, [])
        for i in items:
            if i not in s:
                s.append(i)
    def replay_path(self, name, text):
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        self.nrep += 1
        p = d / f"{self.pid}-{self.nrep}-{re.sub(r'[^A-Za-z0-9_.-]', '_', name)[:60]}"
        if isinstance(text, pathlib.Path):
            if p.exists():
                shutil.rmtree(p, ignore_errors=True)
            shutil.copytree(text, p)
        else:
            p.write_text(text)
        return p
    def violation(self, key, what, replay):
        """key: stable identification of the failing input; replay: text or directory that reproduces it"""
        for k in self.known:
            if k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        if any(v[0] == key for v in self.viol):
            return
        path = self.replay_path(key, replay)
        self.viol.append((key, what, path))
        print(f"VIOLATION property={self.pid} replay={path}  # {key}: {what}"[:1500], flush=True)
    def error(self, what, fatal=False):
        """something left undecided: recorded in the evidence; the check gives no answer when it is more than a tenth"""
        self.errors.append(what)
        self.fatal |= fatal
        print(f"INCONCLUSIVE {self.pid}: {what}"[:2000], file=sys.stderr, flush=True)
    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        cov = dict(self.cov)
        cov.setdefault("samples", self.samples[:6] or ["none"])
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.errors:
            ev["coverage"]["inconclusive"] = self.errors[:20]
        p = VERIF / "evidence" / f"{self.pid}.json"
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(json.dumps(ev, indent=1, default=str) + "\n")
        done = max([self.cov.get(k, 0) for k in ("programs", "decided") if isinstance(self.cov.get(k, 0), int)] + [0])
        if self.viol:
            code = 1
        elif self.fatal or not done or len(self.errors) * 10 > done:
            code = 3
        else:
            code = 0
        print(f"{self.pid}: {'VIOLATED' if self.viol else 'INCONCLUSIVE' if code else 'held' + (' (%d undecided)' % len(self.errors) if self.errors else '')} in {ev['wall_s']} s; " + ", ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))), flush=True)
        sys.stdout.flush()
        sys.exit(code)

def load_known(pid):
    p = VERIF / "known_findings.txt"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out
