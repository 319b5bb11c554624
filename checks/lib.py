"""Common machinery of all checks: building, running drivers, TLC, evidence, violations."""
import resource
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(VERIF, "out")


class Infra(Exception):
    """The check itself could not do its work."""


def scale(q, t):
    return t if THOROUGH else q


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r'"PROGRESS (\d+) OF (\d+)"', out)
        self.progress = int(m.group(1)) if m else None
        self.length = int(m.group(2)) if m else None
        self.parse_error = "Parsing or semantic analysis failed" in out
        self.ok = rc == 0


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.mc_states = self.mc_trans = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.violations = []       # (description, replay path)
        self.known_seen = []
        self.notes = []
        self.level = "model_checking"
        self.extra = {}
        self._n = 0
        self._lk = threading.Lock()
        self.known = load_known(pid)

    # ---- building ----
    def build(self, *drivers):
        for attempt in range(2):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "build.py"), *drivers],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return
        raise Infra("build failed:\n" + r.stdout[-4000:])

    def drv(self, name):
        return os.path.join(BUILD, name)

    def tmp(self, name):
        with self._lk:
            self._n += 1
            return os.path.join(self.dir, f"{self._n:05d}-{name}")

    def run(self, cmd, timeout=120, cpu=None, env=None, stdin=None, cwd=None, fsize=0):
        """returns (rc, stdout, stderr); rc None on timeout"""
        if cpu is not None and shutil.which("taskset"):
            cpus = sorted(os.sched_getaffinity(0))
            cmd = ["taskset", "-c", str(cpus[cpu % len(cpus)])] + cmd
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             env=e, cwd=cwd, start_new_session=True,
                             preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))) if fsize else None)
        try:
            o, er = p.communicate(stdin, timeout=timeout)
            return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, er = p.communicate()
            return None, o.decode("utf8", "replace"), er.decode("utf8", "replace")

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g", defs=None):
        """cfg: text. Runs TLC on spec/<module>.tla"""
        cf = self.tmp(module + ".cfg")
        open(cf, "w").write(cfg)
        md = self.tmp("meta")
        cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, min(workers, 4))}", f"-Xmx{heap}", "-Xss16m",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cf, *args, module + ".tla"]
        rc, o, e = self.run(cmd, timeout=timeout, env=env, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        if rc is None:
            raise Infra(f"TLC timed out on {module}")
        r = TlcResult(rc, o + e)
        if r.parse_error:
            raise Infra(f"TLC cannot parse {module}:\n{r.out[-3000:]}")
        return r

    def model_check(self, module, cfg, timeout=600, heap="8g", workers=None):
        """Exhaustive exploration of a specification; a failure is an error of the check."""
        r = self.tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap=heap)
        if not r.ok:
            raise Infra(f"model checking of {module} failed:\n{r.out[-5000:]}")
        with self._lk:
            self.mc_states += r.distinct
            self.mc_trans += r.generated
        return r

    def trace_ok(self, module, cfg, trace, env=None, timeout=600):
        """Is the recorded trace a behaviour of the specification? -> (accepted, progress, length)"""
        e = {"TRACE": trace}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
        if r.progress is None:
            raise Infra(f"TLC gave no verdict on a trace with {module}:\n{r.out[-3000:]}")
        with self._lk:
            self.mc_states += r.distinct
            self.mc_trans += r.generated
            self.events += r.progress
        return r.progress == r.length, r.progress, r.length

    # ---- results ----
    def sample(self, s):
        if len(self.samples) < 20:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, desc, replay):
        with self._lk:
            self._n += 1
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, f"{self.pid}-{self._n}.replay")
            with open(path, "w") as f:
                f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1))
            self.violations.append((desc, path))
        log(f"[{self.pid}] violation: {desc}")

    def known_finding(self, key, desc):
        """key is listed in known-findings.json for this property -> report and go on"""
        for k in self.known:
            if k.get("key") == key:
                with self._lk:
                    if key not in self.known_seen:
                        self.known_seen.append(key)
                        print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                return True
        return False

    def finish(self):
        cov = {"states": self.mc_states, "transitions": self.mc_trans,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:20] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            d, p = self.violations[0]
            print(f"{self.pid}: {d}")
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
            return 1
        print(f"{self.pid}: held ({self.traces} traces, {self.mc_states} states, {ev['wall_s']} s)", flush=True)
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def parallel(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


# ---- trace validation of driver runs in shards -----------------------------------------------
def split_runs(path):
    """list of (first line number, lines) per 'reset'"""
    runs, cur, start = [], None, 0
    with open(path) as f:
        for i, l in enumerate(f):
            if '"e":"reset"' in l:
                if cur is not None:
                    runs.append((start, cur))
                cur, start = [], i
            if cur is None:
                cur, start = [], i
            cur.append(l)
    if cur is not None:
        runs.append((start, cur))
    return runs


def conc_shards(ctx, driver, workload, nruns, module, cfg, nshards=None, timeout=None, seed=None, args=(), env=None):
    """Runs a trace-recording driver for nruns runs, split over shards, and validates each shard's trace.
    Driver command line: driver workload seed first n out"""
    timeout = timeout or scale(60, 600)
    nshards = min(nshards or NCPU, nruns)
    per = (nruns + nshards - 1) // nshards
    seed = SEED if seed is None else seed

    def record(first, n, cpu, out, tmo):
        cmd = [ctx.drv(driver), workload, str(seed), str(first), str(n), out, *args]
        rc, o, e = ctx.run(cmd, timeout=tmo, cpu=cpu, env=env, fsize=scale(64, 512) << 20) # endless retries produce endless traces
        return rc, e

    def judge(first, n, cpu, tmo=timeout):
        out = ctx.tmp(f"{workload}.ndjson")
        rc, err = record(first, n, cpu, out, tmo)
        if rc is None:
            with open(out, "a") as f:
                f.write('{"e":"hang","t":0}\n')
        elif rc not in (0, 97, 98):
            with open(out, "a") as f:
                f.write('{"e":"crash","t":0,"sig":%d}\n' % (rc if rc else 0))
        fix_tail(out)
        if rc is None or rc in (-25, 153):
            cut_last_run(out, 20000)
        acc, prog, length = ctx.trace_ok(module, cfg, out)
        return acc, prog, length, out, rc, err

    def shard(k):
        first = k * per
        n = min(per, nruns - first)
        if n <= 0:
            return
        acc, prog, length, out, rc, err = judge(first, n, k)
        if not acc:
            # which run was it? repeat that run alone
            runs = split_runs(out)
            bad = [i for i, (s, ls) in enumerate(runs) if s <= prog < s + len(ls)]
            b = bad[0] if bad else len(runs) - 1
            acc2, prog2, len2, out2, rc2, err2 = judge(first, b + 1, k)
            if acc2 and rc is None:
                # killed by the time limit only, e.g. on a busy machine: give it more time
                acc3, prog3, length, out3, rc3, err3 = judge(first, n, k, scale(max(60, min(4 * timeout, 800 - (time.time() - ctx.t0))), 4 * timeout))
                if acc3:
                    with ctx._lk:
                        ctx.traces += n
                    return
                out, prog, err = out3, prog3, err3
            runs2 = split_runs(out2 if not acc2 else out)
            pr = prog2 if not acc2 else prog
            sel = [(s, ls) for (s, ls) in runs2 if s <= pr < s + len(ls)] or runs2[-1:]
            s, ls = sel[0]
            at = pr - s
            badev = ls[at].strip() if at < len(ls) else "(end of trace)"
            ctx.violation(f"{driver} {workload} run {first + b}: event {at + 1} is not allowed by {module}: {badev[:300]} {err[-300:]}",
                          f"# {driver} {workload} {seed} {first} {b + 1}\n# rejected at line {at + 1} of this run by {module}\n" + "".join(ls[:at + 1]) + "\n# stderr: " + err[-2000:])
            return
        with ctx._lk:
            ctx.traces += n
        if k == 0:
            with open(out) as f:
                ctx.sample(f"{driver} {workload}: " + "".join(f.readlines()[:12]))
        os.unlink(out)

    parallel(shard, range(nshards))


def cut_last_run(path, n):
    """a run that does not end is as good as its first n events"""
    with open(path) as f:
        ls = f.readlines()
    first = max([i for i, l in enumerate(ls) if '"e":"reset"' in l] or [0])
    if len(ls) - first > n:
        with open(path, "w") as f:
            f.writelines(ls[:first + n])
            f.write('{"e":"hang","t":0}\n')


def fix_tail(path):
    """drop an incomplete last line (killed driver)"""
    with open(path, "rb") as f:
        d = f.read()
    ls = d.split(b"\n")
    good = []
    for l in ls:
        if not l:
            continue
        if l.startswith(b"{") and l.endswith(b"}"):
            good.append(l)
    with open(path, "wb") as f:
        f.write(b"\n".join(good) + b"\n")


def main(pid, fn):
    ctx = Ctx(pid)
    try:
        fn(ctx)
        return ctx.finish()
    except Infra as e:
        log(f"[{pid}] error of the check: {e}")
        if ctx.violations:
            return ctx.finish()
        shutil.rmtree(ctx.dir, ignore_errors=True)
        return 2


def seqset(n, first=0):
    return "{" + ",".join(str(i) for i in range(first, first + n)) + "}"
