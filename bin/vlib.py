"""Shared parts of the checks: building the harness, running TLC, reporting."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or "/repo"
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = os.environ.get("VERIF_TIER") or "quick"
QUICK = TIER != "thorough"
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """Something of the machinery failed: no verdict."""


class Died(Exception):
    """The real code ended the harness or does not come back."""


def died(err):
    """The stack of the goroutine that was in the code under test, if one was."""
    for g in re.split(r"\n\n+", err):
        head = re.match(r"goroutine \d+.* \[(running|runnable|sync[^\]]*|semacquire[^\]]*)", g)
        if not head and "goroutine " not in g[:12]:
            continue
        frames = re.findall(r"^([\w./*()\-]+)\(.*\)$", g, re.M)
        for f in frames:
            if f.startswith("main."):
                break
            if f.startswith("github.com/breml/logstash-config"):
                return g[:1500]
    return None


def run(cmd, timeout, quit=False, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        if quit:  # Go prints its stacks
            os.kill(p.pid, signal.SIGQUIT)
            try:
                out, err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                err = ""
            if died(err):
                os.killpg(p.pid, 9)
                raise Died("no end after %ss: %s\n%s" % (timeout, " ".join(cmd), died(err)))
        os.killpg(p.pid, 9)
        p.wait()
        raise CheckError("timeout after %ss: %s" % (timeout, " ".join(cmd)))
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


class Work:
    """A scratch directory that is removed at the end."""

    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        atexit.register(shutil.rmtree, self.dir, True)

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def path(self, *a):
        return os.path.join(self.dir, *a)


def build(out, *flags):
    r = run([os.path.join(V, "bin", "buildh.sh"), out, *flags], 600)
    if r.returncode != 0:
        raise CheckError("building the harness failed:\n" + r.stderr[-3000:])
    return out


def go_env():
    e = dict(os.environ)
    r = run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], 60)
    for kv in r.stdout.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    return e


def build_mustache(out):
    r = run(["go", "build", "-o", out, "./cmd/mustache"], 600, cwd=REPO, env=go_env())
    if r.returncode != 0:
        raise CheckError("building mustache failed:\n" + r.stderr[-3000:])
    return out


def harness(binary, *args, timeout=500, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = run([binary, *args], timeout, quit=True, env=e)
    if r.returncode == 2 and "fatal error: " in r.stderr and died(r.stderr):
        raise Died(re.search(r"fatal error: .*", r.stderr).group(0)[:1000] + "\n" + died(r.stderr))
    if r.returncode != 0:
        raise CheckError("harness %s failed (%d):\n%s\n%s" % (args[0], r.returncode, r.stdout[-2000:], r.stderr[-3000:]))
    return r.stdout


def tlc(module, cfg=None, workdir=None, env=None, args=(), timeout=800, heap="3g", stack="900m", workers=None):
    """Runs TLC on a module of /verif/spec in a scratch directory; returns its output."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=workdir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
    if cfg is not None and "\n" in cfg:
        with open(os.path.join(d, "run.cfg"), "w") as h:
            h.write(cfg)
        cfg = "run.cfg"
    e = dict(os.environ)
    e.update(env or {})
    w = ["-workers", str(workers)] if workers else []
    r = run(["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (workers or 2),
             "-cp", JARS, "tlc2.TLC", "-config", cfg or module + ".cfg", "-metadir", os.path.join(d, "states"),
             *w, *args, module + ".tla"], timeout, cwd=d, env=e)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_states(log):
    """(states generated, distinct states) of a TLC run."""
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", log):
        pass
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"number of states generated: ([\d,]+)", log)
    if m:
        n = int(m.group(1).replace(",", ""))
        return n, n
    return 0, 0


def tlc_ok(module, cfg=None, ok=(0,), **kw):
    rc, log = tlc(module, cfg, **kw)
    if rc not in ok:
        raise CheckError("TLC on %s ended with %d:\n%s" % (module, rc, log[-4000:]))
    return log


def printed(log, tag):
    """The values a specification printed with PrintT(<<tag, ToJson(x)>>)."""
    out = []
    head = '<<"%s", "' % tag
    for line in log.splitlines():
        if line.startswith(head) and line.endswith('">>'):
            out.append(json.loads(json.loads('"' + line[len(head):-3] + '"')))
    return out


def tlc_files(module, d, workdir, jobs=None, timeout=800):
    """Evaluates the module on every in_*.json of d, giving out_*.json."""
    ins = sorted(f for f in os.listdir(d) if f.startswith("in_"))

    def one(f):
        out = os.path.join(d, f.replace("in_", "out_"))
        rc, log = tlc(module, workdir=workdir, env={"IN": os.path.join(d, f), "OUT": out}, timeout=timeout)
        if rc != 0 or not os.path.exists(out):
            raise CheckError("TLC failed on %s (%d):\n%s" % (f, rc, log[-3000:]))
        return out

    with ThreadPoolExecutor(jobs or CPUS) as ex:
        return list(ex.map(one, ins))


class Result:
    """Collects what a check saw and turns it into evidence and exit status."""

    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.coverage, self.violations, self.assumptions = {}, [], []
        self.known = []

    def violation(self, detail, replay):
        """replay: what is needed to see the violation again (written as JSON)."""
        self.violations.append((detail, replay))

    def known_finding(self, what):
        self.known.append(what)

    def finish(self):
        ev = {"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
              "coverage": self.coverage, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1, ensure_ascii=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            return 0
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, (detail, replay) in enumerate(self.violations[:5]):
            p = os.path.join(d, "%s_%d.json" % (self.prop, i))
            with open(p, "w") as h:
                json.dump({"property": self.prop, "seed": SEED, "detail": detail, "replay": replay}, h, indent=1)
            print(detail[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1


def known(prop):
    """The known findings of a property: (name, argument)."""
    out = []
    with open(os.path.join(V, "known-findings.txt")) as h:
        for line in h:
            m = re.match(r"known: property=(\S+) (\S+) (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out
