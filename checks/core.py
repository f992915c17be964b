"""Driver plumbing: build the harness from /repo's working tree, run jobs through the real code, and have TLC validate the
recorded events against the specification. No judgement is made here: every FAIL line comes from the TLA+ modules."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class CheckError(Exception):
    pass


class Work:
    def __init__(self):
        base = os.environ.get("VERIF_WORK")
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=base)

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, flags=None, name="build", cli=False):
    out = work.sub(name)
    env = dict(os.environ)
    if flags:
        env["VERIF_CXXFLAGS"] = flags
    if cli:
        env["VERIF_CLI"] = "1"
    p = subprocess.run([os.path.join(VERIF, "build.sh"), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
    vh = os.path.join(out, "vhcli" if cli else "vh")
    if p.returncode != 0 or not os.path.exists(vh):
        raise CheckError("harness build failed:\n" + p.stdout.decode(errors="replace")[:3000])
    return vh


def tlc(module, cfg, metadir, env=None, timeout=800, extra=(), heap="2g", workers=1):
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + metadir, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", metadir, "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


FAIL = re.compile(r'^"?FAIL\|(.*?)"?$')


def parse_fails(text):
    """FAIL|tags|job|line|clause|detail lines printed by the trace modules."""
    out = []
    seen = set()
    for ln in text.splitlines():
        m = FAIL.match(ln.strip())
        if not m:
            continue
        p = m.group(1).split("|", 4)
        if len(p) < 5:
            raise CheckError("malformed FAIL line: " + ln[:300])
        if p[0] == "" or ln in seen:
            continue
        seen.add(ln)
        out.append(dict(tags=p[0].split(","), job=int(p[1]), line=int(p[2]), clause=p[3], detail=p[4].replace('\\"', '"')))
    return out


def run_jobs(vh, jobs, path, secs=20):
    with open(path + ".jobs", "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    p = subprocess.run([vh, path + ".jobs", path, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
    if p.returncode != 0:
        raise CheckError("harness exit %d: %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    return path


def count_lines(path):
    n = 0
    with open(path, "rb") as f:
        for _ in f:
            n += 1
    return n


class Result:
    def __init__(self):
        self.fails = []
        self.events = 0
        self.jobs = 0
        self.states = 0
        self.kinds = {}
        self.samples = []

    def merge(self, o):
        self.fails += o.fails
        self.events += o.events
        self.jobs += o.jobs
        self.states += o.states
        for k, v in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        self.samples += o.samples


def validate_shard(work, vh, module, jobs, tag, secs=20, heap="2g", env=None):
    d = work.sub("shard-" + tag)
    trace = run_jobs(vh, jobs, os.path.join(d, "trace.ndjson"), secs)
    e = {"TRACE": trace}
    e.update(env or {})
    t0 = time.time()
    rc, out = tlc(module, module.replace(".tla", ".cfg"), os.path.join(d, "md"), env=e, heap=heap)
    r = Result()
    r.fails = parse_fails(out)
    r.events = count_lines(trace)
    r.jobs = len(jobs)
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if rc != 0 or not m or int(m.group(2)) != r.events + 1:
        keep = os.path.join(tempfile.gettempdir(), "verif-tlc-error.txt")
        with open(keep, "w") as f:
            f.write(out)
        raise CheckError("TLC did not accept the trace file %s (rc %d):\n%s" % (trace, rc, "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[:3000]))
    r.states = int(m.group(2))
    with open(trace) as f:
        for ln in f:
            k = re.search(r'"e":\s?"(\w+)"', ln)
            if k:
                r.kinds[k.group(1)] = r.kinds.get(k.group(1), 0) + 1
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return r


def validate(work, vh, module, jobs, tag, secs=20, procs=None, heap="2g", env=None):
    procs = procs or NPROC
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    shards = [jobs[i::procs] for i in range(procs)]
    shards = [s for s in shards if s]
    res = Result()
    with ThreadPoolExecutor(len(shards) or 1) as ex:
        fs = [ex.submit(validate_shard, work, vh, module, s, "%s-%d" % (tag, i), secs, heap, env) for i, s in enumerate(shards)]
        for f in fs:
            res.merge(f.result())
    return res


MCLAY = dict(merge=["Qrr", "rAr", "rrQ"], tight=["QAQ", "rrX"], magic=["Qr0", "rrr"], resv=["MrM", "rQr"], ys=["YrY", "rQr"], local=["QrQ", "rAr"], twist=["Qrr", "rrQ"])


def model_check(work, module, cfg, env, tag, workers=2, heap="3g", timeout=800, expect_ok=True):
    """Exhaustive TLC run; returns (states, distinct, output)."""
    rc, out = tlc(module, cfg, work.sub("mc-" + tag), env=env, workers=workers, heap=heap, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if rc != 0 or not m:
        raise CheckError("model checking %s failed (rc %d):\n%s" % (tag, rc, "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", '"STATE')))[:3000]))
    return int(m.group(1)), int(m.group(2)), out


def emitted(out, key="STATE"):
    for ln in out.splitlines():
        if ln.startswith('"%s|' % key):
            yield json.loads(json.loads(ln)[len(key) + 1:])
