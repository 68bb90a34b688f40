"""Shared machinery of the /verif checks: building /repo out of tree, running
the programs under test, running TLC, reporting."""
import os, sys, json, hashlib, subprocess, shutil, tempfile, time, fcntl, re, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The machinery itself failed: error exit (2), never a VIOLATION."""


class Rejected(Exception):
    """The code's observed behaviour is not a behaviour of the specification."""

    def __init__(self, what, detail=None, files=None, key=None):
        super().__init__(what)
        self.what, self.detail, self.files, self.key = what, detail, files or {}, key


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build

def source_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                         stdout=subprocess.PIPE, check=True).stdout
    fs = sorted(set(f.decode() for f in out.split(b"\0") if f))
    return [f for f in fs if os.path.isfile(os.path.join(REPO, f))]


def source_hash(files):
    h = hashlib.sha256()
    for f in files:
        if f.startswith(("doc/", "archive/", "tables/")):
            continue
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _lock():
    os.makedirs(CACHE, exist_ok=True)
    fh = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(fh, fcntl.LOCK_EX)
    return fh


FLAVOR = "-O1 -DNDEBUG -w"


def build(want=("atlas",)):
    """Build the wanted programs ('atlas','Fokko') from /repo's working tree in
    a scratch directory below /verif/.cache named by the hash of the sources.
    Returns that directory."""
    fs = source_files()
    h = source_hash(fs)
    lk = _lock()
    try:
        d = os.path.join(CACHE, "b-" + h)
        if not os.path.exists(os.path.join(d, ".prepared")):
            # keep at most a few old builds
            olds = sorted((o for o in os.listdir(CACHE) if o.startswith("b-")),
                          key=lambda o: os.path.getmtime(os.path.join(CACHE, o)))
            for o in olds[:-5]:
                shutil.rmtree(os.path.join(CACHE, o), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in fs:
                t = os.path.join(d, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy(os.path.join(REPO, f), t, follow_symlinks=True)
            _run_build(["make", "-C", "cwebx", "ctanglex"], d)
            _run_build(["../../cwebx/ctanglex", "++", "-pl", "filekl.w"], os.path.join(d, "sources/io"))
            idir = os.path.join(d, "sources/interpreter")
            for w in sorted(os.listdir(idir)):
                if w.endswith(".w"):
                    _run_build(["../../cwebx/ctanglex", "++", "-p", w], idir)
            _run_build(["make", "-C", "sources/interpreter", "parser.tab.c"], d)
            open(os.path.join(d, ".prepared"), "w").close()
        todo = [w for w in want if not os.path.exists(os.path.join(d, ".ok-" + w))]
        if todo:
            t0 = time.time()
            _run_build(["make", "-j", str(os.cpu_count() or 4), "optimize=false",
                        "CXXFLAVOR=" + FLAVOR] + list(todo), d, 800)
            for w in todo:
                if not os.path.exists(os.path.join(d, w)):
                    raise Infra("build produced no " + w)
                open(os.path.join(d, ".ok-" + w), "w").close()
            log("built %s in %.0f s" % (",".join(todo), time.time() - t0))
        os.utime(d)
        return d
    finally:
        lk.close()


def _run_build(cmd, cwd, timeout=300):
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "MFLAGS", "CXXFLAVOR", "LDFLAGS"):
        env.pop(k, None)
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if p.returncode != 0:
        raise Infra("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))


def lib_objects(d, dirs=("utilities", "structure", "gkmod")):
    """Object files of the library part of a build directory (for harnesses)."""
    r = []
    for s in dirs:
        p = os.path.join(d, "sources", s)
        r += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".o")]
    return r


def build_harness(d, src, name, extra=(), objs=(), flags=None, timeout=600):
    """Compile /verif/harness/<src> against the sources in d."""
    out = os.path.join(d, "h-" + name)
    srcp = os.path.join(VERIF, "harness", src)
    stamp = hashlib.sha256(open(srcp, "rb").read() + repr((extra, flags)).encode()).hexdigest()
    sf = out + ".stamp"
    if os.path.exists(out) and os.path.exists(sf) and open(sf).read() == stamp:
        return out
    inc = ["-I" + os.path.join(d, "sources", s) for s in ("", "utilities", "structure", "gkmod", "io", "error", "interface")]
    cmd = ["g++", "-std=c++14", "-w"] + list(flags or ["-O1", "-DNDEBUG"]) + inc + [srcp] + list(extra) + list(objs) + ["-o", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Infra("harness build failed\n" + p.stdout.decode(errors="replace")[:3000])
    open(sf, "w").write(stamp)
    return out


# ---------------------------------------------------------------- running

class Run:
    def __init__(self, out, err, rc, timed_out):
        self.out, self.err, self.rc, self.timed_out = out, err, rc, timed_out


def run_prog(cmd, inp="", cwd=None, timeout=300, mem_gb=6, merge=False, env=None):
    """Run a program under test with limits; output is capped."""
    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.RLIM_INFINITY))
        except Exception:
            pass
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE, stdout=fo,
                             stderr=(fo if merge else fe), preexec_fn=limits, env=env)
        to = False
        try:
            p.communicate(inp.encode() if isinstance(inp, str) else inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            to = True
        except BrokenPipeError:
            p.wait()
        fo.seek(0)
        fe.seek(0)
        o = fo.read(1 << 29).decode(errors="replace")
        e = fe.read(1 << 26).decode(errors="replace")
    return Run(o, e, p.returncode, to)


def scratch(prefix="vf-"):
    return tempfile.mkdtemp(prefix=prefix)


def atlas(d, script, cwd=None, timeout=300, args=(), merge=False, mem_gb=6):
    """Run the interpreter on a script given on standard input."""
    tmp = None
    if cwd is None:
        tmp = cwd = scratch()
    try:
        return run_prog([os.path.join(d, "atlas"), "--no-readline",
                         "--path=" + os.path.join(d, "atlas-scripts")] + list(args),
                        script, cwd=cwd, timeout=timeout, merge=merge, mem_gb=mem_gb)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def crashed(r):
    return r.timed_out or r.rc < 0 or r.rc in (134, 139, 136)


def require_alive(r, what, script=None):
    """A program under test that dies on input the specification gives a
    meaning is a violation."""
    if crashed(r):
        raise Rejected("%s: program %s" % (what, "did not terminate in time" if r.timed_out
                                            else "died with status %d" % r.rc),
                       detail=(r.err[-1500:] + r.out[-500:]), files={"input.at": script or ""})


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None

    @property
    def ok(self):
        return self.rc == 0

    @property
    def rejected(self):
        if self.rc in (10, 11, 12, 13, 14):
            return True
        if self.rc in (75, 76, 77, 255) and "Error:" in self.out:
            # evaluation error: the recorded data are outside the domain of
            # the specification (which evaluates on the data of the pinned tree)
            return bool(re.search(r"Assert evaluated to FALSE|argument of Assert|Attempted to|nonexistent|not in the domain|was not in|The error occurred when TLC was evaluating", self.out)) \
                and not re.search(r"OutOfMemory|StackOverflow|Java heap|Parsing or semantic", self.out)
        return False

    def prints(self, tag):
        """Values printed by PrintT(<<tag, ...>>)."""
        return re.findall(r'<<"%s",(.*)>>' % re.escape(tag), self.out)


def tlc(module, cfg, data=None, workers=None, heap="8g", timeout=600, simulate=None,
        extra=(), props=(), spec_dir=SPEC, deadlock=False, seed=None):
    """Run TLC on /verif/spec/<module>.tla with the given configuration text.
    data: dict name -> python object, written as JSON; the module finds the
    file names in IOEnv (environment variable of that name)."""
    w = scratch("tlc-")
    try:
        for f in os.listdir(spec_dir):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(spec_dir, f), w)
        with open(os.path.join(w, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        env = dict(os.environ)
        for k, v in (data or {}).items():
            p = os.path.join(w, k + ".json")
            with open(p, "w") as fh:
                if isinstance(v, str):
                    fh.write(v)
                else:
                    json.dump(v, fh, separators=(",", ":"))
            env[k] = p
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + w, "-Xmx" + heap] + list(props) + \
              ["-cp", TLA_CP, "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(w, "meta"),
               "-workers", str(workers or min(8, os.cpu_count() or 1)), "-noGenerateSpecTE"]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise Infra("TLC on %s timed out after %d s" % (module, timeout))
        res = TLCResult(p.returncode, p.stdout.decode(errors="replace"), time.time() - t0)
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def tlc_check(what, module, cfg, data=None, files=None, **kw):
    """Run TLC; anything but acceptance is a rejection (of data recorded from
    the code) or an infrastructure failure."""
    r = tlc(module, cfg, data, **kw)
    if r.ok:
        return r
    if r.rejected:
        i = r.out.find("Error:")
        raise Rejected(what, detail=r.out[i:i + 6000], files=files)
    raise Infra("TLC failed (rc %d) on %s:\n%s" % (r.rc, module, r.out[max(0,r.out.find("Error:")):][:2500]))


# ---------------------------------------------------------------- reporting

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.cov = {}
        self.quick = tier != "thorough"
        self.t0 = time.time()

    def elapsed(self):
        return time.time() - self.t0

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, x, cap=6):
        s = self.cov.setdefault("samples", [])
        if len(s) < cap:
            s.append(x)

    def tlc_stats(self, r, name):
        self.count("states", r.distinct)
        self.count("transitions", r.generated)
        t = self.cov.setdefault("tlc_runs", {})
        e = t.setdefault(name, {"runs": 0, "states": 0, "wall_s": 0})
        e["runs"] += 1
        e["states"] += r.distinct
        e["wall_s"] = round(e["wall_s"] + r.wall, 1)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(pid, tier, seed, body, level):
    from importlib import import_module
    t0 = time.time()
    rej = None
    kf = dict(known_findings(pid))
    for attempt in (1, 2):
        ctx = Ctx(pid, tier, seed)
        ctx.known = kf
        try:
            body(ctx)
            if rej is not None:
                log("first run rejected but the re-run did not: %s" % rej.what)
                return 2
            break
        except Rejected as e:
            log("rejected (attempt %d): %s\n%s" % (attempt, e.what, (e.detail or "")[:3000]))
            if attempt == 2:
                return report(ctx, e)
            rej = e
            if time.time() - t0 > 420:   # no time for a full re-run within the limit
                return report(ctx, e)
        except Infra as e:
            log("error of the check: %s" % e)
            return 2
    wall = time.time() - t0
    write_evidence(ctx, level, wall, 0)
    for k, v in kf.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, v))
    print("OK property=%s tier=%s seed=%s wall=%.0fs" % (pid, tier, seed, wall))
    return 0


def write_evidence(ctx, level, wall, viol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        ctx.cov.setdefault(k, 0)
    ctx.cov.setdefault("samples", [])
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": ctx.cov, "wall_s": round(wall, 1)}
    ev["violations"] = viol
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def report(ctx, e):
    d = os.path.join(VERIF, "replay", ctx.pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "report.txt"), "w") as fh:
        fh.write("property %s\n%s\n\n%s\n" % (ctx.pid, e.what, e.detail or ""))
    for n, t in e.files.items():
        with open(os.path.join(d, n), "w") as fh:
            fh.write(t if isinstance(t, str) else json.dumps(t))
    print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.relpath(d, VERIF)))
    print(e.what)
    return 1
