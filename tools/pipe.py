"""The machinery between the specification and the library: build the harness, draw stimuli with TLC,
turn them into scenarios, run them against /repo's code, validate the recorded traces with TLC."""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")
REPO = os.environ.get("VF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
import conc  # noqa: E402


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tlc_cmd():
    """the command line behind the installed tlc wrapper, so that java options can be given"""
    cp = None
    try:
        for w in open("/usr/local/bin/tlc").read().split():
            if "tla2tools.jar" in w:
                cp = w.strip("'\"")
    except OSError:
        pass
    return ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-cp", cp or JAR, "tlc2.TLC"]


def tlc(mod, cfg, md, args, env=None, timeout=800, java=()):
    c = tlc_cmd()
    c[1:1] = ["-Djava.io.tmpdir=" + md] + list(java)
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ, **(env or {}))
    return sh(c + args + ["-noGenerateSpecTE", "-metadir", md, "-config", cfg, mod], cwd=SPEC, env=e, timeout=timeout)


# how the library is called: directly, or through one of its language bindings
KINDS = {"": HARN, "ffi": os.path.join(ROOT, "bind", "ffi-harness"), "wasm": os.path.join(ROOT, "bind", "wasm-harness")}
BINDING = {"ffi": "uniffi", "wasm": "wasm"}


def srchash(kind=""):
    h = hashlib.sha256()
    dirs = [os.path.join(REPO, "src"), os.path.join(ROOT, "vendor"), os.path.join(HARN, "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(KINDS[kind], "Cargo.toml")]
    if kind:
        dirs += [os.path.join(REPO, BINDING[kind], "src"), os.path.join(ROOT, "bind", "standin")]
        files += [os.path.join(ROOT, "bind", BINDING[kind], "Cargo.toml")]
    for base in dirs:
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in files:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(kind=""):
    """cargo decides by modification times; where the sources are not those of the last build, the
    crate is cleaned first so that a stale build can never be used"""
    d = KINDS[kind]
    t = os.path.join(d, "target")
    stamp = os.path.join(t, "srchash")
    now = srchash(kind)
    old = open(stamp).read() if os.path.exists(stamp) else None
    name = "vharness" + (kind and "-" + kind)
    if os.path.isdir(t) and old != now:
        own = ["didcomm", name] + {"": [], "ffi": ["didcomm-uniffi"], "wasm": ["didcomm-js", "wasm-bindgen", "js-sys"]}[kind]
        sh(["cargo", "clean", "--offline", "--release"] + sum((["-p", x] for x in own), []), cwd=d)
    p = sh(["cargo", "build", "--offline", "--locked", "--release"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR=t))
    if p.returncode:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(t, "release", name)


def draw(asks, seed, wd):
    """asks: [(family, count)] -> [(family, [choices])]"""
    if not asks:
        return []
    ask = os.path.join(wd, "ask.ndjson")
    with open(ask, "w") as f:
        for fam, n in asks:
            f.write(json.dumps({"f": fam, "n": n, "p": fam[:-6] if fam.endswith("-pairs") else ""}) + "\n")
    out = os.path.join(wd, "draw.")
    p = tlc("DCGen.tla", "DCGen.cfg", os.path.join(wd, "md-gen"), ["-workers", "1", "-simulate", "num=1", "-depth", "2", "-seed", str(seed)],
            {"VF_ASK": ask, "VF_OUT": out})
    res = []
    for i, (fam, n) in enumerate(asks):
        q = "%s%d.ndjson" % (out, i + 1)
        if not os.path.exists(q):
            raise ToolError("no stimuli were drawn:\n" + p.stdout[-3000:])
        res.append((fam, [json.loads(x) for x in open(q)]))
    return res


def scenarios(asks, seed, wd):
    r = []
    for fam, cs in draw(asks, seed, wd):
        for i, c in enumerate(cs):
            try:
                r.append(conc.concretise(fam, c, i, seed))
            except Exception as ex:
                raise ToolError("concretiser: %s %s: %r" % (fam, json.dumps(c), ex)) from ex
    return r


def run_harness(binary, scs, base, limit=700):
    """-> (trace path, [(scenario id, what)] for crashes of the process)"""
    trace, crashes, rest, part = base + ".trace", [], scs, 0
    open(trace, "w").close()
    while rest:
        sp, tp, mk = base + ".sc", base + ".part", base + ".mark"
        with open(sp, "w") as f:
            for s in rest:
                f.write(json.dumps(s) + "\n")
        if os.path.exists(mk):
            os.remove(mk)
        try:
            p = subprocess.run([binary, sp, tp, mk], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("harness did not finish")
        lines = open(tp).read().splitlines(True) if os.path.exists(tp) else []
        if p.returncode == 3:
            raise ToolError("harness: " + p.stderr[-2000:])
        if p.returncode == 0 and not (lines and '"ev":"hang"' in lines[-1]):
            with open(trace, "a") as f:
                f.writelines(lines)
            break
        cur = open(mk).read().strip() if os.path.exists(mk) else ""
        ix = [i for i, s in enumerate(rest) if s["id"] == cur]
        if not ix:
            raise ToolError("harness failed (%d) outside a scenario: %s" % (p.returncode, p.stderr[-2000:]))
        # keep whole scenarios only
        good = []
        for ln in lines:
            try:
                v = json.loads(ln)
            except ValueError:
                break
            if v.get("sc") == cur:
                break
            good.append(ln)
        with open(trace, "a") as f:
            f.writelines(good)
        hung = bool(lines) and '"ev":"hang"' in lines[-1]
        crashes.append((cur, "hang" if hung else "process died (%d)" % p.returncode))
        rest = rest[ix[0] + 1:]
        part += 1
        if part >= 4:
            break
    return trace, crashes


def validate(trace, prop, base):
    """-> dict(viol, other, cov, events)"""
    n = sum(1 for _ in open(trace))
    r = {"viol": [], "other": [], "cov": set(), "events": n, "states": 0}
    if n == 0:
        return r
    p = tlc("DCTrace.tla", "DCTrace.cfg", base + ".md", ["-workers", "1"], {"VF_TRACE": trace, "VF_PROP": prop})
    done = None
    for ln in p.stdout.splitlines():
        ln = ln.strip()
        if not (ln.startswith('"') and ln.endswith('"')):
            continue
        f = ln[1:-1].split("|")
        if f[0] in ("VIOL", "ELSE"):
            r["viol" if f[0] == "VIOL" else "other"].append((f[1], f[2], f[3]))
        elif f[0] == "COV":
            r["cov"].add(f[1])
        elif f[0] == "DONE":
            done = (int(f[1]), int(f[2]))
    if done is None or done[0] != done[1]:
        raise ToolError("trace validation did not consume the trace (%s):\n%s" % (done, p.stdout[-3000:]))
    r["viol"] = sorted(set(r["viol"]))
    r["other"] = sorted(set(r["other"]))
    r["states"] = n + 1
    return r


def execute(binary, scs, prop, wd, shards=None):
    k = min(shards or CORES, max(1, len(scs)))
    parts = [scs[i::k] for i in range(k)]

    def one(i):
        t0 = time.time()
        base = os.path.join(wd, "s%d" % i)
        tr, cr = run_harness(binary, parts[i], base)
        t1 = time.time()
        v = validate(tr, prop, base)
        v["crashes"], v["trace"] = cr, tr
        v["t"] = (t1 - t0, time.time() - t1)
        return v
    with ThreadPoolExecutor(k) as ex:
        vs = list(ex.map(one, range(k)))
    return {"viol": sum((v["viol"] for v in vs), []), "other": sum((v["other"] for v in vs), []), "cov": set().union(*[v["cov"] for v in vs]),
            "events": sum(v["events"] for v in vs), "crashes": sum((v["crashes"] for v in vs), []), "traces": [v["trace"] for v in vs],
            "t": [v["t"] for v in vs], "scenarios": len(scs)}


def workdir(tag):
    d = os.path.join(WORK, "%s-%d" % (tag, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
