#!/usr/bin/env python3
"""try.py [-j N] [--full] id ...: confirms each seeded change (demo passes without, fails with it; full test
suite of the scratch copy passes with it when --full) and runs its property's quick check against it, in
scratch copies.  Output: one line per change.  try.py --props C01,C02 id runs other checks as well."""
import json, os, re, shutil, subprocess, sys, threading, queue, time
ROOT = "/verif"
args = sys.argv[1:]
J = 3
full = "--full" in args
nodemo = "--nodemo" in args
props = None
if "-j" in args:
    i = args.index("-j"); J = int(args[i + 1]); del args[i:i + 2]
if "--props" in args:
    i = args.index("--props"); props = args[i + 1].split(","); del args[i:i + 2]
if props == ["all"]:
    props = ["C%02d" % i for i in range(1, 30)]
SD = ROOT + "/seeded/"
if "--dir" in args:
    i = args.index("--dir"); SD = args[i + 1] + "/"; del args[i:i + 2]
args = [a for a in args if not a.startswith("--")]
ids = [i for i in args or sorted(os.listdir(SD)) if os.path.exists(SD + i + "/meta.json")]
q = queue.Queue()
for i in ids:
    q.put(i)
out = threading.Lock()


def sh(c, cwd=None, env=None, timeout=1200):
    return subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def worker(n):
    repo, ver, ful = "/tmp/w%d/repo" % n, "/tmp/w%d/verif" % n, "/tmp/w%d/full" % n
    os.makedirs("/tmp/w%d" % n, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", repo])
    sh("mkdir -p %s && rsync -a --delete --exclude work --exclude .git --exclude seeded --exclude evidence %s/ %s/ 2>/dev/null || (cp -a %s/. %s/)" % (ver, ROOT, ver, ROOT, ver))
    sh("sed -i 's#path = \"/repo\"#path = \"%s\"#' %s/harness/Cargo.toml %s/bind/*/Cargo.toml" % (repo, ver, ver))
    sh("sed -i 's#\"/repo/#\"%s/#' %s/bind/*/Cargo.toml" % (repo, ver))
    env = dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        d = SD + i
        meta = json.load(open(d + "/meta.json"))
        res = []
        sh("git checkout -q -- . && git clean -fdq", cwd=repo)
        if not nodemo:
            p = sh(["bash", d + "/demo.sh"], cwd=repo)
            res.append("demo-clean=%d" % p.returncode)
            if p.returncode:
                res.append(p.stdout[-1500:])
        p = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
        if p.returncode:
            res.append("NOT APPLIED " + p.stdout)
        elif not nodemo:
            p = sh(["bash", d + "/demo.sh"], cwd=repo)
            res.append("demo-bug=%d" % p.returncode + (" " + p.stdout[-800:] if p.returncode == 4 else ""))
        if full:
            if not os.path.isdir(ful):
                sh("cp -a /tmp/s/repo %s" % ful)
            sh("rm -rf %s/src && cp -a %s/src %s/src" % (ful, repo, ful))
            p = sh("cargo test --offline --lib 2>&1 | grep -E 'test result|FAILED|failed|error(\\[|:)' | head -8", cwd=ful)
            res.append("tests: " + p.stdout.strip())
        for pr in props or [meta["property"]]:
            t = time.time()
            p = sh(["python3", "tools/vf.py", "check", pr], cwd=ver, env=env)
            asp = re.findall(r"VIOLATION property=\S+ replay=\S+\s+\((.*)\)", p.stdout)
            res.append("%s=%d %s (%.0fs)" % (pr, p.returncode, "; ".join(asp)[:300] if asp else p.stdout[-300:] if p.returncode == 2 else "", time.time() - t))
        with out:
            print(i, "|", " | ".join(res), flush=True)


ts = [threading.Thread(target=worker, args=(n,)) for n in range(J)]
[t.start() for t in ts]
[t.join() for t in ts]
