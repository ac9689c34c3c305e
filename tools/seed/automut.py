#!/usr/bin/env python3
"""Mechanical changes of single tokens and statements in the library's sources, to measure what the checks
can see: automut.py OUT.jsonl [-j N] [--every K] [--only FILE] runs each in a scratch copy against a fixed set of
scenarios of all families and models (first a small part, then the rest) and records which are noticed.
A development aid: what survives is read by hand (much of it is equivalent)."""
import hashlib, json, os, queue, re, subprocess, sys, threading
ROOT = "/verif"
sys.path.insert(0, ROOT + "/tools")
KINDS = ["Malformed", "DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "InvalidState", "NoCompatibleCrypto", "Unsupported", "IoError", "IllegalArgument"]


ROOTS = ["uniffi/", "wasm/"] if "--bind" in sys.argv else [""]   # the wrappers, instead of the library


def sources(repo):
    r = []
    for dp, dn, fn in (x for k in ROOTS for x in os.walk(repo + "/" + k + "src")):
        if "test_vectors" in dp:
            continue
        r += [os.path.join(dp, f) for f in fn if f.endswith(".rs")]
    return sorted(r)


def body(text):
    i = re.search(r"(?m)^#\[cfg\(test\)\]\s*\n(pub\(crate\) )?mod ", text)
    return len(text) if not i else i.start()


def mutants(path):
    """-> [(description, new text)]"""
    t = open(path).read()
    end = body(t)
    out = []
    lines = t[:end].split("\n")
    pos = 0
    def put(a, b, new, what):
        out.append(("%s:%d %s" % (os.path.basename(os.path.dirname(path)) + "/" + os.path.basename(path), t.count("\n", 0, a) + 1, what), t[:a] + new + t[b:]))
    for ln in lines:
        s = ln.strip()
        if s and not s.startswith("//") and not s.startswith("use "):
            code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', ln)
            for rx, new in [(r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! *[{\w])", "&&"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
                            (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])!(?=[\w(])(?!\[)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
                            (r" > ", " >= "), (r" >= ", " > "), (r" < ", " <= "), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.reverse\(\)", ".len()"), (r"\.sort\(\)", ".len()"),
                            (r"\.rev\(\)", ""), (r"\bcontains\(", "is_empty() || !x.contains(")]:
                for m in re.finditer(rx, code):
                    if rx.startswith(r"\bcontains"):
                        continue
                    if rx == r" < " and "fn " in code or rx in (" > ", " < ") and ("impl" in code or "dyn" in code):
                        continue
                    put(pos + m.start(), pos + m.end(), new, "%s -> %s" % (m.group(0), new))
            for m in re.finditer(r"ErrorKind::(%s)\b" % "|".join(KINDS), code):
                k = KINDS[(KINDS.index(m.group(1)) + 1 + pos % 7) % len(KINDS)]
                if "=>" not in code:
                    put(pos + m.start(1), pos + m.end(1), k, "%s -> %s" % (m.group(1), k))
            for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.\"])", code):
                put(pos + m.start(), pos + m.end(), str(int(m.group(0)) + 1), "%s -> +1" % m.group(0))
            # a statement that goes
            if re.match(r"^\s*(metadata\.\w+ = .*;|\w+\.(push|append|insert|sort|reverse|extend_from_slice|update)\(.*\);|self\.\w+ = .*;)\s*$", code):
                put(pos, pos + len(ln), "", "statement deleted: " + s[:50])
            m = re.match(r"^(\s*)if (?!let)(.*) \{\s*$", code)
            if m:
                put(pos + m.start(2), pos + m.end(2), "false && (" + ln[m.start(2):m.end(2)] + ")", "if -> never")
                put(pos + m.start(2), pos + m.end(2), "true || (" + ln[m.start(2):m.end(2)] + ")", "if -> always")
            m = re.match(r"^\s*Some\(.*\)(,?)\s*$", code)
            if m and not code.rstrip().endswith("=>"):
                put(pos, pos + len(ln), "None" + m.group(1), "Some -> None: " + s[:40])
            if re.match(r"^\s*#\[serde\(.*\)\]\s*$", code):
                put(pos, pos + len(ln), "", "attribute deleted: " + s)
        pos += len(ln) + 1
    return out


def sh(c, **kw):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def prepare(n):
    d = "/tmp/am%d" % n
    sh("mkdir -p %s && rm -rf %s/repo && git clone -q /repo %s/repo && rsync -a --delete --exclude work --exclude .git --exclude seeded --exclude evidence %s/ %s/verif/ 2>/dev/null || (mkdir -p %s/verif; cp -a %s/. %s/verif/)" % (d, d, d, ROOT, d, d, ROOT, d))
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/harness/Cargo.toml %s/verif/bind/*/Cargo.toml" % (d, d, d))
    sh("sed -i 's#\"/repo/#\"%s/repo/#' %s/verif/bind/*/Cargo.toml" % (d, d))
    return d


RUN = r'''
import sys, os, json
sys.path.insert(0, sys.argv[1] + "/verif/tools")
import pipe
wd = pipe.workdir("am")
try:
    kind = sys.argv[2].split(".")[-1] if sys.argv[2].split(".")[-1] in ("ffi", "wasm") else ""
    b = pipe.build(kind)
except pipe.ToolError as e:
    print("NOBUILD"); sys.exit()
import collections
for f in sys.argv[2:]:
    scs = [json.loads(x) for x in open(f)]
    try:
        r = pipe.execute(b, scs, "C29" if kind else "ALL", wd, 3)
    except pipe.ToolError as e:
        print("TOOL " + str(e)[-200:].replace("\n", " ")); sys.exit()
    if r["viol"] or r["crashes"]:
        print("SEEN %s %s %s" % (os.path.basename(f), len(r["crashes"]), json.dumps(collections.Counter(a for _, _, a in r["viol"]).most_common(4)))); sys.exit()
print("SURVIVED")
'''


def main():
    out = sys.argv[1]
    J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
    every = int(sys.argv[sys.argv.index("--every") + 1]) if "--every" in sys.argv else 1
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    muts = []
    for p in sources("/repo"):
        if only in p:
            muts += [(p[len("/repo/"):], w, t) for w, t in mutants(p)]
    muts.sort(key=lambda m: hashlib.sha256(m[1].encode()).hexdigest())
    muts = muts[::every]
    done = {json.loads(x)["what"] for x in open(out)} if os.path.exists(out) else set()
    muts = [m for m in muts if m[1] not in done]
    print(len(muts), "to do", flush=True)
    if "--list" in sys.argv:
        for m in sorted(muts, key=lambda m: m[1]):
            print(m[1])
        return
    q = queue.Queue()
    for m in muts:
        q.put(m)
    lock = threading.Lock()

    def work(n):
        d = prepare(n)
        env = dict(os.environ, VF_REPO=d + "/repo")
        while True:
            try:
                f, w, t = q.get_nowait()
            except queue.Empty:
                return
            sh("git checkout -q -- .", cwd=d + "/repo")
            open(d + "/repo/" + f, "w").write(t)
            diff = sh("git diff -U0", cwd=d + "/repo").stdout
            try:
                p = sh([sys.executable, "-c", RUN, d] + (["/tmp/am.ffi"] if f.startswith("uniffi") else ["/tmp/am.wasm"] if f.startswith("wasm") else ["/tmp/am.scs1", "/tmp/am.scs2"]), env=env, timeout=600).stdout.strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                p = "TIMEOUT"
            with lock:
                with open(out, "a") as o:
                    o.write(json.dumps({"what": w, "result": p, "diff": diff}) + "\n")
                print(w, "|", p[:150], flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(J)]
    [x.start() for x in ts]
    [x.join() for x in ts]


if __name__ == "__main__":
    main()
