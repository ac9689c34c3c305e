#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions below: a patch against /repo's HEAD and a demonstration."""
import json, os, shutil, subprocess, sys, tarfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo, bind=None):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, bind=bind)


for f in sorted(os.listdir(os.path.join(HERE, "defs"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(HERE, "defs", f)).read(), f, "exec"))


def make(id):
    b = BUGS[id]
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = "/tmp/mkbug"
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(tmp, f)
        s = open(p).read()
        head, sep, tests = s.partition("#[cfg(test)]\nmod tests")
        n = 1
        if isinstance(old, tuple):
            old, n = old
        if n > 0:
            assert head.count(old) == n, (id, f, head.count(old), old)
        head = head.replace(old, new)
        open(p, "w").write(head + sep + tests)
    subprocess.run(["cargo", "fmt", "--version"], stdout=subprocess.DEVNULL)
    p = subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True, check=True)
    open(os.path.join(d, "patch.diff"), "w").write(p.stdout)
    shutil.rmtree(tmp)
    open(os.path.join(d, "main.rs"), "w").write(open(os.path.join(HERE, "prelude.rs")).read() + b["demo"].strip() + "\n")
    shutil.copy(os.path.join(HERE, "demo.sh"), d)
    lock = os.path.join(ROOT, "harness", "Cargo.lock")
    tgz, toml = "vendor.tgz", open(os.path.join(HERE, "Cargo.toml.in")).read()
    if not os.path.exists(os.path.join(HERE, tgz)):
        subprocess.run(["tar", "czf", os.path.join(HERE, tgz), "-C", ROOT, "vendor"], check=True)
    if b["bind"]:
        # the wrapper's crate and what stands in for its dependencies come along
        lock = os.path.join(ROOT, "bind", b["bind"] + "-harness", "Cargo.lock")
        crate, feat, more = {"ffi": ("uniffi", '"testvectors", "uniffi"', 'didcomm-uniffi = { path = "bind/uniffi" }\n'),
                             "wasm": ("wasm", '"testvectors"', 'didcomm-js = { path = "bind/wasm" }\nwasm-bindgen = { path = "bind/standin/wasm-bindgen" }\nwasm-bindgen-futures = { path = "bind/standin/wasm-bindgen-futures" }\njs-sys = { path = "bind/standin/js-sys" }\n')}[b["bind"]]
        tmp = "/tmp/mkbug"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(ROOT, "vendor"), tmp + "/vendor")
        shutil.copytree(os.path.join(ROOT, "bind", "standin"), tmp + "/bind/standin")
        shutil.copytree(os.path.join(ROOT, "bind", crate), tmp + "/bind/" + crate)
        c = tmp + "/bind/" + crate + "/Cargo.toml"
        s = open(c).read().replace('"/repo', '"@REPO@')
        open(c, "w").write(s)
        subprocess.run(["tar", "czf", os.path.join(d, "vendor.tgz"), "-C", tmp, "vendor", "bind"], check=True)
        shutil.rmtree(tmp)
        toml = toml.replace('features = ["testvectors"]', "features = [" + feat + "]").replace("serde_json =", more + "serde_json =")
    else:
        shutil.copy(os.path.join(HERE, tgz), os.path.join(d, "vendor.tgz"))
    open(os.path.join(d, "Cargo.toml.in"), "w").write(toml)
    shutil.copy(lock, os.path.join(d, "Cargo.lock.in"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    for i in (sys.argv[1:] or sorted(BUGS)):
        make(i)
        print(i)
