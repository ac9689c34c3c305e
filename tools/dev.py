"""Development aid: dev.py SEED PROP FAM=N ... : runs families against the library and shows deviations."""
import collections, json, os, sys, time
import models, pipe

seed, prop = sys.argv[1:3]
asks = [(a.split("=")[0], int(a.split("=")[1])) for a in sys.argv[3:] if "=" in a and ":" not in a]
wd = pipe.workdir("dev")
t = time.time()
b = pipe.build(os.environ.get("VF_KIND", ""))   # "", ffi or wasm
print("build %.1f" % (time.time() - t)); t = time.time()
scs = pipe.scenarios(asks, int(seed), wd)
for a in sys.argv[3:]:      # MODEL:Const=value,...   a model of models.MODELS, its scenarios replayed
    if ":" in a:
        n, c = a.split(":")
        c = dict(models.MODELS[n]["quick"], **dict(x.split("=") for x in c.split(",") if x))
        ok, st, tr, dp, beh, txt = models.model(n, c, None, int(seed), wd, 6, 3000)
        print(n, c, ok, "states", st, "behaviours", len(beh), "%.1f s" % (time.time() - t))
        if not ok:
            print(txt[-3000:])
        scs += [{"id": "%s.%d" % (n, i), "world": {"docs": b["world"]["docs"], "wallets": b["world"]["wallets"], "keys": []}, "ops": b["ops"]} for i, b in enumerate(beh)]
print("draw %.1f  scenarios %d ops %d" % (time.time() - t, len(scs), sum(len(s["ops"]) for s in scs))); t = time.time()
r = pipe.execute(b, scs, prop, wd)
print("run %.1f %s events %d  crashes %s" % (time.time() - t, [(round(a, 1), round(c, 1)) for a, c in r["t"]], r["events"], r["crashes"][:5]))
byid = {s["id"]: s for s in scs}
g = collections.defaultdict(list)
for sc, i, a in r["viol"]:
    g[(sc.split(".")[0], a)].append((sc, i))
for (f, a), l in sorted(g.items(), key=lambda x: -len(x[1])):
    print("%-9s %-28s %4d  %s" % (f, a, len(l), " ".join("%s:%s" % x for x in l[:4])))
st = collections.Counter()
for t in r["traces"]:
    for ln in open(t):
        v = json.loads(ln)
        if v["ev"] not in ("begin", "end"):
            e = v.get("exp")
            st[v["sc"].split(".")[0], v["ev"], v.get("st"), v.get("kind") if v.get("st") == "err" else "", "" if e is None else "exp ok" if not e["f"] else "exp err"] += 1
if "-s" in sys.argv:
    for k, n in sorted(st.items(), key=str):
        print("   ", *k, n)
if "-c" in sys.argv or len(g) == 0:
    print(sorted(r["cov"]))
json.dump(byid, open(wd + "/all.json", "w"))
print(wd)
