#!/usr/bin/env python3
"""vf.py setup | check Cxx [--tier quick|thorough] | replay FILE
Exit codes of check: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 no answer."""
import concurrent.futures, json, os, random, re, shutil, sys, time, traceback
import pipe, plan, models

LEVEL = "model_checking"


def tier_of(argv):
    if "--tier" in argv:
        return argv[argv.index("--tier") + 1]
    return os.environ.get("VERIF_TIER", "quick")


def shorten(s, n=1500):
    t = json.dumps(s, sort_keys=True)
    return json.loads(t) if len(t) <= n else t[:n] + "..."


def events_of(traces, sc):
    r = []
    for t in traces:
        for ln in open(t):
            if '"sc":"%s"' % sc in ln:
                v = json.loads(ln)
                if v.get("sc") == sc:
                    r.append(v)
    return r


def predicted(traces, scs):
    """How many operations that ran at the same time asked and answered exactly as MCConc's steps did.
    Only a measure of how close the model is: a library that asks in another order is no worse."""
    asks = {s["id"]: s["ops"][-1]["asks"] for s in scs if s["ops"] and "asks" in s["ops"][-1]}
    same = diff = 0
    for t in traces:
        for ln in open(t):
            v = json.loads(ln)
            if v["sc"] in asks and "calls" in v and "who" in v:
                a = asks[v["sc"]][v["who"]]
                f = lambda l: [(c["c"], c["v"]) for c in l]
                ok = a["st"] == v["st"] and (v["st"] == "ok" or a["kind"] == v["kind"]) and f(a["calls"]) == f(v["calls"])
                same, diff = same + ok, diff + (not ok)
    return {"as_predicted": same, "otherwise": diff} if asks else {}


def corrupt(traces, wd):
    """A copy of part of a trace in which one thing the library did is falsified, for several kinds
    of falsification, each at several places (a place may have room for the lie: of several faults either
    may be reported); used to show that the validation is not vacuous.  -> path, [name]"""
    kinds = {}

    def lie(v):
        st = v.get("st")
        if v["ev"] == "unpack" and st == "ok":
            yield "content", dict(v, res=dict(v["res"], h="0" * 16))
            yield "authenticated", dict(v, meta=dict(v["meta"], auth=not v["meta"]["auth"]))
            if "exp" in v:
                yield "prediction", dict(v, exp=dict(v["exp"], meta=dict(v["exp"]["meta"], enc=not v["exp"]["meta"]["enc"])))
            yield "recipients", dict(v, meta=dict(v["meta"], toKids=v["meta"]["toKids"] + ["did:ex:x#x"], hasTo=True))
        if v["ev"] == "unpack" and st == "err":
            yield "kind", dict(v, kind="IoError" if v["kind"] != "IoError" else "Malformed")
        if v["ev"] == "pack_enc" and st == "ok":
            yield "reported keys", dict(v, meta=dict(v["meta"], toKids=v["meta"]["toKids"][1:]))
            if v["term"].get("k") == "jwe" and v["term"].get("ok") == "ok":
                yield "envelope", dict(v, term=dict(v["term"], enc="A128GCM"))
    for t in traces:
        scs = {}
        for ln in open(t):
            v = json.loads(ln)
            l = scs.setdefault(v["sc"], [])
            l.append(v)
            if any(x["ev"] in ("begin", "hang") for x in l):
                continue
            for name, bad in lie(v):
                if bad != v and len(kinds.setdefault(name, [])) < 5:
                    kinds[name].append(l[:-1] + [bad])
        if len(kinds) == 7 and all(len(k) == 5 for k in kinds.values()):
            break
    out = []
    if kinds:
        p = os.path.join(wd, "lies.trace")
        with open(p, "w") as f:
            for i, (name, places) in enumerate(sorted((n, k) for n, k in kinds.items() if k)):
                for j, evs in enumerate(places):
                    for v in evs:
                        f.write(json.dumps(dict(v, sc="lie%d.%d" % (i, j))) + "\n")
                out.append(name)
        return p, out
    return None, []


def bundled(scs, seed):
    """Part of the operations that no resolver is to fail use the library's own resolvers"""
    rnd = random.Random(seed * 7 + 1)
    none = ("~", None)
    for s in scs:
        if rnd.random() < .15:
            for o in s["ops"]:
                e = o.get("env")
                if isinstance(e, dict) and "ops" not in o and all(e.get(f) in none for f in ("sget", "sfind")) \
                        and not any(v not in none for f in ("dfault", "sid") for v in (e.get(f) or {}).values()):
                    e["resolver"] = "example"


def perform(bins, scs, prop, wd, hosts, seed):
    """Runs and validates; for the bindings, each of them, and only what the library called directly does
    not do as well is theirs.  -> as pipe.execute, with kinds: scenario -> how the library was called"""
    bundled(scs, seed)
    if list(bins) == [""]:
        r = pipe.execute(bins[""], scs, prop, wd)
        return dict(r, kinds={})
    rnd = random.Random(seed)
    for s in scs if hosts else []:
        for o in s["ops"]:
            for q in [o] + o.get("ops", []):
                e = q.get("env")
                if isinstance(e, dict) and rnd.random() < .8:
                    e.update(rnd.choice(hosts))
                    if "exp" not in q and rnd.random() < .4:     # the failure that has the most forms
                        for f in ("dfault", "sid"):
                            e.update({f: {k: v if v == "none" else "InvalidState" for k, v in e[f].items()}} if e.get(f) else {})
                        for f in ("sget", "sfind"):
                            e.update({f: "InvalidState"} if e.get(f, "~") not in ("~", "none") else {})
    all_, kinds = None, {}
    for k in [k for k in bins if k]:
        d = os.path.join(wd, k)
        os.makedirs(d, exist_ok=True)
        r = pipe.execute(bins[k], [s for s in scs if k in plan.CAN.get(s["id"].split(".")[0], (k,))], prop, d)
        bad = {v[0] for v in r["viol"]} | {c[0] for c in r["crashes"]}
        if bad:
            d = os.path.join(wd, k + "-direct")
            os.makedirs(d, exist_ok=True)
            n = pipe.execute(bins[""], [s for s in scs if s["id"] in bad], prop, d)
            also = set(n["viol"])
            r["crashes"] = [c for c in r["crashes"] if c not in n["crashes"]]
            # what a crash of the library left unseen is not the binding's
            r["viol"] = [v for v in r["viol"] if v not in also and v[0] not in {c[0] for c in n["crashes"]}]
            kinds.update({v[0]: k for v in r["viol"] + r["crashes"] if v[0] not in kinds})
        r["cov"] = {k + ":" + c for c in r["cov"]}
        if all_ is None:
            all_ = r
        else:
            all_ = {x: all_[x] + r[x] if x != "cov" else all_[x] | r[x] for x in r}
    all_["kinds"] = kinds
    return all_


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wd = pipe.workdir("%s-%s" % (prop, tier))
    rdir = os.path.join(pipe.WORK, "replay")
    os.makedirs(rdir, exist_ok=True)
    budget = 90 if tier == "quick" else 780
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(lambda: {k: pipe.build(k) for k in plan.VIA.get(prop, [""])})
        fm = ex.submit(models.run, prop, tier, seed, wd)
        fs = ex.submit(pipe.scenarios, plan.asks(prop, tier, 4), seed, wd)
        bins, mres, scs = fb.result(), fm.result(), fs.result()
    scs += mres.get("scenarios", [])
    viol, cov, events, nsc, crashes, rounds = [], set(), 0, 0, [], 0
    byid, first, sample = {}, None, []
    while True:
        r = perform(bins, scs, prop, wd, mres["hosts"], seed + rounds)
        rounds += 1
        nsc += r["scenarios"]
        events += r["events"]
        cov |= r["cov"]
        if first is None:
            first = r
            pred = predicted(r["traces"], scs)
            by = {s["id"]: s for s in scs}
            rnd = random.Random(seed)
            for s in rnd.sample(sorted(by), min(3, len(by))):
                ev = events_of(r["traces"], s)
                sample.append({"scenario": shorten(by[s]), "recorded": [shorten({k: v for k, v in e.items() if k not in ("lex", "world", "i", "sc", "tag")}, 700) for e in ev[1:4]], "verdict": "accepted"})
            lie, names = corrupt(r["traces"], wd)
            if lie and not r["viol"]:
                q = pipe.validate(lie, "ALL", os.path.join(wd, "lie"))
                got = {x[0].split(".")[0] for x in q["viol"]}
                miss = [n for i, n in enumerate(names) if "lie%d" % i not in got]
                if miss:
                    raise pipe.ToolError("falsified traces were accepted: %s" % miss)
        if r["viol"] or r["crashes"]:
            byid = {s["id"]: s for s in scs}
            viol, crashes = r["viol"], r["crashes"]
            break
        if tier == "quick" or time.time() - t0 > budget - 2.2 * (time.time() - t0) / (rounds + 1):
            break
        sub = os.path.join(wd, "r%d" % rounds)
        os.makedirs(sub)
        scs = pipe.scenarios([(f, n) for f, n in plan.asks(prop, tier, 8) if f not in plan.EXH], seed + 1000003 * rounds, sub)
        shutil.rmtree(sub)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": {"states": mres["states"] + events + 1, "transitions": mres["transitions"] + events,
                       "model_states": mres["states"], "model_runs": mres["runs"], "trace_events": events, "concurrent_operations": pred,
                       "traces_validated_against_impl": nsc, "classes": sorted(cov), "rounds": rounds,
                       "falsified_traces_rejected": names if first and not viol else [], "samples": sample},
          "assumptions": ["symbolic cryptography in the model: a key opens or verifies exactly what was made for it",
                          "the vendored stand-in for askar-crypto (vendor/) computes the JOSE algorithms correctly",
                          "no two published key ids share one key pair (the JWS key id header is not signed)"],
          "wall_s": round(wall, 2), "violations": len(set(v[0] for v in viol)) + len(crashes)}
    os.makedirs(os.path.join(pipe.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(pipe.ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol or crashes:
        groups = {}
        for sc, i, a in viol:
            groups.setdefault(a, []).append((sc, i))
        n = 0
        for sc, what in crashes:
            rp = os.path.join(rdir, "%s-%d.json" % (prop, n))
            n += 1
            json.dump({"property": prop, "kind": r["kinds"].get(sc, ""), "what": what, "scenario": byid[sc]}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s   (%s in scenario %s)" % (prop, rp, what, sc))
        for a, l in sorted(groups.items(), key=lambda x: -len(x[1]))[:6]:
            sc, i = l[0]
            rp = os.path.join(rdir, "%s-%d.json" % (prop, n))
            n += 1
            json.dump({"property": prop, "kind": r["kinds"].get(sc, ""), "aspect": a, "event": i, "also": l[1:20], "scenario": byid[sc], "trace": events_of(r["traces"], sc)}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s   (%s, %d times, first in %s event %s)" % (prop, rp, a, len(l), sc, i))
        shutil.rmtree(wd, ignore_errors=True)
        return 1
    missing = [c for c in plan.COVER[prop] if c not in cov]
    if missing:
        raise pipe.ToolError("not exercised: %s" % missing)
    print("%s %s: held; %d model states, %d scenarios, %d events, %.1f s" % (prop, tier, mres["states"], nsc, events, wall))
    shutil.rmtree(wd, ignore_errors=True)
    return 0


def replay(path):
    j = json.load(open(path))
    wd = pipe.workdir("replay")
    r = pipe.execute(pipe.build(j.get("kind", "")), [j["scenario"]], j["property"], wd)
    for e in events_of(r["traces"], j["scenario"]["id"]):
        e.pop("lex", None)
        print(json.dumps(e)[:3000])
    print("crashes", r["crashes"])
    for x in r["viol"]:
        print("DEVIATES event %s: %s" % (x[1], x[2]))
    return 1 if r["viol"] or r["crashes"] else 0


def main(argv):
    try:
        if argv[0] == "setup":
            pipe.build()
            for k in pipe.BINDING:
                try:
                    pipe.build(k)
                except pipe.ToolError as ex:
                    print("the %s binding does not build: %s" % (k, str(ex)[-1500:]))   # C29 will say so
            wd = pipe.workdir("setup")
            models.parse_all(wd)
            shutil.rmtree(wd)
            print("built")
            return 0
        if argv[0] == "replay":
            return replay(argv[1])
        return run_check(argv[1], tier_of(argv))
    except Exception:
        traceback.print_exc()
        print("TOOL-ERROR")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
