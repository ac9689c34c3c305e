"""Model checking of the specification itself, and the behaviours it writes out for replay.

Each model is a module spec/<name>.tla with spec/<name>.cfg (the configuration of the thorough tier);
the quick tier replaces some constants.  A model of which TLC finds an invariant violated is an error of
the specification, not of the library: it makes the check fail with a tool error.  Lines "BEH|<json>" are
scenarios to be replayed against the library."""
import json, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import conc, pipe

# name -> properties it is about, constants of the quick and thorough tiers, substitutions that must
# make it fail (thorough tier)
MODELS = {
    "MCWorld": {"props": "C01 C02 C06 C07 C08 C10 C12 C17 C19 C20 C24 C28",
                "quick": {"Some": 5, "Out": 3}, "thorough": {"Some": 100, "Out": 40},
                "bad": ["AnonSel <- BadAnonSel", "Kids <- BadKids", "IsFwd <- BadIsFwd", "MkFwd <- BadMkFwd", "Route <- BadRoute", "Opt <- BadOpt"],
                "badset": {"Some": 10, "Out": 0}},
    "MCProto": {"props": "C02 C04 C05 C06 C07 C11 C13 C15 C17 C29",
                "quick": {"Plans": 12, "Out": 8}, "thorough": {"Plans": 300, "Out": 30},
                "bad": ["SenderF <- BadSenderF", "AuthKeyF <- BadAuthKeyF", "SignF <- BadSignF", "FpF <- BadFpF", "HoldsNext <- BadHoldsNext", "KeysF <- BadKeysF"],
                "badset": {"Plans": 600, "Out": 0}},
    "MCValues": {"props": "C21 C22 C23 C25 C26 C28 C29",
                 "quick": {"MaxCalls": 2, "MaxEdits": 1, "MaxCtx": 3, "MaxStore": 2}, "thorough": {"Frac": 4},
                 "per": {"C21": {"Parts": '{"json"}', "Types": '{"DIDDoc", "VM", "Secret", "Service"}'},
                         "C22": {"Parts": '{"json"}', "Types": '{"Message", "Attachment", "FromPrior"}'},
                         "C23": {"Parts": '{"build"}'}, "C25": {"Parts": '{"err"}'}, "C26": {"Parts": '{"res"}'},
                         "C28": {"Parts": '{"json"}', "Types": '{"PackOpts", "UnpackOpts"}'},
                         "C29": {"Parts": '{"json"}', "Types": '{"Message", "FromPrior", "PackOpts", "UnpackOpts"}'}},
                 "perthorough": {"C23": {"Frac": 100}, "C26": {"MaxStore": 5}, "C28": {"MaxEdits": 3, "Frac": 30}},
                 "bad": {"C21": ["Material <- BadMaterial"], "C22": ["IsU <- BadIsU", "Keep <- BadKeep"], "C23": ["AppendTo <- BadAppendTo", "Put <- BadPut"],
                         "C26": ["First <- BadFirst"]}},
    "MCHdr": {"props": "C03 C15 C16 C17 C18 C24 C29",
              "quick": {"Some": 300, "Out": 30}, "thorough": {"Some": 6000, "Out": 10},
              "per": {"C16": {"Slices": '{"rcp", "hdr", "sender"}'}, "C17": {"Slices": '{"rcp", "good", "hold"}'}, "C18": {"Slices": '{"fault", "sender"}'}, "C24": {"Slices": '{"good", "hold", "hdr"}'}},
              "bad": {"C16": ["HdrF <- BadHdrF", "SenderF <- BadSenderF"], "C17": ["RcpOf <- BadRcpOf", "Found <- BadFound"], "C03": ["AuthKeyF <- BadAuthKeyF", "OpenF <- BadOpenF"], "C15": ["HdrF <- BadHdrF"]}},
    "MCConc": {"props": "C27",
               "quick": {"Some": 40, "Out": 8}, "thorough": {"Some": 350, "Out": 40},
               "bad": ["Answer <- BadAnswer", "StepOf <- BadStep", "Picks <- BadPicks"],
               "badset": {"Some": 60, "Out": 0}},
    "MCSig": {"props": "C03 C05 C13 C15 C18 C24 C29",
              "quick": {"Frac": 30, "Out": 20}, "thorough": {"Frac": 2, "Out": 10},
              "per": {"C05": {"Slices": '{"sig", "both"}'}, "C13": {"Slices": '{"tok", "both"}'}, "C24": {"Slices": '{"both"}'}},
              "bad": {"C05": ["SigCrv <- BadSigCrv", "VmIx <- BadVmIx"], "C13": ["SigKeyF <- BadSigKeyF", "VmIx <- BadVmIx"], "C18": ["DidF <- BadDidF"]}},
    "MCIssue": {"props": "C01 C13 C14 C18 C24 C29",
                "quick": {"Some": 800, "Out": 25}, "thorough": {"Some": 8000, "Out": 20},
                "per": {"C01": {"Slices": '{"calm"}'}, "C24": {"Slices": '{"calm", "keys"}'}, "C18": {"Slices": '{"fault", "life", "late"}'}, "C13": {"Slices": '{"late", "calm"}'}},
                "bad": {"C14": ["SignerSel <- BadSignerSel", "ClaimsF <- BadClaimsF", "PlainF <- BadPlainF"], "C13": ["FpF <- BadFpF", "VmIx <- BadVmIx"]},
                "badset": {"Some": 600, "Out": 0}},
    "MCRoute": {"props": "C10 C12 C18 C01 C29",
                "quick": {"Some": 250, "Out": 8}, "thorough": {"Some": 3000, "Out": 10},
                "per": {"C01": {"Slices": '{"keys"}'}, "C18": {"Slices": '{"fault"}'}, "C12": {"Slices": '{"svc", "path", "fault"}'}, "C10": {"Slices": '{"path", "keys", "fault"}'}},
                "bad": {"C10": ["HopsF <- BadHopsF", "OnCurve <- BadOnCurve"], "C12": ["Accepts <- BadAccepts", "Route <- BadRoute"]}},
    "MCSel": {"props": "C08 C09 C18 C20 C29",
              "quick": {"Some": 1200, "Out": 90}, "thorough": {"Some": 6000, "Out": 10},
              "per": {"C09": {"Slices": '{"addr", "sign", "keys"}'}, "C18": {"Slices": '{"fault", "sign"}'}, "C08": {"Slices": '{"keys", "three", "sign"}'}},
              "bad": {"C08": ["OnCurve <- BadOnCurve", "First <- BadFirst", "KaOf <- BadKaOf"], "C09": ["ArgF <- BadArgF"], "C18": ["FindF <- BadFindF", "GetF <- BadGetF"]}},
    "MCBind": {"props": "C29",
               "quick": {"Some": 150, "Out": 8, "More": 2}, "thorough": {"Some": 4000, "Out": 60},
               "bad": ["Complete <- BadComplete", "Told <- BadTold", "Heard <- BadHeard"]},
}
KEEP = {"quick": 120, "thorough": 1500}
SANY = {}


def parse_all(wd):
    for m in sorted(os.listdir(pipe.SPEC)):
        if m.endswith(".tla"):
            p = pipe.sh(["java", "-Djava.io.tmpdir=" + wd, "-cp", pipe.tlc_cmd()[-2], "tla2sany.SANY", m], cwd=pipe.SPEC)
            if p.returncode or "error" in p.stdout.lower().replace("errors: 0", ""):
                raise pipe.ToolError(m + "\n" + p.stdout[-2000:])


def config(name, consts, extra, path):
    t = open(os.path.join(pipe.SPEC, name + ".cfg")).read()
    for k, v in consts.items():
        t, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), t)
        if n != 1:
            raise pipe.ToolError("%s.cfg has no constant %s" % (name, k))
    if extra:
        t = t.replace("CONSTANTS\n", "CONSTANTS\n  " + extra + "\n", 1)
    with open(path, "w") as f:
        f.write(t)


def model(name, consts, extra, seed, wd, workers, timeout):
    """-> (ok, states, transitions, depth, behaviours, output)"""
    tag = name + re.sub(r"\W+", "", extra or "")
    md = os.path.join(wd, "md-" + tag)
    cfg = os.path.join(wd, tag + ".cfg")
    config(name, consts, extra, cfg)
    p = pipe.tlc(name + ".tla", cfg, md, ["-workers", str(workers), "-seed", str(seed), "-fp", "7"], timeout=timeout)
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", p.stdout.replace(",", "").replace(" states generated ", " states generated, ").replace(" distinct states found ", " distinct states found, ")):
        pass
    beh, ops, hosts = [], [], []
    for ln in p.stdout.splitlines():
        if ln.startswith(('"BEH|', '"OP|', '"HOST|')):
            try:
                t = json.loads(ln)
                (ops if t[0] == "O" else hosts if t[0] == "H" else beh).append(json.loads(t[t.index("|") + 1:]))
            except ValueError:
                pass
    beh += [{"hosts": hosts}] if hosts else []
    # single operations that need no world go into scenarios together
    ops.sort(key=lambda o: json.dumps(o, sort_keys=True))
    beh += [{"world": {"docs": {}, "wallets": {}}, "ops": ops[i:i + 20]} for i in range(0, len(ops), 20)]
    ok = "No error has been found" in p.stdout
    d = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
    return ok, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, int(d.group(1)) if d else 0, beh, p.stdout


def run(prop, tier, seed, wd):
    """checks the models about this property; returns counts and scenarios for replay"""
    res = {"states": 0, "transitions": 0, "runs": [], "scenarios": [], "hosts": []}
    todo = [n for n, m in MODELS.items() if prop in m["props"].split()]
    def consts(n, t, k):
        m = MODELS[n]
        return dict(m[t], **dict(m.get("per", {}).get(prop, {}), **m.get(k, {}) if k == "badset" else m.get(k, {}).get(prop, {})))
    jobs = [(n, consts(n, tier, "per" + tier), None) for n in todo]
    if tier == "thorough":
        for n in todo:
            b = MODELS[n].get("bad", [])
            jobs += [(n, consts(n, "quick", "badset"), x) for x in (b.get(prop, []) if isinstance(b, dict) else b)]

    def one(j):
        t0 = time.time()
        try:
            return j, model(j[0], j[1], j[2], seed, wd, 4 if tier == "thorough" or len(todo) == 1 else 2, 600 if tier == "thorough" else 200), time.time() - t0
        except subprocess.TimeoutExpired:
            if tier == "quick":
                raise
            return j, None, time.time() - t0
    with ThreadPoolExecutor(3) as ex:
        out = list(ex.map(one, jobs))
    rnd = random.Random("%s%s" % (prop, seed))
    for (name, consts, bad), r, dt in out:
        if r is None:
            res["runs"].append({"model": name, "substituted": bad, "result": "not finished in time", "wall_s": round(dt, 1)})
            continue
        ok, st, tr, depth, beh, txt = r
        if bad:
            if ok:
                raise pipe.ToolError("%s holds although %s" % (name, bad))
            res["runs"].append({"model": name, "substituted": bad, "result": "rejected as it must be", "wall_s": round(dt, 1)})
            continue
        if not ok:
            ls = [x for x in txt.splitlines() if not re.match(r"\d+\. Line|\"BEH|\"OP|Parsing|Semantic proc", x)]
            raise pipe.ToolError("%s: %s" % (name, "\n".join(ls)[-4000:]))
        res["states"] += st
        res["transitions"] += tr
        res["runs"].append({"model": name, "constants": consts, "states": st, "transitions": tr, "depth": depth, "behaviours": len(beh), "wall_s": round(dt, 1)})
        res["hosts"] += [h for b in beh if "hosts" in b for h in b["hosts"]]
        beh = [b for b in beh if "hosts" not in b]
        beh.sort(key=lambda b: json.dumps(b, sort_keys=True))
        if len(beh) > KEEP[tier]:
            beh = rnd.sample(beh, KEEP[tier])
        for i, b in enumerate(beh):
            w = b["world"]
            sc = {"id": "%s.%d" % (name, i), "world": {"docs": w["docs"], "wallets": w["wallets"], "keys": []}, "ops": b["ops"]}
            res["scenarios"].append(conc.rename(sc, rnd) if rnd.random() < .3 else sc)
    return res
