import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
NOTE = ("TLC checks the properties on the specification within the bounds given in DESIGN.md, and validates recorded executions of the library "
        "(every scenario drawn from the specification by TLC) against it; the specification's verdict is compared with what the library did, event by event. "
        "Assumes symbolic cryptography in the model and the vendored stand-in for askar-crypto; inputs beyond the generated ones are not covered. "
        "C29 also assumes the vendored stand-ins for uniffi, wasm-bindgen, js-sys and serde-wasm-bindgen.")
m = {"version": 1, "setup_cmd": "python3 tools/vf.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/vf.py check %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 tools/vf.py check %s --tier thorough" % p["id"],
                 "technique": "TLA+ specification, TLC model checking, TLC-generated behaviours replayed into the library, TLC trace validation",
                 "level": "model_checking", "level_note": NOTE} for p in props if p["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "hooks": {"guard": "none", "enable": "No hooks were needed: the harness uses the library's public interface only.", "source_commits": []},
     "notes": "TLA+ with TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
