"""Which families of scenarios decide which property: (weight in the quick tier) and what must have
been covered for a pass to mean something."""

# every check runs a little of everything, so that an unexpected side of a change is seen as well
BASE = {"mode": 60, "sel": 60, "sel2": 30, "addr": 40, "unp": 80, "hdr": 60, "sig": 50, "fp": 50, "fpiss": 40, "route": 70, "wrap": 20,
        "fwd": 70, "tamper": 40, "mal": 80, "fault": 60, "rep": 50, "sched": 20, "fresh": 10, "opts": 40, "doc": 40, "msgj": 60, "build": 20,
        "exres": 10, "tpf": 10}

FOCUS = {
    "C01": {"fwd": 400, "fwd-pairs": 200, "mode-all": 300, "mode": 500, "opts": 100, "rep-all": 60, "route": 150, "msgj": 150, "fresh": 20},
    "C02": {"mode": 300, "sel": 200, "sel2": 250, "unp": 400, "route": 150, "fresh": 20, "hdr": 100, "unp-pairs": 400},
    "C03": {"tamper": 600, "hdr": 300, "hdr-all": 200, "sig": 200, "sig-all": 150},
    "C04": {"unp": 800, "hdr": 300, "hdr-all": 420, "mode": 100, "sel2": 200, "fault": 150, "unp-pairs": 1600, "hdr-pairs": 300},
    "C05": {"sig": 600, "sig-all": 300, "mode": 200, "tamper": 150, "sel": 150, "sig-pairs": 700},
    "C06": {"mode": 400, "mode-all": 250, "fwd": 300, "unp": 250, "sig": 100, "fp": 100, "opts": 100, "fwd-pairs": 300},
    "C07": {"mode": 300, "mode-all": 250, "sel2": 150, "route": 300, "opts": 200, "fresh": 20},
    "C08": {"sel": 800, "sel2": 700, "rep": 200, "fpiss": 200, "addr": 100, "sel-pairs": 2000, "fpiss-pairs": 300},
    "C09": {"addr": 1500, "sel": 100, "opts": 100, "addr-pairs": 800},
    "C10": {"route": 700, "wrap": 300, "mode": 200, "opts": 150, "fresh": 20, "route-pairs": 700, "wrap-pairs": 500},
    "C11": {"fwd": 900, "tpf": 300, "opts": 150, "fwd-pairs": 1600},
    "C12": {"route": 1200, "opts": 150, "doc": 100, "route-pairs": 2000},
    "C13": {"fp": 700, "fp-all": 500, "fpiss": 200, "fp-pairs": 900, "fwd-pairs": 200},
    "C14": {"fpiss": 900, "fp": 300, "fp-all": 200, "fpiss-pairs": 1800, "fp-pairs": 300},
    "C15": {"mal": 1200, "hdr": 350, "hdr-all": 200, "sig": 150, "fp": 150, "rep-pub": 560, "rep-sec": 420, "rep": 250, "doc": 200, "msgj": 250, "tamper": 150, "sel": 200, "wrap": 100, "rep-pairs": 300},
    "C16": {"hdr": 1200, "hdr-all": 420, "unp": 100, "tamper": 60, "hdr-pairs": 1500},
    "C17": {"unp": 1200, "mode": 300, "fault": 100, "hdr": 100, "unp-pairs": 1600},
    "C18": {"fault": 1200, "unp": 200, "route": 200, "fpiss": 100, "sel": 100, "fault-pairs": 400, "unp-pairs": 300, "fwd-pairs": 300, "fpiss-pairs": 300},
    "C19": {"fresh": 150, "mode": 200, "mode-all": 150, "route": 200, "wrap": 100, "sched": 100},
    "C20": {"rep": 700, "rep-all": 60, "rep-pub": 560, "rep-sec": 420, "sel": 200, "unp": 100, "rep-pairs": 1000},
    "C21": {"doc": 1800, "msgj": 100},
    "C22": {"msgj": 1200, "build": 100, "tpf": 50, "mode": 100},
    "C23": {"build": 1500, "msgj": 100},
    "C24": {"mode": 300, "mode-all": 300, "route": 150, "hdr": 200, "unp": 200, "sig": 150, "fpiss": 150, "fresh": 10},
    "C25": {"err": 10000, "fault": 200},
    "C26": {"exres": 1500},
    "C27": {"sched": 1100, "fault": 100},
    "C28": {"opts": 700, "mode": 150, "msgj": 300, "route": 100},
    "C29": {"fault": 400, "unp": 100, "fpiss": 100, "fp": 80, "wrap": 100, "opts": 100, "sched": 60, "mode-all": 150, "tpf": 60, "msgj": 100, "exres": 60, "fault-pairs": 100},
}
# how the library is called (pipe.KINDS), and families that are not for every way
VIA = {"C29": ["", "ffi", "wasm"]}
CAN = {}

# classes (see the COV lines of spec/DCTrace.tla) without which a pass would be vacuous
COVER = {
    "C01": ["p=hops0", "p=hops2", "u=ok", "pack_plain:ok", "pack_signed:ok"],
    "C02": ["u!nosecret", "u!crypt", "p=hops1", "u=ok"],
    "C03": ["u:err", "u=ok", "u!crypt", "u!sig.sig"],
    "C04": ["u!sender.kid", "u!sender.crypt", "u!sender.did", "u=ok"],
    "C05": ["u!sig.sig", "u!sig.count", "u!signer.kid", "u=ok"],
    "C06": ["u=ok"], "C07": ["p=hops0", "p=hops2", "u=ok"],
    "C08": ["p!nocompat", "p!to.kid", "p!from.secret", "p!signer.secret", "p=hops0"],
    "C09": ["p!arg.to", "p!arg.from", "p!arg.by", "p=hops0"],
    "C10": ["p=hops0", "p=hops1", "p=hops2", "p=hops3", "wrap:ok"],
    "C11": ["tpf:ok", "u=ok", "u!nosecret"],
    "C12": ["p!svc.id", "p!svc.med", "p=hops1", "p=hops0"],
    "C13": ["fp_unpack:ok", "fp_unpack:err", "u!fp.iss", "u!fp.sig"],
    "C14": ["fp_pack:ok", "fp_pack:err", "fp_unpack:ok"],
    "C15": ["u!struct", "u!encalg", "u!crypt", "u=ok"],
    "C16": ["u!hdr.apv", "u!hdr.apu", "u!hdr.rcp", "u=ok"],
    "C17": ["u=ok", "u!nosecret", "u!crypt"],
    "C18": ["u!resolver.sender.did", "p!resolver.to.did", "u!secretres", "u!secretgone", "u!resolver.fp.did"],
    "C19": ["p=hops0", "p=hops2", "wrap:ok"], "C20": ["p=hops0", "u=ok", "p!to.mat", "u!secretmat"],
    "C21": ["json.DIDDoc:ok", "json.DIDDoc:reject", "json.Secret:ok", "json.Secret:reject", "json.Service:ok", "json.VM:ok"],
    "C22": ["json.Message:ok", "json.Message:reject", "u=ok"], "C23": ["builder.Message:ok", "builder.FromPrior:ok", "builder.Json:ok"],
    "C24": ["p=hops0", "p=hops2", "u=ok", "fp_pack:ok"], "C25": ["err.json:err", "err.bs58:err", "err.new:err"], "C26": ["exres:ok"],
    "C27": ["u=ok"], "C28": ["defaults:ok", "u=ok", "p=hops2"],
    "C29": ["ffi:u=ok", "wasm:u=ok", "ffi:u!secretres", "wasm:u!secretres", "ffi:p!resolver.to.did", "wasm:p!resolver.to.did", "ffi:fp_pack:ok", "wasm:fp_pack:ok",
            "ffi:wrap:ok", "wasm:wrap:ok", "ffi:fp_unpack:ok", "wasm:fp_unpack:ok", "ffi:p=hops2", "wasm:p=hops2", "ffi:pack_signed:ok", "wasm:pack_plain:ok", "wasm:tpf:ok",
            "ffi:host:again", "ffi:host:forgot"],
}
EXH = {"err", "hdr-all", "sig-all", "fp-all", "mode-all", "rep-all", "rep-pub", "rep-sec"}


def asks(prop, tier, scale=1):
    """[(family, count)] for one run"""
    n = dict(BASE)
    for f, k in FOCUS[prop].items():
        n[f] = n.get(f, 0) + k
    if tier == "quick":
        return sorted(n.items())
    return sorted((f, 100000 if f in EXH else k * scale) for f, k in n.items())
