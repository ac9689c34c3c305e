"""Turns the choice records drawn by TLC (spec/DCGen.tla) into concrete scenarios for the harness.

A choice record fixes the dimensions the specification distinguishes; what is left (texts, numbers,
names, positions) is filled in from a generator seeded with the record.  Nothing here decides what
the library ought to do: that is the specification's part."""
import json, random, sys

FORWARD = "https://didcomm.org/routing/2.0/forward"
ES, PU = "ECDH-ES+A256KW", "ECDH-1PU+A256KW"
CBC, XC, GCM = "A256CBC-HS512", "XC20P", "A256GCM"
ALG = {"E": "EdDSA", "P": "ES256", "K": "ES256K", "X": "EdDSA"}
ANONJ = {CBC: "A256cbcHs512EcdhEsA256kw", XC: "Xc20pEcdhEsA256kw", GCM: "A256gcmEcdhEsA256kw"}
PUBBAD = {"X": ["jwk-badx", "jwk-shortx", "jwk-nox", "b58-bad", "b58-short", "b58-long", "b58-empty", "mb-noz", "mb-pfx", "mb-bad",
                "mb-empty", "mb-z", "mb-short", "mb-codec", "mb-priv", "mb-unk", "mb-trunc", "mb-nocodec", "mb-cont", "mb-over", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "mb-uni", "mb-zuni", "b58-uni", "mb-long", "mb-lead", "b58-lead"],
          "P": ["jwk-badx", "jwk-shortx", "jwk-nox", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-noy", "jwk-offy", "jwk-shorty"]}
SECBAD = {"X": ["jwk-badx", "jwk-shortx", "jwk-nox", "b58-bad", "b58-short", "b58-long", "b58-empty", "mb-noz", "mb-pfx", "mb-bad",
                "mb-empty", "mb-z", "mb-short", "mb-codec", "mb-pub", "mb-unk", "mb-trunc", "mb-cont", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-nod", "jwk-shortd", "jwk-longd", "jwk-emptyd", "jwk-numd", "jwk-bigd", "jwk-otherd", "mb-uni", "mb-zuni", "b58-uni", "mb-long", "mb-lead", "b58-lead"],
          "P": ["jwk-badx", "jwk-shortx", "jwk-nox", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-nod", "jwk-shortd", "jwk-longd", "jwk-emptyd", "jwk-numd", "jwk-bigd", "jwk-otherd", "jwk-noy", "jwk-offy", "jwk-shorty", "jwk-zerod"]}
UNS = ["jwk-crv", "jwk-kty", "jwk-swap", "jwk-nokty", "jwk-nocrv", "jwk-str", "jwk-case", "u-other", "u-jwk19", "u-jwk20",
       "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"]
UNSP = ["jwk-crv", "jwk-kty", "jwk-swap", "jwk-nokty", "jwk-nocrv", "jwk-str", "jwk-case", "u-other"]
for t in (PUBBAD, SECBAD):
    t["E"], t["K"] = t["X"], t["P"]
BADDIDS = ["", "bob", "did:ex", "ex:did:bob", "did", "#did:ex:bob", " did:ex:bob", "DID:ex:bob", "did;ex;bob", "dids:ex:bob", "Did:ex:alice", "DID:ex:alice", "dID:ex:carol#k1", ":did:ex:bob", "did:"]


def d(n):
    return "did:ex:" + n


def kid(n, f):
    return d(n) + "#" + f


def good(crv, rep):
    return rep if crv in "XE" or rep.startswith("jwk") else "jwk"


def uns(crv, r):
    return r.choice(UNS if crv in "XE" else UNSP)


class W:
    """A world under construction."""

    def __init__(self):
        self.docs, self.wallets, self.keys = {}, {}, []

    def doc(self, n):
        return self.docs.setdefault(d(n), {"ka": [], "auth": [], "vms": [], "svcs": []})

    def vm(self, n, f, key, rep="jwk"):
        self.doc(n)["vms"].append({"id": kid(n, f), "key": key, "rep": rep})

    def pub(self, n, sec, f, crv, rep="jwk", own=None, orep=None, key=None):
        """publishes a key and gives the secret to wallet own (default n)"""
        key = key or "%s:%s-%s" % (crv, n, f)
        rep = good(crv, rep)
        self.vm(n, f, key, rep)
        self.doc(n)[sec].append(kid(n, f))
        if own != "-":
            self.own(own or n, kid(n, f), key, orep or rep)
        return key

    def own(self, wallet, k, key, rep="jwk"):
        self.wallets.setdefault(wallet, []).append({"id": k, "key": key, "rep": good(key[0], rep) if rep in ("jwk", "b58", "mb") else rep})

    def svc(self, n, i, k="dc", uri="https://ep.example/x", accept=None, rk=()):
        self.doc(n)["svcs"].append({"id": kid(n, "s%s" % i), "k": k, "uri": uri, "hasAccept": accept is not None,
                                    "accept": accept or [], "rk": list(rk)})

    def state(self, n, sec, f, st, r, rep="jwk"):
        """a key of document n in the given state"""
        if st == "-":
            return
        crv, s = st.split("/")
        key = "%s:%s-%s" % (crv, n, f)
        rep = good(crv, rep)
        pr, wr = rep, rep
        if s == "u":
            pr = uns(crv, r)
        if s == "bad":
            pr = r.choice(PUBBAD[crv])
        if s == "secbad":
            wr = r.choice(SECBAD[crv])
        if s == "secu":
            wr = uns(crv, r)
        if s != "novm":
            self.vm(n, f, key, pr)
        if s != "unl":
            self.doc(n)[sec].append(kid(n, f))
        self.wallets.setdefault(n, [])
        if s != "nosec":
            self.own(n, kid(n, f), key + ("o" if s == "oth" else ""), wr)

    def json(self):
        return {"docs": self.docs, "wallets": self.wallets, "keys": self.keys}


def mediators(w, reps="jwk", only=("m1", "m2", "m3", "med1", "med2")):
    for i, m in enumerate(only):
        w.pub(m, "ka", "x", "X", reps)
        w.pub(m, "ka", "p", "P")
        if i % 2:
            w.doc(m)["ka"].reverse()


# ---- texts -------------------------------------------------------------------------------------
STRS = ["", "a", "hello", "x" * 200, "quote\"s", "back\\slash", "new\nline", "tab\t", "\u00e9\u4e2d\u6587", "\U0001f600", "\u0000", "\u007f", "<b>&amp;</b>",
        "a.b.c", "did:ex:carol", "null", "true", "0", "{\"k\":1}", "https://example.com/?a=b#c", " lead", "trail ", "%20", "~", "e30"]
NUMS = [0, 1, -1, 7, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 1.5, -0.25, 1e21, 3.0, 0.1, 0.0001, 123456.789]
U64S = [0, 1, 1516269022, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]


TYPS = ["application/json", "", "application/didcomm-signed+json", "application/didcomm-encrypted+json", "didcomm-plain+json", "x/didcomm-plain+json", "Application/DIDComm-plain+json",
        "application/didcomm-plain+json; charset=utf-8", "application/didcomm-plain+json ", " application/didcomm-plain+json", "application/didcomm-plain+jsonx", "application/didcomm-plain",
        "application/didcomm-plain+JSON", "plain", "didcomm"]


def rstr(r):
    return r.choice(STRS) if r.random() < .7 else "".join(r.choice("abcXYZ019 _-./:#\"\\\n\u00e9\U0001f601") for _ in range(r.randrange(12)))


def rjson(r, n=3):
    k = r.randrange(8 if n > 0 else 5)
    if k == 0:
        return None
    if k == 1:
        return r.random() < .5
    if k == 2:
        return r.choice(NUMS)
    if k in (3, 4):
        return rstr(r)
    if k == 5:
        return [rjson(r, n - 1) for _ in range(r.randrange(4))]
    return {rstr(r): rjson(r, n - 1) for _ in range(r.randrange(4))}


def ratt(r):
    k = r.randrange(3)
    dt = [{"base64": rstr(r)}, {"json": rjson(r, 2)}, {"links": [rstr(r) for _ in range(r.randrange(3))], "hash": rstr(r)}][k]
    if r.random() < .4:
        dt["jws"] = rstr(r)
    a = {"data": dt}
    for f in ("id", "description", "filename", "media_type", "format"):
        if r.random() < .3:
            a[f] = rstr(r)
    for f in ("lastmod_time", "byte_count"):
        if r.random() < .3:
            a[f] = r.choice(U64S)
    return a


def large(m, r):
    """something about the message is long, deep or many"""
    k = r.randrange(8)
    n = r.choice([255, 256, 1000, 1024, 4095, 4096, 4097, 16384, 33000, 65535, 65536, 70001, 200000])
    if k == 0:
        m["body"] = {"text": "ab\u00e9" * (n // 4) + "x" * (n % 4)}
    if k == 1:
        m["body"] = r.choice(["y", "\u0000", " ", "\\", "\U0001f600"]) * (n // 4)
    if k == 2:
        v = "deep"
        for i in range(r.choice([10, 31, 32, 33, 48])):
            v = [v] if r.random() < .5 else {"k": v}
        m["body"] = {"v": v}
    if k == 3:
        m["attachments"] = [{"id": str(i), "data": r.choice([{"json": {"i": i}}, {"base64": "AAAA" * (i % 7)}])} for i in range(r.choice([9, 16, 17, 33, 64, 100, 257]))]
    if k == 4:
        for i in range(r.choice([9, 33, 100, 300])):
            m["x-%d" % i] = i
    if k == 5:
        m[r.choice(["id", "thid", "pthid", "type"])] = "i" * min(n, 70001)
    if k == 6:
        m["body"] = {"list": list(range(r.choice([100, 1000, 5000])))}
    if k == 7:
        m["attachments"] = [{"data": {"base64": "QUJD" * (n // 4)}, "filename": "f" * 300}]


def rmsg(r, frm=None, to=None, rich=True, marker=None):
    m = {"id": rstr(r) or "1", "typ": "application/didcomm-plain+json", "type": r.choice(["https://ex.org/p/1.0/t", "t", FORWARD, FORWARD + "x", rstr(r)]), "body": rjson(r)}
    if m["type"] == FORWARD and isinstance(m["body"], dict):
        m["body"].pop("next", None)
    if marker:
        m["body"] = {"marker": marker, "v": m["body"]}
    if frm is not None:
        m["from"] = frm
    if to is not None:
        m["to"] = to
    if rich:
        for f in ("thid", "pthid"):
            if r.random() < .4:
                m[f] = rstr(r)
        for f in ("created_time", "expires_time"):
            if r.random() < .4:
                m[f] = r.choice(U64S)
        if r.random() < .5:
            m["attachments"] = [ratt(r) for _ in range(r.randrange(4))]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            m[r.choice(["threadId", "thread_id", "createdTime", "expiresTime", "fromPrior", "parentThreadId", "@id", "@type", "kind", "Body", "content", "attachment", "x-a", "lang", "please_ack", "\u00e9", "From", "ID", "iss", "body2", "typ2", "data", "next"])] = rjson(r, 2)
        if r.random() < .05 and not marker:
            large(m, r)
    return m


def smsg(frm=None, to=None, body=None, **kw):
    m = {"id": "1234", "typ": "application/didcomm-plain+json", "type": "https://ex.org/p/1.0/t", "body": {"a": 1} if body is None else body}
    if frm:
        m["from"] = frm
    if to is not None:
        m["to"] = to
    m.update(kw)
    return m


def fwdmsg(nxt, inner, **kw):
    m = {"id": "f1", "typ": "application/didcomm-plain+json", "type": FORWARD, "body": {"next": nxt}, "attachments": [{"data": {"json": inner}}]}
    m.update(kw)
    return m


def rhdrs(r, n):
    ks = ["expires_in", "x-ack", "lang", "delay_milli", "\u00e9"]
    r.shuffle(ks)
    return {k: rjson(r, 2) for k in ks[:n]}


def env(wallet=None, **kw):
    e = {}
    if wallet:
        e["wallet"] = wallet
    e.update({k: v for k, v in kw.items() if v not in (None, "~", {}, 0)})
    return e


def popts(c, r):
    """options from a choice record with protect/forward/anon/svc/headers, as a struct or as JSON text"""
    o = {k: v for k, v in c.items() if v is not None and k != "via"}
    if c.get("via") == "json":
        j = {}
        for a, b in (("protect", "protect_sender"), ("forward", "forward"), ("headers", "forward_headers"), ("svc", "messaging_service")):
            if a in o:
                j[b] = o[a]
        if "anon" in o:
            j["enc_alg_anon"] = ANONJ[o["anon"]]
        if r.random() < .3:
            j["enc_alg_auth"] = "A256cbcHs512Ecdh1puA256kw"
        return {"json": json.dumps(j)}
    return o


def uopts(all_, unwrap, via="struct", extra=False):
    if via == "json":
        j = {}
        if all_ is not None:
            j["expect_decrypt_by_all_keys"] = all_
        if unwrap is not None:
            j["unwrap_re_wrapping_forward"] = unwrap
        if extra:
            j["later_option"] = 1
        return {"json": json.dumps(j)}
    o = {}
    if all_ is not None:
        o["all"] = all_
    if unwrap is not None:
        o["unwrap"] = unwrap
    return o


def unpack(h, wallet, all_=False, unwrap=None, base=None, out=None, via="struct", **e):
    op = {"op": "unpack", "in": h, "opts": uopts(all_ or None, unwrap, via), "env": env(wallet, **e)}
    if base:
        op["base"] = base
    if out:
        op["out"] = out
    return op


def pack(mode, msg, out, to, frm, by, opts, e, marker=None):
    if mode == "plain":
        return {"op": "pack_plain", "msg": msg, "out": out, "env": e}
    if mode == "signed":
        return {"op": "pack_signed", "msg": msg, "by": by, "out": out, "env": e}
    op = {"op": "pack_enc", "msg": msg, "to": to, "out": out, "env": e, "opts": opts}
    if "auth" in mode:
        op["from"] = frm
    if "sign" in mode:
        op["by"] = by
    if marker:
        op["marker"] = marker
    return op


def jwe(pl, to, alg=ES, enc=CBC, crv="X", **kw):
    s = {"t": "jwe", "pl": pl, "to": to, "alg": alg, "enc": enc, "crv": crv}
    if alg == PU:
        s.setdefault("apu", kw.get("skid"))
    s.update(kw)
    return s


def jws(pl, k, key, **kw):
    s = {"kid": k, "key": key, "alg": ALG[key[0]]}
    s.update(kw)
    return {"t": "jws", "pl": pl, "sigs": [s]}


def plain(m):
    return {"t": "plain", "msg": m}


def craft(spec, out):
    return {"op": "craft", "spec": spec, "out": out}


# ---- families ----------------------------------------------------------------------------------
def many(w, n, r, crv=None):
    """more keys than one usually sees, some of them somebody else's under the same fragment"""
    for i in range(n):
        w.pub("bob", "ka", "n%d" % i, crv or r.choice("XP"))


def foreign(w, n, sec, f, r, p=1):
    """a document that lists a key of another DID under a fragment of its own"""
    if r.random() > p or d(n) not in w.docs:
        return
    crv = "E" if sec == "auth" else "X"
    i = r.choice([0, 0, len(w.doc(n)[sec])])
    w.doc(n)[sec].insert(i, kid("fay", f))
    if r.random() < .8:
        w.doc(n)["vms"].insert(r.choice([0, len(w.doc(n)["vms"])]), {"id": kid("fay", f), "key": "%s:fay-%s" % (crv, f), "rep": "jwk"})
    if r.random() < .5:
        w.own(n, kid("fay", f), "%s:fay-%s" % (crv, f))
    w.keys.append("%s:fay-%s" % (crv, f))


def couple(w, c):
    """alice, bob with the keys of a mode record"""
    for i, f in enumerate(("ak1", "ak2")):
        if c.get(f, "-") != "-":
            w.pub("alice", "ka", "k%d" % (i + 1), c[f], c.get("arep", "jwk"))
    for i, f in enumerate(("bk1", "bk2", "bk3")):
        if c.get(f, "-") != "-":
            w.pub("bob", "ka", "k%d" % (i + 1), c[f], c.get("brep", "jwk"), own="-")
            w.own("bob", kid("bob", "k%d" % (i + 1)), "%s:bob-k%d" % (c[f], i + 1), c.get("brep", "jwk"))
    for i, f in enumerate(("sk", "sk2")):
        if c.get(f, "-") != "-":
            w.pub("alice", "auth", "s%d" % (i + 1), c[f], c.get("arep", "jwk"))
    w.pub("carol", "auth", "s1", "E")
    w.pub("carol", "ka", "k1", "X")
    w.wallets["alice"] = w.wallets.get("alice", []) + w.wallets["carol"][:1]


def named(n, sel, w, sec):
    """a DID, or the i-th key id of a section of its document"""
    if sel == "did":
        return d(n)
    l = w.docs[d(n)][sec]
    return l[(int(sel[-1]) - 1) % len(l)]


def f_mode(c, r):
    w = W()
    couple(w, c)
    if r.random() < .2:
        many(w, r.choice([2, 3, 4, 6, 9, 12]), r, r.choice(["X", "P", None]))
    foreign(w, "bob", "ka", "k1", r, .1)
    foreign(w, "alice", "ka", "k1", r, .1)
    foreign(w, "alice", "auth", "s1", r, .1)
    mediators(w, c["brep"])
    hops = ["m%d" % (i + 1) for i in range(c["hops"])]
    rks = [r.choice([d(m), kid(m, "x"), kid(m, "p")]) for m in hops]
    w.svc("bob", 1, uri="https://ep.example/1", accept=r.choice([None, ["didcomm/v2"], []]), rk=rks)
    mode = c["mode"]
    mk = "MARK%06x" % r.randrange(1 << 24) + "END"
    ops = []
    msg = rmsg(r, frm=d("alice") if "auth" in mode or r.random() < .5 else None, to=r.choice([None, [d("bob")], [d("carol"), d("bob")]]), marker=mk)
    if c["fp"] == "y":
        w.pub("old", "auth", "s1", r.choice("EPK"), c["arep"], own="alice")
        ops.append({"op": "fp_pack", "claims": {"iss": d("old"), "sub": d("alice")}, "out": "fp", "env": env("alice")})
        msg["from_prior"] = {"$str": "fp"}
    frm = named("alice", c["from"], w, "ka")
    by = named(c["signer"], c["by"], w, "auth")
    to = named("bob", c["to"], w, "ka")
    o = popts({"anon": c["anon"], "protect": True if "protect" in mode else None, "via": c["via"],
               "headers": rhdrs(r, c["hdrs"]) if c["hdrs"] else None}, r)
    ops.append(pack(mode, msg, "p0", to, frm, by, o, env("alice"), mk))
    h = "p0"
    if mode not in ("plain", "signed"):
        for i, m in enumerate(hops):
            if r.random() < .4:
                ops.append(unpack(h, "bob"))
            if r.random() < .3:
                ops.append(unpack(h, "m%d" % (3 - i)))
            ops.append(unpack(h, m, unwrap=r.choice([None, True, False]), out="p%d" % (i + 1)))
            h = "p%d" % (i + 1)
    # every key the recipient may hold
    full = w.wallets["bob"]
    sub = [s for i, s in enumerate(full) if (c["sub"] >> i & 1 if i < 3 else r.random() < .5)]
    w.wallets["part"] = sub
    w.wallets["none"] = [{"id": kid("eve", "k1"), "key": "X:eve", "rep": "jwk"}]
    w.wallets["fake"] = [dict(s, key=s["key"] + "fake") for s in full]
    a = c["all"] == "y"
    ops.append(unpack(h, "bob", a, via=r.choice(["struct", "json"])))
    ops.append(unpack(h, "part", a))
    ops.append(unpack(h, r.choice(["none", "fake"]), a))
    return w, ops


def f_sel(c, r):
    w = W()
    for i in "123":
        w.state("bob", "ka", "k" + i, c["b" + i], r, c["rep"])
        w.state("alice", "ka", "k" + i, c["a" + i], r, c["rep"])
        w.state("alice", "auth", "s" + i, c["s" + i], r, c["rep"])
    w.pub("carol", "ka", "k1", "X")
    w.pub("carol", "auth", "s1", "E")
    for n in ("alice", "bob"):
        w.doc(n)
    w.wallets.setdefault("alice", [])
    if r.random() < .4:
        r.shuffle(w.wallets["alice"])
    if r.random() < .3:
        r.shuffle(w.docs[d("bob")]["vms"])
        r.shuffle(w.docs[d("alice")]["vms"])
    if r.random() < .1:
        many(w, r.choice([1, 3, 5, 10]), r)
    foreign(w, "bob", "ka", "k" + r.choice("123"), r, .2)
    foreign(w, "alice", "ka", "k" + r.choice("123"), r, .2)
    foreign(w, "alice", "auth", "s" + r.choice("123"), r, .2)
    if c["docs"] == "nobob":
        del w.docs[d("bob")]
    if c["docs"] == "noalice":
        del w.docs[d("alice")]

    def nm(n, v, p):
        return {"did": d(n), "nope": kid(n, "zz"), "other": kid("carol", p + "1"), "ka": kid(n, "k1")}.get(v) or kid(n, p + v[1:])
    to, frm, by = nm("bob", c["to"], "k"), nm("alice", c["from"], "k"), nm("alice", c["by"], "s")
    mode = c["mode"]
    ops = [pack(mode, smsg(), "p", to, frm, by, {"anon": c["anon"], "protect": True if "protect" in mode else None}, env("alice"))]
    ops.append(unpack("p", "bob", r.random() < .4))
    return w, ops


def f_addr(c, r):
    w = W()
    for n in ("alice", "bob", "carol"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "auth", "s1", "E")
    w.wallets["alice"] += w.wallets["carol"] + w.wallets["bob"]
    w.svc("bob", 1, rk=[d("m1")] if c["fwd"] == "y" else [])
    mediators(w, only=("m1",))

    def a(v, f):
        if v.startswith("bad"):
            return BADDIDS[(int(v[3]) * 3 + r.randrange(3)) % len(BADDIDS)]
        return kid(v[:-1], f) if v.endswith("#") else d(v)
    mode = c["mode"]
    mto = {"none": None, "": [], "bob#": [kid("bob", "k1")], "bobx": [d("bobx")]}.get(c["mto"], [d(x) for x in c["mto"].split(",")])
    mfrom = {"none": None, "alice#": kid("alice", "k1"), "alicex": d("alicex")}.get(c["mfrom"], d(c["mfrom"]))
    to, frm, by = a(c["to"], "k1"), a(c["from"], "k1"), a(c["by"], "s1")
    m = smsg(mfrom, mto)
    return w, [pack(mode, m, "p", to, frm, by, {"protect": True if "protect" in mode else None, "forward": None if c["fwd"] == "y" else False}, env("alice")),
               pack("signed", m, "q", to, frm, by, {}, env("alice"))]


def f_unp(c, r):
    w = W()
    crv, nk = c["crv"], c["nk"]
    oc = "P" if crv == "X" else "X"
    rep = good(crv, c["rrep"])
    to = []
    wl = []
    for i in range(1, nk + 1):
        f, key = "k%d" % i, "%s:bob-k%d" % (crv, i)
        w.vm("bob", f, key, rep)
        w.doc("bob")["ka"].append(kid("bob", f))
        s = c["w%d" % i]
        k, rp = key, rep
        if s == "oth":
            k = key + "o"
        if s == "crv":
            k, rp = oc + ":bob-c%d" % i, "jwk"
        if s == "ed":
            k, rp = r.choice("EK") + ":bob-e%d" % i, "jwk"
        if s == "bad":
            rp = r.choice(SECBAD[crv])
        if s == "u":
            rp = uns(crv, r)
        if s != "no":
            wl.append({"id": kid("bob", f), "key": k, "rep": rp})
        e = {"kid": kid("bob", f), "key": key}
        if c["wrong"] == i:
            e.update(r.choice([{"cek": "other"}, {"ek": "zero"}, {"ek": "short"}, {"ek": "empty"}, {"cek": "short"}, {"cek": "long"}, {"key": key + "w"}]))
            w.keys.append(key + "w")
        to.append(e)
    if c["order"] == "y":
        wl.reverse()
    wl.append({"id": kid("bob", "zz"), "key": crv + ":bob-zz", "rep": "jwk"})
    w.wallets["bob"] = wl
    # sender and signer
    w.pub("mallory", "ka", "k1", crv, own="-")
    w.pub("alice", "auth", "s1", r.choice("EPK"), c["srep"])
    sgn = w.docs[d("alice")]["vms"][-1]["key"]
    skey = "%s:alice-k1" % crv
    w.keys += [skey, "E:wrong"]
    s, df = c["sender"], {}
    skid, apu, use = kid("alice", "k1"), kid("alice", "k1"), skey
    pk, pr = skey, good(crv, c["srep"])
    if s == "rot":
        pk = skey + "new"
    if s == "crv":
        pk, pr = oc + ":alice-k1", "jwk"
    if s == "ed":
        pk, pr = r.choice("EK") + ":alice-k1", "jwk"
    if s == "bad":
        pr = r.choice(PUBBAD[crv])
    if s == "u":
        pr = uns(crv, r)
    if s != "novm":
        w.vm("alice", "k1", pk, pr)
    if s == "authonly":
        w.doc("alice")["auth"].append(skid)
    elif s != "unl":
        w.doc("alice")["ka"].append(skid)
    if s == "gone":
        del w.docs[d("alice")]
    if s == "fail":
        df = {d("alice"): r.choice(["IoError", "DIDNotResolved", "Malformed", "Unsupported"])}
    if s == "mallory":
        use = "%s:mallory-k1" % crv
    if s == "kid-mallory":
        skid = apu = kid("mallory", "k1")
    if s == "did":
        skid = apu = d("alice")
    if s == "empty":
        skid = apu = ""
    if s == "case":
        skid = apu = kid("alice", "K1")
    if s == "rel":
        # the document names its key by the fragment alone
        for x in w.doc("alice")["vms"]:
            if x["id"] == skid:
                x["id"] = r.choice([skid, "#k1"])
        w.doc("alice")["ka"] = ["#k1"]
        if r.random() < .3:
            skid = apu = "#k1"
    foreign(w, "alice", "ka", "k1", r, .1)
    if s == "unl":
        foreign(w, "alice", "ka", "k1", r)
    m = rmsg(r, d("alice"))
    pl = plain(m)
    if c["sign"] != "n":
        pl = jws(pl, kid("alice", "s1"), sgn if c["sign"] == "y" else "E:wrong")
        if c["sign"] == "bad":
            pl["sigs"][0]["alg"] = ALG[sgn[0]]
            if r.random() < .5:
                pl["sigs"][0].update(key=sgn, sig=r.choice(["zero", "short", "otherpl", "empty"]))
    spec = jwe(pl, to, PU, c["enc"] if r.random() < .2 else CBC, crv, skid=skid, apu=apu, skey=use) if c["auth"] == "y" else jwe(pl, to, ES, c["enc"], crv)
    if c["wrap"] == "anon":
        spec = jwe(spec, [{"kid": t["kid"], "key": t["key"]} for t in to if not t["key"].endswith("w")] or to, ES, r.choice([CBC, XC, GCM]), crv)
    op = {"json": {"expect_decrypt_by_all_keys": c["all"] == "y"}, "json0": {}}.get(c["opt"])
    o = {"json": json.dumps(op)} if op is not None else uopts(c["all"] == "y", None)
    return w, [craft(spec, "e"), {"op": "unpack", "in": "e", "opts": o, "env": env("bob", sget=c["sget"], sfind=c["sfind"], dfault=df)}]


def badutf8(r):
    """a message one byte of whose text is not UTF-8"""
    t = json.dumps(smsg(d("alice"), body={"v": "abcdef"})).encode()
    return t.replace(b"cd", r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xc0\xaf", b"c\xe9d", b"\xf5\x80\x80\x80"])).hex()


def f_hdr(c, r):
    w = W()
    crv, nk = c["crv"], c["nk"]
    oc = "P" if crv == "X" else "X"
    pu = c["alg"] == "pu"
    for i in range(1, nk + 1):
        w.pub("bob", "ka", "k%d" % i, crv)
    w.pub("bob", "auth", "s1", "E")
    w.pub("alice", "ka", "k1", crv)
    w.pub("alice", "ka", "k2", crv)
    w.pub("mallory", "ka", "k1", crv)
    w.pub("carol", "ka", "k1", crv)
    ks = [kid("bob", "k%d" % i) for i in range(1, nk + 1)]
    to = [{"kid": k, "key": "%s:bob-k%d" % (crv, i + 1)} for i, k in enumerate(ks)]
    s = jwe(plain(smsg(d("alice"))), to, PU if pu else ES, CBC if pu else c["enc"], crv)
    if pu:
        s.update(skid=kid("alice", "k1"), apu=kid("alice", "k1"), skey="%s:alice-k1" % crv)
    own = {"all": ks, "first": ks[:1], "last": ks[-1:], "none": []}[c["own"]]
    w.wallets["bob"] = [x for x in w.wallets["bob"] if x["id"] in own]

    def over(**kw):
        s.setdefault("over", {}).update(kw)

    def top(**kw):
        s.setdefault("top", {}).update(kw)

    def rt(i, **kw):
        to[i].setdefault("top", {}).update(kw)

    def b64(x):
        import base64
        return base64.urlsafe_b64encode(x.encode() if isinstance(x, str) else x).decode().rstrip("=")
    for h in (c["h"], c["h2"]):
        if h == "none":
            pass
        elif h == "apv-unsorted":
            s["apv"] = {"kids": list(reversed(sorted(ks)))}
        elif h == "apv-rev":
            s["to"] = to = to[::-1]
        elif h == "apv-sep":
            s["apv"] = {"kids": sorted(ks), "sep": r.choice(["", ",", " ", ". "])}
        elif h == "apv-cut":
            s["apv"] = {"kids": sorted(ks), "cut": r.choice([0, 1, 16, 31])}
        elif h == "apv-ext":
            s["apv"] = {"kids": sorted(ks), "ext": 1}
        elif h == "apv-other":
            s["apv"] = {"kids": [kid("carol", "k1")]}
        elif h == "apv-empty":
            s["apv"] = ""
        elif h == "apv-subset":
            s["apv"] = {"kids": sorted(ks)[:-1]}
        elif h == "apv-dup":
            s["apv"] = {"kids": sorted(ks + ks[:1])}
        elif h == "kid-case":
            if to:
                to[0]["kid"] = r.choice([kid("bob", "K1"), "DID:ex:bob#k1", kid("Bob", "k1")])
        elif h == "in-anon":
            pass
        elif h == "apu-missing":
            over(apu="~drop")
        elif h == "apu-other":
            over(apu=b64(kid("alice", "k2")))
        elif h == "apu-otherdid":
            over(apu=b64(kid("mallory", "k1")))
        elif h == "apu-did":
            over(apu=b64(d("alice")))
        elif h == "apu-hex":
            over(apu=b64(b"\xff\xfe\x00"))
        elif h == "apu-empty":
            over(apu="")
        elif h == "apu-case":
            over(apu=b64(kid("alice", "K1")))
        elif h == "skid-missing":
            over(skid="~drop")
        elif h == "skid-other":
            over(skid=kid("alice", "k2"))
        elif h == "skid-only":
            s["skid"], s["apu"] = kid("alice", "k1"), None
        elif h == "skid-on-es":
            s["skid"] = kid("alice", "k1")
        elif h == "apu-on-es":
            s["apu"] = kid("alice", "k1")
        elif h == "skidapu-on-es":
            s["skid"] = s["apu"] = kid("alice", "k1")
        elif h == "skidapu-differ-es":
            s["skid"], s["apu"] = kid("alice", "k1"), kid("alice", "k2")
        elif h == "alg-unknown":
            over(alg=r.choice(["RSA-OAEP", "ECDH-ES", "dir", "", "ECDH-ES+A128KW", "ECDH-1PU"]))
        elif h == "alg-swap":
            over(alg=ES if pu else PU)
        elif h == "alg-es256k":
            over(alg=r.choice(["ES256K", "EdDSA"]))
        elif h == "enc-unknown":
            over(enc=r.choice(["A128GCM", "A128CBC-HS256", "none", "", "xc20p"]))
        elif h in ("enc-GCM", "enc-XC", "enc-CBC"):
            e = {"enc-GCM": GCM, "enc-XC": XC, "enc-CBC": CBC}[h]
            if r.random() < .5:
                s["enc"] = e
            else:
                over(enc=e)
        elif h == "typ-other":
            over(typ=r.choice(["application/didcomm-signed+json", "JWT", "", "application/didcomm-encrypted+jsonx"]))
        elif h == "typ-missing":
            over(typ="~drop")
        elif h == "typ-num":
            over(typ=5)
        elif h == "rcp-none":
            s["to"] = to = []
        elif h == "rcp-otherdid":
            to.insert(r.randrange(len(to) + 1), {"kid": kid("carol", "k1"), "key": crv + ":carol-k1"})
        elif h == "rcp-did":
            to.insert(r.randrange(len(to) + 1), {"kid": d("bob"), "key": crv + ":bob-k1"})
        elif h == "rcp-prefix":
            to.insert(r.randrange(len(to) + 1), {"kid": kid("bobx", "k1"), "key": crv + ":bob-k1"})
        elif h == "rcp-dup":
            if to:
                to.append(dict(to[0]))
        elif h == "rcp-order":
            s["to"] = to = to[::-1]
        elif h == "rcp-first-bad":
            to.insert(0, {"kid": kid("bob", "k9"), "key": crv + ":bob-k9"})
        elif h == "rcp-extra-nokey":
            to.append({"kid": kid("bob", "k9"), "key": crv + ":bob-k9"})
        elif h == "epk-ed":
            s["epk"] = r.choice("EK") + ":eph"
        elif h == "epk-other":
            s["epk"] = r.choice([crv, oc]) + ":eph2"
        elif h == "epk-missing":
            over(epk="~drop")
        elif h == "epk-offcurve":
            s["epk"] = "offcurve" if crv == "P" else "badx"
        elif h.startswith("epk-"):
            s["epk"] = h[4:]
        elif h == "extra-prot":
            over(**{"x-extra": rjson(r, 1), "zip": "DEF"} if r.random() < .5 else {"x-extra": rjson(r, 1)})
        elif h == "extra-top":
            top(**{"x-extra": rjson(r, 1), "unprotected": {"a": 1}})
        elif h == "extra-rcp":
            if to:
                rt(0, **{"header": {"kid": to[0]["kid"], "x": rjson(r, 1)}, "y": 2})
        elif h == "null-opt":
            s["nullopt"] = True
        elif h == "prot-notjson":
            s["protraw"] = b64(r.choice(["nope", "{]", "{\"alg\" 1}", "\x00"]))
        elif h == "prot-notb64":
            s["protraw"] = r.choice(["!!!", "a b", "=", "e30=", "e3"])
        elif h == "prot-array":
            s["protraw"] = b64(r.choice(["3", "null", "\"x\"", "true"]))
        elif h == "prot-trunc":
            s["protraw"] = b64(r.choice(["", "{", "{\"alg\":\"ECDH", "{\"alg\":", "{\"typ\":null,", "{\"alg\":3,\"enc\":"]))
        elif h == "prot-pad":
            s["protraw"] = b64(json.dumps({"alg": ES, "enc": CBC})) + "="
        elif h in ("no-alg", "no-enc", "no-apv"):
            over(**{h[3:]: "~drop"})
        elif h == "alg-num":
            over(**{r.choice(["alg", "enc", "apv", "apu", "skid"]): r.choice([3, True, [], {}])})
        elif h == "iv-short":
            top(iv=b64(b"1234567"))
        elif h == "iv-badb64":
            top(iv=r.choice(["!", "A", "AA=="]))
        elif h == "tag-short":
            top(tag=b64(b"12345678"))
        elif h == "tag-badb64":
            top(tag=r.choice(["!", "A", "AA=="]))
        elif h == "tag-empty":
            top(tag="")
        elif h == "ct-badb64":
            top(ciphertext=r.choice(["!", "A", "AA=="]))
        elif h == "ct-empty":
            top(ciphertext="")
        elif h == "iv-missing":
            top(**{r.choice(["iv", "tag", "ciphertext", "protected", "recipients"]): r.choice(["~drop", 3, None])})
        elif h in ("ek-zero", "ek-short", "ek-empty", "ek-badb64"):
            if to:
                r.choice(to)["ek"] = h[3:]
        elif h in ("cek-short", "cek-long", "cek-other"):
            if to:
                r.choice(to)["cek"] = h[4:]
        elif h == "ek-missing":
            if to:
                rt(r.randrange(len(to)), encrypted_key=r.choice(["~drop", 3, None]))
        elif h == "kid-missing":
            if to:
                rt(r.randrange(len(to)), header=r.choice([{}, {"kid": 3}, {"kid": None}]))
        elif h == "header-missing":
            if to:
                rt(r.randrange(len(to)), header=r.choice(["~drop", 3, None]))
        elif h == "pl-nonutf8":
            s["plhex"] = "ff00fe"
        elif h == "pl-badutf8":
            s["plhex"] = badutf8(r)
        elif h == "pl-empty":
            s["plhex"] = ""
        elif h == "pl-notjson":
            s["pl"] = {"t": "text", "v": r.choice(["nope", "{\"a\"}", "[1,2]", "3", "{}", "null"])}
        else:
            raise Exception("hdr " + h)
    if "in-anon" in (c["h"], c["h2"]) or r.random() < .15:
        # the same inside an envelope that hides it
        s = jwe(s, [{"kid": kid("bob", "o1"), "key": "X:bob-o1"}], ES, r.choice([CBC, XC, GCM]))
        w.own("bob", kid("bob", "o1"), "X:bob-o1")
    return w, [craft(s, "e"), unpack("e", "bob", c["all"] == "y")]


def f_sig(c, r):
    w = W()
    kc = c["key"]
    key, rep = "%s:alice-s1" % kc, good(kc, c["rep"])
    w.pub("bob", "ka", "k1", "X")
    w.pub("carol", "auth", "s1", kc)
    w.pub("carol", "ka", "k1", "X")
    w.keys += [key, key + "o", "E:foreign"]
    # a second signing key of another type
    w.pub("alice", "auth", "s2", "P" if kc != "P" else "E")
    w.pub("alice", "ka", "k1", "P" if kc == "P" else "X")
    k1 = kid("alice", "s1")
    dc, df = c["doc"], {}
    pk, pr = key, rep
    if dc == "rot":
        pk = key + "o"
    if dc == "bad":
        pr = r.choice(PUBBAD[kc])
    if dc == "u":
        pr = uns(kc, r)
    if dc == "rep" and kc == "E":
        pr = r.choice(["jwk", "b58", "mb"])
    if dc != "novm":
        w.vm("alice", "s1", pk, pr)
    if dc != "unl":
        w.doc("alice")["auth"].insert(r.randrange(2), k1)
    if dc == "gone":
        del w.docs[d("alice")]
    if dc == "fail":
        df = {d("alice"): r.choice(["IoError", "DIDNotResolved", "InvalidState"])}
    m = rmsg(random.Random(c["msg"]), r.choice([None, d("alice")]))
    sg = {"kid": k1, "key": key, "alg": ALG[kc]}
    s = {"t": "jws", "pl": plain(m), "sigs": [sg]}
    v = c["s"]

    def over(**kw):
        sg.setdefault("over", {}).update(kw)
    if v in ("zero", "short", "long", "empty", "badb64", "pad", "otherpl", "plonly", "otherprot"):
        sg["sig"] = v
    elif v == "none":
        s["sigs"] = []
    elif v == "two":
        s["sigs"].append({"kid": kid("carol", "s1"), "key": kc + ":carol-s1", "alg": ALG[kc]})
    elif v == "two-badfirst":
        s["sigs"].insert(0, {"kid": kid("carol", "s1"), "key": kc + ":carol-s1", "alg": ALG[kc], "sig": "zero"})
    elif v == "two-badsecond":
        s["sigs"].append({"kid": kid("carol", "s1"), "key": kc + ":carol-s1", "alg": ALG[kc], "sig": "zero"})
    elif v == "dup":
        s["sigs"].append(dict(sg))
    elif v == "alg-other":
        sg["alg"] = r.choice([a for a in ("EdDSA", "ES256", "ES256K") if a != ALG[kc]])
    elif v == "alg-unknown":
        sg["alg"] = r.choice(["HS256", "ES384", "RS256", ""])
    elif v == "alg-none":
        sg["alg"] = "none"
        sg["sig"] = r.choice(["ok", "empty"])
    elif v == "alg-missing":
        over(alg=r.choice(["~drop", 3, None]))
    elif v == "alg-case":
        sg["alg"] = sg["alg"].lower()
    elif v == "typ-missing":
        over(typ=r.choice(["~drop", 3, None]))
    elif v == "typ-other":
        over(typ=r.choice(["JWT", "application/didcomm-encrypted+json", ""]))
    elif v == "kid-nofrag":
        sg["kid"] = d("alice")
    elif v == "kid-unlisted":
        w.keys.append("E:alice-s9")
        sg["kid"] = kid("alice", "s9")
        if r.random() < .5 and d("alice") in w.docs:
            w.vm("alice", "s9", key)
    elif v == "kid-case":
        sg["kid"] = r.choice([kid("alice", "S1"), "DID:ex:alice#s1", kid("Alice", "s1")])
    elif v == "kid-rel":
        if d("alice") in w.docs:
            w.doc("alice")["auth"] = ["#s1"]
            for x in w.doc("alice")["vms"]:
                if x["id"] == k1:
                    x["id"] = r.choice([k1, "#s1"])
        if r.random() < .3:
            sg["kid"] = "#s1"
    elif v == "kid-other":
        sg["kid"] = r.choice([kid("alice", "s2"), kid("carol", "s1")])
    elif v == "kid-missing":
        sg["top"] = r.choice([{"header": {}}, {"header": "~drop"}, {"header": {"kid": 3}}])
    elif v == "kid-unknown":
        sg["kid"] = kid("nobody", "s1")
    elif v == "kid-kaonly":
        kk = "P:alice-k1" if kc == "P" else "X:alice-k1"
        sg.update(kid=kid("alice", "k1"), key=kk if kc == "P" else key)
    elif v == "key-other":
        sg["key"] = key + "o"
    elif v == "prot-notjson":
        sg["protraw"] = r.choice(["bm9wZQ", "e10"])
    elif v == "prot-notb64":
        sg["protraw"] = r.choice(["!!!", "e30="])
    elif v == "prot-extra":
        over(crit=["x"], x=1, kid=k1)
    elif v == "prot-array":
        sg["protraw"] = r.choice(["Mw", "bnVsbA", "e30", ""])
    elif v == "top-extra":
        s["top"] = {"x": 1, "ciphertext": "AA"}
    elif v == "header-extra":
        sg["top"] = {"header": {"kid": k1, "alg": "none", "x": 2}, "more": 1}
    elif v == "sig-missing":
        sg["top"] = r.choice([{"signature": "~drop"}, {"protected": "~drop"}, {"signature": 3}])
    elif v == "payload-pad":
        s["plraw"] = "eyJhIjoxfQ=="
    elif v == "payload-badb64":
        s["plraw"] = r.choice(["!!", "A", "e30 "])
    elif v == "payload-missing":
        s["top"] = r.choice([{"payload": "~drop"}, {"payload": 3}, {"signatures": "~drop"}, {"signatures": 3}])
    elif v == "pl-nonutf8":
        s["plhex"] = "fffe00"
    elif v == "pl-badutf8":
        s["plhex"] = badutf8(r)
    elif v == "pl-notjson":
        s["pl"] = {"t": "text", "v": r.choice(["nope", "", "{", "{}", "[]x", "{\"id\":\"1\""])}
    elif v == "pl-jws":
        s["pl"] = jws(plain(m), k1, key)
    elif v == "pl-jwe":
        s["pl"] = jwe(plain(m), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}])
    elif v == "pl-typ":
        m["typ"] = r.choice(TYPS)
    if dc == "unl" or r.random() < .1:
        foreign(w, "alice", "auth", "s1", r)
    for l in c["in"].split("+")[::-1]:
        if l == "auth":
            if d("alice") in w.docs and kc != "P":
                s = jwe(s, [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], PU, skid=kid("alice", "k1"), apu=kid("alice", "k1"), skey="X:alice-k1")
            else:
                s = jwe(s, [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], PU, skid=kid("carol", "k1"), apu=kid("carol", "k1"), skey="X:carol-k1")
        elif l == "anon":
            s = jwe(s, [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], ES, r.choice([CBC, XC, GCM]))
    return w, [craft(s, "e"), {"op": "unpack", "in": "e", "opts": {}, "env": env("bob", dfault=df)}]


def f_fp(c, r):
    w = W()
    kc = c["key"]
    rep = good(kc, c["rep"])
    key = "%s:old-s1" % kc
    w.keys += [key, key + "o"]
    w.pub("bob", "ka", "k1", "X")
    for n in ("new", "carol"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "auth", "s1", kc)
    w.pub("old", "auth", "s2", "P" if kc != "P" else "E")
    w.pub("old", "ka", "k1", "P" if kc == "P" else "X")
    k1 = kid("old", "s1")
    dc, df = c["doc"], {}
    pk, pr = key, rep
    if c["lst"] == "y":
        for n in ("carol", "new", "oldx", "ol"):
            w.doc("old")["auth"].append(kid(n, "s1"))
            w.doc("old")["vms"].append({"id": kid(n, "s1"), "key": kc + ":%s-s1" % n, "rep": "jwk"})
    if dc == "rot":
        pk = key + "o"
    if dc == "bad":
        pr = r.choice(PUBBAD[kc])
    if dc == "u":
        pr = uns(kc, r)
    if dc != "novm":
        w.vm("old", "s1", pk, pr)
    if dc != "unl":
        w.doc("old")["auth"].insert(0, k1)
    if dc == "gone":
        del w.docs[d("old")]
    if dc == "fail":
        df = {d("old"): r.choice(["IoError", "InvalidState", "DIDUrlNotFound"])}
    cl = {"iss": d("old"), "sub": d("new")}
    if c["extra"] & 1:
        cl.update(exp=r.choice(U64S), iat=r.choice(U64S))
    if c["extra"] & 2:
        cl.update(aud=rstr(r), jti=rstr(r), nbf=r.choice(U64S))
    t = {"t": "jwt", "typ": "JWT", "alg": ALG[kc], "kid": k1, "claims": cl, "key": key}
    v = c["v"]
    if v.startswith("sig-"):
        t["sig"] = v[4:]
    elif v == "typ-missing":
        t["over"] = {"typ": r.choice(["~drop", 3, None])}
    elif v == "typ-other":
        t["typ"] = r.choice(["JWS", "", "application/didcomm-signed+json", "JWTx"])
    elif v == "typ-lower":
        t["typ"] = "jwt"
    elif v == "alg-other":
        t["alg"] = r.choice([a for a in ("EdDSA", "ES256", "ES256K") if a != ALG[kc]])
    elif v == "alg-unknown":
        t["alg"] = r.choice(["HS256", "RS256", "", "es256"])
    elif v == "alg-none":
        t["alg"] = "none"
    elif v == "kid-nofrag":
        t["kid"] = d("old")
    elif v == "kid-otherdid":
        t["kid"] = kid("carol", "s1")
    elif v in ("kid-twin1", "kid-twin2"):
        n = "oldx" if v[-1] == "1" else "ol"
        w.pub(n, "auth", "s1", kc)
        t.update(kid=kid(n, "s1"), key=kc + ":%s-s1" % n)
    elif v == "kid-unlisted":
        t["kid"] = kid("old", "s9")
    elif v == "kid-case":
        t["kid"] = r.choice([kid("old", "S1"), "DID:ex:old#s1", kid("Old", "s1")])
    elif v == "kid-rel":
        if d("old") in w.docs:
            w.doc("old")["auth"] = ["#s1"]
            for x in w.doc("old")["vms"]:
                if x["id"] == k1:
                    x["id"] = r.choice([k1, "#s1"])
        if r.random() < .3:
            t["kid"] = "#s1"
    elif v == "kid-unknown":
        t["kid"] = kid("nobody", "s1")
    elif v == "kid-ka":
        t["kid"] = kid("old", "k1")
        if kc == "P":
            t["key"] = "P:old-k1"
    elif v == "key-other":
        t["key"] = key + "o"
    elif v == "forged-other":
        n = r.choice(["carol", "new"])
        t.update(kid=kid(n, "s1"), key=kc + ":%s-s1" % n)
    elif v.startswith("segs"):
        t["segs"] = int(v[4:])
    elif v == "claims-noiss":
        cl.pop("iss")
    elif v == "claims-nosub":
        cl.pop("sub")
    elif v == "claims-badexp":
        cl[r.choice(["exp", "nbf", "iat"])] = r.choice(["x", -1, 1.5, True])
    elif v == "claims-num":
        cl[r.choice(["iss", "sub", "aud", "jti"])] = 3
    elif v == "claims-extra":
        cl["x"] = rjson(r, 2)
    elif v == "claims-null":
        cl.update(aud=None, exp=None)
    elif v == "praw":
        t["praw"] = r.choice(["!!", "", "bm9wZQ", "e30", "Mw", "eyJpc3Mi"])
    elif v == "hraw":
        t["hraw"] = r.choice(["!!", "", "bm9wZQ", "e30", "Mw", "eyJ0eXAi", "e30="])
    elif v == "pl-nonutf8":
        t["plhex"] = "fffe"
    elif v == "pl-badutf8":
        t["plhex"] = json.dumps(dict(cl, aud="abcdef")).encode().replace(b"cd", r.choice([b"\xff", b"\xc3", b"\xc0\xaf"])).hex()
    elif v == "iss-sub":
        cl["sub"] = cl["iss"]
    elif v == "iss-frag":
        cl["iss"] = k1
    elif v == "iss-notdid":
        cl["iss"] = "old"
    elif v == "iss-other":
        cl["iss"] = d("carol")
    elif v == "sub-other":
        cl["sub"] = d("carol")
    elif v == "sub-frag":
        cl["sub"] = kid("new", "k1")
    elif v == "over-extra":
        t["over"] = {"x": 1, "crit": ["x"]}
    elif v == "empty":
        t = {"t": "text", "v": ""}
    elif v == "ref":
        t = {"t": "text", "v": r.choice(["..", "...", "a.b.c", "e30.e30.e30", "{}", "\u00e9.\u00e9.\u00e9", "....", "e30.e30."])}
    jw = t["t"] == "jwt"
    ops = [craft(t, "fp")]
    e = env("bob", dfault=df)
    ops.append({"op": "fp_unpack", "in": "fp", "env": e}) if jw else None
    frm = {"sub": d("new"), "none": None, "other": d("carol")}[c["from"]]
    m = smsg(frm, from_prior={"$str": "fp"})
    to = [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}]
    i = c["in"]
    if i == "pack":
        mode = r.choice(["plain", "signed", "anon"])
        ops.append(pack(mode, m, "p", d("bob"), None, kid("new", "s1"), {}, env("new", dfault=df)))
        ops.append(unpack("p", "bob", dfault=df))
    elif i != "direct":
        s = plain(m)
        if i == "signed":
            s = jws(s, kid("carol", "s1"), kc + ":carol-s1")
        if i == "anon":
            s = jwe(s, to, ES, XC)
        if i == "auth":
            s = jwe(s, to, PU, skid=kid("new", "k1"), apu=kid("new", "k1"), skey="X:new-k1")
        ops += [craft(s, "e"), {"op": "unpack", "in": "e", "opts": {}, "env": e}]
    return w, [o for o in ops if o]


def f_fpiss(c, r):
    w = W()
    for i in "123":
        w.state("alice", "auth", "s" + i, c["s" + i], r)
    w.pub("alice", "ka", "k1", "X")
    w.pub("carol", "auth", "s1", "E", own="alice")
    w.pub("alice2", "auth", "s1", "E", own="alice")
    w.vm("alice", "s8", "E:alice-s8")
    if c["lst"] == "y":
        w.doc("alice")["auth"].insert(r.randrange(2), kid("carol", "s1"))
        w.doc("alice")["vms"].append({"id": kid("carol", "s1"), "key": "E:carol-s1", "rep": "jwk"})
    for n in ("alicex", "alic"):
        # a DID that differs by one character
        w.own("alice", kid(n, "s1"), "E:%s-s1" % n)
        if c["lst"] == "y":
            w.doc("alice")["auth"].append(kid(n, "s1"))
            w.doc("alice")["vms"].append({"id": kid(n, "s1"), "key": "E:%s-s1" % n, "rep": "jwk"})
    w.own("alice", kid("alice", "s8"), "E:alice-s8")
    w.pub("bob", "ka", "k1", "X")
    D = {"alice#": kid("alice", "s1"), "alice2#": kid("alice2", "s1"), "bad1": r.choice(BADDIDS)}
    iss = D.get(c["iss"]) if c["iss"] in D else d(c["iss"])
    sub = D.get(c["sub"]) if c["sub"] in D else d(c["sub"])
    df = {d("fail"): "IoError"} if c["iss"] == "fail" else {}
    k = {"none": None, "k1": kid("alice", "s1"), "k2": kid("alice", "s2"), "nope": kid("alice", "zz"), "ka": kid("alice", "k1"), "other": kid("carol", "s1"),
         "nofrag": d("alice"), "unl": kid("alice", "s8"), "tw1": kid("alicex", "s1"), "tw2": kid("alic", "s1")}[c["kid"]]
    cl = {"iss": iss, "sub": sub}
    x = c["extra"]
    if x & 1:
        cl["exp"] = r.choice(U64S)
    if x & 2:
        cl["aud"] = rstr(r)
    if x & 4:
        cl.update(jti=rstr(r), nbf=r.choice(U64S), iat=r.choice(U64S))
    if c["kaonly"] == "ka":
        # a wallet without any authentication key
        w.pub("alice", "ka", "k2", "P")
        if r.random() < .3:
            w.pub("alice", "ka", "k3", "E")
        w.wallets["alice"] = [x for x in w.wallets["alice"] if x["id"].split("#")[1][0] == "k"]
    e = env("alice", sget=c["sget"], sfind=c["sfind"], dfault=df)
    op = {"op": "fp_pack", "claims": cl, "out": "fp", "env": e}
    if k:
        op["kid"] = k
    frm = {"sub": sub if sub.startswith("did:ex") else None, "none": None, "other": d("carol")}[c["from"]]
    m = smsg(frm, from_prior={"$str": "fp"})
    return w, [op, {"op": "fp_unpack", "in": "fp", "env": env()},
               pack(r.choice(["plain", "signed", "anon"]), m, "p", d("bob"), None, kid("carol", "s1"), {}, env("alice")), unpack("p", "bob")]


RK = {"m1": d("m1"), "m2": d("m2"), "m3": d("m3"), "m1#x": kid("m1", "x"), "m1#p": kid("m1", "p"), "m2#x": kid("m2", "x"), "m3#x": kid("m3", "x"),
      "gone": d("gone"), "m1#nope": kid("m1", "nope"), "empty": d("mempty"), "unsup": d("munsup")}


def medworld(w, r, oneach=True):
    mediators(w)
    w.doc("mempty")
    w.vm("munsup", "x", "X:munsup", uns("X", r))
    w.doc("munsup")["ka"].append(kid("munsup", "x"))
    w.svc("med1", 1, uri="https://med1.example/a", rk=[d("m3")])
    w.svc("med1", 2, uri="https://med1.example/b")
    w.svc("med2", 1, k="other")
    w.svc("med2", 2, uri="https://med2.example/v1", accept=["didcomm/aip2;env=rfc587"])
    w.svc("med2", 3, uri="https://med2.example/x", accept=["didcomm/aip1", "didcomm/v2"])
    mediators(w, only=("medbad", "medrec", "medoth", "meddeny"))
    w.svc("medrec", 1, uri=d("med1"))
    w.svc("medoth", 1, k="other")
    w.svc("meddeny", 1, accept=["didcomm/v1"])


def rks(s):
    return [RK[x] for x in s.split(",") if x]


SVC = {"dc": ("dc", None), "dc-empty": ("dc", []), "dc-v2": ("dc", ["didcomm/v2"]), "dc-both": ("dc", ["didcomm/aip2", "didcomm/v2"]), "dc-v1": ("dc", ["didcomm/v1"]),
       "dc-aip": ("dc", ["didcomm/v2;env=rfc19", "DIDComm/v2"]), "other": ("other", None)}


URIS = ["https://ep%s.example/", "https://ep%s.example/x/", "https://ep%s.example/x#frag", "https://ep%s.example#", "https://ep%s.example/?did=did:ex:m1", "HTTPS://EP%s.example/x", " https://ep%s.example/x ",
        "ep%s", "wss://ep%s.example/a//b", "dids:ex:ep%s", "Did:ex:m%s", "did", "%s", "https://\u00e9p%s.example/%%C3%%A9"]
URIS = [u if "%" in u else u + "%.0s" for u in URIS]


def f_route(c, r):
    w = W()
    w.pub("bob", "ka", "k1", "X")
    w.pub("bob", "ka", "k2", "X")
    w.pub("alice", "ka", "k1", "X")
    w.pub("alice", "auth", "s1", "E")
    medworld(w, r)
    for i in "123":
        if c["s" + i] == "-":
            continue
        k, acc = SVC[c["s" + i]]
        u = c["u" + i]
        uri = (r.choice(URIS) % i if r.random() < .3 else "https://ep%s.example/x" % i) if u == "https" else kid("med1", "x") if u == "med1kid" else d(u)
        w.svc("bob", "1" if c["dup"] == "y" and i == "2" else i, k, uri, acc, rks(c["r" + i]))
    sv = {"none": None, "nope": kid("bob", "nope"), "frag": "#s1", "did": d("bob"), "case": kid("bob", "S1"), "empty": ""}.get(c["svc"], kid("bob", "s" + c["svc"]))
    if r.random() < .06:
        for x in w.doc("bob")["svcs"]:
            x["id"] = x["id"][x["id"].index("#"):]
    mode = c["mode"]
    o = popts({"anon": c["anon"], "protect": True if "protect" in mode else None, "forward": {"y": True, "n": False, "-": None}[c["fwd"]],
               "svc": sv, "headers": rhdrs(r, c["hdrs"]) if c["hdrs"] else None, "via": c["via"]}, r)
    df = {} if c["fail"] == "-" else {d(c["fail"]): r.choice(["IoError", "Malformed", "DIDNotResolved"])}
    m = smsg(d("alice") if "auth" in mode else None, [d("bob")])
    to = d("bob") if c["to"] == "did" else kid("bob", "k2")
    ops = [pack(mode, m, "p0", to, d("alice"), d("alice"), o, env("alice", dfault=df))]
    # peel whatever was wrapped
    for i, mm in enumerate(r.sample(["m1", "m2", "m3", "med1", "med2"], 5)):
        if r.random() < .5:
            ops.append(unpack("p0", mm, out="q%d" % i))
    ops.append(unpack("p0", "bob"))
    w.wallets["every"] = sum((w.wallets[x] for x in ("m1", "m2", "m3", "med1", "med2", "medbad", "bob")), [])
    ops.append(unpack("p0", "every", unwrap=r.choice([None, True, False])))
    return w, ops


def f_wrap(c, r):
    w = W()
    medworld(w, r)
    w.pub("bob", "ka", "k1", "X")
    txt = {"plain": json.dumps({"a": rjson(r, 2)}), "bad": r.choice(["nope", "{\"a\" 1}", "{]"]), "num": r.choice(["3", "\"x\"", "null", "[1,2]"]),
           "trunc": r.choice(["", "{\"a\":", "[1,", "\"ab"])}.get(c["in"])
    ops = [craft({"t": "text", "v": txt}, "e") if txt is not None else craft(jwe(plain(smsg()), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}]), "e")]
    df = {} if c["fail"] == "-" else {d("m1"): "IoError"}
    op = {"op": "wrap", "in": "e", "to": {"did": d("bob"), "kid": kid("bob", "k1"), "str": "anything at all"}[c["to"]], "rks": rks(c["rk"]), "anon": c["anon"], "out": "p0",
          "env": env(dfault=df)}
    if c["hdrs"]:
        op["headers"] = rhdrs(r, c["hdrs"])
    ops.append(op)
    w.wallets["every"] = sum((w.wallets[x] for x in ("m1", "m2", "m3", "bob")), [])
    for x in ("m1", "every"):
        ops.append(unpack("p0", x, unwrap=r.choice([None, False]), out="q" + x))
    return w, ops


def f_fwd(c, r):
    w = W()
    for n in ("alice", "bob", "carol"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "ka", "k2", "X")
        w.pub(n, "auth", "s1", "E")
    B = {"kid": kid("bob", "k1"), "key": "X:bob-k1"}
    B2 = {"kid": kid("bob", "k2"), "key": "X:bob-k2"}
    inn = c["inner"]
    m = smsg(d("alice"), body={"in": 1}) if r.random() < .6 else rmsg(r, d("alice"))
    if r.random() < .2:
        m[r.choice(["x-null", "body"])] = None
    if c["fp"] == "y":
        w.pub("old", "auth", "s1", "E", own="alice")
        m["from_prior"] = {"$str": "fp"}
    au = dict(skid=kid("alice", "k1"), apu=kid("alice", "k1"), skey="X:alice-k1")
    to = [r.choice([B, B2])] if r.random() < .6 else [B, B2]
    spec = {"anon": jwe(plain(m), to, ES, r.choice([XC, GCM, CBC])), "auth": jwe(plain(m), to, PU, **au), "sign+auth": jwe(jws(plain(m), kid("alice", "s1"), "E:alice-s1"), to, PU, **au),
            "protect": jwe(jwe(plain(m), to, PU, **au), to, ES, XC), "plain": plain(m), "signed": jws(plain(m), kid("alice", "s1"), "E:alice-s1"),
            "bad": {"t": "text", "v": json.dumps({"no": "message"})}, "num": {"t": "text", "v": r.choice(["3", "null", "\"x\""])},
            "other": jwe(plain(m), [{"kid": kid("carol", "k1"), "key": "X:carol-k1"}]),
            "fwd": jwe(plain(fwdmsg(kid("bob", "k2"), {"$json": "i0"})), [B], ES, GCM), "fwdplain": plain(fwdmsg(kid("bob", "k1"), {"$json": "i0"})),
            "selffwd": jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "i0"}, thid="x")), [B2], ES, XC)}[inn]
    ops = []
    if c["fp"] == "y":
        ops.append({"op": "fp_pack", "claims": {"iss": d("old"), "sub": d("alice")}, "out": "fp", "env": env("alice")})
    ops.append(craft(jwe(plain(m), to, ES, XC, seed="i0") if r.random() < .5 else plain(m), "i0"))
    ops.append(craft(spec, "in"))
    nx = {"bob": d("bob"), "bobk1": kid("bob", "k1"), "bobk2": kid("bob", "k2"), "bobnope": kid("bob", "zz"), "carol": d("carol"), "carolk": kid("carol", "k1"),
          "gone": d("gone"), "fail": d("fail"), "str": r.choice(["", "x", "bob"])}[c["next"]]
    f = fwdmsg(nx, {"$json": "in"})
    t = c["type"]
    if t != "fwd":
        f["type"] = {"other": "https://ex.org/t", "case": FORWARD.replace("routing", "Routing"), "slash": FORWARD + "/"}[t]
    b = c["body"]
    if b != "next":
        f["body"] = {"num": {"next": 3}, "none": {"nxt": nx}, "arr": [nx], "null": {"next": None}, "extra": {"next": nx, "x": [1]}, "str": nx}[b]
    J, B64, L = {"data": {"json": {"$json": "in"}}}, {"data": {"base64": "e30"}}, {"data": {"links": ["x"], "hash": "h"}}
    a = c["att"]
    if a == "none":
        f.pop("attachments")
    else:
        f["attachments"] = {"json": [J], "b64": [B64], "links": [L], "empty": [], "json+b64": [J, B64], "b64+json": [B64, J], "two": [J, {"data": {"json": {"z": 1}}}]}[a]
    if c["fp"] == "y" and r.random() < .5:
        f["from_prior"] = {"$str": "fp"}
    own = {"all": ["k1", "k2"], "k1": ["k1"], "k2": ["k2"], "none": []}[c["own"]]
    w.wallets["bob"] = [s for s in w.wallets["bob"] if s["id"].split("#")[1] in own]
    ops.append({"op": "tpf", "msg": f})
    s = plain(f)
    OT = r.choice([[B], [B], [B2], [B, B2], [B2, B]])
    sid = {}
    if c["nfail"] != "n":
        ids = [nx] if "#" in nx else w.docs.get(nx, {}).get("ka", [])
        sid = {i: "none" if c["nfail"] == "get" else "IoError" for i in ids[-1:]}
    o = c["outer"]
    if o in ("sign", "anon+sign"):
        s = jws(s, kid("alice", "s1"), "E:alice-s1")
    if o in ("auth", "anon+auth"):
        s = jwe(s, OT, PU, **au)
    if o in ("anon", "anon+auth", "anon+sign", "twice"):
        s = jwe(s, OT, ES, r.choice([XC, GCM, CBC]))
    if o == "twice":
        s = jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "t1"})), [B], ES, XC)
        ops.append(craft(jwe(plain(f), [B], ES, GCM), "t1"))
        if r.random() < .3:
            n = r.randrange(2, 8)
            for i in range(1, n):
                ops.append(craft(jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "t%d" % i})), [B], ES, r.choice([XC, GCM, CBC])), "t%d" % (i + 1)))
            s = jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "t%d" % n})), [B], ES, XC)
    ops.append(craft(s, "e"))
    ops.append({"op": "unpack", "in": "e", "opts": uopts(c["all"] == "y", c["unwrap"] == "y"),
                "env": env("bob", sfind=c["sfind"], sid=sid, dfault={d("fail"): r.choice(["IoError", "Malformed"])})})
    return w, ops


JP = ["protected", "iv", "ciphertext", "tag"]


def mutations(r, n, jwsk, nrec, other):
    out = []
    for _ in range(n):
        k = r.randrange(10)
        s = r.choice(["flip", "flip", "flip", "cut", "ext", "pad", "strtrunc", "suffix", "case"])
        par = {"pos": r.randrange(1000), "bit": r.randrange(8), "n": r.choice([1, 2, 8, 16, 32]), "c": r.choice("A=.x \"\\\u00e9")}
        if k == 0:
            out.append(dict(m=r.choice(["byte", "byte", "del", "ins", "trunc", "append"]), **par))
        elif k == 1:
            out.append(dict(m="pretty"))
        elif jwsk:
            p = r.choice([["payload"], ["signatures", 0, "signature"], ["signatures", 0, "protected"], ["signatures", 0, "header", "kid"], ["signatures", 0, "protected", "@", r.choice(["alg", "typ"])],
                          ["payload", "@", r.choice(["id", "body", "type", "from"])]])
            q = r.randrange(6)
            if q == 0 and other:
                out.append(dict(m="take", path=p, **{"from": other}))
            elif q == 1:
                out.append(dict(m=r.choice(["drop", "dup"]), path=r.choice([["signatures", 0], ["signatures"], ["payload"], p]), **par))
            elif q == 2:
                out.append(dict(m="set", path=p, v=r.choice(["", "e30", 3, None, {}, "ES256", "EdDSA", "none", kid("alice", "s1"), kid("carol", "s1")])))
            else:
                out.append(dict(m=s, path=p, **par))
        else:
            i = r.randrange(nrec)
            p = r.choice([["protected"], ["iv"], ["ciphertext"], ["ciphertext"], ["tag"], ["recipients", i, "encrypted_key"], ["recipients", i, "header", "kid"],
                          ["protected", "@", r.choice(["alg", "enc", "apv", "apu", "skid", "typ"])], ["protected", "@", "epk", r.choice(["x", "y", "crv", "kty"])]])
            q = r.randrange(7)
            if q == 0 and other:
                out.append(dict(m="take", path=r.choice([p, ["recipients"], ["protected", "@", "epk"], ["recipients", i]]), **{"from": other}))
            elif q == 1:
                out.append(dict(m=r.choice(["drop", "dup"]), path=r.choice([["recipients", i], ["recipients"], p]), **par))
            elif q == 2:
                out.append(dict(m="rev", path=["recipients"]))
            elif q == 3:
                out.append(dict(m="set", path=p, v=r.choice(["", "AAAA", 3, None, CBC, XC, GCM, ES, PU, kid("bob", "k2"), kid("carol", "k1"), kid("alice", "k1")])))
            else:
                out.append(dict(m=s, path=p, **par))
    return out


def f_tamper(c, r):
    w = W()
    for i in range(c["nk"]):
        w.pub("bob", "ka", "k%d" % (i + 1), c["bk"])
    w.pub("alice", "ka", "k1", c["bk"])
    w.pub("alice", "auth", "s1", c["sk"])
    w.pub("carol", "auth", "s1", "E")
    w.pub("carol", "ka", "k1", c["bk"])
    w.pub("carol", "ka", "k2", c["bk"], own="bob")
    w.wallets["bob"] += w.wallets["carol"][:1]
    mediators(w, only=("m1",))
    w.svc("bob", 1, rk=[d("m1")] if c["hops"] else [])
    mode = c["mode"]
    r1 = random.Random(c["m1"])
    m = rmsg(r1, d("alice") if "auth" in mode else None, [d("bob")])
    o = {"anon": c["anon"], "protect": True if "protect" in mode else None}
    ops = [pack(mode, m, "p", d("bob"), d("alice"), d("alice"), o, env("alice")),
           pack(mode, rmsg(r1, d("alice") if "auth" in mode else None), "q", d("bob"), d("alice"), d("alice"), o, env("alice"))]
    wl = "m1" if c["hops"] and mode != "signed" else "bob"
    for i in range(6):
        mu = mutations(r, 1 if c["m2"] == 0 else 2, mode == "signed", c["nk"], "q")
        ops.append({"op": "mutate", "in": "p", "muts": mu, "out": "t%d" % i})
        ops.append(dict(unpack("t%d" % i, wl, c["all"] == "y", base="p"), alt="q"))
    if mode == "signed":
        # the signed message travelling inside an envelope anybody can make
        ops.append({"op": "mutate", "in": "p", "muts": mutations(r, 1, True, 1, "q"), "out": "t"})
        ops.append(craft(jwe({"t": "ref", "h": "t"}, [{"kid": kid("bob", "k1"), "key": c["bk"] + ":bob-k1"}], ES, XC, c["bk"]), "x"))
        ops.append(unpack("x", "bob"))
    return w, ops


MALS = ["", " ", "{", "}", "[", "[]", "{}", "null", "true", "tru", "nul", "0", "-", "1.", "\"", "\"abc", "\"abc\"", "abc", "\u00e9", "{\"a\":1}", "{\"a\":1", "{\"a\"", "{\"a\":", "{\"a\":}", "{,}",
        "{\"id\":\"1\"}", "{\"id\":\"1\",\"type\":\"t\"}", "{\"id\":\"1\",\"type\":\"t\",\"body\":{}}", "{\"id\":\"1\",\"type\":\"t\",\"body\":null}", "{\"id\":1,\"type\":\"t\",\"body\":{}}",
        "{\"id\":\"1\",\"typ\":\"application/json\",\"type\":\"t\",\"body\":{}}", "{\"id\":\"1\",\"typ\":null,\"type\":\"t\",\"body\":{}}",
        "{\"id\":\"1\",\"type\":\"t\",\"body\":{},\"to\":\"x\"}", "{\"id\":\"1\",\"type\":\"t\",\"body\":{},\"attachments\":[{}]}", "{\"id\":\"1\",\"type\":\"t\",\"body\":{},\"created_time\":-1}",
        "{\"payload\":\"e30\",\"signatures\":[]}", "{\"payload\":\"\",\"signatures\":[{}]}", "{\"payload\":\"e30\"}", "{\"protected\":\"\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\"}",
        "{\"protected\":\"e30\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\"}", "{\"protected\":\"!\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\"}", "a.b.c", "e30.e30.e30", "..", "eyJ0eXAiOiJKV1QifQ..",
        "{\"id\":\"1\",\"type\":\"t\",\"body\":{}} x", "{\"id\":\"1\",\"type\":\"t\",\"body\":{}}\n", "\ufeff{}", "{\"a\":\"\\u12\"}", "{\"a\":\"\\q\"}", "\u0000", "{'id':1}", "[[[[[[[[", "[" * 200, "{\"a\":" * 150]


def f_mal(c, r):
    w = W()
    for n in ("alice", "bob"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "auth", "s1", "E")
    au = dict(skid=kid("alice", "k1"), apu=kid("alice", "k1"), skey="X:alice-k1")
    B = [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}]
    rr = random.Random(c["seed"])
    good_ = [plain(rmsg(rr, d("alice"))), jws(plain(rmsg(rr)), kid("alice", "s1"), "E:alice-s1"), jwe(plain(rmsg(rr)), B, ES, XC), jwe(plain(rmsg(rr)), B, PU, **au),
             {"t": "jwt", "typ": "JWT", "alg": "EdDSA", "kid": kid("alice", "s1"), "claims": {"iss": d("alice"), "sub": d("bob")}, "key": "E:alice-s1"}]
    via = c["via"]
    ops = []
    if c["m"] == 0:
        t = {"t": "text", "v": MALS[c["in"] % len(MALS)]}
        ops.append(craft(t, "t"))
    else:
        g = good_[4] if via == "fp" else good_[c["in"] % 4]
        ops.append(craft(g, "g"))
        kind = g["t"]
        mu = mutations(rr, c["m"], kind == "jws", 1, None) if kind in ("jws", "jwe") and rr.random() < .6 else \
            [dict(m=rr.choice(["byte", "del", "ins", "trunc", "trunc", "append"]), pos=rr.randrange(1000), c=rr.choice("A{}[]\",:.0\\\u00e9 n")) for _ in range(c["m"])]
        ops.append({"op": "mutate", "in": "g", "muts": mu, "out": "t", "jwt": via == "fp"})
    if via == "fp":
        if c["m"] == 0:
            v = ops[0]["spec"]["v"]
            ops = [craft({"t": "jwt", "alg": "x", "kid": "x", "key": "E:x", "claims": {}, "hraw": v, "praw": "e30", "segs": rr.randrange(1, 6)}, "t")]
        ops.append({"op": "fp_unpack", "in": "t", "env": env()})
        return w, ops
    if via == "wrap":
        mediators(w, only=("m1",))
        ops.append({"op": "wrap", "in": "t", "to": d("bob"), "rks": [d("m1")], "anon": XC, "out": "p", "env": env()})
        return w, ops
    dp = c["depth"]
    h = "t"
    if dp != "bare":
        ref = {"t": "ref", "h": "t"}
        s = {"anon": lambda: jwe(ref, B, ES, XC), "sign": lambda: jws(ref, kid("alice", "s1"), "E:alice-s1"), "auth": lambda: jwe(ref, B, PU, **au),
             "fwd": lambda: jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "t"})), B, ES, GCM)}[dp]()
        ops.append(craft(s, "e"))
        h = "e"
    ops.append(unpack(h, "bob"))
    return w, ops


def f_fault(c, r):
    w = W()
    for n in ("alice", "bob", "carol"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "auth", "s1", "E")
    w.pub("old", "auth", "s1", "E", own="alice")
    mediators(w)
    w.svc("med1", 1, uri="https://med1.example")
    hop = ["m1", "m2"][:c["hops"]]
    if c["svc"] == "rk":
        w.svc("bob", 1, rk=[d(m) for m in hop])
    if c["svc"] == "did":
        w.svc("bob", 1, uri=d("med1"), rk=[d(m) for m in hop])
    who = c["did"]
    k = c["kind"]
    df = {} if who == "none" else {d(who): k}
    gone = None
    if c["gone"] == "y" and who != "none" and d(who) in w.docs:
        df = {}
        gone = who
    sf = c["sf"] == "y"
    sid = {"-": [], "next": [kid("bob", "k1"), kid("carol", "k1")], "one": [r.choice([kid("alice", "k1"), kid("alice", "s1"), kid("bob", "k1"), kid("m1", "x"), kid("old", "s1")])]}.get(
        c["sid"], [kid(c["sid"], "k1"), kid(c["sid"], "s1")])
    e = dict(dfault=df, sget=c["sget"] if sf else "~", sfind=c["sfind"] if sf else "~", sid={i: c["sidk"] for i in sid})
    ops = []
    fp = c["fp"] == "y"
    m = smsg(d("alice"))
    if fp:
        ops.append({"op": "fp_pack", "claims": {"iss": d("old"), "sub": d("alice")}, "out": "fp", "env": env("alice")})
        m["from_prior"] = {"$str": "fp"}
        if who == "alice" and r.random() < .5:
            df = e["dfault"] = {d("old"): k}
    op, mode = c["op"], c["mode"]
    o = {"protect": True if "protect" in mode else None}
    setop = [{"op": "set", "world": {"docs": {d(gone): "gone"}, "wallets": {}}}] if gone else []
    if op == "pack":
        ops += setop + [pack(mode, m, "p", d("bob"), d("alice"), d("alice"), o, env("alice", **e))]
    elif op == "unpack":
        ops.append(pack(mode, m, "p", d("bob"), d("alice"), d("alice"), dict(o, forward=False), env("alice")))
        if c["next"] == "y":
            nx = r.choice([d("bob"), kid("bob", "k1"), d("carol"), kid("carol", "k1")])
            ops += [craft(jwe(plain(fwdmsg(nx, {"$json": "p"})), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], ES, XC), "f")]
        ops += setop + [unpack("f" if c["next"] == "y" else "p", "bob", **e)]
    elif op == "sign":
        ops += setop + [pack("signed", m, "p", None, None, d("alice"), {}, env("alice", **e)), unpack("p", "bob", **e)]
    elif op == "fppack":
        ops += setop + [{"op": "fp_pack", "claims": {"iss": d("alice"), "sub": d("carol")}, "out": "q", "env": env("alice", **e)}]
    elif op == "fpunpack":
        ops += [{"op": "fp_pack", "claims": {"iss": d("alice"), "sub": d("carol")}, "out": "q", "env": env("alice")}] + setop + [{"op": "fp_unpack", "in": "q", "env": env("alice", **e)}]
    else:
        ops += [craft(jwe(plain(m), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], ES, XC), "t")] + setop
        ops.append({"op": "wrap", "in": "t", "to": d("bob"), "rks": [d(x) for x in hop], "anon": XC, "out": "p", "env": env(**e)})
    return w, ops


def f_rep(c, r):
    w = W()
    crv, role = c["crv"], c["role"]
    sk = c["skey"]

    def rp(crv, v):
        if crv in "XE":
            return v
        return v if v.startswith("jwk") or v == "u-other" else "jwk"
    part = c["part"]
    pub = c["rp"] if part != "sec" else "jwk"
    sec = c["rs"] if part != "pub" else "jwk"

    def key(n, sec_, f, kc, special):
        k = "%s:%s-%s" % (kc, n, f)
        w.vm(n, f, k, rp(kc, pub) if special else "jwk")
        w.doc(n)[sec_].append(kid(n, f))
        w.own(n, kid(n, f), k, rp(kc, sec) if special else "jwk")
    key("bob", "ka", "k1", crv, role == "rcp")
    if c["second"] in ("y", True):
        key("bob", "ka", "k2", crv, False)
    key("alice", "ka", "k1", crv, role == "sender")
    if c["second"] in ("y", True) and role == "sender":
        key("alice", "ka", "k2", crv, False)
    key("alice", "auth", "s1", sk, role == "signer")
    key("m1", "ka", "k1", crv, role == "hop")
    key("old", "auth", "s1", sk, role == "fp")
    w.svc("bob", 1, rk=[d("m1")] if role == "hop" else [])
    m = smsg(d("alice"))
    ops = []
    if role == "fp":
        ops = [{"op": "fp_pack", "claims": {"iss": d("old"), "sub": d("alice")}, "out": "fp", "env": env("old")}, {"op": "fp_unpack", "in": "fp", "env": env()}]
        m["from_prior"] = {"$str": "fp"}
    mode = c["mode"]
    ops.append(pack(mode, m, "p", d("bob"), d("alice"), d("alice"), {"protect": True if "protect" in mode else None}, env("alice")))
    h = "p"
    if role == "hop":
        ops.append(unpack("p", "m1", out="q"))
        h = "q"
    ops.append(unpack(h, "bob", True))
    # the same keys through a foreign envelope, so that a party that cannot pack still receives
    B = [{"kid": kid("bob", "k1"), "key": crv + ":bob-k1"}]
    s = plain(smsg(d("alice")))
    if role == "signer":
        s = jws(s, kid("alice", "s1"), sk + ":alice-s1")
    elif role == "sender":
        s = jwe(s, B, PU, CBC, crv, skid=kid("alice", "k1"), apu=kid("alice", "k1"), skey=crv + ":alice-k1")
    elif role == "rcp":
        s = jwe(s, B, ES, XC, crv)
    elif role == "fp":
        t = {"t": "jwt", "alg": ALG[sk], "kid": kid("old", "s1"), "claims": {"iss": d("old"), "sub": d("alice")}, "key": sk + ":old-s1"}
        ops += [craft(t, "g"), {"op": "fp_unpack", "in": "g", "env": env()}]
    ops += [craft(s, "e"), unpack("e", "bob", r.random() < .5)]
    return w, ops


def f_sched(c, r):
    w = W()
    r = random.Random(c["seed"])
    for n in ("alice", "bob", "carol"):
        w.pub(n, "ka", "k1", "X")
        w.pub(n, "ka", "k2", "P")
        w.pub(n, "auth", "s1", "E")
        w.pub(n, "auth", "s2", "P")
    w.pub("old", "auth", "s1", "E", own="alice")
    mediators(w, only=("m1", "m2"))
    chg = c["change"]
    w.svc("bob", 1, rk=[d("m1"), d("m2")][:r.randrange(3)])
    A = r.random() < .3
    modes = ["plain", "signed", "anon", "anon+sign", "auth", "auth+sign", "auth+protect", "auth+sign+protect"]
    ops = [{"op": "fp_pack", "claims": {"iss": d("old"), "sub": d("alice")}, "out": "fp", "env": env("alice")},
           pack("plain", smsg(d("alice")), "wt", d("bob"), d("alice"), d("alice"), {}, env("alice"))]
    n = c["ops"]
    subs = []
    mixed = r.random() < .6
    for i in range(n):
        mode = r.choice(modes)
        m = rmsg(r, d("alice"), [d("bob")], rich=r.random() < .3)
        snd = r.choice(["alice", "alice", "bob", "carol"]) if mixed else "alice"
        rcv = r.choice(["alice", "bob", "bob", "carol"]) if mixed else "bob"
        frm = r.choice([d(snd), kid(snd, "k1"), kid(snd, "k2")])
        to = r.choice([d(rcv), kid(rcv, "k1"), kid(rcv, "k2")])
        by = r.choice([d(snd), kid(snd, "s1"), kid(snd, "s2")])
        if "auth" in mode and r.random() < .7 and "#" in frm and "#" in to:
            to = kid(rcv, frm[-2:])
        m["from"], m["to"] = d(snd), [d(rcv)]
        if r.random() < .25 and snd == "alice":
            m["from_prior"] = {"$str": "fp"}
        o = {"anon": r.choice([CBC, XC, GCM]), "protect": True if "protect" in mode else None}
        e = lambda wl: env(wl, pend=r.choice([1, c["pend"]]))
        kd = c["kinds"] if c["kinds"] != "mixed" else r.choice(["pack", "unpack", "fp"])
        if kd == "pack":
            subs.append(pack(mode, m, "s%d" % i, to, frm, by, o, e(snd)))
        elif kd == "unpack":
            if r.random() < .4:
                o["forward"] = False
            ops.append(pack(mode, m, "p%d" % i, to, frm, by, dict(o), env(snd)))
            x = unpack("p%d" % i, r.choice([rcv] * 6 + ["m1", "carol"]), r.random() < .3)
            x["env"] = e(x["env"]["wallet"])
            subs.append(x)
        else:
            iss = r.choice(["alice", "alice", "bob", "old"])
            x = {"op": "fp_pack", "claims": {"iss": d(iss), "sub": d(iss + "3")}, "out": "f%d" % i, "env": e(iss if iss != "old" else "alice")}
            if r.random() < .6:
                x["kid"] = kid(iss, r.choice(["s1", "s2"]) if iss != "old" else "s1")
            y = {"op": "wrap", "in": "wt", "to": to, "rks": [d(q) for q in r.choice([["m1"], ["m1", "m2"], ["m2", "bob"], ["alice", "m1"]])], "anon": r.choice([CBC, XC, GCM]), "out": "w%d" % i, "env": e(snd)}
            subs.append(r.choice([x, x, {"op": "fp_unpack", "in": "fp", "env": e("alice")}, y]))
    order = [r.randrange(n) for _ in range(r.choice([3, 10, 40, 90]))]
    sc = {"op": "sched", "ops": subs, "order": order}
    if c["cancel"]:
        sc["cancel"] = [{"at": r.randrange(0, 12), "i": i} for i in r.sample(range(n), min(n, c["cancel"]))]
    at = r.randrange(1, 10)
    if chg == "doc":
        # alice or bob replaces keys under the same ids, reorders or removes them
        who = r.choice(["alice", "bob"])
        nd = json.loads(json.dumps(w.docs[d(who)]))
        k = r.randrange(3)
        if k == 0:
            for v in nd["vms"]:
                v["key"] += "new"
        elif k == 1:
            nd["ka"].reverse()
            nd["auth"].reverse()
        else:
            nd["ka"] = nd["ka"][1:]
            nd["auth"] = nd["auth"][1:]
        sc["sets"] = [{"at": at, "world": {"docs": {d(who): nd}, "wallets": {}}}]
    if chg == "gone":
        who = r.choice(["alice", "bob", "old"])
        sc["sets"] = [{"at": at, "world": {"docs": {d(who): "gone"}, "wallets": {}}}]
        if r.random() < .5:
            sc["sets"].append({"at": at + 3, "world": {"docs": {d(who): w.docs[d(who)]}, "wallets": {}}})
    if chg == "wallet":
        who = r.choice(["alice", "bob"])
        l = [s for s in w.wallets[who] if r.random() < .5]
        sc["sets"] = [{"at": at, "world": {"docs": {}, "wallets": {who: l}}}]
        if r.random() < .5:
            sc["sets"].append({"at": at + 4, "world": {"docs": {}, "wallets": {who: w.wallets[who]}}})
    if chg in ("many", "rekey"):
        # several changes, each of one document or one wallet; keys change under their ids
        now, wal, sc["sets"] = {k: v for k, v in w.docs.items()}, {k: v for k, v in w.wallets.items()}, []
        for at in sorted(r.sample(range(1, 26), r.randrange(2, 5))):
            who = r.choice(["alice", "bob", "bob", "alice", "old", "m1"])
            kind = r.choice(["rekey", "rekey-doc", "rekey-wallet"]) if chg == "rekey" else \
                r.choice(["rekey", "rekey-doc", "rekey-wallet", "svc", "drop", "gone", "forget", "order", "back"])
            nd, nw = json.loads(json.dumps(now.get(d(who)) or w.docs[d(who)])), json.loads(json.dumps(wal.get(who, [])))
            one = r.random() < .5
            pick = r.randrange(4)
            t = "n%d" % at
            if kind in ("rekey", "rekey-doc"):
                for i, v in enumerate(nd["vms"]):
                    if not one or i == pick:
                        v["key"] += t
            if kind in ("rekey", "rekey-wallet"):
                for i, v in enumerate(nw):
                    if not one or i == pick:
                        v["key"] += t
            if kind == "svc":
                nd["svcs"] = [] if nd["svcs"] and r.random() < .4 else w.docs[d("bob")]["svcs"] and json.loads(json.dumps(w.docs[d("bob")]["svcs"]))
                for v in nd["svcs"]:
                    v["rk"] = [d("m1"), d("m2")][:r.randrange(3)]
            if kind == "drop":
                nd["ka"], nd["auth"] = nd["ka"][1:], nd["auth"][1:]
            if kind == "order":
                nd["ka"].reverse()
                nd["auth"].reverse()
            if kind == "forget":
                nw = [v for v in nw if r.random() < .5]
            if kind == "back":
                nd, nw = w.docs[d(who)], w.wallets.get(who, [])
            x = {"docs": {}, "wallets": {}}
            if kind == "gone":
                now[d(who)] = None
                x["docs"][d(who)] = "gone"
            else:
                if kind not in ("rekey-wallet", "forget"):
                    now[d(who)] = x["docs"][d(who)] = nd
                if kind not in ("rekey-doc", "svc", "drop", "order") and (nw or who in w.wallets):
                    wal[who] = x["wallets"][who] = nw
            sc["sets"].append({"at": at, "world": x})
    if chg == "none" and r.random() < .3:
        for s in subs:
            if r.random() < .3:
                s["env"]["dfault"] = {d(r.choice(["alice", "bob", "m1"])): "IoError"}
    ops.append(sc)
    for i, s in enumerate(subs):
        if s["op"].startswith("pack") and chg == "none":
            ops.append(unpack("s%d" % i, "bob"))
    return w, ops


def f_fresh(c, r):
    w = W()
    for i in range(c["nk"]):
        w.pub("bob", "ka", "k%d" % (i + 1), c["crv"])
    if r.random() < .25:
        many(w, r.choice([2, 4, 8, 12]), r, c["crv"])
    w.pub("alice", "ka", "k1", c["crv"])
    w.pub("alice", "auth", "s1", "E")
    mediators(w, only=("m1", "m2"))
    w.svc("bob", 1, rk=[d("m1"), d("m2")][:c["hops"]])
    mode = c["mode"]
    ops = []
    for i in range(c["n"]):
        ops.append(pack(mode, smsg(d("alice")), "p%d" % i, d("bob"), d("alice"), d("alice"), {"anon": c["anon"], "protect": True if "protect" in mode else None}, env("alice")))
        if i == 0 and c["hops"]:
            ops.append({"op": "wrap", "in": "p0", "to": d("bob"), "rks": [d("m1"), d("m2")], "anon": c["anon"], "out": "w", "env": env()})
    return w, ops


def f_opts(c, r):
    w = W()
    w.pub("bob", "ka", "k1", "X")
    w.pub("bob", "ka", "k2", "X")
    w.pub("alice", "ka", "k1", "X")
    w.pub("alice", "auth", "s1", "E")
    mediators(w, only=("m1", "m2"))
    w.svc("bob", 1, rk=[d("m1"), d("m2")][:c["hops"]])
    w.svc("bob", 2, rk=[d("m2")], uri="https://second.example")
    mode = c["mode"].replace("+protect", "")
    mode = mode if c["auth"] == "y" or "auth" not in mode else mode.replace("auth", "anon")
    yn = {"~": None, "y": True, "n": False}
    sv = {"~": None, "ok": kid("bob", "s2"), "null": None}[c["svc"]]
    hd = {"~": None, "0": {}, "1": rhdrs(r, 2), "null": None}[c["hdrs"]]
    if c["via"] == "json":
        j = {}
        for f, n in (("protect", "protect_sender"), ("fwd", "forward")):
            if c[f] != "~":
                j[n] = yn[c[f]]
        if c["svc"] != "~":
            j["messaging_service"] = sv
        if c["hdrs"] != "~":
            j["forward_headers"] = hd
        if c["anon"] != "~":
            j["enc_alg_anon"] = ANONJ[c["anon"]]
        if c["extra"] == "y":
            j["another_option"] = rjson(r, 1)
            j["enc_alg_auth"] = "A256cbcHs512Ecdh1puA256kw"
        o = {"json": json.dumps(j)}
    else:
        o = {k: v for k, v in {"protect": yn[c["protect"]], "forward": yn[c["fwd"]], "svc": sv, "headers": hd, "anon": None if c["anon"] == "~" else c["anon"]}.items() if v is not None}
    ops = [{"op": "defaults"}, pack(mode, smsg(d("alice"), [d("bob")]), "p", d("bob"), d("alice"), d("alice"), o, env("alice"))]
    w.wallets["every"] = w.wallets["bob"] + w.wallets["m1"] + w.wallets["m2"]
    u = uopts(yn[c["all"]], yn[c["unwrap"]], c["uvia"], c["extra"] == "y")
    for wl in ("bob", "every"):
        ops.append({"op": "unpack", "in": "p", "opts": u, "env": env(wl)})
    if c["rewrap"] == "y":
        ops.append(craft(jwe(plain(fwdmsg(kid("bob", "k1"), {"$json": "p"})), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}], ES, XC), "f"))
        ops.append({"op": "unpack", "in": "f", "opts": u, "env": env("every")})
    # all-keys mode with one recipient that does not decrypt
    ops.append(craft(jwe(plain(smsg()), [{"kid": kid("bob", "k1"), "key": "X:bob-k1"}, {"kid": kid("bob", "k2"), "key": "X:bob-k2", "cek": "other"}], ES, GCM), "g"))
    ops.append({"op": "unpack", "in": "g", "opts": u, "env": env("bob")})
    return w, ops


# ---- JSON values --------------------------------------------------------------------------------
def tag(v):
    if v is None:
        return {"t": "z", "z": "z"}
    if isinstance(v, bool):
        return {"t": "b", "b": "true" if v else "false"}
    if isinstance(v, (int, float)):
        return {"t": "n", "n": json.dumps(v), "u": "u" if isinstance(v, int) and 0 <= v < 2 ** 64 else "f"}
    if isinstance(v, str):
        return {"t": "s", "s": v}
    if isinstance(v, list):
        return {"t": "a", "a": [tag(x) for x in v]}
    return {"t": "o", "o": {k: tag(x) for k, x in v.items()}}


VT = ["JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019", "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other"]


def noarr(r, n=2):
    """any value but an array (serde reads arrays as structs, which no specification asks for)"""
    while True:
        v = rjson(r, n)
        if not isinstance(v, list):
            return v


SYN = {"thid": ["threadId", "thread_id", "~thread"], "pthid": ["parentThreadId", "parent_thread_id", "parent_thid"], "created_time": ["createdTime", "created"], "expires_time": ["expiresTime", "expires"],
       "from_prior": ["fromPrior"], "id": ["@id", "_id", "ID"], "type": ["@type", "kind", "type_", "typ"], "body": ["content", "payload"], "to": ["recipients", "next"], "from": ["from_", "sender"],
       "attachments": ["attachment", "~attach"], "verificationMethod": ["publicKey", "verificationMethods"], "keyAgreement": ["key_agreements", "keyAgreements"], "authentication": ["auth", "authentications"],
       "service": ["services", "didcommService"], "serviceEndpoint": ["endpoint", "service_endpoint"], "routingKeys": ["routing_keys"], "uri": ["url"], "media_type": ["mediaType", "mime-type"],
       "lastmod_time": ["lastmodTime"], "byte_count": ["byteCount"], "iss": ["issuer"], "sub": ["subject"], "forward_headers": ["forwardHeaders"], "messaging_service": ["messagingService"],
       "protect_sender": ["protectSender", "protect_sender_id"], "enc_alg_anon": ["encAlgAnon"], "expect_decrypt_by_all_keys": ["expectDecryptByAllKeys"], "data": ["content"], "json": ["JSON"], "base64": ["base_64"]}


def spoil(r, o, keys, extra=True, enumk=()):
    """removes, nulls, retypes or adds members"""
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.randrange(6)
        if k == 0 and o:
            o.pop(r.choice(sorted(o)), None)
        elif k == 1:
            o[r.choice(keys)] = None
        elif k == 2:
            x = r.choice(keys)
            o[x] = r.choice([3, "str", True, 1.5, -1]) if x in enumk else noarr(r)
        elif k == 3 and extra:
            o[r.choice(["extra", "x", "Id", "controller2", "@context"])] = rjson(r, 2)
        elif k == 4 and o:
            a = r.choice(sorted(o))
            camel = "".join(p if i == 0 else p.title() for i, p in enumerate(a.split("_")))
            b = r.choice([a.swapcase(), "".join("_" + ch.lower() if ch.isupper() else ch for ch in a), camel, "@" + a, a + "_", a + "s", a.rstrip("s"), a.title()] + SYN.get(a, []) * 2)
            if b not in o:
                o[b] = o.pop(a)
    return o


def material(r, p):
    def jw():
        return {"kty": "OKP", "crv": "X25519", "x": rstr(r), "n": r.choice(NUMS)} if r.random() < .7 else noarr(r)
    m = {}
    for k in r.sample([p + "KeyJwk", p + "KeyMultibase", p + "KeyBase58"], r.choice([1, 1, 1, 1, 0, 2, 3])):
        m[k] = jw() if k.endswith("Jwk") else rstr(r) if r.random() < .85 else r.choice([3, None, {}])
    return m


def rvm(r):
    o = {"id": rstr(r), "type": r.choice(VT), "controller": rstr(r)}
    o.update(material(r, "public"))
    return spoil(r, o, ["id", "type", "controller"], enumk=("type",)) if r.random() < .3 else o


def rsecret(r):
    o = {"id": rstr(r), "type": r.choice(VT)}
    o.update(material(r, "private"))
    if r.random() < .2:
        o["type"] = r.choice(["jsonWebKey2020", "JsonWebKey", "", "X25519KeyAgreementKey2021", "Ed25519VerificationKey2019"])
    return spoil(r, o, ["id", "type"], enumk=("type",)) if r.random() < .4 else o


def rsvc(r):
    t = r.choice(["DIDCommMessaging", "DIDCommMessaging", "DIDCommMessaging", "Other"])
    if t == "Other":
        e = {rstr(r): rjson(r, 2) for _ in range(r.randrange(4))} if r.random() < .8 else {"uri": "x", "accept": ["didcomm/v2"], "routingKeys": []}
    else:
        e = {"uri": rstr(r)}
        if r.random() < .7:
            e["accept"] = r.choice([[], ["didcomm/v2"], ["a", "b"], None, [rstr(r)]])
        if r.random() < .7:
            e["routingKeys"] = [rstr(r) for _ in range(r.randrange(3))]
        if r.random() < .3:
            spoil(r, e, ["uri", "accept", "routingKeys"])
    o = {"id": rstr(r), "type": t, "serviceEndpoint": e}
    if r.random() < .1:
        o["type"] = r.choice(["didCommMessaging", "DIDComm", "other", "", "LinkedDomains"])
    return spoil(r, o, ["id", "type", "serviceEndpoint"], enumk=("type", "serviceEndpoint"))


def rdoc(r):
    o = {"id": rstr(r), "keyAgreement": [rstr(r) for _ in range(r.randrange(3))], "authentication": [rstr(r) for _ in range(r.randrange(3))],
         "verificationMethod": [rvm(r) for _ in range(r.randrange(3))], "service": [rsvc_ok(r) for _ in range(r.randrange(3))]}
    return spoil(r, o, list(o)) if r.random() < .4 else o


def rsvc_ok(r):
    while True:
        s = rsvc(r)
        if r.random() < .1 or (isinstance(s.get("serviceEndpoint"), dict) and s.get("type") in ("Other", "DIDCommMessaging")):
            return s


def f_doc(c, r):
    r = random.Random(c["seed"])
    ops = []
    for _ in range(4):
        ty, v = r.choice([("DIDDoc", rdoc), ("DIDDoc", rdoc), ("VM", rvm), ("Service", rsvc), ("Secret", rsecret)])
        ops.append({"op": "json", "arg": {"ty": ty, "v": tag(v(r))}})
    return W(), ops


def natt(r):
    a = ratt(r)
    k = r.random()
    if k < .25:
        a["data"] = spoil(r, a["data"], ["jws", "base64", "hash"])
    elif k < .35:
        a["data"] = r.choice([{"base64": "x", "json": 1, "jws": "j"}, {"json": None}, {"links": ["a"], "hash": "h", "base64": 3}, {"links": ["a"]}, {"hash": "x"}, {}, 3, None, {"base64": 3, "json": {}},
                              {"base64": None, "json": 1}, {"links": [1], "hash": "h"}, {"jws": "x"}])
    elif k < .5:
        spoil(r, a, ["id", "description", "filename", "media_type", "format", "lastmod_time", "byte_count"])
    return a


def f_msgj(c, r):
    r = random.Random(c["seed"])
    w = W()
    ops = []
    for _ in range(3):
        k = r.randrange(8)
        if k == 0:
            ops.append({"op": "json", "arg": {"ty": "Attachment", "v": tag(natt(r))}})
        elif k == 1:
            o = {"iss": rstr(r), "sub": rstr(r)}
            for f in ("aud", "jti"):
                if r.random() < .5:
                    o[f] = rstr(r)
            for f in ("exp", "nbf", "iat"):
                if r.random() < .5:
                    o[f] = r.choice(U64S + [-1, 1.5, "1", None])
            ops.append({"op": "json", "arg": {"ty": "FromPrior", "v": tag(spoil(r, o, list(o)) if r.random() < .5 else o)}})
        elif k == 2:
            ty, v = r.choice([("Anon", r.choice(list(ANONJ.values()) + list(ANONJ) + ["", "xc20pEcdhEsA256kw", "A256cbcHs512Ecdh1puA256kw"])),
                              ("Auth", r.choice(["A256cbcHs512Ecdh1puA256kw", "A256cbcHs512EcdhEsA256kw", "", CBC])), ("Sign", r.choice(["EdDSA", "ES256", "ES256K", "EdDsa", "Es256", "eddsa", ""])),
                              ("Headers", r.choice([{}, {"a": rjson(r, 1)}, {"": None, "b": rjson(r, 2)}, None, "", [], 1, True, "{}"])),
                              ("Keys", r.choice([[], ["did:ex:a"], ["did:ex:a#1", "did:ex:b"], [1], ["did:ex:a", None], [["did:ex:a"]], {}, None, "did:ex:a", 0]))])
            ops.append({"op": "json", "arg": {"ty": ty, "v": tag(v)}})
        elif k == 3:
            if r.random() < .5:
                o = {}
                for f, vs in (("protect_sender", [True, False]), ("forward", [True, False]), ("forward_headers", [{}, {"a": rjson(r, 1)}, None]), ("messaging_service", [rstr(r), None]),
                              ("enc_alg_auth", ["A256cbcHs512Ecdh1puA256kw"]), ("enc_alg_anon", list(ANONJ.values()))):
                    if r.random() < .5:
                        o[f] = r.choice(vs)
                v = spoil(r, o, ["protect_sender", "forward", "forward_headers", "messaging_service", "enc_alg_anon"], enumk=("enc_alg_anon",)) if r.random() < .3 else o
                ops.append({"op": "json", "arg": {"ty": "PackOpts", "v": tag(v)}})
            else:
                o = {}
                for f in ("expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"):
                    if r.random() < .5:
                        o[f] = r.choice([True, False])
                v = spoil(r, o, ["expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"]) if r.random() < .3 else o
                ops.append({"op": "json", "arg": {"ty": "UnpackOpts", "v": tag(v)}})
        else:
            m = rmsg(r, r.choice([None, rstr(r)]), r.choice([None, [], [rstr(r)], [rstr(r), rstr(r)]]))
            if m.get("attachments"):
                m["attachments"] = [natt(r) for _ in m["attachments"]]
            q = r.random()
            if q < .5:
                spoil(r, m, ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "attachments"])
            elif q < .6:
                m["typ"] = r.choice([None, 3] + TYPS)
            elif q < .65:
                m.pop("typ")
            elif q < .75:
                m[r.choice(["to", "attachments"])] = r.choice(["x", {}, [3], [None], [[]], 3, ["a", 3]]) if r.random() < .8 else None
                if isinstance(m.get("attachments"), list) and m["attachments"] == [[]]:
                    m["attachments"] = [3]
            ops.append({"op": "json", "arg": {"ty": "Message", "v": tag(m)}})
            # the same text offered to unpacking
            if r.random() < .6:
                t = json.dumps(m, ensure_ascii=r.random() < .5)
                if r.random() < .15:
                    t = r.choice([lambda x: "\ufeff" + x, lambda x: x + "\u0000", lambda x: " \n\t\r" + x + "\n ", lambda x: x + x, lambda x: x + " {}", lambda x: x + ",", lambda x: "[" + x + "]", lambda x: "\u00a0" + x,
                                  lambda x: x[:-1], lambda x: x[:-1] + ",}", lambda x: json.dumps(x), lambda x: x.replace("{", "{ ", 1).replace("\"", "'"), lambda x: "// c\n" + x, lambda x: x + "\ufeff"])(t)
                ops.append(craft({"t": "text", "v": t}, "t"))
                ops.append(unpack("t", None))
    # a message packed as plaintext
    ops.append({"op": "pack_plain", "msg": rmsg(r, r.choice([None, d("alice")])), "out": "p", "env": env()})
    ops.append(unpack("p", None))
    return w, ops


def f_build(c, r):
    r = random.Random(c["seed"])
    ops = []
    for _ in range(3):
        of = r.choice(["Message", "Message", "FromPrior", "Base64", "Json", "Links"])
        n = r.choice([0, 1, 2, 3, 5, 9, 16])
        S = lambda: rstr(r)
        N = lambda: str(r.choice(U64S))
        L = lambda: [rstr(r) for _ in range(r.randrange(4))]
        calls = []
        for _ in range(n):
            if of == "Message":
                k = r.choice(["to", "to_many", "from", "thid", "pthid", "header", "header", "created_time", "expires_time", "from_prior", "attachment", "attachments"])
                a = {"to_many": L, "attachments": L, "header": lambda: [r.choice(["a", "b", "lang", "\u00e9"]), tag(rjson(r, 2))], "created_time": N, "expires_time": N}.get(k, S)()
            elif of == "FromPrior":
                k = r.choice(["aud", "exp", "nbf", "iat", "jti"])
                a = N() if k in ("exp", "nbf", "iat") else S()
            else:
                k = r.choice(["id", "description", "filename", "media_type", "format", "lastmod_time", "byte_count", "jws"])
                a = N() if k in ("lastmod_time", "byte_count") else S()
            calls.append({"c": k, "a": a})
        init = {"Message": lambda: [S(), S(), tag(rjson(r, 2))], "FromPrior": lambda: [S(), S()], "Base64": lambda: [S()], "Json": lambda: [tag(rjson(r, 2))], "Links": lambda: [L(), S()]}[of]()
        ops.append({"op": "builder", "arg": {"of": of, "init": init, "calls": calls}})
    return W(), ops


def f_err(c, r):
    ctx = [rstr(r) for _ in range(c["n"] if r.random() < .7 else c["n"] * r.choice([2, 3, 4, 9]))]
    return W(), [{"op": "err", "arg": {"via": c["via"], "kind": c["kind"], "m": rstr(r), "cause": rstr(r), "case": c["case"], "ctx": ctx}}]


def f_exres(c, r):
    r = random.Random(c["seed"])
    ids = [d("a"), d("ab"), d("a") + "#k", kid("a", "k1"), kid("a", "k10"), kid("b", "k1"), "", "x", "X", d("A"), d("a") + "/", d("a") + " ", " " + d("a"), d("a") + "?v=1", kid("a", "k1/"), kid("a", "K1"), kid("a", "k1 "), "#k1", "k1", d("a") + ":", "\u00e9", "e\u0301", d("a") + "\u0000"]
    if r.random() < .7:
        ids = r.sample(ids, 6)
    mk = lambda n: [{"id": r.choice(ids), "mark": "m%d" % i} for i in range(n)]
    q = []
    for _ in range(r.randrange(1, 8)):
        k = r.choice(["did", "get", "find", "find"])
        q.append({"k": k, "ids": [r.choice(ids) for _ in range(r.randrange(6))]} if k == "find" else {"k": k, "id": r.choice(ids)})
    if r.random() < .5:
        q += q
    return W(), [{"op": "exres", "arg": {"docs": mk(r.randrange(6)), "secrets": mk(r.randrange(6)), "q": q}}]


def f_tpf(c, r):
    r = random.Random(c["seed"])
    ops = []
    for _ in range(4):
        m = rmsg(r)
        m["type"] = r.choice([FORWARD] * 4 + [FORWARD + "/", FORWARD.upper(), FORWARD[:-1], "https://didcomm.org/routing/2.1/forward"])
        m["body"] = r.choice([{"next": rstr(r)}, {"next": rstr(r)}, {"next": rstr(r), "x": 1}, {"next": 3}, {"next": None}, {"next": [rstr(r)]}, {}, [], None, "next", {"Next": "x"}, {"next": {"next": "x"}}])
        if r.random() < .8:
            m["attachments"] = [ratt(r) for _ in range(r.randrange(4))]
        ops.append({"op": "tpf", "msg": m})
    return W(), ops


# ---- names -------------------------------------------------------------------------------------
DIDN = [{}, {}, {"bob": "ex:bob", "carol": "ex:bobby", "mallory": "ex:bo", "alice": "ex:al", "alice2": "ex:al:2", "old": "ex:a", "new": "ex:ol", "m1": "ex:m", "m2": "ex:m1", "m3": "ex:m12"},
        {"carol": "ex:alice:carol", "mallory": "ex:alicex", "alice2": "ex:alice2x", "old": "ex:alic", "bobx": "ex:bob-2", "med1": "ex:med", "med2": "ex:med1", "new": "ex:old2"},
        {"carol": "ex:olden", "old": "ex:old", "new": "ex:olde", "alice": "ex:car", "bob": "ex:carbob"},
        {"alice": "peer:2.Ez6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc.Vz6MkqRYqQiSgvZQdnBytw86Qbs2ZWUkGv22od935YF4s8M7V", "bob": "web:example.com%3A3000:users:bob",
         "carol": "key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK", "m1": "example:123456789abcdefghi?versionId=4", "old": "example:path/sub"},
        {"alice": "ex:a::b", "bob": "ex::bob", "carol": "::", "m1": "ex:m:", "m2": ":m2", "old": "ex:%23", "new": "EX:New", "med1": "ex: med1"},
        {"alice": "ex:" + "a" * 300, "bob": "ex:" + "a" * 1100, "carol": "ex:" + "a" * 1099, "m1": "ex:" + "m" * 255, "m2": "ex:" + "m" * 256, "old": "ex:" + "a" * 299},
        {"alice": "ex:\u00e9toile", "bob": "ex:\u4e2d\u6587", "carol": "ex:\u4e2d", "m1": "ex:\U0001f600", "m2": "ex:e\u0301", "old": "ex:\u00c9toile", "new": "ex:etoile"}]
DIDN.append({"alice": "ex:alice", "old": "ex:Alice", "carol": "ex:ALICE", "bob": "ex:alicE", "mallory": "ex:aLice", "alice2": "EX:alice", "new": "Ex:alice", "m1": "ex:M", "m2": "ex:m"})
FRAG = [{}, {}, {"k1": "key-1", "k2": "key-10", "k3": "key-100", "s1": "key-2", "s2": "key-20", "x": "1", "p": "12"},
        {"k1": "key-10", "k2": "key-1", "k3": "key-", "s1": "key-21", "s2": "key-2", "s3": "key-211", "x": "12", "p": "1"},
        {"k1": "", "k2": "k", "k3": "K", "s1": "S", "s2": "s", "s3": "S#", "x": "X", "p": "x#p"},
        {"k1": "AA==", "k2": "AA=", "k3": "AA", "s1": "=", "s2": "==", "x": "x=", "p": "="},
        {"k1": "z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc", "k2": "k/2", "k3": "k:3", "s1": "did:ex:alice"},
        {"k1": "k" * 400, "k2": "k" * 401, "k3": "k" * 64, "s1": "s" * 300, "s2": "s" * 299, "x": "x" * 200},
        {"k1": "cl\u00e9", "k2": "cle", "k3": "CL\u00c9", "s1": "\u00fc", "s2": "u\u0308", "x": "\U0001f511", "p": "?"}]
RENAME = ("mode", "sel", "addr", "unp", "hdr", "sig", "fp", "fpiss", "route", "wrap", "fwd", "tamper", "fault", "rep", "sched", "opts")


def rename(sc, r):
    """the same scenario with other identifiers (some of them prefixes of others)"""
    import re
    dn, fn = r.choice(DIDN), r.choice(FRAG)

    def one(m):
        n, f = m.group(1), m.group(2)
        return "did:" + dn.get(n, "ex:" + n) + ("#" + fn.get(f, f) if f is not None else "")
    return json.loads(re.sub(r"did:ex:([a-z0-9]+)(?:#([A-Za-z0-9]+))?", one, json.dumps(sc)))


def rekey(sc, r):
    """the same scenario with keys of unusual material (a zero first, last, ...)"""
    import re
    p = {}
    return json.loads(re.sub(r'"([XEPK]:[A-Za-z0-9-]+)"', lambda m: '"%s%s"' % (m.group(1), p.setdefault(m.group(1), r.choice(["~z", "~z", "~l", "~y", "~d", ""]))), json.dumps(sc)))


def dups(w, r):
    """a document that lists a key twice"""
    l = [x for x in w.docs.values() if x["ka"] or x["auth"]]
    if l:
        x = r.choice(l)
        q = x["ka"] if x["ka"] and (not x["auth"] or r.random() < .7) else x["auth"]
        i = r.randrange(len(q))
        q.insert(r.choice([i, i, i + 1, len(q)]), q[i])


def concretise(fam, c, idx, seed):
    base = fam[:-4] if fam.endswith(("-all", "-pub", "-sec")) else fam[:-6] if fam.endswith("-pairs") else fam
    base = {"sel2": "sel"}.get(base, base)
    r = random.Random(json.dumps(c, sort_keys=True) + str(seed))
    w, ops = globals()["f_" + base](c, r)
    if base in RENAME and r.random() < .05:
        dups(w, r)
    sc = {"id": "%s.%d" % (fam, idx), "world": w.json(), "ops": ops}
    if base in RENAME and r.random() < .5:
        sc = rename(sc, r)
    if base in RENAME and r.random() < .12:
        sc = rekey(sc, r)
    return sc


if __name__ == "__main__":
    fam, path, seed = sys.argv[1:4]
    for i, line in enumerate(open(path)):
        print(json.dumps(concretise(fam, json.loads(line), i, seed)))
