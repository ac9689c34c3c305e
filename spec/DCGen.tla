-------------------------------- MODULE DCGen --------------------------------
(* Stimulus: for every family of scenarios, the dimensions along which the behaviour of the
   specification varies.  TLC draws choice records (all of them where the family is small, a seeded
   random sample otherwise); tools/conc.py turns each into a concrete scenario for the harness.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization, Json, IOUtils, SequencesExt

Ask  == ndJsonDeserialize(IOEnv.VF_ASK)      \* lines [f |-> family, n |-> how many, p |-> family whose pairs are wanted, or ""]
Base == IOEnv.VF_OUT

Bool  == {"y", "n"}
KinDs == {"DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "Malformed", "IoError", "InvalidState",
          "NoCompatibleCrypto", "Unsupported", "IllegalArgument"}
Anon  == {"XC20P", "A256GCM", "A256CBC-HS512"}
Modes == {"plain", "signed", "anon", "anon+sign", "auth", "auth+sign", "auth+protect", "auth+sign+protect"}
EncModes == Modes \ {"plain", "signed"}
Reps  == {"jwk", "b58", "mb", "jwk-more"}
\* "<curve>/<state>": ok published and owned; nosec not owned; novm listed without a method;
\* unl a method that is not listed; oth owned under that id but another key; u unsupported; bad unusable
KS    == {"X/ok", "P/ok", "X/ok", "P/ok", "X/nosec", "P/nosec", "X/novm", "X/unl", "P/unl", "X/oth", "P/oth",
          "X/u", "P/u", "X/bad", "P/bad", "X/secbad", "P/secbad", "X/secu", "E/ok", "K/ok", "-"}
KOk   == {"X/ok", "P/ok", "X/nosec", "P/nosec", "-"}
AS    == {"E/ok", "P/ok", "K/ok", "E/nosec", "P/nosec", "K/nosec", "E/novm", "E/unl", "E/oth", "E/u", "P/u", "E/bad", "E/secbad", "E/secu", "P/secbad", "X/ok", "-"}
R(S)  == RandomElement(S)

Hdr == {"none", "apv-unsorted", "apv-rev", "apv-sep", "apv-cut", "apv-ext", "apv-other", "apv-empty", "apv-subset", "apv-dup",
        "kid-case", "apu-missing", "apu-other", "apu-otherdid", "apu-did", "apu-hex", "apu-empty", "apu-case",
        "skid-missing", "skid-other", "skid-only", "skid-on-es", "apu-on-es", "skidapu-on-es", "skidapu-differ-es",
        "alg-unknown", "alg-swap", "alg-es256k", "enc-unknown", "enc-GCM", "enc-XC", "enc-CBC", "typ-other", "typ-missing", "typ-num",
        "rcp-none", "rcp-otherdid", "rcp-did", "rcp-prefix", "rcp-dup", "rcp-order", "rcp-first-bad", "rcp-extra-nokey",
        "epk-badx", "epk-badb64", "epk-nox", "epk-crv", "epk-str", "epk-extra", "epk-offcurve", "epk-ed", "epk-other", "epk-missing",
        "extra-prot", "extra-top", "extra-rcp", "null-opt", "prot-notjson", "prot-notb64", "prot-array", "prot-trunc", "prot-pad",
        "no-alg", "no-enc", "no-apv", "alg-num", "iv-short", "iv-badb64", "tag-short", "tag-badb64", "tag-empty", "ct-badb64", "ct-empty", "iv-missing", "ek-zero", "ek-short", "ek-empty",
        "ek-badb64", "cek-short", "cek-long", "cek-other", "ek-missing", "kid-missing", "header-missing", "pl-nonutf8", "pl-badutf8", "pl-empty", "pl-notjson", "in-anon"}
SigV == {"ok", "zero", "short", "long", "empty", "badb64", "pad", "otherpl", "plonly", "otherprot", "none", "two", "two-badfirst", "two-badsecond", "dup",
         "alg-other", "alg-unknown", "alg-none", "alg-missing", "alg-case", "typ-missing", "typ-other", "kid-nofrag", "kid-unlisted", "kid-case", "kid-rel", "kid-other", "kid-missing", "kid-unknown",
         "kid-kaonly", "key-other", "prot-notjson", "prot-notb64", "prot-extra", "prot-array", "top-extra", "sig-missing", "payload-pad", "payload-badb64", "payload-missing", "header-extra",
         "pl-nonutf8", "pl-badutf8", "pl-notjson", "pl-jws", "pl-jwe", "pl-typ"}
FpVar == {"ok", "ok", "sig-zero", "sig-short", "sig-empty", "sig-badb64", "sig-pad", "sig-otherprot", "typ-missing", "typ-other", "typ-lower", "alg-other", "alg-unknown", "alg-none", "kid-nofrag",
          "kid-otherdid", "kid-twin1", "kid-twin2", "kid-unlisted", "kid-case", "kid-rel", "kid-unknown", "kid-ka", "key-other", "forged-other", "segs1", "segs2", "segs4", "segs5", "claims-noiss", "claims-nosub", "claims-badexp",
          "claims-num", "claims-extra", "claims-null", "praw", "hraw", "pl-nonutf8", "pl-badutf8", "iss-sub", "iss-frag", "iss-notdid", "iss-other", "sub-other", "sub-frag", "over-extra", "empty", "ref"}
Svc == {"dc", "dc-empty", "dc-v2", "dc-both", "dc-v1", "dc-aip", "other", "-"}
Uri == {"https", "https", "med1", "med2", "medbad", "medrec", "medgone", "medoth", "med1kid", "meddeny"}
Rk  == {"", "m1", "m2", "m1,m2", "m2,m1", "m1,m2,m3", "m1#x", "m1#p", "m1,m2#x", "m1,m1", "gone", "m1#nope", "empty", "unsup", "m1,gone", "m3#x,m1"}

Dims(f) ==
  CASE f = "mode" ->
    [mode |-> Modes, anon |-> Anon, bk1 |-> {"X", "P"}, bk2 |-> {"X", "P", "-"}, bk3 |-> {"X", "P", "-"},
     brep |-> Reps, arep |-> Reps, ak1 |-> {"X", "P"}, ak2 |-> {"X", "P"}, sk |-> {"E", "P", "K"}, sk2 |-> {"E", "P", "K", "-"},
     to |-> {"did", "kid1", "kid2"}, from |-> {"did", "kid1", "kid2"}, by |-> {"did", "kid1", "kid2"}, signer |-> {"alice", "carol"},
     hops |-> 0..3, hdrs |-> {0, 1, 2}, msg |-> 1..1000, all |-> Bool, via |-> {"struct", "json"}, fp |-> {"n", "y"}, sub |-> 1..7]
    [] f = "sel" ->
    [mode |-> EncModes \cup {"signed"}, b1 |-> KS, b2 |-> KS, b3 |-> KS, a1 |-> KS, a2 |-> KS, a3 |-> KS,
     s1 |-> AS, s2 |-> AS, s3 |-> AS, to |-> {"did", "k1", "k2", "k3", "nope", "other"},
     from |-> {"did", "k1", "k2", "k3", "nope", "other"}, by |-> {"did", "k1", "k2", "k3", "nope", "other", "ka"},
     anon |-> Anon, rep |-> Reps, docs |-> {"both", "nobob", "noalice"}]
    [] f = "sel2" ->
    [mode |-> {"anon", "auth", "auth+protect"}, b1 |-> KOk, b2 |-> KOk, b3 |-> KOk, a1 |-> KOk, a2 |-> KOk, a3 |-> KOk,
     s1 |-> {"-"}, s2 |-> {"-"}, s3 |-> {"-"}, to |-> {"did", "k1", "k2", "k3"}, from |-> {"did", "k1", "k2", "k3"}, by |-> {"did"},
     anon |-> Anon, rep |-> Reps, docs |-> {"both"}]
    [] f = "addr" ->
    [mode |-> EncModes, to |-> {"bob", "bob#", "carol", "carol#", "bad0", "bad1", "bad2", "bad3", "bad4", "alice"},
     from |-> {"alice", "alice#", "carol", "bad0", "bad1", "bad3", "bob"}, by |-> {"alice", "alice#", "carol", "bad0", "bad2", "bad4"},
     mto |-> {"bob", "bob,carol", "carol,bob", "carol", "", "none", "bob#", "bob,bob", "bobx"}, mfrom |-> {"alice", "none", "carol", "alice#", "bob", "alicex"}, fwd |-> Bool]
    [] f = "unp" ->
    [auth |-> Bool, crv |-> {"X", "P"}, nk |-> 1..3, enc |-> Anon, all |-> Bool, opt |-> {"struct", "json", "json0"},
     w1 |-> {"ok", "no", "oth", "crv", "bad", "u", "ed"}, w2 |-> {"ok", "no", "oth", "crv", "bad", "u"}, w3 |-> {"ok", "no", "oth"},
     wrong |-> {0, 1, 2, 3}, sget |-> {"~", "none"} \cup {"IoError"}, sfind |-> {"~", "IoError"},
     sender |-> {"ok", "rot", "unl", "gone", "fail", "authonly", "novm", "bad", "u", "crv", "ed", "mallory", "kid-mallory", "did", "empty", "case", "rel"},
     sign |-> {"n", "y", "bad"}, srep |-> Reps, rrep |-> Reps, order |-> Bool, wrap |-> {"n", "anon"}]
    [] f = "hdr" -> [h |-> Hdr, h2 |-> {"none"} \cup Hdr, alg |-> {"es", "pu"}, enc |-> Anon, crv |-> {"X", "P"}, nk |-> 1..3, all |-> Bool, own |-> {"all", "first", "last", "none"}]
    [] f = "sig" -> [s |-> SigV, key |-> {"E", "P", "K"}, in |-> {"bare", "anon", "auth", "anon+auth"},
                     doc |-> {"ok", "gone", "fail", "rot", "unl", "novm", "rep", "bad", "u"}, rep |-> Reps, msg |-> 1..1000]
    [] f = "fp" -> [v |-> FpVar, key |-> {"E", "P", "K"}, rep |-> Reps, in |-> {"direct", "plain", "signed", "anon", "auth", "pack"},
                    doc |-> {"ok", "gone", "fail", "rot", "unl", "novm", "bad", "u"}, from |-> {"sub", "none", "other"}, extra |-> 0..3, lst |-> {"n", "y"}]
    [] f = "fpiss" -> [iss |-> {"alice", "alice#", "carol", "bad1", "gone", "fail"}, sub |-> {"alice2", "alice", "alice2#", "bad1", "carol"},
                       kid |-> {"none", "k1", "k2", "nope", "ka", "other", "nofrag", "unl", "tw1", "tw2"}, s1 |-> AS, s2 |-> AS, s3 |-> AS, extra |-> 0..7, kaonly |-> {"n", "n", "ka"},
                       sget |-> {"~", "none", "IoError"}, sfind |-> {"~", "Malformed"}, from |-> {"sub", "none", "other"}, lst |-> {"n", "y"}]
    [] f = "route" ->
    [mode |-> {"anon", "auth", "auth+sign", "auth+protect"}, s1 |-> Svc, s2 |-> Svc, s3 |-> Svc, u1 |-> Uri, u2 |-> Uri, u3 |-> Uri,
     r1 |-> Rk, r2 |-> Rk, r3 |-> Rk, svc |-> {"none", "1", "2", "3", "nope", "frag", "did", "case", "empty"}, fwd |-> {"y", "n", "-"}, anon |-> Anon,
     hdrs |-> 0..3, via |-> {"struct", "json"}, to |-> {"did", "kid"}, fail |-> {"-", "m1", "m2", "med1"}, dup |-> {"n", "y"}]
    [] f = "wrap" ->
    [rk |-> Rk, in |-> {"jwe", "plain", "bad", "num", "trunc"}, to |-> {"did", "kid", "str"}, anon |-> Anon, hdrs |-> 0..3, fail |-> {"-", "m1"}]
    [] f = "fwd" ->
    [type |-> {"fwd", "other", "case", "slash"}, body |-> {"next", "num", "none", "arr", "null", "extra", "str"},
     att |-> {"json", "b64", "links", "none", "empty", "json+b64", "b64+json", "two"},
     next |-> {"bob", "bobk1", "bobk2", "bobnope", "carol", "carolk", "gone", "fail", "str"},
     inner |-> {"anon", "auth", "sign+auth", "protect", "plain", "signed", "bad", "num", "other", "fwd", "fwdplain", "selffwd"},
     outer |-> {"anon", "auth", "anon+auth", "sign", "anon+sign", "bare", "twice"}, unwrap |-> {"y", "n"}, all |-> Bool,
     sfind |-> {"~", "IoError"}, own |-> {"all", "k1", "k2", "none"}, nfail |-> {"n", "y", "get"}, fp |-> {"n", "y"}]
    [] f = "tamper" ->
    [mode |-> Modes \ {"plain"}, bk |-> {"X", "P"}, nk |-> 1..2, sk |-> {"E", "P", "K"}, anon |-> Anon, m1 |-> 1..1000, m2 |-> {0, 1} \cup 2..500, hops |-> {0, 1}, all |-> Bool]
    [] f = "mal" -> [in |-> 1..1000, depth |-> {"bare", "anon", "sign", "auth", "fwd"}, m |-> {0, 1, 2, 3}, seed |-> 1..100000, via |-> {"unpack", "fp", "wrap"}]
    [] f = "fault" ->
    [op |-> {"pack", "unpack", "sign", "fppack", "fpunpack", "wrap"}, mode |-> EncModes, hops |-> 0..2, fp |-> {"n", "y"},
     did |-> {"alice", "bob", "m1", "m2", "carol", "zed", "med1", "none"}, kind |-> KinDs, gone |-> {"n", "y"},
     sget |-> {"~", "none"} \cup KinDs, sfind |-> {"~"} \cup KinDs, sf |-> {"n", "y"}, svc |-> {"rk", "did", "none"}, next |-> Bool,
     sid |-> {"-", "alice", "bob", "carol", "next", "one"}, sidk |-> {"none"} \cup KinDs]
    [] f = "rep" ->
    [mode |-> EncModes, crv |-> {"X", "P"}, rp |-> {"jwk", "b58", "mb", "jwk-more", "jwk-ops", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-crv", "jwk-kty", "jwk-swap", "jwk-nokty", "jwk-nocrv", "jwk-str", "jwk-case", "b58-bad", "b58-short", "b58-long", "b58-lead", "mb-lead", "b58-empty", "b58-uni", "mb-uni", "mb-zuni", "mb-long", "mb-noz", "mb-pfx", "mb-bad", "mb-empty", "mb-z", "mb-short", "mb-codec", "mb-priv", "mb-unk", "mb-trunc", "mb-nocodec", "mb-cont", "mb-over", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "u-other", "u-jwk19", "u-jwk20", "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"},
     rs |-> {"jwk", "b58", "mb", "jwk-more", "jwk-ops", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-crv", "jwk-kty", "jwk-str", "b58-bad", "b58-short", "b58-long", "b58-lead", "mb-lead", "b58-empty", "b58-uni", "mb-uni", "mb-zuni", "mb-long", "mb-noz", "mb-pfx", "mb-bad", "mb-empty", "mb-z", "mb-short", "mb-codec", "mb-pub", "mb-unk", "mb-trunc", "mb-cont", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-nod", "jwk-shortd", "jwk-longd", "jwk-emptyd", "jwk-numd", "jwk-zerod", "jwk-bigd", "jwk-otherd", "u-other", "u-jwk19", "u-jwk20", "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"},
     role |-> {"rcp", "sender", "signer", "hop", "fp"}, part |-> {"pub", "sec", "both"}, good |-> Bool, skey |-> {"E", "P", "K"}, second |-> Bool]
    [] f = "sched" ->
    [ops |-> 2..6, seed |-> 1..100000, change |-> {"none", "doc", "wallet", "gone", "many", "rekey"}, cancel |-> {0, 1, 2}, pend |-> {1, 2, 3}, kinds |-> {"mixed", "pack", "unpack"}]
    [] f = "fresh" -> [mode |-> EncModes, anon |-> Anon, crv |-> {"X", "P"}, hops |-> 0..2, n |-> 3..8, nk |-> 1..3]
    [] f = "opts" ->
    [mode |-> EncModes, anon |-> {"~"} \cup Anon, auth |-> Bool, fwd |-> {"~", "y", "n"}, protect |-> {"~", "y", "n"}, svc |-> {"~", "ok", "null"}, hdrs |-> {"~", "0", "1", "null"},
     via |-> {"struct", "json"}, all |-> {"~", "y", "n"}, unwrap |-> {"~", "y", "n"}, uvia |-> {"struct", "json"}, extra |-> Bool, hops |-> {0, 1, 2}, rewrap |-> Bool]
    [] f \in {"doc", "msgj", "build", "exres", "tpf", "proto"} -> [seed |-> 1..1000000]
    [] OTHER -> [seed |-> 1..1000000]

\* Many dimensions at once mostly cancel out: half of the draws keep one to three of the disturbing
\* dimensions and set the others to their undisturbed value.
Calm(f) ==
  CASE f = "unp" -> [w1 |-> "ok", w2 |-> "ok", w3 |-> "ok", wrong |-> 0, sget |-> "~", sfind |-> "~", sender |-> "ok", sign |-> "n", wrap |-> "n"]
    [] f = "sel" -> [b1 |-> "X/ok", b2 |-> "P/ok", b3 |-> "-", a1 |-> "X/ok", a2 |-> "P/ok", a3 |-> "-", s1 |-> "E/ok", s2 |-> "P/ok", s3 |-> "-", to |-> "did", from |-> "did", by |-> "did", docs |-> "both"]
    [] f = "addr" -> [to |-> "bob", from |-> "alice", by |-> "alice", mto |-> "bob", mfrom |-> "alice"]
    [] f = "sig" -> [s |-> "ok", doc |-> "ok"]
    [] f = "fp" -> [v |-> "ok", doc |-> "ok", from |-> "sub", lst |-> "n"]
    [] f = "fpiss" -> [iss |-> "alice", sub |-> "alice2", kid |-> "none", s1 |-> "E/ok", s2 |-> "P/ok", s3 |-> "K/ok", sget |-> "~", sfind |-> "~", kaonly |-> "n", from |-> "sub", lst |-> "n"]
    [] f = "route" -> [s1 |-> "dc", s2 |-> "dc", s3 |-> "-", u1 |-> "https", u2 |-> "https", u3 |-> "https", r1 |-> "m1", r2 |-> "m2", r3 |-> "", svc |-> "none", fwd |-> "y", fail |-> "-", dup |-> "n"]
    [] f = "wrap" -> [rk |-> "m1,m2", in |-> "jwe", to |-> "did", fail |-> "-"]
    [] f = "fwd" -> [type |-> "fwd", body |-> "next", att |-> "json", next |-> "bob", inner |-> "anon", outer |-> "anon", unwrap |-> "y", sfind |-> "~", own |-> "all", nfail |-> "n", fp |-> "n"]
    [] f = "fault" -> [did |-> "none", sf |-> "n", sid |-> "-", gone |-> "n"]
    [] f = "rep" -> [rp |-> "jwk", rs |-> "jwk"]
    [] f = "hdr" -> [h |-> "none", h2 |-> "none", own |-> "all"]
    [] OTHER -> [none |-> 0]
Draw(f) == [x \in DOMAIN Dims(f) |-> R(Dims(f)[x])]
Mix(d, c, k) == [x \in DOMAIN d |-> IF x \in DOMAIN c /\ x \notin k THEN c[x] ELSE d[x]]
Near(f) == IF R({TRUE, FALSE, FALSE}) THEN Draw(f) ELSE Mix(Draw(f), Calm(f), RandomSubset(R(1..IF Cardinality(DOMAIN Calm(f)) < 3 THEN 1 ELSE 3), DOMAIN Calm(f)))
\* Every pair of disturbances, with the undisturbing dimensions drawn at random
PairSeq(f) == LET C == SetToSeq(DOMAIN Calm(f)) IN
  SetToSeq(UNION {{<<C[i], a, C[j], b>> : a \in Dims(f)[C[i]], b \in Dims(f)[C[j]]} : <<i, j>> \in {q \in (1..Len(C)) \X (1..Len(C)) : q[1] < q[2]}})
With(d, q) == [d EXCEPT ![q[1]] = q[2], ![q[3]] = q[4]]
PairDraw(f, q) == With(Mix(Draw(f), Calm(f), {}), q)

\* Small families are enumerated completely
Whole(f) ==
  CASE f = "err" -> [via : {"msg", "new", "err_msg", "kind", "kind_no_context", "to_error_kind", "kind_ok", "kind_no_context_ok"}, kind : KinDs, case : {"-"}, n : 0..3]
                    \cup [via : {"json", "json_from"}, kind : {"Malformed"}, case : {"eof", "syntax", "data", "io"}, n : 0..4]
                    \cup [via : {"bs58", "bs58_from"}, kind : {"Malformed"}, case : {"small", "char", "other"}, n : 0..4]
                    \cup [via : {"bs58enc", "bs58enc_from", "json_ok"}, kind : {"Malformed"}, case : {"-"}, n : 0..4]
    [] f = "hdr-all" -> [h : Hdr, h2 : {"none"}, alg : {"es", "pu"}, enc : {"A256CBC-HS512"}, crv : {"X", "P"}, nk : {2}, all : {"n"}, own : {"all"}]
    [] f = "sig-all" -> [s : SigV, key : {"E", "P", "K"}, in : {"bare"}, doc : {"ok"}, rep : {"jwk"}, msg : {1}]
                        \cup [s : {"ok", "otherpl", "key-other", "kid-unlisted"}, key : {"E", "P", "K"}, in : {"bare", "anon", "auth"}, doc : {"ok", "gone", "fail", "rot", "unl", "novm", "rep", "bad", "u"}, rep : {"jwk"}, msg : {1}]
    [] f = "fp-all" -> [v : {"kid-otherdid", "kid-twin1", "kid-twin2", "forged-other", "iss-other"}, key : {"E", "P", "K"}, rep : {"jwk"}, in : {"direct", "plain"}, doc : {"ok"}, from : {"sub"}, extra : {0}, lst : {"y"}]
                       \cup [v : FpVar, key : {"E", "P", "K"}, rep : {"jwk"}, in : {"direct", "plain"}, doc : {"ok"}, from : {"sub"}, extra : {0}, lst : {"n"}]
                       \cup [v : {"ok", "key-other"}, key : {"E"}, rep : {"jwk"}, in : {"direct", "auth"}, doc : {"ok", "gone", "fail", "rot", "unl", "novm", "bad", "u"}, from : {"sub", "none", "other"}, extra : {1}, lst : {"n"}]
    [] f = "mode-all" -> [mode : Modes, anon : Anon, bk1 : {"X", "P"}, bk2 : {"X"}, bk3 : {"-"}, brep : {"jwk"}, arep : {"jwk"}, ak1 : {"X"}, ak2 : {"P"}, sk : {"E", "P", "K"}, sk2 : {"-"},
                          to : {"did"}, from : {"did"}, by : {"did"}, signer : {"alice"}, hops : {0, 2}, hdrs : {1}, msg : {7}, all : {"n"}, via : {"struct"}, fp : {"n"}, sub : {3}]
    [] f = "rep-all" -> [mode : {"auth+sign"}, crv : {"X"}, rp : {"jwk", "b58", "mb", "jwk-more"}, rs : {"jwk", "b58", "mb", "jwk-ops"}, role : {"rcp", "sender", "signer", "hop", "fp"}, part : {"both"}, good : {"y"}, skey : {"E"}, second : {"n"}]
    [] f = "rep-pub" -> [mode : {"auth+sign", "anon"}, crv : {"X"}, rp : {"jwk", "b58", "mb", "jwk-more", "jwk-ops", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-crv", "jwk-kty", "jwk-swap", "jwk-nokty", "jwk-nocrv", "jwk-str", "jwk-case",
             "b58-bad", "b58-short", "b58-long", "b58-lead", "mb-lead", "b58-empty", "b58-uni", "mb-uni", "mb-zuni", "mb-long", "mb-noz", "mb-pfx", "mb-bad", "mb-empty", "mb-z", "mb-short", "mb-codec", "mb-priv", "mb-unk", "mb-trunc", "mb-nocodec", "mb-cont", "mb-over", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx",
             "u-other", "u-jwk19", "u-jwk20", "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"}, rs : {"jwk"}, role : {"rcp", "sender", "signer", "fp"}, part : {"pub"}, good : {"y"}, skey : {"E"}, second : {"n"}]
      \cup [mode : {"auth+sign"}, crv : {"P"}, rp : {"jwk", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-noy", "jwk-offy", "jwk-shorty", "jwk-kty", "jwk-nocrv"}, rs : {"jwk"}, role : {"rcp", "sender", "signer", "fp"}, part : {"pub"}, good : {"y"}, skey : {"P", "K"}, second : {"n"}]
    [] f = "rep-sec" -> [mode : {"auth+sign"}, crv : {"X"}, rp : {"jwk"}, rs : {"jwk", "b58", "mb", "jwk-more", "jwk-ops", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-crv", "jwk-kty", "jwk-str", "b58-bad", "b58-short", "b58-long", "b58-lead", "mb-lead", "b58-empty", "b58-uni", "mb-uni", "mb-zuni", "mb-long", "mb-noz", "mb-pfx", "mb-bad", "mb-empty",
             "mb-z", "mb-short", "mb-codec", "mb-pub", "mb-unk", "mb-trunc", "mb-cont", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-nod", "jwk-shortd", "jwk-longd", "jwk-emptyd", "jwk-numd", "jwk-zerod", "jwk-bigd", "jwk-otherd", "u-other", "u-jwk19", "u-jwk20", "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"}, role : {"rcp", "sender", "signer", "fp"}, part : {"sec"}, good : {"y"}, skey : {"E"}, second : {"n"}]
      \cup [mode : {"auth+sign"}, crv : {"P"}, rp : {"jwk"}, rs : {"jwk", "jwk-badx", "jwk-shortx", "jwk-nox", "jwk-longx", "jwk-emptyx", "jwk-numx", "jwk-nullx", "jwk-noy", "jwk-offy", "jwk-shorty", "jwk-kty", "jwk-nocrv", "jwk-nod", "jwk-shortd", "jwk-longd", "jwk-emptyd", "jwk-numd", "jwk-zerod", "jwk-bigd", "jwk-otherd"}, role : {"rcp", "sender", "signer", "fp"}, part : {"sec"}, good : {"y"}, skey : {"P", "K"}, second : {"n"}]
    [] OTHER -> {}
Big(f) == Whole(f) = {}
Out(i) == Base \o ToString(i) \o ".ndjson"
Emit(i) == LET a == Ask[i] IN
  IF a.p # "" THEN LET T == PairSeq(a.p)
                       n == Len(T)  U == IF a.n >= n THEN T ELSE SetToSeq(RandomSubset(a.n, ToSet(T))) IN
                   ndJsonSerialize(Out(i), [k \in 1..a.n |-> PairDraw(a.p, U[((k - 1) % Len(U)) + 1])])
  ELSE IF Big(a.f) THEN ndJsonSerialize(Out(i), [k \in 1..a.n |-> Near(a.f)])
  ELSE IF Cardinality(Whole(a.f)) <= a.n THEN ndJsonSerialize(Out(i), SetToSeq(Whole(a.f)))
  ELSE ndJsonSerialize(Out(i), SetToSeq(RandomSubset(a.n, Whole(a.f))))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A i \in DOMAIN Ask : Emit(i)
Spec == Init /\ [][Next]_done
=============================================================================
