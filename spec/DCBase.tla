------------------------------- MODULE DCBase -------------------------------
(* Vocabulary shared by every module of the DIDComm specification.

   A *world* is a record
     docs    DID -> document [ka, auth : Seq(key id), vms : Seq([id,key,crv,rep]), svcs : Seq(service)]
     wallets name -> Seq([id,key,crv,rep])
     lex     string -> [d : its DID part, f : has a fragment, i : looks like a DID or DID URL]
   docsF/docsS/docsR/walletsS are the versions seen by the steps of an operation that look at the
   encrypting sender, the signer, the route;
   they differ from docs/wallets only while documents change under a suspended operation.

   An *environment* says which wallet an operation uses and which resolver calls fail:
     [wallet, dfault : DID -> error kind, sfind : kind or "~", sget : kind, "none" or "~",
      sid : secret id -> kind or "none"].

   A *fault* is a pair <<error kind, class>>: one reason for refusing an operation.  An operation
   without faults must succeed; one with faults must fail with the kind of one of them.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

NONE    == "~"
FORWARD == "https://didcomm.org/routing/2.0/forward"
Kinds   == {"DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "Malformed", "IoError",
            "InvalidState", "NoCompatibleCrypto", "Unsupported", "IllegalArgument"}

ES   == "ECDH-ES+A256KW"
OPU  == "ECDH-1PU+A256KW"
CBC  == "A256CBC-HS512"
XC   == "XC20P"
GCM  == "A256GCM"
Encs == {CBC, XC, GCM}

Lx(w, s)     == IF s \in DOMAIN w.lex THEN w.lex[s] ELSE [d |-> s, f |-> FALSE, i |-> FALSE]
DidOf(w, s)  == Lx(w, s).d
Frag(w, s)   == Lx(w, s).f
IsDid(w, s)  == Lx(w, s).i

KindsOf(F)   == {x[1] : x \in F}
ClassOf(F)   == {x[2] : x \in F}
Fault(k, c)  == {<<k, c>>}
\* a refusal by structure: "Eof" is truncated JSON whose members are ill-typed already
StructF(k, c) == IF k = "Eof" THEN {<<"InvalidState", c>>, <<"Malformed", c>>} ELSE Fault(k, c)
If(b, F)     == IF b THEN F ELSE {}
SeqSet(s)    == {s[i] : i \in DOMAIN s}
\* index of the first element satisfying P, 0 if there is none
First(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN
                  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

----------------------------------------------------------------------------
(* Key representations (see harness/src/keys.rs for what each name stands for). *)
RepOk    == {"jwk", "b58", "mb", "jwk-more", "jwk-ops"}
RepUnsup == {"jwk-crv", "jwk-kty", "jwk-swap", "jwk-nokty", "jwk-nocrv", "jwk-str", "jwk-case",
             "u-other", "u-jwk19", "u-jwk20", "u-b58jwk", "u-b5820", "u-mb19", "u-mbjwk", "u-k256"}
RepBad(r) == CASE r \in {"mb-noz", "mb-pfx", "mb-codec", "mb-priv", "mb-pub", "mb-unk", "mb-uni", "mb-lead"} -> {"IllegalArgument"}
               [] r = "mb-empty" -> {"IllegalArgument", "Malformed"}
               [] r \in {"mb-z", "mb-trunc", "mb-nocodec", "mb-cont", "mb-over"} -> {"InvalidState", "IllegalArgument", "Malformed"}
               [] r = "jwk-nod" -> {"InvalidState", "Malformed"}
               [] OTHER -> {"Malformed"}
\* The algorithm family a published or stored key has: its curve, or "U" if unsupported
AlgOf(e)      == IF e.rep \in RepUnsup THEN "U" ELSE e.crv
\* Why its material cannot be used
MatF(e, cls)  == IF e.rep \in RepUnsup THEN Fault("Unsupported", cls)
                 ELSE IF e.rep \in RepOk THEN {}
                 ELSE {<<k, cls>> : k \in RepBad(e.rep)}
\* ... as a key of one particular curve
MatAsF(e, crv, cls) == IF AlgOf(e) = "U" THEN {<<"InvalidState", cls>>, <<"Unsupported", cls>>}
                       ELSE IF AlgOf(e) # crv THEN Fault("InvalidState", cls)
                       ELSE MatF(e, cls)
SigCrv(alg) == CASE alg = "EdDSA" -> "E" [] alg = "ES256" -> "P" [] alg = "ES256K" -> "K" [] OTHER -> "?"
SigAlg(crv) == CASE crv = "E" -> "EdDSA" [] crv = "P" -> "ES256" [] crv = "K" -> "ES256K" [] OTHER -> "?"

----------------------------------------------------------------------------
(* Resolvers.  DidF: why a document is not obtained; cls tells who was being looked up. *)
DidF(docs, e, did, cls) ==
  IF did \in DOMAIN e.dfault THEN Fault(e.dfault[did], "resolver." \o cls)
  ELSE IF did \in DOMAIN docs THEN {} ELSE Fault("DIDNotResolved", cls)
VmIx(doc, id)  == First(doc.vms, LAMBDA v : v.id = id)
Vm(doc, id)    == doc.vms[VmIx(doc, id)]

Entries(ws, e) == IF e.wallet \in DOMAIN ws THEN ws[e.wallet] ELSE <<>>
FindF(e, ids)  == IF e.sfind # NONE THEN Fault(e.sfind, "secretres")
                  ELSE {<<e.sid[k], "secretres">> : k \in {k \in DOMAIN e.sid \cap SeqSet(ids) : e.sid[k] # "none"}}
Found(ws, e, ids) == LET W == {x.id : x \in SeqSet(Entries(ws, e))} IN SelectSeq(ids, LAMBDA k : k \in W)
\* why get_secret does not give a secret; missing = the documented kind for a vanished secret
GetF(ws, e, id, missing) ==
  IF e.sget = "none" THEN Fault(missing, "secretgone")
  ELSE IF e.sget # NONE THEN Fault(e.sget, "secretres")
  ELSE IF id \in DOMAIN e.sid THEN IF e.sid[id] = "none" THEN Fault(missing, "secretgone") ELSE Fault(e.sid[id], "secretres")
  ELSE IF First(Entries(ws, e), LAMBDA x : x.id = id) = 0 THEN Fault(missing, "secretgone") ELSE {}
Sec(ws, e, id) == LET s == Entries(ws, e) IN s[First(s, LAMBDA x : x.id = id)]

----------------------------------------------------------------------------
(* Signed from_prior tokens. *)
SigKeyF(vm, alg, cls) ==
  IF SigCrv(alg) = "?" THEN Fault("Unsupported", cls \o ".alg") ELSE MatAsF(vm, SigCrv(alg), cls \o ".alg")
FpF(docs, w, e, j) ==
  IF j.ok # "ok" THEN Fault(j.ok, "fp.struct")
  ELSE LET did == DidOf(w, j.kid)
           dF  == If(Frag(w, j.kid), DidF(docs, e, did, "fp.did"))
           own == IF Frag(w, j.kid) /\ dF = {}
                  THEN LET d == docs[did] IN
                       IF j.kid \notin SeqSet(d.auth) \/ VmIx(d, j.kid) = 0 THEN Fault("DIDUrlNotFound", "fp.kid")
                       ELSE LET v == Vm(d, j.kid) IN
                            SigKeyF(v, j.alg, "fp") \cup If(~j.sigb64 \/ j.skey # v.key, Fault("Malformed", "fp.sig"))
                  ELSE {}
       IN If(j.typ # "JWT", Fault("Malformed", "fp.typ"))
          \cup If(~Frag(w, j.kid), Fault("Malformed", "fp.nofrag"))
          \cup dF \cup own
          \cup If(~j.cok, Fault("Malformed", "fp.claims"))
          \cup If(j.cok /\ Frag(w, j.kid) /\ j.iss # did, Fault("Malformed", "fp.iss"))
\* issuing rules: distinct DIDs without fragments, key of the issuer
ClaimsF(w, iss, sub, kid) ==
  If(~IsDid(w, iss) \/ Frag(w, iss), Fault("Malformed", "claims"))
  \cup If(~IsDid(w, sub) \/ Frag(w, sub), Fault("Malformed", "claims"))
  \cup If(iss = sub, Fault("Malformed", "claims"))
  \cup If(kid # NONE /\ (~Frag(w, kid) \/ DidOf(w, kid) # iss), Fault("IllegalArgument", "claims.kid"))
=============================================================================
