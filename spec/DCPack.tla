------------------------------- MODULE DCPack -------------------------------
(* Packing: which keys are selected, which envelope results, and every reason to refuse. *)
EXTENDS DCUnpack

----------------------------------------------------------------------------
(* Key selection *)
\* the key-agreement ids meant by `s`: all of the document, or the named one
KaOf(w, doc, s) == IF Frag(w, s) THEN SelectSeq(doc.ka, LAMBDA k : k = s) ELSE doc.ka
NoSel(F)        == [f |-> F, kids |-> <<>>, keys |-> <<>>, crv |-> "?", fromKid |-> NONE, skey |-> NONE]
\* key agreement uses X25519 or P-256 only
CrvF(crv, cls)  == If(crv \notin {"X", "P"}, {<<k, cls>> : k \in {"InvalidState", "NoCompatibleCrypto", "Unsupported"}})
OnCurve(doc, ids, crv) == SelectSeq(ids, LAMBDA k : AlgOf(Vm(doc, k)) = crv)

\* Anonymous encryption to `to`
AnonSel(w, docs, e, to, cls) ==
  LET did == DidOf(w, to)  dF == DidF(docs, e, did, cls \o ".did") IN
  IF dF # {} THEN NoSel(dF)
  ELSE LET doc == docs[did]  ids == KaOf(w, doc, to) IN
       IF ids = <<>> THEN NoSel(Fault("DIDUrlNotFound", cls \o ".kid"))
       ELSE IF \E i \in DOMAIN ids : VmIx(doc, ids[i]) = 0
            THEN NoSel({<<"Unsupported", cls \o ".novm">>, <<"DIDUrlNotFound", cls \o ".novm">>})
       ELSE LET ix == First(ids, LAMBDA k : AlgOf(Vm(doc, k)) # "U") IN
            IF ix = 0 THEN NoSel({<<"InvalidState", cls \o ".unsup">>, <<"NoCompatibleCrypto", cls \o ".unsup">>, <<"Unsupported", cls \o ".unsup">>})
            ELSE LET crv == AlgOf(Vm(doc, ids[ix]))
                     sel == OnCurve(doc, ids, crv) IN
                 [NoSel(CrvF(crv, cls \o ".unsup")
                        \cup UNION {MatF(Vm(doc, sel[i]), cls \o ".mat") : i \in DOMAIN sel})
                  EXCEPT !.kids = sel, !.keys = [i \in DOMAIN sel |-> Vm(doc, sel[i]).key], !.crv = crv]

\* Authenticated encryption from `from` to `to`
AuthSel(w, e, to, from) ==
  LET tF == DidF(w.docs, e, DidOf(w, to), "to.did")  fF == DidF(w.docsF, e, DidOf(w, from), "from.did") IN
  IF tF \cup fF # {} THEN NoSel(tF \cup fF)
  ELSE LET td == w.docs[DidOf(w, to)]   fd == w.docsF[DidOf(w, from)]
           ti == KaOf(w, td, to)        fi == KaOf(w, fd, from)
           own == Found(w.wallets, e, fi)
           F1 == If(fi = <<>>, Fault("DIDUrlNotFound", "from.kid"))
                 \cup If(ti = <<>>, Fault("DIDUrlNotFound", "to.kid"))
                 \cup (IF fi = <<>> THEN {} ELSE IF FindF(e, fi) # {} THEN FindF(e, fi)
                       ELSE If(own = <<>>, Fault("SecretNotFound", "from.secret")))
                 \cup If(\E i \in DOMAIN ti : VmIx(td, ti[i]) = 0, {<<k, "to.novm">> : k \in {"Malformed", "Unsupported", "DIDUrlNotFound"}})
                 \cup If(FindF(e, fi) = {} /\ \E i \in DOMAIN own : VmIx(fd, own[i]) = 0, {<<k, "from.novm">> : k \in {"Malformed", "Unsupported", "DIDUrlNotFound"}})
       IN IF F1 # {} THEN NoSel(F1)
       ELSE LET algs == {AlgOf(Vm(td, k)) : k \in SeqSet(ti)} \ {"U"}
                ix == First(own, LAMBDA k : AlgOf(Vm(fd, k)) \in algs) IN
            IF ix = 0 THEN NoSel(Fault("NoCompatibleCrypto", "nocompat"))
            ELSE LET fk  == own[ix]
                     crv == AlgOf(Vm(fd, fk))
                     sel == OnCurve(td, ti, crv)
                     gF  == GetF(w.wallets, e, fk, "InvalidState")
                     F2  == CrvF(crv, "to.unsup")
                            \cup UNION {MatF(Vm(td, sel[i]), "to.mat") : i \in DOMAIN sel}
                            \cup (IF gF # {} THEN gF ELSE MatAsF(Sec(w.wallets, e, fk), crv, "secretmat")) IN
                 [f |-> F2, kids |-> sel, keys |-> [i \in DOMAIN sel |-> Vm(td, sel[i]).key], crv |-> crv,
                  fromKid |-> fk, skey |-> IF gF = {} THEN Sec(w.wallets, e, fk).key ELSE NONE]

\* Signing by `by`
SignerSel(w, ws, e, doc, ids, named, cls) ==
  IF named # NONE /\ named \notin SeqSet(doc.auth) THEN NoSel(Fault("DIDUrlNotFound", cls \o ".kid"))
  ELSE IF FindF(e, ids) # {} THEN NoSel(FindF(e, ids))
  ELSE LET own == Found(ws, e, ids) IN
       IF own = <<>> THEN NoSel(Fault("SecretNotFound", cls \o ".secret"))
       ELSE LET k == own[1]  gF == GetF(ws, e, k, "SecretNotFound") IN
            IF gF # {} THEN NoSel(gF)
            ELSE LET s == Sec(ws, e, k) IN
                 [NoSel(MatF(s, "secretmat") \cup If(MatF(s, "x") = {} /\ SigAlg(s.crv) = "?", Fault("Unsupported", cls \o ".unsup")))
                  EXCEPT !.fromKid = k, !.skey = s.key, !.crv = s.crv]
SignSel(w, e, by) ==
  IF ~IsDid(w, by) THEN NoSel(Fault("IllegalArgument", "arg.by"))
  ELSE LET did == DidOf(w, by)  dF == DidF(w.docsS, e, did, "signer.did") IN
       IF dF # {} THEN NoSel(dF)
       ELSE SignerSel(w, w.walletsS, e, w.docsS[did], IF Frag(w, by) THEN <<by>> ELSE w.docsS[did].auth,
                      IF Frag(w, by) THEN by ELSE NONE, "signer")

\* What plaintext packing checks
PlainF(w, e, msg) ==
  IF msg.fp.k = "none" THEN {}
  ELSE LET F == FpF(w.docsR, w, e, msg.fp) IN
       IF F # {} THEN F
       ELSE ClaimsF(w, msg.fp.iss, msg.fp.sub, msg.fp.kid)
            \cup If(msg.from # NONE /\ msg.fp.sub # msg.from, Fault("Malformed", "fp.sub"))

\* Consistency of the arguments with the message headers
ArgF(w, msg, to, from, by) ==
  If(~IsDid(w, to), Fault("IllegalArgument", "arg.to"))
  \cup If(from # NONE /\ ~IsDid(w, from), Fault("IllegalArgument", "arg.from"))
  \cup If(by # NONE /\ ~IsDid(w, by), Fault("IllegalArgument", "arg.by"))
  \cup If(msg.hasTo /\ DidOf(w, to) \notin SeqSet(msg.to), Fault("IllegalArgument", "arg.to"))
  \cup If(from # NONE /\ msg.from # NONE /\ DidOf(w, from) # msg.from, Fault("IllegalArgument", "arg.from"))

----------------------------------------------------------------------------
(* Routing *)
Accepts(s) == s.k = "dc" /\ (~s.hasAccept \/ s.accept = <<>> \/ "didcomm/v2" \in SeqSet(s.accept))
NoRoute(F) == [f |-> F, hops |-> <<>>, id |-> NONE, uri |-> NONE]
Route(w, e, to, svcId) ==
  LET did == DidOf(w, to)  dF == DidF(w.docsR, e, did, "to.did") IN
  IF dF # {} THEN NoRoute(dF)
  ELSE LET ss == w.docsR[did].svcs
           ix == IF svcId # NONE THEN First(ss, LAMBDA s : s.id = svcId) ELSE First(ss, Accepts) IN
       IF svcId # NONE /\ (ix = 0 \/ ~Accepts(ss[IF ix = 0 THEN 1 ELSE ix])) THEN NoRoute(Fault("IllegalArgument", "svc.id"))
       ELSE IF ix = 0 THEN NoRoute({})
       ELSE LET s == ss[ix] IN
            IF ~IsDid(w, s.uri) THEN [NoRoute({}) EXCEPT !.hops = s.rk, !.id = s.id, !.uri = s.uri]
            ELSE LET mF == DidF(w.docsR, e, s.uri, "med.did") IN
                 IF mF # {} THEN NoRoute(mF)
                 ELSE LET ms == w.docsR[s.uri].svcs  mi == First(ms, Accepts) IN
                      IF mi = 0 \/ IsDid(w, ms[IF mi = 0 THEN 1 ELSE mi].uri) THEN NoRoute(Fault("InvalidState", "svc.med"))
                      ELSE [NoRoute({}) EXCEPT !.hops = <<s.uri>> \o s.rk, !.id = s.id, !.uri = ms[mi].uri]
HopsF(w, e, hops) == UNION {AnonSel(w, w.docsR, e, hops[i], "hop").f : i \in DOMAIN hops}

----------------------------------------------------------------------------
(* Judging produced envelopes.  Each operator returns the set of aspects in which the term t
   deviates from what had to be produced. *)
WireJwe(t, crv, auth) ==
  LET n == CASE t.enc = XC -> <<24, 16, 32>> [] t.enc = GCM -> <<12, 16, 32>> [] OTHER -> <<16, 32, 64>> IN
  If(\/ t.w.top # "ciphertext,iv,protected,recipients,tag"
     \/ t.w.prot # (IF auth THEN "alg,apu,apv,enc,epk,skid,typ" ELSE "alg,apv,enc,epk,typ")
     \/ t.w.rcp # "encrypted_key,header/kid" \/ ~t.w.b64 \/ ~t.apvOk
     \/ t.typ # "application/didcomm-encrypted+json"
     \/ t.w.iv # n[1] \/ t.w.tag # n[2]
     \/ t.w.ek # ToString(n[3] + 8)
     \/ t.w.kty # (IF crv = "X" THEN "OKP" ELSE "EC")
     \/ t.w.epk # (IF crv = "X" THEN "crv,kty,x" ELSE "crv,kty,x,y")
     \/ t.w.xy # (IF crv = "X" THEN "32/0" ELSE "32/32"), {"p.wire"})
  \cup If(t.ceklen # n[3] \/ t.w.iv # n[1], {"p.fresh"})
JweV(t, sel, alg, enc, auth) ==
  IF t.k # "jwe" THEN {"p.layers"}
  ELSE IF t.ok # "ok" THEN {"p.wire"}
  ELSE If(t.alg # alg, {"p.layers"}) \cup If(t.enc # enc, {"p.alg"})
       \cup If(Kids(t) # sel.kids, {"p.keys"})
       \cup If(Kids(t) = sel.kids /\ \E i \in DOMAIN t.rcp : t.rcp[i].key # sel.keys[i] \/ ~t.rcp[i].opens, {"p.recip"})
       \cup If(~t.intact, {"p.recip"})
       \cup If(t.crv # sel.crv, {"p.curve"})
       \cup (IF auth THEN If(t.skid # sel.fromKid \/ t.apu # sel.fromKid \/ t.skey # sel.skey, {"p.sender"})
             ELSE If(t.skid # NONE \/ t.apu # NONE, {"p.anon"}))
       \cup WireJwe(t, sel.crv, auth)
PlainV(t, msg) ==
  IF t.k # "plain" THEN {"p.layers"}
  ELSE If(t.h # msg.h, {"p.content"}) \cup If(~t.typok, {"p.content", "p.wire"})
JwsV(t, sel, msg) ==
  IF t.k # "jws" THEN {"p.layers"}
  ELSE IF t.ok # "ok" \/ Len(t.sigs) # 1 THEN {"p.wire"}
  ELSE LET s == t.sigs[1] IN
       If(s.kid # sel.fromKid \/ s.skey # sel.skey, {"p.signer"})
       \cup If(s.alg # SigAlg(sel.crv), {"p.signer", "p.alg"})
       \cup If(t.w # "payload,signatures" \/ s.typ # "application/didcomm-signed+json"
               \/ s.w # "header,protected,signature|kid|alg,typ|true|64", {"p.wire"})
       \cup PlainV(t.payload, msg)

\* the forward onion around `inner`; returns [v |-> aspects, t |-> the term found inside]
RECURSIVE OnionV(_, _, _, _, _, _, _, _)
OnionV(w, e, t, hops, i, to, anon, hdr) ==
  IF i > Len(hops) THEN [v |-> {}, t |-> t, injh |-> NONE]
  ELSE LET sel == AnonSel(w, w.docsR, e, hops[i], "hop")
           jv  == JweV(t, sel, ES, anon, FALSE)
           hv  == {IF x \in {"p.alg", "p.wire", "p.fresh", "p.anon"} THEN x ELSE "p.fwd." \o x : x \in jv} IN
       IF t.k # "jwe" \/ jv \cap {"p.layers"} # {} THEN [v |-> {"p.fwd.shape"}, t |-> [k |-> "none"], injh |-> NONE]
       ELSE IF ~(t.ok = "ok" /\ t.intact) THEN [v |-> hv \cup {"p.fwd.shape"}, t |-> [k |-> "none"], injh |-> NONE]
       ELSE LET p == t.payload IN
            IF p.k # "plain" THEN [v |-> hv \cup {"p.fwd.shape"}, t |-> [k |-> "none"], injh |-> NONE]
            ELSE LET nx == IF i = Len(hops) THEN to ELSE hops[i + 1]
                     pv == If(~IsFwd(p) \/ p.bm # "next" \/ p.natt # 1 \/ p.std # "" \/ ~p.typok, {"p.fwd.shape"})
                           \cup If(p.next # nx, {"p.fwd.next"}) \cup If(p.hdr # hdr, {"p.fwd.hdr"}) IN
                 IF i = Len(hops) THEN [v |-> hv \cup pv, t |-> p.inner, injh |-> p.injh]
                 ELSE LET r == OnionV(w, e, p.inner, hops, i + 1, to, anon, hdr) IN [r EXCEPT !.v = @ \cup hv \cup pv]

\* Fresh values of a produced term: content keys, nonces, ephemeral keys, forward message ids
RECURSIVE FreshOf(_)
FreshOf(t) == CASE t.k = "jwe" /\ t.ok = "ok" ->
                     [i \in DOMAIN t.fresh |-> <<i, t.fresh[i]>>]
                     \o (IF t.intact THEN FreshOf(t.payload) ELSE <<>>)
                [] t.k = "jws" -> FreshOf(t.payload)
                [] t.k = "plain" -> IF t.type = FORWARD /\ t.inner.k = "jwe" /\ t.std = "" /\ t.bm = "next"
                                    THEN <<<<0, t.id>>>> \o FreshOf(t.inner) ELSE <<>>
                [] OTHER -> <<>>

----------------------------------------------------------------------------
(* The packing operations.  Each returns the aspects in which the event v deviates. *)
Verdict(F, v, good) ==
  CASE v.st \in {"panic", "hang"} -> {"p." \o v.st}
    [] v.st = "badopts" -> {"p.badopts"}
    [] v.st = "ok" /\ F # {} -> {"p.accept:" \o c : c \in ClassOf(F)}
    [] v.st = "ok" -> good
    [] F = {} -> {"p.refuse"}
    [] v.kind \notin KindsOf(F) -> {"p.kind:" \o c : c \in ClassOf(F)}
    [] OTHER -> {}

PackPlainV(w, v) == LET F == PlainF(w, v.env, v.msg) IN
  Verdict(F, v, IF F # {} \/ v.st # "ok" THEN {} ELSE PlainV(v.term, v.msg))
PackSignedV(w, v) ==
  LET s == SignSel(w, v.env, v.by)  F == s.f \cup PlainF(w, v.env, v.msg) IN
  Verdict(F, v, IF F # {} \/ v.st # "ok" THEN {} ELSE
                JwsV(v.term, s, v.msg) \cup If(v.meta.signKid # s.fromKid, {"p.meta.sign"}))

Opt(x, d)   == IF x = NONE THEN d ELSE x
PackEncF(w, v) ==
  LET o   == v.opts
      A   == ArgF(w, v.msg, v.to, v.from, v.by)
      sg  == IF v.by = NONE THEN NoSel({}) ELSE SignSel(w, v.env, v.by)
      sel == IF v.from = NONE THEN AnonSel(w, w.docs, v.env, v.to, "to") ELSE AuthSel(w, v.env, v.to, v.from)
      rt  == IF Opt(o.forward, "yes") = "yes" THEN Route(w, v.env, v.to, o.svc) ELSE NoRoute({}) IN
  [f |-> A \cup sg.f \cup PlainF(w, v.env, v.msg) \cup sel.f \cup rt.f \cup HopsF(w, v.env, rt.hops),
   sg |-> sg, sel |-> sel, rt |-> rt]
PackEncGood(w, v, x) ==
  LET o    == v.opts
      anon == Opt(o.anon, XC)
      on   == OnionV(w, v.env, v.term, x.rt.hops, 1, v.to, anon, o.hdr)
      t0   == on.t
      prot == v.from # NONE /\ Opt(o.protect, "no") = "yes"
      a1   == IF prot THEN JweV(t0, [x.sel EXCEPT !.fromKid = NONE, !.skey = NONE], ES, anon, FALSE)
              ELSE IF v.from # NONE THEN JweV(t0, x.sel, OPU, CBC, TRUE)
              ELSE JweV(t0, x.sel, ES, anon, FALSE)
      ok1  == t0.k = "jwe" /\ "p.layers" \notin a1 /\ t0.ok = "ok" /\ t0.intact
      t1   == IF ok1 THEN t0.payload ELSE [k |-> "none"]
      a2   == IF ok1 /\ prot THEN JweV(t1, x.sel, OPU, CBC, TRUE) ELSE {}
      ok2  == IF prot THEN ok1 /\ t1.k = "jwe" /\ "p.layers" \notin a2 /\ t1.ok = "ok" /\ t1.intact ELSE ok1
      t2   == IF ~ok2 THEN [k |-> "none"] ELSE IF prot THEN t1.payload ELSE t1
      a3   == IF ~ok2 THEN {} ELSE IF v.by # NONE THEN JwsV(t2, x.sg, v.msg) ELSE PlainV(t2, v.msg)
      svc  == x.rt.hops # <<>>
      m    == v.meta IN
  on.v \cup (IF on.v \cap {"p.fwd.shape"} # {} THEN {} ELSE a1 \cup a2 \cup a3)
  \cup If(m.fromKid # x.sel.fromKid, {"p.meta.from"})
  \cup If(m.signKid # x.sg.fromKid, {"p.meta.sign"})
  \cup If(m.toKids # x.sel.kids, {"p.meta.to"})
  \cup If(m.hasSvc # svc \/ (svc /\ (m.svcId # x.rt.id \/ m.svcUri # x.rt.uri)), {"p.meta.svc"})
  \cup If(v.leak, {"p.leak"})
  \cup If(v.vis # <<>> /\ v.term.k = "jwe" /\ v.term.ok = "ok" /\ v.term.alg = ES, {"p.vis"})
PackEncV(w, v) == LET x == PackEncF(w, v) IN
  Verdict(x.f, v, IF x.f # {} \/ v.st # "ok" THEN {} ELSE PackEncGood(w, v, x))

\* wrap_in_forward of an already packed text (net entry n)
WrapF(w, v, n) == HopsF(w, v.env, v.rks) \cup If(n.jh = NONE /\ v.rks # <<>>, Fault("Malformed", "fwd.inner"))
WrapV(w, v, n) == LET F == WrapF(w, v, n) IN
  Verdict(F, v, IF F # {} \/ v.st # "ok" THEN {} ELSE
    LET on == OnionV(w, v.env, v.term, v.rks, 1, v.to, v.anon, v.hdr) IN
    on.v \cup If(on.v = {} /\ v.rks # <<>> /\ on.injh # n.jh, {"p.fwd.inner"})
    \cup If(v.rks = <<>> /\ v.jh # n.jh, {"p.fwd.inner"}))

\* from_prior
FpPackF(w, v) ==
  LET C   == ClaimsF(w, v.iss, v.sub, v.argkid)
      dF  == DidF(w.docsS, v.env, v.iss, "signer.did")
      s   == IF dF # {} THEN NoSel(dF)
             ELSE SignerSel(w, w.walletsS, v.env, w.docsS[v.iss],
                            IF v.argkid # NONE THEN <<v.argkid>> ELSE w.docsS[v.iss].auth, v.argkid, "signer") IN
  \* a key id that is not one of the issuer's keys is a wrong argument, not a key that is missing
  [f |-> C \cup (IF "claims.kid" \in ClassOf(C) THEN dF ELSE s.f), s |-> s]
FpPackV(w, v) ==
  LET x == FpPackF(w, v)  s == x.s  F == x.f  t == v.term IN
  {"f." \o SubSeq(a, 3, Len(a)) : a \in
     Verdict(F, v, IF F # {} \/ v.st # "ok" THEN {} ELSE
       IF t.ok # "ok" THEN {"p.wire"}
       ELSE If(v.rkid # s.fromKid, {"p.meta.sign"}) \cup If(t.kid # s.fromKid \/ t.skey # s.skey, {"p.signer"})
            \cup If(t.alg # SigAlg(s.crv), {"p.signer", "p.alg"})
            \cup If(~t.cok \/ t.ch # v.ch, {"p.content"})
            \cup If(t.typ # "JWT" \/ t.w # "alg,kid,typ|true|64", {"p.wire"}))}
FpUnpackV(w, v, t) ==
  LET F == FpF(w.docsR, w, v.env, t) IN
  CASE v.st \in {"panic", "hang"} -> {"g." \o v.st}
    [] v.st = "ok" /\ F # {} -> {"g.accept:" \o c : c \in ClassOf(F)}
    [] v.st = "ok" -> If(v.ch # t.ch \/ v.rkid # t.kid, {"g.content"})
    [] F = {} -> {"g.refuse"}
    [] v.kind \notin KindsOf(F) -> {"g.kind:" \o c : c \in ClassOf(F)}
    [] OTHER -> {}
=============================================================================
