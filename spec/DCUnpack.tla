------------------------------ MODULE DCUnpack ------------------------------
(* Unpacking as a function of the world: which layers are peeled, what is reported, and every
   reason for which it must be refused.  Terms (symbolic envelopes):
     jwe   [k,ok,alg,enc,skid,apu,apu8,apvOk,crv,epkOk,rcp:Seq([kid,key,b64,opens]),skey,b64,utf8,payload]
     jws   [k,ok,sigs:Seq([kid,alg,skey,sigb64]),pok,payload,txt]
     plain [k,h,type,typok,bk,ak,next,inner,fp,...]        bad [k,kind]
   ok = "ok" or the kind with which the parser refuses the envelope's own structure.
   key/skey are the keys that cryptographically fit; opens: that recipient's content key opens it. *)
EXTENDS DCBase

M0 == [enc |-> FALSE, auth |-> FALSE, nr |-> FALSE, anon |-> FALSE, rewrap |-> FALSE,
       fromKid |-> NONE, hasTo |-> FALSE, toKids |-> <<>>, signFrom |-> NONE, fpKid |-> NONE,
       algAuth |-> NONE, algAnon |-> NONE, algSign |-> NONE, fp |-> NONE, hasSigned |-> FALSE, txt |-> NONE]

\* f: faults (must refuse), m: kinds with which it may be refused although nothing is wrong
Fail(F, m)      == [f |-> F, m |-> m, h |-> NONE, meta |-> M0]
Done(h, mt, m)  == [f |-> {}, m |-> m, h |-> h, meta |-> mt]

Kids(t)   == [i \in DOMAIN t.rcp |-> t.rcp[i].kid]
RcpOf(t, kid) == t.rcp[First(t.rcp, LAMBDA r : r.kid = kid)]
IsFwd(p)  == p.type = FORWARD /\ p.bk = "obj/str" /\ Len(p.ak) > 0 /\ p.ak[1] = "json"

\* The consistency rules between the headers of an encrypted message
HdrF(w, t) ==
  If(~t.apvOk, Fault("Malformed", "hdr.apv"))
  \cup If(~t.apu8 \/ (t.skid # NONE /\ t.apu # t.skid), Fault("Malformed", "hdr.apu"))
  \cup If(t.alg = OPU /\ (t.apu = NONE \/ ~Frag(w, t.apu)), Fault("Malformed", "hdr.apu"))
  \cup If(Len(t.rcp) = 0, Fault("Malformed", "hdr.rcp"))
  \cup If(Len(t.rcp) > 0 /\ \E i \in DOMAIN t.rcp :
             ~Frag(w, t.rcp[i].kid) \/ DidOf(w, t.rcp[i].kid) # DidOf(w, t.rcp[1].kid), Fault("Malformed", "hdr.rcp"))

\* Opening with one key of the wallet
OpenF(w, e, t, kid) ==
  LET gF == GetF(w.wallets, e, kid, "InvalidState") IN
  IF gF # {} THEN gF
  ELSE LET s == Sec(w.wallets, e, kid)
           r == RcpOf(t, kid) IN
       MatF(s, "secretmat")
       \cup If(MatF(s, "x") = {} /\ s.crv \notin {"X", "P"}, Fault("Unsupported", "secretmat"))
       \cup If(s.crv # t.crv \/ ~t.epkOk, Fault("Malformed", "epk"))
       \cup If(~r.b64 \/ ~t.b64 \/ r.key # s.key \/ (t.enc \in Encs /\ ~r.opens), Fault("Malformed", "crypt"))
KeysF(w, e, t, all) ==
  LET fd == Found(w.wallets, e, Kids(t)) IN
  IF FindF(e, Kids(t)) # {} THEN FindF(e, Kids(t))
  ELSE IF fd = <<>> THEN Fault("SecretNotFound", "nosecret")
  ELSE UNION {OpenF(w, e, t, fd[i]) : i \in (IF all THEN DOMAIN fd ELSE {1})}

AnonF(w, e, t, all) ==
  HdrF(w, t) \cup KeysF(w, e, t, all)
  \cup If(t.enc \notin Encs, Fault("Unsupported", "encalg"))
  \cup If(t.intact /\ ~t.utf8, Fault("Malformed", "crypt"))

SenderF(w, e, t) ==
  IF t.apu = NONE \/ ~t.apu8 \/ ~Frag(w, t.apu) THEN {}
  ELSE LET did == DidOf(w, t.apu)
           dF  == DidF(w.docs, e, did, "sender.did") IN
       IF dF # {} THEN dF
       ELSE LET d == w.docs[did] IN
            IF t.apu \notin SeqSet(d.ka) \/ VmIx(d, t.apu) = 0 THEN Fault("DIDUrlNotFound", "sender.kid")
            ELSE MatF(Vm(d, t.apu), "sender.mat")
SenderKey(w, t) == Vm(w.docs[DidOf(w, t.apu)], t.apu)
\* curve compatibility of sender and recipient keys, and the content algorithm
AuthKeyF(w, e, t, all) ==
  IF HdrF(w, t) # {} \/ SenderF(w, e, t) # {} \/ FindF(e, Kids(t)) # {} THEN {}
  ELSE LET fd == Found(w.wallets, e, Kids(t))
           v  == SenderKey(w, t)
           K  == {fd[i] : i \in (IF all \/ fd = <<>> THEN DOMAIN fd ELSE {1})}
           S  == {Sec(w.wallets, e, k) : k \in {k \in K : GetF(w.wallets, e, k, "x") = {}}} IN
       If(v.crv \notin {"X", "P"}, Fault("Unsupported", "sender.mat"))
       \cup If(t.enc # CBC, Fault("Unsupported", "encalg"))
       \cup If(\E s \in S : s.crv \in {"X", "P"} /\ v.crv \in {"X", "P"} /\ s.crv # v.crv, Fault("Malformed", "crypt"))
       \cup If(t.skey # v.key, Fault("Malformed", "sender.crypt"))
AuthF(w, e, t, all) ==
  HdrF(w, t) \cup SenderF(w, e, t) \cup KeysF(w, e, t, all) \cup AuthKeyF(w, e, t, all)
  \cup If(t.intact /\ ~t.utf8, Fault("Malformed", "crypt"))

SignF(w, e, t) ==
  IF t.ok # "ok" THEN StructF(t.ok, "sig.struct")
  ELSE IF Len(t.sigs) # 1 THEN Fault("Malformed", "sig.count")
  ELSE LET s   == t.sigs[1]
           did == DidOf(w, s.kid)
           dF  == If(Frag(w, s.kid), DidF(w.docsS, e, did, "signer.did")) IN
       If(~Frag(w, s.kid), Fault("Malformed", "signer.kid")) \cup dF
       \cup (IF Frag(w, s.kid) /\ dF = {}
             THEN LET d == w.docsS[did] IN
                  IF s.kid \notin SeqSet(d.auth) \/ VmIx(d, s.kid) = 0 THEN Fault("DIDUrlNotFound", "signer.kid")
                  ELSE LET v == Vm(d, s.kid) IN
                       SigKeyF(v, s.alg, "sig") \cup If(~s.sigb64 \/ s.skey # v.key, Fault("Malformed", "sig.sig"))
             ELSE {})
       \cup If(~t.pok, Fault("Malformed", "sig.struct"))

PlainStage(w, e, t, mt, m) ==
  CASE t.k = "bad"   -> Fail(StructF(t.kind, "struct"), m)
    [] t.k # "plain" -> Fail(Fault("Malformed", "struct"), m)      \* one more layer than allowed here
    [] OTHER ->
       LET F == If(~t.typok, Fault("Malformed", "typ"))
                \cup If(t.fp.k # "none", FpF(w.docsR, w, e, t.fp)) IN
       IF F # {} THEN Fail(F, m)
       ELSE Done(t.h, IF t.fp.k = "none" THEN mt ELSE [mt EXCEPT !.fp = t.fp.ch, !.fpKid = t.fp.kid], m)

SignStage(w, e, t, mt, m) ==
  IF t.k # "jws" THEN PlainStage(w, e, t, mt, m)
  ELSE LET F == SignF(w, e, t)  m2 == m \cup If(t.esc, {"Malformed"}) IN
       IF F # {} THEN Fail(F, m2)
       ELSE PlainStage(w, e, t.payload,
              [mt EXCEPT !.auth = TRUE, !.nr = TRUE, !.signFrom = t.sigs[1].kid,
                         !.algSign = t.sigs[1].alg, !.hasSigned = TRUE, !.txt = t.txt], m2)

AuthStage(w, e, t, all, mt, m) ==
  IF t.k # "jwe" THEN SignStage(w, e, t, mt, m)
  ELSE IF t.ok # "ok" THEN Fail(StructF(t.ok, "struct"), m \cup If(t.esc, {"Malformed"}))
  ELSE IF t.alg # OPU THEN Fail(Fault("Malformed", "struct"), m)
  ELSE LET F == AuthF(w, e, t, all)  m2 == m \cup If(t.esc, {"Malformed"}) IN
       IF F # {} THEN Fail(F, m2)
       ELSE SignStage(w, e, t.payload,
              [mt EXCEPT !.enc = TRUE, !.auth = TRUE, !.fromKid = t.apu, !.algAuth = t.enc,
                         !.hasTo = TRUE, !.toKids = IF mt.hasTo THEN @ ELSE Kids(t)], m2)

\* Does the recipient hold a secret for the `next` of a forward?
NextIds(w, next) == IF Frag(w, next) THEN <<next>> ELSE w.docsR[DidOf(w, next)].ka
NextF(w, e, next) ==
  LET dF == IF Frag(w, next) THEN {} ELSE DidF(w.docsR, e, DidOf(w, next), "next") IN
  IF dF # {} THEN dF ELSE FindF(e, NextIds(w, next))
HoldsNext(w, e, next) == Found(w.wallets, e, NextIds(w, next)) # <<>>

RECURSIVE Unpack(_, _, _, _, _, _, _)
Unpack(w, e, t, all, unwrap, mt, m) ==
  IF t.k # "jwe" THEN AuthStage(w, e, t, all, mt, m)
  ELSE IF t.ok # "ok" THEN Fail(StructF(t.ok, "struct"), m \cup If(t.esc, {"Malformed"}))
  ELSE IF t.alg # ES THEN AuthStage(w, e, t, all, mt, m)
  ELSE LET F  == AnonF(w, e, t, all)
           m2 == m \cup If(t.esc, {"Malformed"}) \cup If(t.apu # NONE, {"InvalidState", "Malformed"})
           p  == t.payload
           mt2 == [mt EXCEPT !.enc = TRUE, !.anon = TRUE, !.algAnon = t.enc, !.hasTo = TRUE, !.toKids = Kids(t)] IN
       IF F # {} THEN Fail(F, m2)
       ELSE IF unwrap /\ p.k = "plain" /\ IsFwd(p)
            THEN IF NextF(w, e, p.next) # {} THEN Fail(NextF(w, e, p.next), m2)
                 ELSE IF HoldsNext(w, e, p.next)
                      THEN Unpack(w, e, p.inner, all, unwrap, [mt2 EXCEPT !.rewrap = TRUE], m2)
                      ELSE AuthStage(w, e, p, all, mt2, m2)
            ELSE AuthStage(w, e, p, all, mt2, m2)

UnpackOf(w, e, t, all, unwrap) == Unpack(w, e, t, all, unwrap, M0, {})

----------------------------------------------------------------------------
(* Judging an observed unpack against the expectation x. *)
MetaV(x, o, tamper) ==
  LET B(f, a) == IF o[f] # x.meta[f] THEN {"u.meta." \o a} ELSE {} IN
  B("enc", "enc") \cup B("auth", "auth") \cup B("nr", "nr") \cup B("anon", "anon") \cup B("rewrap", "rewrap")
  \cup B("fromKid", "from") \cup B("hasTo", "to")
  \cup (IF tamper THEN If(Len(o.toKids) # Len(x.meta.toKids) \/ SeqSet(o.toKids) # SeqSet(x.meta.toKids), {"u.meta.to"})
        ELSE B("toKids", "to"))
  \cup B("signFrom", "sign") \cup B("fpKid", "fp") \cup B("fp", "fp")
  \cup B("algAuth", "alg") \cup B("algAnon", "alg") \cup B("algSign", "alg") \cup B("hasSigned", "signed")
EvidenceV(x, o) ==
  IF ~o.hasSigned THEN {}
  ELSE (IF o.signed.k # "jws" \/ o.signed.txt # x.meta.txt THEN {"u.meta.signed"} ELSE {})
       \cup (IF o.ev.st # "ok" THEN {"u.meta.signed"}
             ELSE IF o.ev.h # x.h \/ o.ev.signFrom # x.meta.signFrom \/ ~o.ev.nr THEN {"u.meta.signed"} ELSE {})

\* v: the event, x: expectation.  evid: also check the evidence copy
UnpackV(x, v, evid) ==
  CASE v.st \in {"panic", "hang", "badopts"} -> {"u." \o v.st}
    [] v.st = "ok" /\ x.f # {} -> {"u.accept:" \o c : c \in ClassOf(x.f)}
    [] v.st = "ok" -> (IF v.res.h # x.h THEN {"u.content"} ELSE {}) \cup MetaV(x, v.meta, FALSE)
                      \cup (IF ~v.metaser THEN {"u.metaser"} ELSE {})
                      \cup (IF evid THEN EvidenceV(x, v.meta) ELSE {})
    [] x.f = {} /\ v.kind \notin x.m -> {"u.refuse"}
    [] x.f # {} /\ v.kind \notin KindsOf(x.f) \cup x.m -> {"u.kind:" \o c : c \in ClassOf(x.f)}
    [] OTHER -> {}
\* A modified copy of an envelope whose own expectation is b
TamperV(b, v) ==
  IF v.st # "ok" THEN {}
  ELSE IF b.f # {} THEN {"u.tamper"}
  ELSE IF v.res.h # b.h \/ MetaV(b, v.meta, TRUE) # {} THEN {"u.tamper"} ELSE {}
=============================================================================
