------------------------------- MODULE MCProto -------------------------------
(* Alice and Bob use the library over a network that Mallory controls.  Mallory has a DID of his own,
   sees every text, opens what his keys (and keys leaked to him) open, and sends texts composed of what he
   knows: fresh messages, captured texts and their readable parts, under any layers his keys can make,
   including layers that claim somebody else's key ids.  Keys of Alice may be rotated, the old ones leak.
   The properties say what Bob (or whoever unpacks) may be led to believe.                        *)
EXTENDS DCModel, Randomization

CONSTANTS MaxSend, MaxAdv,   \* how many texts Alice and Mallory may send
          MaxLay,            \* layers Mallory puts on one text
          Plans,             \* how many of the possible compositions are tried (0: all)
          Events,            \* which of {"ka","auth","med"} may happen
          Out                \* one in Out final states is written out as a scenario

Frags == {"k1", "k2", "k3", "s1", "s3", "x", "sv1"}
Lx0   == LexOf({Al, Bo, Ma, Ol, M1}, Frags)
Key(d, f)     == K(f, IF f \in {"s1", "s3"} THEN "E" ELSE "X", d)
Retired(k)    == [k EXCEPT !.lst = FALSE]     \* still a method of the document, no longer listed

VARIABLES rot,    \* subset of {"ka", "auth"}: which of Alice's keys were rotated (the old ones are leaked)
          med,    \* the mediator's key is leaked
          net,    \* texts sent, as terms
          made,   \* what Alice did: [h, auth : key or "~", sig : key or "~", enc, dest, fp]
          adv,    \* texts Mallory sent
          msgs,   \* content -> message, for the scenarios
          hist    \* operations so far, for the scenarios
vars == <<rot, med, net, made, adv, msgs, hist>>
State == <<rot, med, net, made, adv>>

AlKa  == IF "ka" \in rot THEN Key(Al, "k3") ELSE Key(Al, "k1")
AlS   == IF "auth" \in rot THEN Key(Al, "s3") ELSE Key(Al, "s1")
AlKas == <<AlKa>> \o (IF "ka" \in rot THEN <<Retired(Key(Al, "k1"))>> ELSE <<>>)
AlSs  == <<AlS>> \o (IF "auth" \in rot THEN <<Retired(Key(Al, "s1"))>> ELSE <<>>)
DocAl == DocOf(Al, AlKas, AlSs, <<>>)
BoSvc == [id |-> Id(Bo, "sv1"), k |-> "dc", uri |-> "https://b", hasAccept |-> FALSE, accept |-> <<>>, rk |-> <<M1>>]
BoKa  == <<Key(Bo, "k1"), Key(Bo, "k2")>>
MaK   == Key(Ma, "k1")
MaS   == Key(Ma, "s1")
MeK   == Key(M1, "x")
OlS   == Key(Ol, "s1")
World == Static(Al :> DocAl @@ Bo :> DocOf(Bo, BoKa, <<>>, <<BoSvc>>) @@ Ma :> DocOf(Ma, <<MaK>>, <<MaS>>, <<>>)
                @@ M1 :> DocOf(M1, <<MeK>>, <<>>, <<>>) @@ Ol :> DocOf(Ol, <<>>, <<OlS>>, <<>>),
                Al :> WalletOf(Al, <<AlKa, AlS>>) @@ Bo :> WalletOf(Bo, BoKa) @@ Ma :> WalletOf(Ma, <<MaK, MaS>>)
                @@ M1 :> WalletOf(M1, <<MeK>>) @@ Ol :> WalletOf(Ol, <<OlS>>), Lx0)
Known == {MaK.key, MaS.key} \cup (IF "ka" \in rot THEN {Key(Al, "k1").key} ELSE {})
         \cup (IF "auth" \in rot THEN {Key(Al, "s1").key} ELSE {}) \cup (IF med THEN {MeK.key} ELSE {})

----------------------------------------------------------------------------
(* Alice *)
Jwt(kid, key, iss, sub) == [k |-> "jwt", ok |-> "ok", typ |-> "JWT", alg |-> "EdDSA", kid |-> kid, skey |-> key, sigb64 |-> TRUE,
                            cok |-> TRUE, iss |-> iss, sub |-> sub, ch |-> iss \o ">" \o sub, w |-> ""]
RealFp == Jwt(Id(Ol, "s1"), OlS.key, Ol, Al)
SendModes == [from : {NONE, Al}, by : {NONE, Al}, prot : {NONE, "yes"}, enc : {TRUE}] \cup [from : {NONE}, by : {Al}, prot : {NONE}, enc : {FALSE}]
N(i)  == "n" \o ToString(i)
Send(m, dest, fp, fwd) ==
  /\ Len(made) < MaxSend /\ (m.prot = "yes" => m.from # NONE) /\ (fwd => m.enc /\ dest = Bo)
  /\ LET h   == "alice" \o ToString(Len(made) + 1)
         msg == MkMsg(h, Al, <<dest>>, IF fp THEN RealFp ELSE NoFp)
         v   == [ev |-> "pack_enc", env |-> EnvOf(Al), msg |-> msg, to |-> dest, from |-> m.from, by |-> m.by,
                 opts |-> [protect |-> m.prot, forward |-> IF fwd THEN "yes" ELSE "no", svc |-> NONE, anon |-> NONE, hdr |-> ""]]
         x   == PackEncF(World, v)
         t   == IF m.enc THEN EncTerm(World, v, x, 10 * Len(net)) ELSE MkJws(SignSel(World, EnvOf(Al), Al), msg)
         j   == PlainJ(msg, IF fp THEN [from_prior |-> ("$str" :> "fp")] ELSE <<>>) IN
     /\ (m.enc => x.f = {})
     /\ net' = Append(net, t)
     /\ made' = Append(made, [h |-> h, auth |-> IF m.from = NONE THEN NONE ELSE AlKa.key, sig |-> IF m.by = NONE THEN NONE ELSE AlS.key,
                              enc |-> m.enc, dest |-> dest, fp |-> IF fp THEN RealFp.ch ELSE NONE])
     /\ msgs' = (h :> j) @@ msgs
     /\ hist' = Append(hist, IF m.enc
                  THEN [op |-> "pack_enc", msg |-> j, to |-> dest, out |-> N(Len(net) + 1), env |-> [wallet |-> Al],
                        opts |-> [forward |-> fwd] @@ (IF m.prot = "yes" THEN [protect |-> TRUE] ELSE <<>>)]
                       @@ (IF m.from = NONE THEN <<>> ELSE [from |-> Al]) @@ (IF m.by = NONE THEN <<>> ELSE [by |-> Al])
                  ELSE [op |-> "pack_signed", msg |-> j, by |-> Al, out |-> N(Len(net) + 1), env |-> [wallet |-> Al]])
     /\ UNCHANGED <<rot, med, adv>>
Rotate(what) ==
  /\ what \in Events /\ what \notin rot /\ made # <<>>
  /\ rot' = rot \cup {what}
  /\ hist' = Append(hist, [op |-> "set", world |-> [docs |-> (Al :> DocAl'), wallets |-> (Al :> WalletOf(Al, <<AlKa', AlS'>>))]])
  /\ UNCHANGED <<med, net, made, adv, msgs>>
LeakMed == "med" \in Events /\ ~med /\ made # <<>> /\ med' = TRUE /\ UNCHANGED <<rot, net, made, adv, msgs, hist>>

----------------------------------------------------------------------------
(* Mallory.  A composition is a base and layers put on it from the inside out. *)
FpKinds == {"none", "real", "forged", "foreign", "own"}
FpTerm(f) == CASE f = "none" -> NoFp [] f = "real" -> RealFp
               [] f = "forged" -> Jwt(Id(Ol, "s1"), MaS.key, Ol, Ma)       \* Mallory signs under Old's key id
               [] f = "foreign" -> Jwt(Id(Ma, "s1"), MaS.key, Ol, Ma)      \* under his own, for issuer Old
               [] f = "own" -> Jwt(Id(Ma, "s1"), MaS.key, Ma, Al)
LayKinds == {"s:forge", "s:own", "s:old", "es:B", "es:B1", "es:lie", "es:M", "pu:forge", "pu:own", "pu:old", "fwd:B", "fwd:Bk", "fwd:Ma"}
Bases    == [b : {"new"}, from : {Al, Ma, NONE}, fp : FpKinds] \cup [b : {"part"}, i : 1..(MaxSend + MaxAdv), n : 0..3]
LaySeqs  == UNION {[1..n -> LayKinds] : n \in 0..MaxLay}
AllPlans == {p \in [base : Bases, lay : LaySeqs] :
               /\ p.base.b = "part" => p.lay # <<>> \/ p.base.n > 0
               /\ \A i \in DOMAIN p.lay : (p.lay[i] = "es:M" => i > 1 /\ p.lay[i - 1] \in {"fwd:B", "fwd:Bk", "fwd:Ma"})}
MyPlans  == IF Plans = 0 THEN AllPlans ELSE RandomSubset(Plans, AllPlans)
\* the parts of a text Mallory can reach, outermost first
RECURSIVE Chain(_, _)
Chain(S, t) ==
  <<t>> \o CASE t.k = "jwe" -> IF \E i \in DOMAIN t.rcp : t.rcp[i].key \in S /\ t.rcp[i].opens THEN Chain(S, t.payload) ELSE <<>>
              [] t.k = "jws" -> Chain(S, t.payload)
              [] t.k = "plain" -> IF t.inner.k = "none" THEN <<>> ELSE Chain(S, t.inner)
              [] OTHER -> <<>>
HasFp == \E i \in DOMAIN net : \E t \in SeqSet(Chain(Known, net[i])) : t.k = "plain" /\ t.fp = RealFp
Able(p) == /\ p.base.b = "part" => p.base.i <= Len(net) /\ p.base.n < Len(Chain(Known, net[p.base.i]))
           /\ p.base.b = "new" /\ p.base.fp = "real" => HasFp
           /\ \A i \in DOMAIN p.lay : (p.lay[i] = "s:old" => "auth" \in rot) /\ (p.lay[i] = "pu:old" => "ka" \in rot)
EvilH(p) == "evil" \o ToString(Len(adv) + 1)
BaseTerm(p) == IF p.base.b = "part" THEN Chain(Known, net[p.base.i])[p.base.n + 1]
               ELSE MkMsg(EvilH(p), p.base.from, <<Bo>>, FpTerm(p.base.fp))
Sel(kids, keys, fromKid, skey) == [NoSel({}) EXCEPT !.kids = kids, !.keys = keys, !.crv = "X", !.fromKid = fromKid, !.skey = skey]
ToBob(from, key) == Sel([i \in 1..2 |-> Id(Bo, BoKa[i].f)], [i \in 1..2 |-> BoKa[i].key], from, key)
Lay(l, t, n) ==
  LET S(kid, key) == MkJws([NoSel({}) EXCEPT !.fromKid = kid, !.skey = key, !.crv = "E"], t) IN
  CASE l = "s:forge"  -> S(Id(Al, AlS.f), MaS.key)
    [] l = "s:own"    -> S(Id(Ma, "s1"), MaS.key)
    [] l = "s:old"    -> S(Id(Al, "s1"), Key(Al, "s1").key)
    [] l = "es:B"     -> MkJwe(ToBob(NONE, NONE), FALSE, XC, t, n)
    [] l = "es:B1"    -> MkJwe(Sel(<<Id(Bo, "k1")>>, <<BoKa[1].key>>, NONE, NONE), FALSE, XC, t, n)
    [] l = "es:lie"   -> MkJwe(Sel(<<Id(Bo, "k1")>>, <<MaK.key>>, NONE, NONE), FALSE, XC, t, n)
    [] l = "es:M"     -> MkJwe(Sel(<<Id(M1, "x")>>, <<MeK.key>>, NONE, NONE), FALSE, XC, t, n)
    [] l = "pu:forge" -> MkJwe(ToBob(Id(Al, AlKa.f), MaK.key), TRUE, CBC, t, n)
    [] l = "pu:own"   -> MkJwe(ToBob(Id(Ma, "k1"), MaK.key), TRUE, CBC, t, n)
    [] l = "pu:old"   -> MkJwe(ToBob(Id(Al, "k1"), Key(Al, "k1").key), TRUE, CBC, t, n)
    [] l = "fwd:B"    -> MkFwd(Bo, t, "", n)
    [] l = "fwd:Bk"   -> MkFwd(Id(Bo, "k2"), t, "", n)
    [] l = "fwd:Ma"   -> MkFwd(Ma, t, "", n)
Rcp(kid, key) == [kid |-> kid, key |-> key]
LayJ(l, j) ==
  LET S(kid, key) == [t |-> "jws", pl |-> j, sigs |-> <<[kid |-> kid, key |-> key, alg |-> "EdDSA"]>>]
      E(to, enc)  == [t |-> "jwe", pl |-> j, to |-> to, enc |-> enc, crv |-> "X", alg |-> ES]
      B2          == <<Rcp(Id(Bo, "k1"), BoKa[1].key), Rcp(Id(Bo, "k2"), BoKa[2].key)>>
      P(kid, key) == [alg |-> OPU, skid |-> kid, apu |-> kid, skey |-> key] @@ E(B2, CBC) IN
  CASE l = "s:forge"  -> S(Id(Al, AlS.f), MaS.key)
    [] l = "s:own"    -> S(Id(Ma, "s1"), MaS.key)
    [] l = "s:old"    -> S(Id(Al, "s1"), Key(Al, "s1").key)
    [] l = "es:B"     -> E(B2, XC)
    [] l = "es:B1"    -> E(<<Rcp(Id(Bo, "k1"), BoKa[1].key)>>, XC)
    [] l = "es:lie"   -> E(<<Rcp(Id(Bo, "k1"), MaK.key)>>, XC)
    [] l = "es:M"     -> E(<<Rcp(Id(M1, "x"), MeK.key)>>, XC)
    [] l = "pu:forge" -> P(Id(Al, AlKa.f), MaK.key)
    [] l = "pu:own"   -> P(Id(Ma, "k1"), MaK.key)
    [] l = "pu:old"   -> P(Id(Al, "k1"), Key(Al, "k1").key)
    [] l = "fwd:B"    -> [t |-> "fwd", next |-> Bo, pl |-> j]
    [] l = "fwd:Bk"   -> [t |-> "fwd", next |-> Id(Bo, "k2"), pl |-> j]
    [] l = "fwd:Ma"   -> [t |-> "fwd", next |-> Ma, pl |-> j]
RECURSIVE Build(_, _, _, _)
Build(p, t, i, n) == IF i > Len(p.lay) THEN t ELSE Build(p, Lay(p.lay[i], t, n + i), i + 1, n)
RECURSIVE BuildJ(_, _, _)
BuildJ(p, j, i) == IF i > Len(p.lay) THEN j ELSE BuildJ(p, LayJ(p.lay[i], j), i + 1)
FpJ(f) == [t |-> "jwt", alg |-> "EdDSA", kid |-> FpTerm(f).kid, key |-> FpTerm(f).skey, claims |-> [iss |-> FpTerm(f).iss, sub |-> FpTerm(f).sub]]
FpH(f) == IF f = "real" THEN "fp" ELSE "fp:" \o f
BaseJ(p) == IF p.base.b = "part" THEN [t |-> "inner", h |-> N(p.base.i), n |-> p.base.n]
            ELSE [t |-> "plain", msg |-> PlainJ(BaseTerm(p), IF p.base.fp = "none" THEN <<>> ELSE [from_prior |-> ("$str" :> FpH(p.base.fp))])]
Compose(p) ==
  /\ Len(adv) < MaxAdv /\ made # <<>> /\ Able(p)
  /\ LET t == Build(p, BaseTerm(p), 1, 100 + 10 * Len(net)) IN
     /\ \A i \in DOMAIN net : net[i] # t
     /\ net' = Append(net, t)
     /\ adv' = Append(adv, p)
     /\ msgs' = (EvilH(p) :> (IF p.base.b = "new" THEN BaseJ(p).msg ELSE <<>>)) @@ msgs
     /\ hist' = Append(hist, [op |-> "craft", spec |-> BuildJ(p, BaseJ(p), 1), out |-> N(Len(net) + 1)])
  /\ UNCHANGED <<rot, med, made>>

Init == rot = {} /\ med = FALSE /\ net = <<>> /\ made = <<>> /\ adv = <<>> /\ msgs = <<>> /\ hist = <<>>
Who  == <<Bo, Ma, M1>>
\* everything each party may make of the last text
ScenarioOf ==
  LET n == Len(net)
      F == <<[op |-> "fp_pack", claims |-> [iss |-> Ol, sub |-> Al], out |-> "fp", env |-> [wallet |-> Ol]]>>
           \o [i \in 1..3 |-> [op |-> "craft", spec |-> FpJ(<<"forged", "foreign", "own">>[i]), out |-> "fp:" \o <<"forged", "foreign", "own">>[i]]]
      R(i, r, un, all) == LET x == UnpackOf(World, EnvOf(r), net[i], all, un) IN
                     UnpackJ(N(i), r, all, un, ExpJ(x, IF x.f = {} /\ x.h \in DOMAIN msgs THEN [msg |-> msgs[x.h]] ELSE <<>>))
      W0 == [World EXCEPT !.docs[Al] = DocOf(Al, <<Key(Al, "k1")>>, <<Key(Al, "s1")>>, <<>>),
                          !.wallets[Al] = WalletOf(Al, <<Key(Al, "k1"), Key(Al, "s1")>>)] IN
  [world |-> WorldJ(W0), ops |-> F \o hist \o [i \in 1..(3 * n) |-> R(((i - 1) \div 3) + 1, Who[((i - 1) % 3) + 1], TRUE, FALSE)]
                                  \o <<R(n, Bo, FALSE, FALSE), R(n, Bo, TRUE, TRUE)>>]
Final == Len(adv) = MaxAdv
WriteIt == (IF Final /\ Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == \/ \E m \in SendModes, d \in {Bo, Ma}, fp \in BOOLEAN, fwd \in BOOLEAN : Send(m, d, fp, fwd)
        \/ Rotate("ka") \/ Rotate("auth") \/ LeakMed
        \/ \E p \in MyPlans : Compose(p)
Spec == Init /\ [][Next]_vars
Wrote == WriteIt      \* as a constraint, so that each distinct final state is written at most once

----------------------------------------------------------------------------
X(r, i, all, un) == UnpackOf(World, EnvOf(r), net[i], all, un)
Accepted(P(_, _, _, _)) == \A i \in DOMAIN net, r \in SeqSet(Who), un \in BOOLEAN :
                          LET x == X(r, i, FALSE, un) IN x.f = {} => P(x, r, i, un)
\* C04: whoever is named as the sender made the authenticated layer, for this recipient
AuthP(x, r, i, un) == x.meta.fromKid # NONE =>
  LET d == World.docs[DidOf(World, x.meta.fromKid)] IN
  /\ x.meta.auth /\ x.meta.fromKid \in SeqSet(d.ka)
  /\ LET k == Vm(d, x.meta.fromKid).key IN k \in Known \/ \E s \in SeqSet(made) : s.auth = k /\ s.h = x.h /\ s.dest = r
Authentic == Accepted(AuthP)
\* C05: whoever is named as the signer signed exactly this content
SignP(x, r, i, un) == /\ x.meta.nr = (x.meta.signFrom # NONE) /\ (x.meta.nr => x.meta.auth /\ x.meta.hasSigned)
                      /\ x.meta.nr => LET d == World.docs[DidOf(World, x.meta.signFrom)] IN
                           /\ x.meta.signFrom \in SeqSet(d.auth)
                           /\ LET k == Vm(d, x.meta.signFrom).key IN k \in Known \/ \E s \in SeqSet(made) : s.sig = k /\ s.h = x.h
NonRepudiable == Accepted(SignP)
\* C06: no trust without a layer that gives it
FlagsP(x, r, i, un) == /\ x.meta.auth => x.meta.fromKid # NONE \/ x.meta.signFrom # NONE
                       /\ x.meta.enc = (net[i].k = "jwe")
                       /\ x.meta.anon = (net[i].k = "jwe" /\ net[i].alg = ES)
                       /\ x.meta.hasTo = x.meta.enc /\ (x.meta.enc => x.meta.toKids # <<>>)
Flags == Accepted(FlagsP)
\* C02: what Alice encrypted to Bob stays between them
SecretP(x, r, i, un) == \A s \in SeqSet(made) : s.enc /\ x.h = s.h => r = s.dest \/ s.dest = Ma
Secret == Accepted(SecretP) /\ \A s \in SeqSet(made) : s.enc /\ s.dest = Bo => \A i \in DOMAIN net : s.h \notin Reads(Known, net[i])
\* C13: a rotation that is reported was signed by the prior DID
RotationP(x, r, i, un) == x.meta.fp # NONE =>
  LET d == World.docs[DidOf(World, x.meta.fpKid)] IN
  /\ x.meta.fpKid \in SeqSet(d.auth)
  /\ LET k == Vm(d, x.meta.fpKid).key IN
     (k \in Known /\ DidOf(World, x.meta.fpKid) = Ma /\ x.meta.fp = Ma \o ">" \o Al)
     \/ \E s \in SeqSet(made) : s.fp = x.meta.fp /\ DidOf(World, x.meta.fpKid) = Ol
Rotation == Accepted(RotationP)
\* C11: re-wrapping happens only on request, for a forward meant for a key one has
RewrapP(x, r, i, un) == x.meta.rewrap =>
  /\ un /\ net[i].alg = ES /\ IsFwd(net[i].payload)
  /\ LET to == net[i].payload.next IN
     \E j \in DOMAIN World.wallets[r] : LET id == World.wallets[r][j].id IN id = to \/ (to \in DOMAIN World.docs /\ id \in SeqSet(World.docs[to].ka))
Rewrap == Accepted(RewrapP)
\* C07: nothing on the outside of an anonymous text names Alice
HiddenOut == \A i \in DOMAIN net : net[i].k = "jwe" /\ net[i].alg = ES => \A k \in Clear(net[i]) : k = NONE \/ DidOf(World, k) # Al
\* C17: requiring all keys never accepts more, and never something else
AllP(x, r, i, un) == LET y == X(r, i, TRUE, un) IN y.f = {} => y.h = x.h /\ y.meta = x.meta
AllKeys == Accepted(AllP) /\ \A i \in DOMAIN net, r \in SeqSet(Who) : X(r, i, TRUE, TRUE).f = {} => X(r, i, FALSE, TRUE).f = {}
\* C15: refusals are of the documented kinds
KindsOk == \A i \in DOMAIN net, r \in SeqSet(Who) : KindsOf(X(r, i, FALSE, TRUE).f) \subseteq {"Malformed", "SecretNotFound", "DIDUrlNotFound"}

----------------------------------------------------------------------------
BadSenderF(ww, e, t) == {}
BadAuthKeyF(ww, e, t, all) == {}
BadSignF(ww, e, t) == {}
BadFpF(docs, ww, e, j) ==      \* the check the library had: issuer and key id are not compared
  IF VmIx(docs[DidOf(ww, j.kid)], j.kid) = 0 \/ Vm(docs[DidOf(ww, j.kid)], j.kid).key # j.skey THEN Fault("Malformed", "fp.sig") ELSE {}
BadHoldsNext(ww, e, next) == TRUE
BadKeysF(ww, e, t, all) == {}
=============================================================================
