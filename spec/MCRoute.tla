------------------------------- MODULE MCRoute -------------------------------
(* From the recipient's document to the onion: which service is used, through which mediators, with
   which keys, and everything that may go wrong on the way.  The machine does what a sender does, one
   step at a time, and builds the text; DCPack says in formulas what may result.  Final states are
   replayed: the library packs, the mediators and the recipient unpack.                             *)
EXTENDS DCModel

CONSTANTS Slices, Some, Out

Nb   == "did:ex:nobody"
MR   == "did:ex:medrec"
Lx0  == LexOf({Al, Bo, M1, M2, ME, MR, Nb}, {"k1", "k2", "x", "p", "y", "zz", "sv1", "sv2", "sv3", "svm", "s1"})
\* services of the recipient: whether it is one for DIDComm, what it accepts, where it is, through whom
Ks   == {"dc", "other"}
Acs  == {"none", "empty", "v2", "v1", "both"}
Uris == {"https", ME, MR, M2, Nb, "empty"}
Hop1 == {M1, Id(M1, "x"), Id(M1, "p"), M2, Id(M2, "zz"), Nb, "nodid"}
Rts  == {<<>>} \cup {<<a>> : a \in Hop1} \cup {<<a, b>> : a \in {M1, Id(M1, "p"), M2}, b \in Hop1} \cup {<<M1, M2, M1>>, <<M2, Id(M1, "x"), M2>>, <<M1, M1, M1>>}
\* keys of a mediator
MKs  == {<<"X">>, <<"P">>, <<"X", "P">>, <<"P", "X">>, <<"X", "X">>, <<"U", "P">>, <<"Xb", "P">>, <<"P", "Xb">>, <<"X", "Xn">>, <<"K", "X">>, <<"U">>, <<>>}
FK   == {"IoError", "Malformed", "SecretNotFound", "DIDNotResolved"}
Svcs == {"none", "1", "2", "3", "nope", "frag", "did"}
Calm == [n |-> {1}, k1 |-> {"dc"}, a1 |-> {"v2"}, u1 |-> {"https"}, r1 |-> {<<M1>>}, k2 |-> {"dc"}, a2 |-> {"none"}, u2 |-> {"https"}, r2 |-> {<<M2>>}, k3 |-> {"dc"}, a3 |-> {"both"}, u3 |-> {ME}, r3 |-> {<<>>},
         mn |-> {1}, mk |-> {"dc"}, ma |-> {"none"}, mu |-> {"https"}, mk1 |-> {<<"X", "P">>}, mk2 |-> {<<"P">>}, mke |-> {<<"X">>},
         svc |-> {"none"}, fwd |-> {NONE}, anon |-> {NONE}, to |-> {Bo}, from |-> {NONE}, fault |-> {<<"no">>}, gone |-> {{}}, how |-> {"enc"}]
Dom(s) ==
  CASE s = "svc"   -> [Calm EXCEPT !.n = 0..3, !.k1 = Ks, !.k2 = Ks, !.a1 = Acs, !.a2 = Acs, !.a3 = Acs, !.u1 = {"https", ME}, !.u2 = {"https", ME}, !.r1 = {<<>>, <<M1>>}, !.svc = Svcs, !.to = {Bo, Id(Bo, "k2")},
                                   !.fwd = {NONE, "yes", "no"}]
    [] s = "path"  -> [Calm EXCEPT !.u1 = Uris, !.r1 = Rts, !.mn = 0..2, !.mk = Ks, !.ma = Acs, !.mu = {"https", M1}, !.to = {Bo, Id(Bo, "k2")}, !.from = {NONE, Al}, !.fwd = {NONE, "no"}]
    [] s = "keys"  -> [Calm EXCEPT !.u1 = {"https", ME}, !.r1 = Rts, !.mk1 = MKs, !.mk2 = MKs, !.mke = MKs, !.anon = {NONE, CBC, GCM, XC}, !.how = {"enc", "wrap"}]
    [] s = "fault" -> [Calm EXCEPT !.u1 = {"https", ME, Nb}, !.r1 = Rts, !.fault = {<<"no">>} \cup {<<"did", d, k>> : d \in {Bo, M1, M2, ME}, k \in FK}, !.gone = SUBSET {M1, M2, ME}, !.how = {"enc", "wrap"},
                                   !.fwd = {NONE, "no"}, !.mk1 = {<<"X">>, <<"U">>}, !.mn = {0, 1}]
Draw(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
Pick(S) == {[x \in DOMAIN S |-> Draw(S[x], n)] : n \in 1..Some}
Lone(S) == UNION {{[y \in DOMAIN S |-> IF y = x THEN q ELSE CHOOSE z \in Calm[y] : TRUE] : q \in S[x]} : x \in DOMAIN S}
Cfgs == UNION {Pick(Dom(s)) \cup Lone(Dom(s)) : s \in Slices}

VARIABLES c, pc, i, s, hops, lay, kd,
          w, x        \* the world of c and what DCPack says about it (computed once)
vars == <<c, pc, i, s, hops, lay, kd>>

----------------------------------------------------------------------------
MkSvc(id, k, a, u, rk) ==
  [id |-> id, k |-> k, uri |-> IF u = "https" THEN "https://" \o id ELSE IF u = "empty" THEN "" ELSE u, hasAccept |-> a # "none",
   accept |-> CASE a \in {"none", "empty"} -> <<>> [] a = "v2" -> <<"didcomm/v2">> [] a = "v1" -> <<"didcomm/aip1">> [] a = "both" -> <<"didcomm/aip2;env=rfc19", "didcomm/v2">>, rk |-> rk]
BoSvc == SubSeq(<<MkSvc(Id(Bo, "sv1"), c.k1, c.a1, c.u1, c.r1), MkSvc(Id(Bo, "sv2"), c.k2, c.a2, c.u2, c.r2), MkSvc(Id(Bo, "sv3"), c.k3, c.a3, c.u3, c.r3)>>, 1, c.n)
MeSvc == SubSeq(<<MkSvc(Id(ME, "sv1"), c.mk, c.ma, c.mu, <<M2>>), MkSvc(Id(ME, "sv2"), "dc", "v2", "https", <<>>)>>, 1, c.mn)
KeyM(d, f, z) ==
  LET k == K(f, IF z = "U" THEN "X" ELSE SubSeq(z, 1, 1), d)  q == IF Len(z) = 2 THEN SubSeq(z, 2, 2) ELSE "" IN
  CASE z = "U" -> [k EXCEPT !.rep = "u-other"] [] q = "b" -> [k EXCEPT !.rep = "jwk-shortx"] [] q = "n" -> [k EXCEPT !.vm = FALSE] [] OTHER -> k
MFr == <<"x", "p">>
KeysM(d, l) == [j \in DOMAIN l |-> KeyM(d, MFr[j], l[j])]
BoK  == <<K("k1", "X", Bo), K("k2", "P", Bo)>>
D0   == LET X == Al :> DocOf(Al, <<K("k1", "X", Al), K("k2", "P", Al)>>, <<>>, <<>>) @@ Bo :> DocOf(Bo, BoK, <<>>, BoSvc) @@ M1 :> DocOf(M1, KeysM(M1, c.mk1), <<>>, <<>>) @@ M2 :> DocOf(M2, KeysM(M2, c.mk2), <<>>, <<>>)
                  @@ ME :> DocOf(ME, KeysM(ME, c.mke), <<>>, MeSvc) @@ MR :> DocOf(MR, <<K("x", "X", MR)>>, <<>>, <<MkSvc(Id(MR, "sv1"), "dc", "v2", ME, <<>>)>>) IN
        [d \in DOMAIN X \ c.gone |-> X[d]]
WalM(d, l) == WalletOf(d, SelectSeq(KeysM(d, l), LAMBDA k : k.rep = "jwk"))
Wal  == Al :> WalletOf(Al, <<K("k1", "X", Al), K("k2", "P", Al)>>) @@ Bo :> WalletOf(Bo, BoK) @@ M1 :> WalM(M1, c.mk1) @@ M2 :> WalM(M2, c.mk2) @@ ME :> WalM(ME, c.mke) @@ MR :> <<>>
w0   == Static(D0, Wal, Lx0)
D    == w.docs
e    == [EnvOf(Al) EXCEPT !.dfault = IF c.fault[1] = "did" THEN (c.fault[2] :> c.fault[3]) ELSE <<>>]
SvcId == CASE c.svc = "none" -> NONE [] c.svc = "nope" -> Id(Bo, "nope") [] c.svc = "frag" -> "#sv1" [] c.svc = "did" -> Bo [] OTHER -> Id(Bo, "sv" \o c.svc)
Msg  == MkMsg("secret", NONE, <<>>, NoFp)
Ev0  == [ev |-> "pack_enc", env |-> e, out |-> "p", msg |-> Msg, to |-> c.to, from |-> c.from, by |-> NONE, jh |-> "p",
         opts |-> [protect |-> NONE, forward |-> c.fwd, svc |-> SvcId, anon |-> c.anon, hdr |-> "h"]]
Enc  == Opt(c.anon, XC)
\* what is wrapped: packed for the recipient with the key that comes first; for "wrap" made by somebody else
Sel1 == [NoSel({}) EXCEPT !.kids = <<IF c.to = Bo THEN Id(Bo, "k1") ELSE c.to>>, !.keys = <<IF c.to = Bo THEN BoK[1].key ELSE BoK[2].key>>, !.crv = IF c.to = Bo THEN "X" ELSE "P",
                         !.fromKid = IF c.from = NONE THEN NONE ELSE Id(Al, IF c.to = Bo THEN "k1" ELSE "k2"), !.skey = IF c.from = NONE THEN NONE ELSE K(IF c.to = Bo THEN "k1" ELSE "k2", IF c.to = Bo THEN "X" ELSE "P", Al).key]
Inner == MkJwe(Sel1, c.from # NONE, IF c.from # NONE THEN CBC ELSE Enc, Msg, 1)

----------------------------------------------------------------------------
(* The procedure. *)
Resolve(d)  == IF d \in DOMAIN e.dfault THEN e.dfault[d] ELSE IF d \in DOMAIN D THEN "ok" ELSE "DIDNotResolved"
Fits(v)     == v.k = "dc" /\ (v.hasAccept => (v.accept = <<>> \/ \E j \in DOMAIN v.accept : v.accept[j] = "didcomm/v2"))
Stop(k)     == pc' = "refused" /\ kd' = k /\ UNCHANGED <<c, i, s, hops, lay, w, x>>
Go(p)       == pc' = p /\ UNCHANGED <<c, kd, w, x>>
NoSvc       == [id |-> NONE, uri |-> NONE]
Init == c \in Cfgs /\ pc = (IF c.how = "wrap" THEN "wrap" ELSE "inner") /\ i = 0 /\ s = NoSvc /\ hops = <<>> /\ lay = <<>> /\ kd = NONE /\ w = w0 /\ x = PackEncF(w, Ev0)
\* the message itself (MCSel has the details)
InnerP == pc = "inner" /\ (IF Resolve(Bo) # "ok" THEN Stop(Resolve(Bo)) ELSE Go(IF c.fwd = "no" THEN "packed" ELSE "svc") /\ i' = 1 /\ UNCHANGED <<s, hops, lay>>)
Wrap  == pc = "wrap" /\ Go("hop") /\ hops' = c.r1 /\ i' = Len(c.r1) /\ UNCHANGED <<s, lay>>
Svc   == /\ pc = "svc"
         /\ IF SvcId # NONE
            THEN LET y == SelectSeq(BoSvc, LAMBDA v : v.id = SvcId) IN
                 IF y = <<>> THEN Stop("IllegalArgument") ELSE IF ~Fits(y[1]) THEN Stop("IllegalArgument") ELSE Go("uri") /\ s' = [id |-> y[1].id, uri |-> y[1].uri, rk |-> y[1].rk] /\ UNCHANGED <<i, hops, lay>>
            ELSE IF i > Len(BoSvc) THEN Go("packed") /\ UNCHANGED <<i, s, hops, lay>>
            ELSE IF Fits(BoSvc[i]) THEN Go("uri") /\ s' = [id |-> BoSvc[i].id, uri |-> BoSvc[i].uri, rk |-> BoSvc[i].rk] /\ UNCHANGED <<i, hops, lay>>
            ELSE Go("svc") /\ i' = i + 1 /\ UNCHANGED <<s, hops, lay>>
Uri   == /\ pc = "uri"
         /\ IF ~IsDid(w, s.uri) THEN Go("hop") /\ hops' = s.rk /\ i' = Len(s.rk) /\ UNCHANGED <<s, lay>>
            ELSE IF Resolve(s.uri) # "ok" THEN Stop(Resolve(s.uri))
            ELSE Go("med") /\ i' = 1 /\ hops' = <<s.uri>> \o s.rk /\ UNCHANGED <<s, lay>>
Med   == /\ pc = "med"
         /\ LET y == D[s.uri].svcs IN
            IF i > Len(y) THEN Stop("InvalidState")
            ELSE IF ~Fits(y[i]) THEN Go("med") /\ i' = i + 1 /\ UNCHANGED <<s, hops, lay>>
            ELSE IF IsDid(w, y[i].uri) THEN Stop("InvalidState")
            ELSE Go("hop") /\ s' = [s EXCEPT !.uri = y[i].uri] /\ i' = Len(hops) /\ UNCHANGED <<hops, lay>>
\* one layer per hop, the last one first
Method(d, id) == LET y == SelectSeq(D[d].vms, LAMBDA m : m.id = id) IN IF y = <<>> THEN [alg |-> "absent"] ELSE [alg |-> AlgOf(y[1])] @@ y[1]
HopS  == /\ pc = "hop"
         /\ IF i = 0 THEN Go("packed") /\ UNCHANGED <<i, s, hops, lay>>
            ELSE LET h == hops[i]  d == DidOf(w, h) IN
                 IF Resolve(d) # "ok" THEN Stop(Resolve(d))
                 ELSE LET l == IF Frag(w, h) THEN (IF h \in SeqSet(D[d].ka) THEN <<h>> ELSE <<>>) ELSE D[d].ka
                          a == [j \in DOMAIN l |-> Method(d, l[j]).alg]
                          g == SelectSeq(l, LAMBDA k : Method(d, k).alg # "U") IN
                      IF l = <<>> THEN Stop("DIDUrlNotFound")
                      ELSE IF \E j \in DOMAIN a : a[j] = "absent" THEN Stop("DIDUrlNotFound")
                      ELSE IF g = <<>> THEN Stop("NoCompatibleCrypto")
                      ELSE LET crv == Method(d, g[1]).alg  same == SelectSeq(g, LAMBDA k : Method(d, k).alg = crv) IN
                           IF crv \notin {"X", "P"} THEN Stop("Unsupported")
                           ELSE IF \E k \in SeqSet(same) : Method(d, k).rep # "jwk" THEN Stop("Malformed")
                           ELSE Go("hop") /\ i' = i - 1 /\ lay' = <<[kids |-> same, crv |-> crv, keys |-> [j \in DOMAIN same |-> Method(d, same[j]).key], next |-> IF i = Len(hops) THEN c.to ELSE hops[i + 1]]>> \o lay
                                /\ UNCHANGED <<s, hops>>
\* the text
RECURSIVE Onion(_, _)
Onion(ls, n) == IF ls = <<>> THEN Inner
                ELSE MkJwe([NoSel({}) EXCEPT !.kids = ls[1].kids, !.keys = ls[1].keys, !.crv = ls[1].crv], FALSE, Enc, MkFwd(ls[1].next, Onion(Tail(ls), n + 1), "h", n), n)
Meta  == [fromKid |-> Sel1.fromKid, signKid |-> NONE, toKids |-> Sel1.kids, hasSvc |-> hops # <<>>, svcId |-> IF hops # <<>> THEN s.id ELSE NONE, svcUri |-> IF hops # <<>> THEN s.uri ELSE NONE]
EvOf(t, m, k) == Ev0 @@ [st |-> IF k = NONE THEN "ok" ELSE "err", kind |-> k, term |-> t, meta |-> m, leak |-> FALSE, vis |-> <<>>]
WrapEv(t, k)  == [ev |-> "wrap", env |-> e, st |-> IF k = NONE THEN "ok" ELSE "err", kind |-> k, term |-> t, to |-> c.to, rks |-> c.r1, anon |-> Enc, hdr |-> "h", jh |-> "inner"]
Net0  == [term |-> Inner, jh |-> "inner"]

ExpR  == [f |-> SetToSeq(x.f), toKids |-> IF pc = "packed" THEN Sel1.kids ELSE <<>>, fromKid |-> IF pc = "packed" THEN Sel1.fromKid ELSE NONE, signKid |-> NONE, svc |-> [id |-> Meta.svcId, uri |-> Meta.svcUri]]
EnvJ  == [wallet |-> Al] @@ (IF e.dfault = <<>> THEN <<>> ELSE [dfault |-> e.dfault])
OptsJ == [headers |-> [h |-> "h"]] @@ (IF c.fwd = NONE THEN <<>> ELSE [forward |-> c.fwd = "yes"]) @@ (IF c.anon = NONE THEN <<>> ELSE [anon |-> c.anon]) @@ (IF SvcId = NONE THEN <<>> ELSE [svc |-> SvcId])
PackJ == IF c.how = "wrap"
         THEN <<[op |-> "pack_enc", msg |-> PlainJ(Msg, <<>>), to |-> c.to, out |-> "e", env |-> [wallet |-> Al], opts |-> [forward |-> FALSE]],
                [op |-> "wrap", in |-> "e", to |-> c.to, rks |-> c.r1, anon |-> Enc, headers |-> [h |-> "h"], out |-> "p0", env |-> EnvJ]>>
         ELSE <<[op |-> "pack_enc", msg |-> PlainJ(Msg, <<>>), to |-> c.to, out |-> "p0", env |-> EnvJ, opts |-> OptsJ, exp |-> ExpR] @@ (IF c.from = NONE THEN <<>> ELSE [from |-> c.from])>>
H(n)  == "p" \o ToString(n)
Peel(n) == [op |-> "unpack", in |-> H(n - 1), out |-> H(n), env |-> [wallet |-> DidOf(w, hops[n])], opts |-> [all |-> n = 2, unwrap |-> n = 1]]
ScenarioOf == [world |-> WorldJ(w),
               ops |-> PackJ \o (IF pc = "packed" THEN [n \in DOMAIN hops |-> Peel(n)] \o <<[op |-> "unpack", in |-> H(Len(hops)), env |-> [wallet |-> Bo], opts |-> [all |-> FALSE, unwrap |-> TRUE]]>> ELSE <<>>)]
End  == /\ pc \in {"packed", "refused"} /\ i' = -1 /\ pc' = (IF pc = "packed" THEN "Packed" ELSE "Refused") /\ UNCHANGED <<c, s, hops, lay, kd, w, x>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == InnerP \/ Wrap \/ Svc \/ Uri \/ Med \/ HopS \/ End
Spec == Init /\ [][Next]_<<vars, w, x>>

----------------------------------------------------------------------------
Judged(t, m, k) == IF c.how = "wrap" THEN WrapV(w, WrapEv(t, k), Net0) ELSE PackEncV(w, EvOf(t, m, k))
\* the procedure's text is what DCPack asks for; a text that differs from it anywhere in the onion is not
Agrees ==
  /\ pc = "packed" =>
       LET T == Onion(lay, 1) IN
       /\ Judged(T, Meta, NONE) = {}
       /\ Judged(T, Meta, "InvalidState") # {}
       /\ lay # <<>> => /\ Judged(Inner, Meta, NONE) # {}
                        /\ Judged(Onion(Tail(lay), 2), Meta, NONE) # {}
                        /\ Judged(Onion([lay EXCEPT ![Len(lay)].next = "did:ex:other"], 1), Meta, NONE) # {}
                        /\ Judged(Onion([lay EXCEPT ![1].keys[1] = "X:stranger"], 1), Meta, NONE) # {}
                        /\ \A n \in DOMAIN lay : Len(lay[n].kids) > 1 =>
                             Judged(Onion([lay EXCEPT ![n].kids = Tail(@), ![n].keys = Tail(@)], 1), Meta, NONE) # {}
       /\ (lay = <<>> /\ c.how = "enc") => Judged(Onion(<<[kids |-> <<Id(M1, "x")>>, crv |-> "X", keys |-> <<K("x", "X", M1).key>>, next |-> c.to]>>, 1), Meta, NONE) # {}
       /\ c.how = "enc" => Judged(T, [Meta EXCEPT !.svcUri = "https://other"], NONE) # {} \/ ~Meta.hasSvc
  /\ pc = "refused" => Judged(NoFp, Meta, kd) = {} /\ Judged(Inner, Meta, NONE) # {}
\* C12, in the words of the property: the service used
Usable  == {n \in DOMAIN BoSvc : BoSvc[n].k = "dc" /\ (~BoSvc[n].hasAccept \/ BoSvc[n].accept = <<>> \/ "didcomm/v2" \in SeqSet(BoSvc[n].accept))}
Named   == IF SvcId = NONE THEN 0 ELSE First(BoSvc, LAMBDA v : v.id = SvcId)
Wanted  == IF SvcId # NONE THEN (IF Named \in Usable THEN Named ELSE 0) ELSE IF Usable = {} THEN 0 ELSE CHOOSE n \in Usable : \A m \in Usable : n <= m
Routed  == c.how = "enc" /\ c.fwd # "no"
Service == /\ pc = "packed" /\ Routed => /\ SvcId # NONE => Wanted # 0
                                         /\ IF Wanted = 0 THEN hops = <<>>
                                            ELSE LET v == BoSvc[Wanted] IN
                                                 /\ hops = (IF IsDid(w, v.uri) THEN <<v.uri>> ELSE <<>>) \o v.rk
                                                 /\ hops # <<>> => Meta.svcId = v.id /\ ~IsDid(w, Meta.svcUri) /\ (~IsDid(w, v.uri) => Meta.svcUri = v.uri)
           /\ pc = "packed" /\ c.how = "enc" /\ c.fwd = "no" => hops = <<>> /\ ~Meta.hasSvc
           /\ pc = "refused" /\ Routed /\ SvcId # NONE /\ Wanted = 0 /\ Resolve(Bo) = "ok" => kd = "IllegalArgument"
           /\ pc = "refused" /\ kd = "IllegalArgument" => Routed /\ SvcId # NONE /\ Wanted = 0
\* C12: a mediator that is itself behind another, or offers nothing
Chains  == Routed /\ Wanted # 0 /\ pc \in {"packed", "refused"} /\ Resolve(Bo) = "ok" =>
           LET v == BoSvc[Wanted] IN
           /\ v.uri = MR /\ Resolve(MR) = "ok" => pc = "refused" /\ kd = "InvalidState"
           /\ v.uri = M2 /\ Resolve(M2) = "ok" => pc = "refused" /\ kd = "InvalidState"
           /\ v.uri = Nb => pc = "refused" /\ kd = "DIDNotResolved"
           /\ v.uri = ME /\ Resolve(ME) = "ok" /\ (\A m \in SeqSet(MeSvc) : ~Accepts(m)) => pc = "refused" /\ kd = "InvalidState"
\* C10: one layer per hop, each for that hop alone, naming the one that comes after it
Layers  == pc = "packed" =>
           /\ Len(lay) = Len(hops)
           /\ \A n \in DOMAIN lay : /\ \A j \in DOMAIN lay[n].kids : DidOf(w, lay[n].kids[j]) = DidOf(w, hops[n]) /\ (Frag(w, hops[n]) => lay[n].kids[j] = hops[n])
                                    /\ lay[n].kids # <<>>
                                    /\ lay[n].next = (IF n = Len(lay) THEN c.to ELSE hops[n + 1])
\* whoever holds the keys of one hop reads the message only when it is the last of them
Opaque  == pc = "packed" => \A n \in DOMAIN lay : n < Len(lay) \/ lay # <<>> => "secret" \notin Reads(SeqSet(lay[n].keys), Onion(lay, 1))
Through == pc = "packed" => "secret" \in Reads(UNION {SeqSet(lay[n].keys) : n \in DOMAIN lay} \cup {Sel1.keys[1]}, Onion(lay, 1))
\* C18: the resolver's own error, when it is needed
Heard   == pc \in {"packed", "refused"} /\ c.fault[1] = "did" => (c.fault[2] \in {DidOf(w, h) : h \in SeqSet(hops)} => pc = "refused")
\* services after the one used do not matter, nor does whatever a service of another kind says
Rest    == pc \in {"packed", "refused"} /\ Routed /\ Wanted # 0 /\ SvcId = NONE /\ Resolve(Bo) = "ok" =>
           LET w2 == Static([D EXCEPT ![Bo].svcs = SubSeq(@, 1, Wanted)], Wal, Lx0) IN PackEncF(w2, Ev0) = x
Ends    == pc \in {"Packed", "Refused"} \/ ENABLED Next

----------------------------------------------------------------------------
BadAccepts(v) == v.k = "dc" /\ (~v.hasAccept \/ "didcomm/v2" \in SeqSet(v.accept))
BadRoute(ww, ee, to, svcId) ==
  LET ss == ww.docsR[DidOf(ww, to)].svcs  ix == First(ss, Accepts) IN
  IF ix = 0 THEN NoRoute({}) ELSE [NoRoute({}) EXCEPT !.hops = ss[ix].rk, !.id = ss[ix].id, !.uri = ss[ix].uri]
BadHopsF(ww, ee, hs) == {}
BadOnCurve(doc, ids, crv) == ids
=============================================================================
