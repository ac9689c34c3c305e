------------------------------- MODULE MCWorld -------------------------------
(* Packing, carrying and unpacking a message, end to end: for every configuration of documents,
   wallets, arguments and options in the bounds, the sender packs, every mediator peels its layer,
   and the recipient unpacks with every subset of its keys.                                      *)
EXTENDS DCModel, IOUtils, Randomization

CONSTANTS Slices, Some,          \* which slices of configurations; percentage of each that is taken
          Out                    \* one in Out behaviours is written out

Dids  == {Al, Bo, M1, M2, ME, Ol}
Frags == {"k1", "k2", "k3", "s1", "s2", "x", "p", "sv"}
Lx0   == LexOf(Dids, Frags)
KL    == {<<"X">>, <<"P">>, <<"X", "P">>, <<"P", "X">>, <<"X", "X">>, <<"X", "P", "X">>}
KF    == <<"k1", "k2", "k3">>
SF    == <<"s1", "s2">>
Modes == [from : {"~", Al}, by : {"~", Al}, prot : {"~", "yes"}]

Keys(d, F, l)  == [i \in DOMAIN l |-> K(F[i], l[i], d)]
Svc(i, uri, rk) == [id |-> Id(Bo, "sv" \o i), k |-> "dc", uri |-> uri, hasAccept |-> TRUE, accept |-> <<"didcomm/v2">>, rk |-> rk]
Med(d) == <<K("x", "X", d), K("p", "P", d)>>
\* the whole world of a configuration
WorldOf(c) ==
  LET a == Keys(Al, KF, c.ak)  s == Keys(Al, SF, c.sk)  b == Keys(Bo, KF, c.bk)  o == <<K("s1", "E", Ol)>> IN
  Static(Al :> DocOf(Al, a, s, <<>>) @@ Bo :> DocOf(Bo, b, <<>>, <<Svc("1", c.uri, c.rk)>>)
         @@ M1 :> DocOf(M1, Med(M1), <<>>, <<>>) @@ M2 :> DocOf(M2, <<K("p", "P", M2), K("x", "X", M2)>>, <<>>, <<>>)
         @@ ME :> DocOf(ME, Med(ME), <<>>, <<[Svc("m", "https://me", <<>>) EXCEPT !.id = Id(ME, "sv")]>>)
         @@ Ol :> DocOf(Ol, <<>>, o, <<>>),
         Al :> WalletOf(Al, a \o s) @@ Bo :> WalletOf(Bo, b) @@ M1 :> WalletOf(M1, Med(M1))
         @@ M2 :> WalletOf(M2, Med(M2)) @@ ME :> WalletOf(ME, Med(ME)) @@ "-" :> <<>>, Lx0)
Msg(c) == MkMsg("secret", IF c.mfrom THEN Al ELSE NONE, IF c.mto THEN <<Bo>> ELSE <<>>,
                IF c.fp THEN [k |-> "jwt", ok |-> "ok", typ |-> "JWT", alg |-> "EdDSA", kid |-> Id(Ol, "s1"), skey |-> K("s1", "E", Ol).key, sigb64 |-> TRUE,
                              cok |-> TRUE, iss |-> Ol, sub |-> Al, ch |-> "rotation", w |-> ""] ELSE NoFp)
Event(c) == [ev |-> "pack_enc", env |-> EnvOf(Al), out |-> "p", msg |-> Msg(c), to |-> c.to, from |-> c.from, by |-> c.by, jh |-> "p",
             opts |-> [protect |-> c.prot, forward |-> c.fwd, svc |-> NONE, anon |-> c.anon, hdr |-> "h"]]

Pick(S) == IF Some >= 100 THEN S ELSE RandomSubset((Cardinality(S) * Some) \div 100 + 1, S)
Full(S) == [ak : S.ak, sk : S.sk, bk : S.bk, to : S.to, from : S.from, by : S.by, prot : S.prot, anon : S.anon, fwd : S.fwd,
            uri : S.uri, rk : S.rk, mfrom : S.mfrom, mto : S.mto, fp : S.fp]
Calm == [ak |-> {<<"X", "P">>}, sk |-> {<<"E">>}, bk |-> {<<"X", "P">>}, to |-> {Bo}, from |-> {NONE, Al}, by |-> {NONE, Al}, prot |-> {NONE, "yes"},
         anon |-> {NONE}, fwd |-> {NONE}, uri |-> {"https://b"}, rk |-> {<<>>}, mfrom |-> {FALSE}, mto |-> {FALSE}, fp |-> {FALSE}]
Routes == {<<>>, <<M1>>, <<M1, M2>>, <<Id(M1, "p"), M2>>, <<Id(M2, "x"), M1>>}
Cfgs == UNION
  {IF "keys" \in Slices THEN Pick(Full([Calm EXCEPT !.ak = KL, !.bk = KL, !.sk = {<<"E">>, <<"P", "E">>}, !.to = {Bo, Id(Bo, "k1"), Id(Bo, "k2")}, !.from = {NONE, Al, Id(Al, "k1"), Id(Al, "k2")}])) ELSE {},
   IF "route" \in Slices THEN Pick(Full([Calm EXCEPT !.anon = {NONE, CBC, GCM}, !.fwd = {NONE, "yes", "no"}, !.uri = {"https://b", ME}, !.rk = Routes, !.to = {Bo, Id(Bo, "k2")}])) ELSE {},
   IF "msg" \in Slices THEN Pick(Full([Calm EXCEPT !.mfrom = {TRUE, FALSE}, !.mto = {TRUE, FALSE}, !.fp = {TRUE, FALSE}, !.sk = {<<"E">>, <<"P">>, <<"K">>, <<"K", "E">>}, !.by = {NONE, Al, Id(Al, "s1"), Id(Al, "s2")}, !.rk = {<<>>, <<M1>>}, !.anon = {XC, CBC, GCM}])) ELSE {}}

VARIABLES c,      \* the configuration
          pc,     \* "pack", "peel", "done", "refused"
          first,  \* the packed text
          cur,    \* the text being carried
          hop,    \* hops passed
          meta    \* what packing reported
vars == <<c, pc, first, cur, hop, meta>>
\* (the order of a parse: everything above is constant, everything below is about the state)
w    == WorldOf(c)
v    == Event(c)
x    == PackEncF(w, v)
hops == x.rt.hops

Init == c \in Cfgs /\ pc = "pack" /\ first = NoFp /\ cur = NoFp /\ hop = 0 /\ meta = [toKids |-> <<>>]
Pack == /\ pc = "pack"
        /\ \E o \in EncOutcomes(w, v, 1) :
             /\ pc' = IF o.st = "ok" THEN "peel" ELSE "refused"
             /\ first' = IF o.st = "ok" THEN o.term ELSE NoFp
             /\ cur' = first' /\ meta' = IF o.st = "ok" THEN o.meta ELSE meta
        /\ UNCHANGED <<c, hop>>
\* the mediator whose turn it is opens its layer and passes the attachment on
MedU(i) == UnpackOf(w, EnvOf(DidOf(w, hops[i])), cur, FALSE, TRUE)
Peel == /\ pc = "peel" /\ hop < Len(hops)
        /\ MedU(hop + 1).f = {}
        /\ hop' = hop + 1 /\ cur' = cur.payload.inner
        /\ UNCHANGED <<c, pc, first, meta>>
\* the behaviour as a scenario: pack, the mediators, the recipient with all and with each one of its keys
HopWallet(i) == DidOf(w, hops[i])
Carried(i)   == LET RECURSIVE Go(_, _)
                    Go(t, n) == IF n = 0 THEN t ELSE Go(t.payload.inner, n - 1) IN Go(first, i)
H(i)         == "p" \o ToString(i)
MsgJ(cc)     == PlainJ(Msg(cc), IF cc.fp THEN [from_prior |-> ("$str" :> "fp")] ELSE <<>>)
Some1        == {k.id : k \in {k \in SeqSet(w.wallets[Bo]) : k.id \in SeqSet(meta.toKids)}}
ScenarioOf ==
  [world |-> [WorldJ(w) EXCEPT !.wallets = [d \in {"w:" \o k : k \in Some1} |-> SelectSeq(w.wallets[Bo], LAMBDA k : "w:" \o k.id = d)]
                                           @@ ("w:old" :> WalletOf(Ol, <<K("s1", "E", Ol)>>)) @@ @],
   ops |-> (IF c.fp THEN <<[op |-> "fp_pack", claims |-> [iss |-> Ol, sub |-> Al], out |-> "fp", env |-> [wallet |-> "w:old"]]>> ELSE <<>>)
           \o <<[op |-> "pack_enc", msg |-> MsgJ(c), to |-> c.to, out |-> "p0", env |-> [wallet |-> Al],
                 opts |-> (IF c.prot = "yes" THEN [protect |-> TRUE] ELSE <<>>) @@ (IF c.fwd = NONE THEN <<>> ELSE [forward |-> c.fwd = "yes"])
                          @@ (IF c.anon = NONE THEN <<>> ELSE [anon |-> c.anon])]
                @@ (IF c.from = NONE THEN <<>> ELSE [from |-> c.from]) @@ (IF c.by = NONE THEN <<>> ELSE [by |-> c.by])>>
           \o [i \in 1..Len(hops) |-> [out |-> H(i)] @@ UnpackJ(H(i - 1), HopWallet(i), FALSE, TRUE, ExpJ(UnpackOf(w, EnvOf(HopWallet(i)), Carried(i - 1), FALSE, TRUE), <<>>))]
           \o [i \in 1..Len(hops) |-> UnpackJ(H(i - 1), Bo, FALSE, TRUE, ExpJ(UnpackOf(w, EnvOf(Bo), Carried(i - 1), FALSE, TRUE), <<>>))]
           \o LET L == SetToSeq(Some1 \cup {"all", "none"}) IN
              [i \in 1..Len(L) |->
                 LET wl == IF L[i] = "all" THEN Bo ELSE IF L[i] = "none" THEN Al ELSE "w:" \o L[i]
                     ww == IF L[i] \in Some1 THEN [w EXCEPT !.wallets = (wl :> SelectSeq(w.wallets[Bo], LAMBDA k : k.id = L[i])) @@ @] ELSE w IN
                 UnpackJ(H(Len(hops)), wl, L[i] = "all", TRUE, ExpJ(UnpackOf(ww, EnvOf(wl), cur, L[i] = "all", TRUE), [msg |-> MsgJ(c)]))]]
Deliver == /\ pc = "peel" /\ hop = Len(hops) /\ pc' = "done" /\ UNCHANGED <<c, first, cur, hop, meta>>
           /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == Pack \/ Peel \/ Deliver
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Target  == SeqSet(meta.toKids)
Bkeys   == {k \in SeqSet(w.wallets[Bo]) : k.id \in Target}
AllKeys == {k.key : k \in UNION {SeqSet(w.wallets[d]) : d \in DOMAIN w.wallets}}
With(S) == [w EXCEPT !.wallets = Bo :> SelectSeq(w.wallets[Bo], LAMBDA k : k.id \in S) @@ @]
Got(S, all, un) == UnpackOf(With(S), EnvOf(Bo), cur, all, un)
MFrom == c.from # NONE
Prot  == MFrom /\ c.prot = "yes"
Anon  == Opt(c.anon, XC)

\* C01, C06, C28: what arrives is what was sent, and the metadata says what was asked for
RoundTrip == pc = "done" =>
  LET g == Got({k.id : k \in Bkeys}, TRUE, TRUE)  m == g.meta IN
  /\ g.f = {} /\ g.h = "secret"
  /\ m.enc /\ m.auth = (MFrom \/ c.by # NONE) /\ m.nr = (c.by # NONE) /\ m.anon = (~MFrom \/ Prot) /\ ~m.rewrap
  /\ m.toKids = meta.toKids /\ m.fromKid = meta.fromKid /\ m.signFrom = meta.signKid
  /\ m.algAuth = (IF MFrom THEN CBC ELSE NONE) /\ m.algAnon = (IF MFrom /\ ~Prot THEN NONE ELSE Anon)
  /\ (m.algSign # NONE) = (c.by # NONE) /\ m.hasSigned = (c.by # NONE)
  /\ (m.fp = "rotation") = c.fp
\* C17: any non-empty subset of the targeted keys gives the same result, with and without all-keys
Subsets == pc = "done" =>
  \A S \in (SUBSET {k.id : k \in Bkeys}) \ {{}}, all \in BOOLEAN, un \in BOOLEAN :
     Got(S, all, un) = Got({k.id : k \in Bkeys}, TRUE, TRUE)
\* C02: without a targeted key there is only an error, and nothing can be read off the text
Secrecy == pc \in {"peel", "done"} =>
  /\ Bkeys # {} /\ Target \subseteq DOMAIN Lx0
  /\ "secret" \notin Reads(AllKeys \ {k.key : k \in Bkeys}, first)
  /\ "secret" \in Reads({(CHOOSE k \in Bkeys : TRUE).key} \cup {k.key : k \in UNION {SeqSet(w.wallets[m]) : m \in {M1, M2, ME}}}, first)
  /\ \A d \in DOMAIN w.wallets \ {Bo} : hop = Len(hops) => UnpackOf(w, EnvOf(d), cur, FALSE, TRUE).f # {}
  /\ hop = Len(hops) => LET o == UnpackOf(With({k.id : k \in SeqSet(w.wallets[Bo]) \ Bkeys}), EnvOf(Bo), cur, FALSE, TRUE) IN
                        o.f = Fault("SecretNotFound", "nosecret")
\* C10: each hop opens its own layer only, learns only the next hop, and passes on what the sender made
Onion == pc = "peel" /\ hop < Len(hops) =>
  LET g == MedU(hop + 1) IN
  /\ g.f = {} /\ g.meta.anon /\ ~g.meta.auth /\ ~g.meta.rewrap
  /\ cur.payload.next = (IF hop + 1 = Len(hops) THEN c.to ELSE hops[hop + 2]) /\ cur.payload.hdr = "h" /\ IsFwd(cur.payload)
  /\ cur.enc = Anon
  /\ \A d \in (DOMAIN w.wallets) \ {DidOf(w, hops[hop + 1])} : UnpackOf(w, EnvOf(d), cur, FALSE, TRUE).f # {}
Layers == pc = "done" => hop = Len(hops) /\ hops = (IF Opt(c.fwd, "yes") = "no" THEN <<>> ELSE (IF c.uri = ME THEN <<ME>> ELSE <<>>) \o c.rk)
                         /\ meta.hasSvc = (hops # <<>>) /\ (meta.hasSvc => meta.svcUri = IF c.uri = ME THEN "https://me" ELSE c.uri)
\* C07: the sender is not to be seen on the outside unless plain authenticated encryption was asked for
Hidden == pc \in {"peel", "done"} /\ (hop < Len(hops) \/ ~MFrom \/ Prot) =>
  \A k \in Clear(cur) : k = NONE \/ DidOf(w, k) # Al
ProtShape == pc = "done" /\ Prot => cur.alg = ES /\ cur.payload.k = "jwe" /\ cur.payload.alg = OPU /\ cur.payload.rcp = cur.rcp
\* C08, C24: one curve, keys of the recipient's document only
OneCurve == pc = "done" => /\ \A i \in DOMAIN cur.rcp : Vm(w.docs[Bo], cur.rcp[i].kid).crv = cur.crv /\ Vm(w.docs[Bo], cur.rcp[i].kid).key = cur.rcp[i].key
                           /\ HdrF(w, cur) = {}
\* C19
Fresh == pc \in {"peel", "done"} => LET F == FreshOf(first) IN Cardinality(SeqSet(F)) = Len(F)
\* the judge of recorded envelopes accepts what the generative side makes, and nothing close to it
Done1(o) == v @@ o
JudgeAccepts == pc \in {"peel", "refused"} /\ hop = 0 => \A o \in EncOutcomes(w, v, 1) : PackEncV(w, Done1(o)) = {}
Mut(o) == LET t == o.term  m == o.meta IN
  {[o EXCEPT !.term.enc = IF @ = GCM THEN CBC ELSE GCM], [o EXCEPT !.term.alg = IF @ = ES THEN OPU ELSE ES],
   [o EXCEPT !.term.rcp = Tail(@)], [o EXCEPT !.term.rcp[1].key = "X:mallory"], [o EXCEPT !.term.rcp = Append(@, [kid |-> Id(M1, "x"), key |-> "X:M1.x", b64 |-> TRUE, opens |-> TRUE])],
   [o EXCEPT !.term.skid = IF @ = NONE THEN Id(Al, "k1") ELSE NONE], [o EXCEPT !.term.payload = [MkMsg("other", NONE, <<>>, NoFp) EXCEPT !.h = "other"]],
   [o EXCEPT !.term.w.iv = 0], [o EXCEPT !.term.ceklen = 16], [o EXCEPT !.meta.toKids = Append(@, Id(Bo, "zz"))], [o EXCEPT !.meta.fromKid = Id(Al, "zz")],
   [o EXCEPT !.meta.signKid = Id(Al, "zz")], [o EXCEPT !.meta.hasSvc = ~@], [o EXCEPT !.leak = TRUE], [o EXCEPT !.term = t.payload],
   [o EXCEPT !.term = MkJwe(x.sel, FALSE, XC, t, 9)], [st |-> "err", kind |-> "Malformed"], [st |-> "panic", kind |-> NONE]}
JudgeRejects == pc = "peel" /\ hop = 0 => \A o \in EncOutcomes(w, v, 1) : o.st = "ok" => \A b \in Mut(o) : PackEncV(w, Done1(b)) # {}
\* within these bounds packing is refused only for the reasons that exist in them
Refused == pc = "refused" => \A f \in x.f : f[2] \in {"nocompat", "to.kid", "from.kid", "signer.kid"}
\* every configuration runs to its end
Live == pc = "peel" => ENABLED Next

----------------------------------------------------------------------------
(* Broken variants of operators: a model run with one of these substituted must fail, which shows
   that the invariants are not vacuous (tools/models.py runs them in the thorough tier). *)
BadAnonSel(ww, docs, e, to, cls) ==     \* takes every key regardless of the curve
  LET did == DidOf(ww, to)  doc == docs[did]  ids == KaOf(ww, doc, to) IN
  IF ids = <<>> THEN NoSel(Fault("DIDUrlNotFound", cls \o ".kid"))
  ELSE [NoSel({}) EXCEPT !.kids = ids, !.keys = [i \in DOMAIN ids |-> Vm(doc, ids[i]).key], !.crv = Vm(doc, ids[1]).crv]
BadKids(t) == <<t.rcp[1].kid>>          \* only the first recipient is looked at
BadIsFwd(p) == p.type = FORWARD /\ p.bk = "obj/str" /\ Len(p.ak) > 1
BadMkFwd(next, inner, hdr, id) == [MkMsg("fwd" \o ToString(id), Al, <<>>, NoFp) EXCEPT !.type = FORWARD, !.bk = "obj/str", !.ak = <<"json">>,
     !.next = next, !.inner = inner, !.injh = "inner", !.bm = "next", !.hdr = "", !.natt = 1]
BadRoute(ww, e, to, svcId) == NoRoute({})
BadOpt(xx, d) == d
=============================================================================
