-------------------------------- MODULE MCSig --------------------------------
(* One signed text from anybody, and one from_prior token from anybody: every header, key, signature and
   published document chosen freely, a right one with up to two departures from the rules each.
   Unpacking as a procedure, step by step, against the formulas SignF, FpF and UnpackOf; and what the
   receiver may conclude from an acceptance, in the words of the properties.  Final states are replayed
   as crafted texts with the predicted outcome.                                                     *)
EXTENDS DCModel

CONSTANTS Slices, Frac, Out

Ca   == "did:ex:carol"
Nb   == "did:ex:nobody"
Lx0  == LexOf({Al, Bo, Ol, Ca, Nb}, {"s1", "s2", "s3", "s9", "k1", "zz"}) @@ ("" :> [d |-> "", f |-> FALSE, i |-> FALSE])
\* the three signing keys of a DID, one of each type
Frs  == {"s1", "s2", "s3"}
CrvS(f) == CASE f = "s1" -> "E" [] f = "s2" -> "P" [] f = "s3" -> "K"
KeyS(d, f) == CrvS(f) \o ":" \o d \o "." \o f
Nxt(f)  == CASE f = "s1" -> "s2" [] f = "s2" -> "s3" [] f = "s3" -> "s1"
Old9(d, f) == CrvS(f) \o ":" \o d \o ".s9"

----------------------------------------------------------------------------
(* Departures.  d is the DID of the signer (Al) or of the issuer (Ol), f the key meant. *)
FK   == {"IoError", "DIDNotResolved", "Malformed", "Unsupported"}
Sigs == {"zero", "short", "long", "empty", "badb64", "otherpl", "plonly", "otherprot"}
Deps == {<<"none", "">>}
        \cup {<<"kid", x>> : x \in {"next", "zz", "ka", "nofrag", "empty", "carol", "nobody"}}
        \cup {<<"key", x>> : x \in {"old", "next", "carol"}}
        \cup {<<"alg", x>> : x \in {"EdDSA", "ES256", "ES256K", "HS256", "none"}}
        \cup {<<"sig", x>> : x \in Sigs}
        \cup {<<"pub", x>> : x \in {"unlisted", "nomethod", "rotated", "curve", "bad", "unsup", "twice", "twicex", "nodoc", "foreign", "b58", "mb"}}
        \cup {<<"own", x>> : x \in FK} \cup {<<"oth", x>> : x \in FK}
SDeps == Deps \cup {<<"pl", x>> : x \in {"utf8", "b64", "typ"}} \cup {<<"add", x>> : x \in {"dup", "carol", "first", "drop"}} \cup {<<"typ", "x">>, <<"top", "x">>}
TDeps == Deps \cup {<<"typ", x>> : x \in {"jwt", "JWS", ""}} \cup {<<"iss", x>> : x \in {"carol", "kid", "sub", "case"}} \cup {<<"sub", "carol">>}
             \cup {<<"cl", x>> : x \in {"noiss", "nosub", "badexp", "utf8", "raw"}} \cup {<<"segs", x>> : x \in {"2", "4"}} \cup {<<"over", "x">>}

\* a signature or token as departures leave it
Base0(d, f) == [d |-> d, f |-> f, kid |-> Id(d, f), key |-> KeyS(d, f), alg |-> SigAlg(CrvS(f)), sig |-> "ok", pub |-> "ok", own |-> NONE, oth |-> NONE,
               pl |-> "ok", add |-> "ok", typ |-> IF d = Ol THEN "JWT" ELSE "ok", top |-> "ok", iss |-> Ol, sub |-> Al, cl |-> "ok", segs |-> "3", over |-> "ok"]
Apply(b, dep) ==
  LET v == dep[2]  d == b.d  f == b.f IN
  CASE dep[1] = "none" -> b
    [] dep[1] = "kid"  -> [b EXCEPT !.kid = CASE v = "next" -> Id(d, Nxt(f)) [] v = "zz" -> Id(d, "zz") [] v = "ka" -> Id(d, "k1") [] v = "nofrag" -> d [] v = "empty" -> ""
                                               [] v = "carol" -> Id(Ca, "s1") [] v = "nobody" -> Id(Nb, "s1")]
    [] dep[1] = "key"  -> [b EXCEPT !.key = CASE v = "old" -> Old9(d, f) [] v = "next" -> KeyS(d, Nxt(f)) [] v = "carol" -> KeyS(Ca, "s1")]
    [] dep[1] = "alg"  -> [b EXCEPT !.alg = v]       [] dep[1] = "sig" -> [b EXCEPT !.sig = v]     [] dep[1] = "pub" -> [b EXCEPT !.pub = v]
    [] dep[1] = "own"  -> [b EXCEPT !.own = v]       [] dep[1] = "oth" -> [b EXCEPT !.oth = v]     [] dep[1] = "pl" -> [b EXCEPT !.pl = v]
    [] dep[1] = "add"  -> [b EXCEPT !.add = v]       [] dep[1] = "typ" -> [b EXCEPT !.typ = v]     [] dep[1] = "top" -> [b EXCEPT !.top = v]
    [] dep[1] = "iss"  -> [b EXCEPT !.iss = CASE v = "carol" -> Ca [] v = "kid" -> Id(Ol, f) [] v = "sub" -> Al [] v = "case" -> "did:ex:Old"]
    [] dep[1] = "sub"  -> [b EXCEPT !.sub = Ca]      [] dep[1] = "cl" -> [b EXCEPT !.cl = v]       [] dep[1] = "segs" -> [b EXCEPT !.segs = v] [] dep[1] = "over" -> [b EXCEPT !.over = v]
Of(d, f, ds) == Apply(Apply(Base0(d, f), ds[1]), ds[2])

Two(S) == S \X S
One(S) == S \X {<<"none", "">>}
Plain2 == <<<<"none", "">>, <<"none", "">>>>
Dom(s) ==
  LET R(sg, tk, f, g, p, q) == [sg : {sg}, tk : {tk}, f : f, g : g, p : p, q : q] IN
  CASE s = "sig"  -> R(TRUE, FALSE, Frs, {"s1"}, Two(SDeps), {Plain2})
    [] s = "tok"  -> R(FALSE, TRUE, {"s1"}, Frs, {Plain2}, Two(TDeps))
    [] s = "both" -> R(TRUE, TRUE, Frs, Frs, One(SDeps), One(TDeps))
\* which of them: one in Frac (all of them for Frac = 1), and every one with a single departure
Lone(x)  == x.p[2][1] = "none" /\ x.q[2][1] = "none" /\ (x.p[1][1] = "none" \/ x.q[1][1] = "none")
Cfgs == UNION {{x \in Dom(s) : Lone(x) \/ RandomElement(1..Frac) = 1} : s \in Slices}

VARIABLES c, pc, out,
          w, x        \* the world of c and what DCUnpack says about the text (computed once)
vars == <<c, pc, out>>
S == Of(Al, c.f, c.p)
T == Of(Ol, c.g, c.q)

\* the documents: what Al and Ol publish
Method(b, d, f) ==
  LET v == [id |-> Id(d, f), key |-> KeyS(d, f), crv |-> CrvS(f), rep |-> "jwk"] IN
  IF f # b.f \/ d # b.d THEN <<v>>
  ELSE CASE b.pub = "nomethod" -> <<>>
         [] b.pub = "rotated"  -> <<[v EXCEPT !.key = Old9(d, f)]>>
         [] b.pub = "curve"    -> <<[v EXCEPT !.key = CrvS(Nxt(f)) \o ":" \o d \o ".s9", !.crv = CrvS(Nxt(f))]>>
         [] b.pub = "bad"      -> <<[v EXCEPT !.rep = "jwk-nox"]>>
         [] b.pub = "unsup"    -> <<[v EXCEPT !.rep = "u-other"]>>
         [] b.pub = "twice"    -> <<v, [v EXCEPT !.key = Old9(d, f)]>>
         [] b.pub = "twicex"   -> <<[v EXCEPT !.key = Old9(d, f)], v>>
         [] b.pub \in {"b58", "mb"} /\ CrvS(f) = "E" -> <<[v EXCEPT !.rep = b.pub]>>
         [] OTHER -> <<v>>
DocS(b, d) ==
  [NoDoc EXCEPT !.auth = SelectSeq(<<Id(d, "s1"), Id(d, "s2"), Id(d, "s3")>>, LAMBDA k : b.pub # "unlisted" \/ k # Id(d, b.f)) \o (IF b.pub = "foreign" THEN <<Id(Ca, "s1")>> ELSE <<>>),
                !.ka = <<Id(d, "k1")>>,
                !.vms = Method(b, d, "s2") \o <<[id |-> Id(d, "k1"), key |-> "X:" \o d \o ".k1", crv |-> "X", rep |-> "jwk"]>> \o Method(b, d, "s1") \o Method(b, d, "s3")
                        \o (IF b.pub = "foreign" THEN <<[id |-> Id(Ca, "s1"), key |-> KeyS(Ca, "s1"), crv |-> "E", rep |-> "jwk"]>> ELSE <<>>)]
CaDoc == [NoDoc EXCEPT !.auth = <<Id(Ca, "s1")>>, !.vms = <<[id |-> Id(Ca, "s1"), key |-> KeyS(Ca, "s1"), crv |-> "E", rep |-> "jwk"]>>]
Docs0 == LET D == Al :> DocS(S, Al) @@ Ol :> DocS(T, Ol) @@ Ca :> CaDoc @@ Bo :> NoDoc IN
         [d \in DOMAIN D \ ((IF S.pub = "nodoc" THEN {Al} ELSE {}) \cup (IF T.pub = "nodoc" THEN {Ol} ELSE {})) |-> D[d]]
w0   == Static(Docs0, Bo :> <<>>, Lx0)
Docs == w.docs
\* resolver failures: for the DID itself, or for one that has nothing to do with it
Flt  == (IF S.own # NONE THEN Al :> S.own ELSE <<>>) @@ (IF T.own # NONE THEN Ol :> T.own ELSE <<>>) @@ (IF S.oth # NONE THEN Bo :> S.oth ELSE <<>>)
        @@ (IF T.oth # NONE THEN Bo :> T.oth ELSE <<>>)
e    == [EnvOf(Bo) EXCEPT !.dfault = Flt]

\* the terms
Fits(b)  == IF b.sig \in {"ok", "badb64"} THEN b.key ELSE NONE
B64(b)   == b.sig # "badb64"
SigT(b)  == [kid |-> b.kid, alg |-> b.alg, typ |-> "", skey |-> Fits(b), sigb64 |-> B64(b), w |-> ""]
CaSig    == [kid |-> Id(Ca, "s1"), alg |-> "EdDSA", typ |-> "", skey |-> KeyS(Ca, "s1"), sigb64 |-> TRUE, w |-> ""]
Count    == CASE S.add \in {"dup", "carol", "first"} -> 2 [] S.add = "drop" -> 0 [] OTHER -> 1
TokT     == IF ~c.tk THEN NoFp
            ELSE [k |-> "jwt", ok |-> IF T.segs = "3" THEN "ok" ELSE "Malformed", typ |-> T.typ, alg |-> T.alg, kid |-> T.kid, skey |-> Fits(T), sigb64 |-> B64(T),
                  cok |-> T.cl = "ok", iss |-> T.iss, sub |-> T.sub, ch |-> "claims", w |-> ""]
Msg      == [MkMsg("m", NONE, <<>>, TokT) EXCEPT !.typok = S.pl # "typ"]
Term     == IF ~c.sg THEN Msg
            ELSE [k |-> "jws", ok |-> "ok", payload |-> Msg, pok |-> S.pl \notin {"utf8", "b64"}, txt |-> "txt", w |-> "", esc |-> FALSE,
                  sigs |-> CASE S.add = "dup" -> <<SigT(S), SigT(S)>> [] S.add = "carol" -> <<SigT(S), CaSig>> [] S.add = "first" -> <<CaSig, SigT(S)>> [] S.add = "drop" -> <<>> [] OTHER -> <<SigT(S)>>]
xf == FpF(Docs, w, e, TokT)

----------------------------------------------------------------------------
(* The procedure. *)
Stop(k)     == pc' = "refused" /\ out' = k /\ UNCHANGED <<c, w, x>>
Go(p)       == pc' = p /\ UNCHANGED <<c, out, w, x>>
Answer(d)   == IF d \in DOMAIN e.dfault THEN e.dfault[d] ELSE IF d \in DOMAIN Docs THEN "ok" ELSE "DIDNotResolved"
Meth(d, k)  == SelectSeq(Docs[d].vms, LAMBDA m : m.id = k)
Curve(a)    == CASE a = "EdDSA" -> "E" [] a = "ES256" -> "P" [] a = "ES256K" -> "K"
\* the published key, asked for as a key of the algorithm named
UseKey(v, a) == IF a \notin {"EdDSA", "ES256", "ES256K"} THEN "Unsupported"
                ELSE IF v.rep = "u-other" \/ v.crv # Curve(a) THEN "InvalidState"
                ELSE IF v.rep = "jwk-nox" THEN "Malformed" ELSE "ok"

Init == c \in Cfgs /\ pc = (IF c.sg THEN "count" ELSE "typ") /\ out = NONE /\ w = w0 /\ x = UnpackOf(w, e, Term, FALSE, TRUE)
SCount == pc = "count" /\ (IF Count # 1 THEN Stop("Malformed") ELSE Go("skid"))
SKid   == pc = "skid" /\ (IF ~Frag(w, S.kid) THEN Stop("Malformed") ELSE Go("sdoc"))
SDoc   == pc = "sdoc" /\ LET d == DidOf(w, S.kid) IN
                         IF Answer(d) # "ok" THEN Stop(Answer(d)) ELSE IF S.kid \notin SeqSet(Docs[d].auth) \/ Meth(d, S.kid) = <<>> THEN Stop("DIDUrlNotFound") ELSE Go("skey")
SKey   == pc = "skey" /\ LET u == UseKey(Meth(DidOf(w, S.kid), S.kid)[1], S.alg) IN IF u # "ok" THEN Stop(u) ELSE Go("sver")
SVer   == pc = "sver" /\ (IF S.sig # "ok" \/ S.key # Meth(DidOf(w, S.kid), S.kid)[1].key THEN Stop("Malformed") ELSE Go("spl"))
SPl    == pc = "spl" /\ (IF S.pl \in {"utf8", "b64"} THEN Stop("Malformed") ELSE Go("typ"))
Typ    == pc = "typ" /\ (IF S.pl = "typ" THEN Stop("Malformed") ELSE Go(IF c.tk THEN "thead" ELSE "accepted"))
THead  == pc = "thead" /\ (IF T.segs # "3" \/ T.typ # "JWT" \/ ~Frag(w, T.kid) THEN Stop("Malformed") ELSE Go("tdoc"))
TDoc   == pc = "tdoc" /\ LET d == DidOf(w, T.kid) IN
                         IF Answer(d) # "ok" THEN Stop(Answer(d)) ELSE IF T.kid \notin SeqSet(Docs[d].auth) \/ Meth(d, T.kid) = <<>> THEN Stop("DIDUrlNotFound") ELSE Go("tkey")
TKey   == pc = "tkey" /\ LET u == UseKey(Meth(DidOf(w, T.kid), T.kid)[1], T.alg) IN IF u # "ok" THEN Stop(u) ELSE Go("tver")
TVer   == pc = "tver" /\ (IF T.sig # "ok" \/ T.key # Meth(DidOf(w, T.kid), T.kid)[1].key THEN Stop("Malformed") ELSE Go("tcl"))
TCl    == pc = "tcl" /\ (IF T.cl # "ok" \/ T.iss # DidOf(w, T.kid) THEN Stop("Malformed") ELSE Go("accepted"))

\* as crafted texts
SigJ(b) == [kid |-> b.kid, key |-> b.key, alg |-> b.alg, sig |-> b.sig] @@ (IF b.typ = "x" THEN [over |-> [typ |-> "x", crit |-> <<"x">>]] ELSE <<>>) @@ (IF b.top = "x" THEN [top |-> [more |-> 1]] ELSE <<>>)
CaJ     == [kid |-> Id(Ca, "s1"), key |-> KeyS(Ca, "s1"), alg |-> "EdDSA"]
MsgJ0   == PlainJ(Msg, IF c.tk THEN [from_prior |-> ("$str" :> "fp")] ELSE <<>>)
MsgJ    == IF S.pl = "typ" THEN [MsgJ0 EXCEPT !.typ = "application/didcomm-signed+json"] ELSE MsgJ0
SpecJ   == LET p == [t |-> "plain", msg |-> MsgJ] IN
           IF ~c.sg THEN p
           ELSE [t |-> "jws", pl |-> p, sigs |-> CASE S.add = "dup" -> <<SigJ(S), SigJ(S)>> [] S.add = "carol" -> <<SigJ(S), CaJ>> [] S.add = "first" -> <<CaJ, SigJ(S)>> [] S.add = "drop" -> <<>> [] OTHER -> <<SigJ(S)>>]
                @@ (IF S.pl = "utf8" THEN [plhex |-> "7bff7d"] ELSE IF S.pl = "b64" THEN [plraw |-> "!!"] ELSE <<>>)
ClJ     == (IF T.cl = "noiss" THEN <<>> ELSE [iss |-> T.iss]) @@ (IF T.cl = "nosub" THEN <<>> ELSE [sub |-> T.sub]) @@ (IF T.cl = "badexp" THEN [exp |-> "x"] ELSE <<>>)
TokJ    == [t |-> "jwt", typ |-> T.typ, alg |-> T.alg, kid |-> T.kid, key |-> T.key, sig |-> T.sig, claims |-> ClJ, segs |-> IF T.segs = "2" THEN 2 ELSE IF T.segs = "4" THEN 4 ELSE 3]
           @@ (IF T.cl = "utf8" THEN [plhex |-> "7bff7d"] ELSE IF T.cl = "raw" THEN [praw |-> "!!"] ELSE <<>>) @@ (IF T.over = "x" THEN [over |-> [crit |-> <<"x">>]] ELSE <<>>)
EnvJ    == [wallet |-> Bo] @@ (IF Flt = <<>> THEN <<>> ELSE [dfault |-> Flt])
TokOps  == <<[op |-> "craft", spec |-> TokJ, out |-> "fp"],
             [op |-> "fp_unpack", in |-> "fp", env |-> EnvJ, exp |-> [f |-> SetToSeq(xf), kid |-> T.kid]]>>
ScenarioOf == [world |-> WorldJ(w), ops |-> (IF c.tk THEN TokOps ELSE <<>>) \o
                <<[op |-> "craft", spec |-> SpecJ, out |-> "p"],
                  [op |-> "unpack", in |-> "p", env |-> EnvJ, opts |-> [all |-> FALSE, unwrap |-> TRUE], exp |-> ExpJ(x, IF x.f = {} /\ ~c.tk THEN [msg |-> MsgJ] ELSE <<>>)]>>]
End  == /\ pc \in {"accepted", "refused"} /\ pc' = (IF pc = "accepted" THEN "Accepted" ELSE "Refused") /\ UNCHANGED <<c, out, w, x>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == SCount \/ SKid \/ SDoc \/ SKey \/ SVer \/ SPl \/ Typ \/ THead \/ TDoc \/ TKey \/ TVer \/ TCl \/ End
Spec == Init /\ [][Next]_<<vars, w, x>>

----------------------------------------------------------------------------
Ok == pc = "Accepted"
No == pc = "Refused"
\* the procedure refines the formula, and refuses where it does
Agrees == /\ Ok => x.f = {} /\ x.h = Msg.h /\ x.meta.nr = c.sg /\ x.meta.auth = c.sg /\ x.meta.hasSigned = c.sg /\ (x.meta.fp # NONE) = c.tk
          /\ No => out \in KindsOf(x.f)
\* a token is judged alone as it is in a message
Token  == (Ok \/ No) /\ c.tk /\ (c.sg => x.f = {} \/ SignF(w, e, Term) = {}) /\ S.pl # "typ" => KindsOf(xf) = KindsOf(x.f)
\* C05
Signer == Ok /\ c.sg => /\ Count = 1 /\ S.sig = "ok" /\ x.meta.signFrom = S.kid /\ x.meta.algSign = S.alg
                        /\ LET d == Docs[DidOf(w, S.kid)]  v == Vm(d, S.kid) IN
                           /\ S.kid \in SeqSet(d.auth) /\ v.id = S.kid /\ v.key = S.key /\ v.rep \in RepOk /\ SigAlg(v.crv) = S.alg
Unsigned == Ok /\ ~c.sg => x.meta.signFrom = NONE /\ x.meta.algSign = NONE /\ ~x.meta.nr
\* C13
Issuer == Ok /\ c.tk => /\ T.typ = "JWT" /\ T.sig = "ok" /\ T.iss = DidOf(w, T.kid) /\ x.meta.fpKid = T.kid
                        /\ LET d == Docs[T.iss]  v == Vm(d, T.kid) IN
                           T.kid \in SeqSet(d.auth) /\ v.key = T.key /\ v.rep \in RepOk /\ SigAlg(v.crv) = T.alg
NoRot  == Ok /\ ~c.tk => x.meta.fp = NONE /\ x.meta.fpKid = NONE
\* C24: departures that break no rule are no reason to refuse
Harmless == {<<"none", "">>, <<"pub", "twice">>, <<"pub", "foreign">>, <<"pub", "b58">>, <<"pub", "mb">>, <<"typ", "x">>, <<"top", "x">>, <<"sub", "carol">>, <<"over", "x">>}
            \cup {<<"oth", k>> : k \in FK}
Fine(q)   == q[1] \in Harmless /\ q[2] \in Harmless
Read      == (Ok \/ No) /\ (c.sg => Fine(c.p)) /\ (c.tk => Fine(c.q)) => Ok
\* C15: what a single departure is answered with
Says(d) == LET k == d[1]  v == d[2] IN
  CASE k = "kid" /\ v \in {"nofrag", "empty"} -> {"Malformed"} [] k = "kid" /\ v \in {"zz", "ka"} -> {"DIDUrlNotFound"} [] k = "kid" /\ v = "nobody" -> {"DIDNotResolved"}
    [] k = "key" \/ k = "sig" -> {"Malformed"} [] k = "alg" /\ v \in {"HS256", "none"} -> {"Unsupported"}
    [] k = "pub" /\ v \in {"unlisted", "nomethod"} -> {"DIDUrlNotFound"} [] k = "pub" /\ v \in {"rotated", "twicex", "bad"} -> {"Malformed"} [] k = "pub" /\ v = "nodoc" -> {"DIDNotResolved"}
    [] k = "own" -> {v} [] k = "pl" -> {"Malformed"} [] k = "add" -> {"Malformed"} [] k = "typ" /\ v # "x" -> {"Malformed"} [] k = "iss" -> {"Malformed"} [] k = "cl" \/ k = "segs" -> {"Malformed"}
    [] OTHER -> Kinds
Kind1  == No /\ Lone(c) => out \in Says(IF c.p[1][1] # "none" THEN c.p[1] ELSE c.q[1])
\* C18: a failing resolver is heard, unless something else is wrong; one that is not needed is not
Heard  == (Ok \/ No) /\ c.sg /\ S.own # NONE /\ DidOf(w, S.kid) = Al => No /\ (Lone(c) => out = S.own)
Asked  == No /\ Lone(c) /\ (S.oth # NONE \/ T.oth # NONE) => FALSE
\* the order of the published methods and what else is listed does not matter
Shuffled == (Ok \/ No) => LET w2 == Static([d \in DOMAIN Docs |-> [Docs[d] EXCEPT !.auth = Reverse(@) , !.ka = <<>>]], Bo :> <<>>, Lx0) IN
            UnpackOf(w2, e, Term, FALSE, TRUE) = x
Certain == No /\ Cardinality(KindsOf(x.f)) = 1 => KindsOf(x.f) = {out}
Ends   == pc \notin {"Accepted", "Refused"} => ENABLED Next

----------------------------------------------------------------------------
BadVmIx(doc, id)   == LET I == {i \in DOMAIN doc.vms : doc.vms[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
BadSigCrv(alg)     == CASE alg = "EdDSA" -> "E" [] alg = "ES256" -> "P" [] OTHER -> "K"
BadSigKeyF(vm, alg, cls) == {}
BadDidF(docs, ee, did, cls) == IF did \in DOMAIN docs THEN {} ELSE Fault("DIDNotResolved", cls)
=============================================================================
