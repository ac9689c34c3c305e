------------------------------- MODULE MCIssue -------------------------------
(* A DID is rotated: the holder of the old one signs a from_prior token, the token travels in a message
   of the new one, and documents change at every point in between.  Issuing as a procedure, step by step,
   against what DCPack allows; the life of the token against the words of the properties.  Final states
   are replayed: the library issues, carries and reads the token itself.                             *)
EXTENDS DCModel

CONSTANTS Slices, Some, Out

Ca   == "did:ex:carol"
Nb   == "did:ex:nobody"
Frs  == {"s1", "s2", "s3"}
Lx0  == LexOf({Al, Bo, Ol, Ca, Nb}, {"s1", "s2", "s3", "k1", "zz"})
CrvS(f) == CASE f = "s1" -> "E" [] f = "s2" -> "P" [] f = "s3" -> "K"
KeyS(f) == CrvS(f) \o ":" \o Ol \o "." \o f
Old9(f) == CrvS(f) \o ":" \o Ol \o ".s9"
\* states of a key of the old DID: held and published; not held; held, no method published; the key held is not the one
\* published; held as a secret of an unsupported kind, unreadable, of a curve that does not sign
KS   == {"ok", "no", "nm", "rot", "us", "bd", "x"}
Perm == {s \in UNION {[1..n -> Frs] : n \in 0..3} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
FK   == {"IoError", "DIDNotResolved", "Malformed", "SecretNotFound"}
Faults == {<<"did", d, k>> : d \in {Ol, Al}, k \in FK} \cup {<<"sfind", k>> : k \in FK} \cup {<<"sget", k>> : k \in FK \cup {"none"}}
          \cup {<<"sid", Id(Ol, f), k>> : f \in Frs, k \in FK \cup {"none"}}
Chgs == {"no", "rotated", "unlisted", "nomethod", "gone", "reorder", "more", "unsup"}

Calm == [list |-> {<<"s1", "s2">>}, st |-> {[f \in Frs |-> "ok"]}, iss |-> {Ol}, sub |-> {Al}, kid |-> {NONE}, fault |-> {<<"no">>},
         ch1 |-> {"no"}, ch2 |-> {"no"}, mode |-> {"plain"}, mfrom |-> {NONE}, pf |-> {NONE}, uf |-> {NONE}]
Dom(s) ==
  CASE s = "args"  -> [Calm EXCEPT !.iss = {Ol, Id(Ol, "s1"), "nodid", "", Al, Nb, Ca}, !.sub = {Al, Id(Al, "s1"), "nodid", "", Ol, Nb}, !.list = {<<"s1", "s2">>, <<"s3">>},
                                   !.kid = {NONE, Id(Ol, "s1"), Id(Ol, "s2"), Id(Ol, "zz"), Ol, Id(Al, "s1"), Id(Ca, "s1"), "nodid", ""}]
    [] s = "keys"  -> [Calm EXCEPT !.list = Perm, !.st = [Frs -> KS], !.kid = {NONE, Id(Ol, "s1"), Id(Ol, "s2"), Id(Ol, "s3"), Id(Ol, "k1")}]
    [] s = "fault" -> [Calm EXCEPT !.list = Perm, !.st = [Frs -> {"ok", "no"}], !.iss = {Ol, Nb, "nodid"}, !.kid = {NONE, Id(Ol, "s1"), Id(Ol, "s2"), Id(Al, "s1")}, !.fault = Faults]
    [] s = "life"  -> [Calm EXCEPT !.list = Perm, !.st = [Frs -> {"ok", "nm", "rot"}], !.kid = {NONE, Id(Ol, "s2")}, !.ch1 = Chgs, !.ch2 = Chgs, !.mode = {"plain", "signed", "anon", "auth"},
                                   !.mfrom = {NONE, Al, Ca, Ol}, !.pf = {NONE} \cup FK, !.uf = {NONE} \cup FK, !.iss = {Ol}]
    \* something happens between packing and reading
    [] s = "late"  -> [Calm EXCEPT !.list = Perm \ {<<>>}, !.ch1 = {"no", "reorder", "more"}, !.ch2 = Chgs, !.mode = {"plain", "signed", "anon", "auth"}, !.mfrom = {NONE, Al}, !.uf = {NONE} \cup FK]
    \* nothing happens in between
    [] s = "calm"  -> [Calm EXCEPT !.list = Perm, !.st = [Frs -> {"ok", "no"}], !.kid = {NONE, Id(Ol, "s2")}, !.mode = {"plain", "signed", "anon", "auth"}, !.mfrom = {NONE, Al}, !.ch1 = {"no", "reorder", "more"},
                                   !.ch2 = {"no", "reorder", "more"}]
Draw(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
Pick(S) == {[x \in DOMAIN S |-> Draw(S[x], n)] : n \in 1..Some}
\* one departure at a time, for everything
Lone(S) == UNION {{[y \in DOMAIN S |-> IF y = x THEN q ELSE CHOOSE z \in Calm[y] : TRUE] : q \in (IF x = "st" THEN {f \in S[x] : Cardinality({g \in Frs : f[g] # "ok"}) <= 1} ELSE S[x])} : x \in DOMAIN S}
Cfgs == UNION {Pick(Dom(s)) \cup Lone(Dom(s)) : s \in Slices}

VARIABLES c, pc, l, kd, sg,
          ws     \* the worlds in which the token is issued, carried and read (computed once)
vars == <<c, pc, l, kd, sg>>

----------------------------------------------------------------------------
(* The world and what becomes of it. *)
VmS(f, z)  == [id |-> Id(Ol, f), key |-> KeyS(f), crv |-> CrvS(f), rep |-> "jwk"]
MVm(d, f, crv) == [id |-> Id(d, f), key |-> crv \o ":" \o d \o "." \o f, crv |-> crv, rep |-> "jwk"]
OlDoc == [NoDoc EXCEPT !.auth = [i \in DOMAIN c.list |-> Id(Ol, c.list[i])], !.ka = <<Id(Ol, "k1")>>,
                       !.vms = <<MVm(Ol, "k1", "X")>> \o (IF c.st["s2"] = "nm" THEN <<>> ELSE <<VmS("s2", 0)>>) \o (IF c.st["s1"] = "nm" THEN <<>> ELSE <<VmS("s1", 0)>>)
                               \o (IF c.st["s3"] = "nm" THEN <<>> ELSE <<VmS("s3", 0)>>)]
Own(d)  == [NoDoc EXCEPT !.auth = <<Id(d, "s1")>>, !.ka = <<Id(d, "k1")>>, !.vms = <<MVm(d, "s1", "E"), MVm(d, "k1", "X")>>]
Doc0    == Ol :> OlDoc @@ Al :> Own(Al) @@ Bo :> Own(Bo) @@ Ca :> Own(Ca)
SecOf(f) == LET z == c.st[f] IN
  CASE z = "no" -> <<>>
    [] z = "rot" -> <<[id |-> Id(Ol, f), key |-> Old9(f), crv |-> CrvS(f), rep |-> "jwk"]>>
    [] z = "us" -> <<[id |-> Id(Ol, f), key |-> KeyS(f), crv |-> CrvS(f), rep |-> "jwk-crv"]>>
    [] z = "bd" -> <<[id |-> Id(Ol, f), key |-> KeyS(f), crv |-> CrvS(f), rep |-> "jwk-nox"]>>
    [] z = "x"  -> <<[id |-> Id(Ol, f), key |-> "X:" \o Ol \o "." \o f, crv |-> "X", rep |-> "jwk"]>>
    [] OTHER -> <<[id |-> Id(Ol, f), key |-> KeyS(f), crv |-> CrvS(f), rep |-> "jwk"]>>
Wal0 == Al :> (SecOf("s3") \o SecOf("s1") \o <<MVm(Al, "s1", "E"), MVm(Al, "k1", "X")>> \o SecOf("s2")) @@ Bo :> <<MVm(Bo, "k1", "X")>>
Chg(doc, x) ==
  CASE x = "rotated"  -> [doc EXCEPT !.vms = [i \in DOMAIN @ |-> IF @[i].crv = "X" THEN @[i] ELSE [@[i] EXCEPT !.key = @ \o "r"]]]
    [] x = "unlisted" -> [doc EXCEPT !.auth = <<>>]
    [] x = "nomethod" -> [doc EXCEPT !.vms = SelectSeq(@, LAMBDA m : m.crv = "X")]
    [] x = "unsup"    -> [doc EXCEPT !.vms = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rep = "u-other"]]]
    [] x = "reorder"  -> [doc EXCEPT !.vms = Reverse(@), !.auth = Reverse(@)]
    [] x = "more"     -> [doc EXCEPT !.vms = <<MVm(Ol, "zz", "E")>> \o @, !.auth = <<Id(Ol, "zz")>> \o @, !.ka = <<>>]
    [] OTHER -> doc
Olds(x, o) == IF x = "gone" \/ o = {} THEN {} ELSE {Chg(d, x) : d \in o}
Ol1 == Olds(c.ch1, {OlDoc})
Ol2 == Olds(c.ch2, Ol1)
With(o) == LET r == [d \in {Al, Bo, Ca} |-> Doc0[d]] IN IF o = {} THEN r ELSE Ol :> (CHOOSE d \in o : TRUE) @@ r
Worlds == LET wl == Wal0 IN <<Static(Doc0, wl, Lx0), Static(With(Ol1), wl, Lx0), Static(With(Ol2), wl, Lx0)>>
w0  == ws[1]       w1 == ws[2]       w2 == ws[3]
D0  == w0.docs     D1 == w1.docs     D2 == w2.docs
Wal == w0.wallets
e0  == LET f == c.fault  e == EnvOf(Al) IN
  CASE f[1] = "did" -> [e EXCEPT !.dfault = (f[2] :> f[3])] [] f[1] = "sfind" -> [e EXCEPT !.sfind = f[2]]
    [] f[1] = "sget" -> [e EXCEPT !.sget = f[2]] [] f[1] = "sid" -> [e EXCEPT !.sid = (f[2] :> f[3])] [] OTHER -> e
e1  == [EnvOf(Al) EXCEPT !.dfault = IF c.pf = NONE THEN <<>> ELSE Ol :> c.pf]
e2  == [EnvOf(Bo) EXCEPT !.dfault = IF c.uf = NONE THEN <<>> ELSE Ol :> c.uf]

----------------------------------------------------------------------------
(* Issuing. *)
Resolve(d) == IF d \in DOMAIN e0.dfault THEN e0.dfault[d] ELSE IF d \in DOMAIN D0 THEN "ok" ELSE "DIDNotResolved"
Have(k)    == \E j \in DOMAIN Wal[Al] : Wal[Al][j].id = k
Secret(k)  == LET s == SelectSeq(Wal[Al], LAMBDA x : x.id = k) IN s[1]
BadAns(s)  == {k \in SeqSet(s) : k \in DOMAIN e0.sid /\ e0.sid[k] # "none"}
FindAns(s) == IF e0.sfind # NONE THEN e0.sfind ELSE IF BadAns(s) # {} THEN e0.sid[CHOOSE k \in BadAns(s) : TRUE] ELSE "ok"
GetAns(k)  == IF e0.sget # NONE THEN e0.sget ELSE IF k \in DOMAIN e0.sid THEN e0.sid[k] ELSE "ok"

Stop(p, k) == pc' = p /\ kd' = k /\ UNCHANGED <<c, l, sg, ws>>
Go(p)      == pc' = p /\ UNCHANGED <<c, kd, ws>>
Init == c \in Cfgs /\ pc = "claims" /\ l = <<>> /\ kd = NONE /\ sg = NONE /\ ws = Worlds
Claims == /\ pc = "claims"
          /\ IF c.iss \in {"nodid", ""} \/ Frag(w0, c.iss) \/ c.sub \in {"nodid", ""} \/ Frag(w0, c.sub) \/ c.iss = c.sub THEN Stop("unissued", "Malformed")
             ELSE IF c.kid # NONE /\ (~Frag(w0, c.kid) \/ DidOf(w0, c.kid) # c.iss) THEN Stop("unissued", "IllegalArgument")
             ELSE Go("doc") /\ UNCHANGED <<l, sg>>
Doc    == /\ pc = "doc"
          /\ IF Resolve(c.iss) # "ok" THEN Stop("unissued", Resolve(c.iss))
             ELSE IF c.kid # NONE /\ c.kid \notin SeqSet(D0[c.iss].auth) THEN Stop("unissued", "DIDUrlNotFound")
             ELSE Go("find") /\ l' = (IF c.kid # NONE THEN <<c.kid>> ELSE D0[c.iss].auth) /\ UNCHANGED sg
Find   == /\ pc = "find"
          /\ IF FindAns(l) # "ok" THEN Stop("unissued", FindAns(l)) ELSE Go("scan") /\ UNCHANGED <<l, sg>>
Scan   == /\ pc = "scan"
          /\ IF l = <<>> THEN Stop("unissued", "SecretNotFound")
             ELSE IF Have(l[1]) THEN Go("get") /\ sg' = l[1] /\ UNCHANGED l
             ELSE Go("scan") /\ l' = Tail(l) /\ UNCHANGED sg
Get    == /\ pc = "get"
          /\ LET s == Secret(sg) IN
             IF GetAns(sg) # "ok" THEN Stop("unissued", IF GetAns(sg) = "none" THEN "SecretNotFound" ELSE GetAns(sg))
             ELSE IF s.rep = "jwk-nox" THEN Stop("unissued", "Malformed")
             ELSE IF s.rep # "jwk" \/ s.crv = "X" THEN Stop("unissued", "Unsupported")
             ELSE Go("issued") /\ UNCHANGED <<l, sg>>
\* the token
Tok == LET s == Secret(sg) IN
       [k |-> "jwt", ok |-> "ok", typ |-> "JWT", alg |-> SigAlg(s.crv), kid |-> sg, skey |-> s.key, sigb64 |-> TRUE, cok |-> TRUE, iss |-> c.iss, sub |-> c.sub, ch |-> "claims", w |-> "alg,kid,typ|true|64"]
NoTok == [k |-> "none", kid |-> NONE]
\* the event that this step of the library would leave
IssueEv(t, k) == [ev |-> "fp_pack", env |-> e0, iss |-> c.iss, sub |-> c.sub, ch |-> "claims", argkid |-> c.kid, st |-> IF k = NONE THEN "ok" ELSE "err", kind |-> k, rkid |-> t.kid, term |-> t]

----------------------------------------------------------------------------
(* Carrying and reading it. *)
Msg  == MkMsg("secret", c.mfrom, <<>>, Tok)
By   == IF c.mode = "signed" THEN Al ELSE NONE
Frm  == IF c.mode = "auth" THEN Al ELSE NONE
PEv  == [ev |-> "pack_enc", env |-> e1, out |-> "p", msg |-> Msg, to |-> Bo, from |-> Frm, by |-> NONE, jh |-> "p",
         opts |-> [protect |-> NONE, forward |-> "no", svc |-> NONE, anon |-> NONE, hdr |-> ""]]
PF   == CASE c.mode = "plain" -> PlainF(w1, e1, Msg)
          [] c.mode = "signed" -> PlainF(w1, e1, Msg) \cup SignSel(w1, e1, Al).f
          [] OTHER -> PackEncF(w1, PEv).f
Term == CASE c.mode = "plain" -> Msg [] c.mode = "signed" -> MkJws(SignSel(w1, e1, Al), Msg) [] OTHER -> EncTerm(w1, PEv, PackEncF(w1, PEv), 1)
U    == UnpackOf(w2, e2, Term, FALSE, FALSE)
Pack   == pc = "issued" /\ (IF PF = {} THEN Go("packed") /\ UNCHANGED <<l, sg>> ELSE \E k \in KindsOf(PF) : Stop("unpacked", k))
Read   == pc = "packed" /\ (IF U.f = {} THEN Go("read") /\ UNCHANGED <<l, sg>> ELSE \E k \in KindsOf(U.f) : Stop("unread", k))

Finals == {"unissued", "unpacked", "read", "unread"}
EnvJ == (IF e0.dfault = <<>> THEN <<>> ELSE [dfault |-> e0.dfault]) @@ (IF e0.sid = <<>> THEN <<>> ELSE [sid |-> e0.sid]) @@ [wallet |-> Al, sfind |-> e0.sfind, sget |-> e0.sget]
SetJ(o, n) == IF n = "no" THEN <<>> ELSE <<[op |-> "set", world |-> [docs |-> (Ol :> (IF o = {} THEN "gone" ELSE CHOOSE d \in o : TRUE)), wallets |-> [none |-> <<>>]]]>>
IssueJ == [op |-> "fp_pack", claims |-> [iss |-> c.iss, sub |-> c.sub], out |-> "fp", env |-> EnvJ,
           exp |-> [f |-> SetToSeq(FpPackF(w0, IssueEv(NoTok, kd)).f), kid |-> IF pc = "unissued" THEN NONE ELSE sg]]
          @@ (IF c.kid = NONE THEN <<>> ELSE [kid |-> c.kid])
PackJ  == LET m == PlainJ(MkMsg("secret", c.mfrom, <<>>, NoFp), [from_prior |-> ("$str" :> "fp")])
              e == [wallet |-> Al] @@ (IF c.pf = NONE THEN <<>> ELSE [dfault |-> e1.dfault]) IN
          CASE c.mode = "plain" -> [op |-> "pack_plain", msg |-> m, out |-> "p", env |-> e]
            [] c.mode = "signed" -> [op |-> "pack_signed", msg |-> m, out |-> "p", env |-> e, by |-> Al]
            [] OTHER -> [op |-> "pack_enc", msg |-> m, out |-> "p", env |-> e, to |-> Bo, opts |-> [forward |-> FALSE],
                         exp |-> [f |-> SetToSeq(PF), toKids |-> IF PF = {} THEN PackEncF(w1, PEv).sel.kids ELSE <<>>, fromKid |-> IF PF = {} THEN PackEncF(w1, PEv).sel.fromKid ELSE NONE, signKid |-> NONE]]
                        @@ (IF c.mode = "auth" THEN [from |-> Al] ELSE <<>>)
FpJ(e) == [op |-> "fp_unpack", in |-> "fp", env |-> [wallet |-> Bo] @@ (IF e.dfault = <<>> THEN <<>> ELSE [dfault |-> e.dfault])]
ReadJ  == [op |-> "unpack", in |-> "p", env |-> [wallet |-> Bo] @@ (IF c.uf = NONE THEN <<>> ELSE [dfault |-> e2.dfault]), opts |-> [all |-> FALSE, unwrap |-> FALSE], exp |-> ExpJ(U, <<>>)]
ScenarioOf ==
  [world |-> WorldJ(w0),
   ops |-> <<IssueJ>> \o (IF pc = "unissued" THEN <<>> ELSE SetJ(Ol1, c.ch1) \o <<FpJ(e1), PackJ>>)
           \o (IF pc \in {"read", "unread"} THEN SetJ(Ol2, c.ch2) \o <<FpJ(e2), ReadJ>> ELSE <<>>)]
End  == /\ pc \in Finals /\ pc' = pc \o "." /\ UNCHANGED <<c, l, kd, sg, ws>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == Claims \/ Doc \/ Find \/ Scan \/ Get \/ Pack \/ Read \/ End
Spec == Init /\ [][Next]_<<vars, ws>>

----------------------------------------------------------------------------
At(p)     == pc \in {p, p \o "."}
Issued    == pc \notin {"claims", "doc", "find", "scan", "get"} /\ ~At("unissued")
\* what the procedure does is what DCPack allows, and another signer, key, algorithm, claim or kind is not
Agrees == /\ pc = "issued" => /\ FpPackV(w0, IssueEv(Tok, NONE)) = {}
                              /\ \A k \in Kinds : FpPackV(w0, IssueEv(NoTok, k)) # {}
                              /\ \A f \in Frs : Id(Ol, f) # sg => FpPackV(w0, IssueEv([Tok EXCEPT !.kid = Id(Ol, f)], NONE)) # {}
                              /\ \A f \in Frs : KeyS(f) # Tok.skey => FpPackV(w0, IssueEv([Tok EXCEPT !.skey = KeyS(f)], NONE)) # {}
                              /\ FpPackV(w0, IssueEv([Tok EXCEPT !.alg = "HS256"], NONE)) # {} /\ FpPackV(w0, IssueEv([Tok EXCEPT !.typ = "JWS"], NONE)) # {}
                              /\ FpPackV(w0, IssueEv([Tok EXCEPT !.ch = "other"], NONE)) # {}
          /\ At("unissued") => FpPackV(w0, IssueEv(NoTok, kd)) = {} /\ FpPackV(w0, IssueEv(NoTok, "InvalidState")) # {}
                               /\ FpPackV(w0, IssueEv([k |-> "jwt", ok |-> "ok", typ |-> "JWT", alg |-> "EdDSA", kid |-> Id(Ol, "s1"), skey |-> KeyS("s1"), sigb64 |-> TRUE, cok |-> TRUE, iss |-> c.iss, sub |-> c.sub,
                                                       ch |-> "claims", w |-> "alg,kid,typ|true|64"], NONE)) # {}
\* C14, in the words of the property
Rules == c.iss \in {Ol, Nb, Ca, Al} /\ c.sub \in {Al, Nb, Ol} /\ c.iss # c.sub /\ (c.kid = NONE \/ (Frag(w0, c.kid) /\ DidOf(w0, c.kid) = c.iss))
Issuing == Issued => /\ Rules /\ sg \in SeqSet(D0[c.iss].auth) /\ Have(sg) /\ (c.kid # NONE => sg = c.kid)
                     /\ c.kid = NONE => \A i \in DOMAIN D0[c.iss].auth : Have(D0[c.iss].auth[i]) => \E j \in 1..i : D0[c.iss].auth[j] = sg
                     /\ Secret(sg).crv \in {"E", "P", "K"}
Refused == At("unissued") => /\ ~Rules => (kd = "Malformed" \/ (kd = "IllegalArgument" /\ c.kid # NONE))
                             /\ Rules => kd # "IllegalArgument"
                             /\ c.fault[1] \in {"sfind", "sget"} /\ Rules /\ c.iss = Ol /\ (c.kid = NONE \/ c.kid \in SeqSet(OlDoc.auth)) =>
                                  \/ kd = (IF c.fault[2] = "none" THEN "SecretNotFound" ELSE c.fault[2])
                                  \/ (c.fault[1] = "sget" /\ kd = "SecretNotFound" /\ \A k \in SeqSet(OlDoc.auth) : ~Have(k) \/ (c.kid # NONE /\ k # c.kid))
\* when the key is there the token is issued, whatever the other keys are like
Able   == At("unissued") /\ Rules /\ c.iss = Ol /\ c.fault = <<"no">> =>
          LET L == IF c.kid = NONE THEN OlDoc.auth ELSE SelectSeq(OlDoc.auth, LAMBDA k : k = c.kid)
              H == SelectSeq(L, Have) IN H = <<>> \/ Secret(H[1]).rep # "jwk" \/ Secret(H[1]).crv = "X"
\* what is published about the signer fits the token
Good(docs) == /\ c.iss \in DOMAIN docs /\ sg \in SeqSet(docs[c.iss].auth)
              /\ \E m \in SeqSet(docs[c.iss].vms) : m.id = sg /\ m.key = Tok.skey /\ m.rep = "jwk"
MayCarry == (c.mfrom \in {NONE, c.sub}) /\ (c.mode = "auth" => c.mfrom \in {NONE, Al})
\* C14: a token is only carried while it is good, for the one it was issued to
Carried == /\ pc = "packed" => Good(D1) /\ c.pf = NONE /\ MayCarry
           /\ At("unpacked") => ~Good(D1) \/ c.pf # NONE \/ ~MayCarry
           /\ At("unpacked") /\ Good(D1) /\ c.pf = NONE => kd \in {"Malformed", "IllegalArgument"}
           /\ At("unpacked") /\ c.pf # NONE /\ MayCarry => kd = c.pf
           /\ At("unpacked") /\ c.pf = NONE /\ MayCarry => kd \in {"DIDNotResolved", "DIDUrlNotFound", "Malformed", "InvalidState", "Unsupported"}
\* C13: a reader reports a rotation exactly when the token is good for him, and then who signed it
Reported == /\ At("read") => Good(D2) /\ c.uf = NONE /\ U.meta.fp # NONE /\ U.meta.fpKid = sg /\ U.h = "secret"
            /\ At("unread") => ~Good(D2) \/ c.uf # NONE
            /\ At("unread") /\ c.uf # NONE => kd = c.uf
            /\ At("unread") /\ c.uf = NONE /\ Ol2 = {} => kd = "DIDNotResolved"
\* what the library issues it reads, when nothing that matters has changed
Harmless == {"no", "reorder", "more"}
Whole  == c.ch1 \in Harmless /\ c.ch2 \in Harmless /\ c.pf = NONE /\ c.uf = NONE /\ Issued /\ c.st[CHOOSE f \in Frs \cup {"s1"} : Id(Ol, f) = sg \/ (f = "s1" /\ \A g \in Frs : Id(Ol, g) # sg)] = "ok" /\ c.iss = Ol /\ MayCarry
          => ~At("unpacked") /\ ~At("unread")
\* C06: the other facts do not depend on the token
Facts  == At("read") => /\ U.meta.nr = (c.mode = "signed") /\ U.meta.enc = (c.mode \in {"anon", "auth"}) /\ U.meta.anon = (c.mode = "anon") /\ U.meta.auth = (c.mode \in {"signed", "auth"})
Ends   == pc \in Finals \cup {q \o "." : q \in Finals} \/ ENABLED Next

----------------------------------------------------------------------------
BadSignerSel(w, wl, e, doc, ids, named, cls) ==
  LET own == Found(wl, e, ids) IN
  IF own = <<>> THEN NoSel(Fault("SecretNotFound", cls)) ELSE LET k == own[Len(own)] IN [NoSel({}) EXCEPT !.fromKid = k, !.skey = Sec(wl, e, k).key, !.crv = Sec(wl, e, k).crv]
BadClaimsF(w, iss, sub, kid) == If(~IsDid(w, iss) \/ ~IsDid(w, sub), Fault("Malformed", "claims"))
BadPlainF(w, e, msg) == {}
BadFpF(docs, w, e, j) == IF j.ok # "ok" THEN Fault(j.ok, "fp.struct") ELSE {}
BadVmIx(doc, id) == 1
=============================================================================
