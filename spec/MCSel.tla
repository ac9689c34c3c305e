-------------------------------- MODULE MCSel --------------------------------
(* Packing as the sequence of things it does: it looks at its arguments, resolves documents, asks the
   wallet, scans key lists, converts materials; every resolver call may fail.  The machine is written
   as a procedure with cursors; DCPack says in one formula what may be refused and what is selected.
   The model checks that the procedure and the formula agree, and that both do what the properties
   say; its final states are replayed with the outcome they predict.                                *)
EXTENDS DCModel, Randomization

CONSTANTS Slices, Some, Out

Dids  == {Al, Bo, Ma}
Frags == {"k1", "k2", "k3", "s1", "s2", "zz"}
Lx0   == LexOf(Dids, Frags)
KF    == <<"k1", "k2", "k3">>
SF    == <<"s1", "s2">>
\* states of a key: usable; not in the wallet; listed without a method; a method that is not listed; of an
\* unsupported kind; published unusably; stored unusably; used for signing
KS    == {"X", "P", "Xn", "Pn", "Xm", "Xu", "U", "Xb", "Ps", "K"}
SS    == {"E", "P", "K", "En", "Pn", "Eb", "X", "Eu"}
Crv(z) == IF z = "U" THEN "X" ELSE SubSeq(z, 1, 1)
KeyOf(d, f, z) ==
  LET k == K(f, Crv(z), d)  q == IF Len(z) = 2 THEN SubSeq(z, 2, 2) ELSE "" IN
  CASE z = "U"  -> [k EXCEPT !.rep = "u-other"]
    [] q = "n"  -> [k EXCEPT !.own = FALSE]
    [] q = "m"  -> [k EXCEPT !.vm = FALSE]
    [] q = "u"  -> [k EXCEPT !.lst = FALSE]
    [] q = "b"  -> [k EXCEPT !.rep = "jwk-shortx"]
    [] q = "s"  -> [k EXCEPT !.srep = "jwk-nox"]
    [] OTHER    -> k
SKey(d, f, z) == LET k == KeyOf(d, f, z) IN IF Len(z) = 2 /\ SubSeq(z, 2, 2) = "b" THEN [k EXCEPT !.rep = "jwk", !.srep = "jwk-nox"] ELSE k
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
WorldOf(c) ==
  LET a == [i \in DOMAIN c.a |-> KeyOf(Al, KF[i], c.a[i])]  b == [i \in DOMAIN c.b |-> KeyOf(Bo, KF[i], c.b[i])]
      s == [i \in DOMAIN c.s |-> SKey(Al, SF[i], c.s[i])]   m == <<K("k1", "X", Ma)>>
      D == Al :> DocOf(Al, a, s, <<>>) @@ Bo :> DocOf(Bo, b, <<>>, <<>>) @@ Ma :> DocOf(Ma, m, <<K("s1", "E", Ma)>>, <<>>) IN
  Static([d \in DOMAIN D \ c.gone |-> D[d]], Al :> WalletOf(Al, a \o s) @@ Bo :> WalletOf(Bo, b), Lx0)
Env(c) == LET f == c.fault  e == EnvOf(Al) IN
  CASE f[1] = "did"   -> [e EXCEPT !.dfault = (f[2] :> f[3])]
    [] f[1] = "sfind" -> [e EXCEPT !.sfind = f[2]]
    [] f[1] = "sget"  -> [e EXCEPT !.sget = f[2]]
    [] f[1] = "sid"   -> [e EXCEPT !.sid = (f[2] :> f[3])]
    [] OTHER -> e
Msg(c) == MkMsg("secret", c.mfrom, c.mto, NoFp)
Ev(c)  == [ev |-> "pack_enc", env |-> Env(c), out |-> "p", msg |-> Msg(c), to |-> c.to, from |-> c.from, by |-> c.by, jh |-> "p",
           opts |-> [protect |-> c.prot, forward |-> "no", svc |-> NONE, anon |-> NONE, hdr |-> ""]]

Full(S) == [a : S.a, b : S.b, s : S.s, to : S.to, from : S.from, by : S.by, prot : S.prot, mfrom : S.mfrom, mto : S.mto, fault : S.fault, gone : S.gone]
Draw(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
\* Some = 0: everything; otherwise that many, drawn member by member
Pick(S) == IF Some = 0 THEN Full(S)
           ELSE {[a |-> Draw(S.a, n), b |-> Draw(S.b, n), s |-> Draw(S.s, n), to |-> Draw(S.to, n), from |-> Draw(S.from, n), by |-> Draw(S.by, n), prot |-> Draw(S.prot, n),
                  mfrom |-> Draw(S.mfrom, n), mto |-> Draw(S.mto, n), fault |-> Draw(S.fault, n), gone |-> Draw(S.gone, n)] : n \in 1..Some}
Calm == [a |-> {<<"X", "P">>}, b |-> {<<"P", "X">>}, s |-> {<<"E">>}, to |-> {Bo}, from |-> {NONE, Al}, by |-> {NONE}, prot |-> {NONE},
         mfrom |-> {NONE}, mto |-> {<<>>}, fault |-> {<<"none">>}, gone |-> {{}}]
BadK == {"IoError", "Malformed", "SecretNotFound", "DIDNotResolved"}
Faults == {<<"did", d, k>> : d \in Dids, k \in BadK} \cup {<<"sfind", k>> : k \in BadK} \cup {<<"sget", k>> : k \in BadK \cup {"none"}}
          \cup {<<"sid", Id(Al, f), k>> : f \in {"k1", "k2", "s1", "s2"}, k \in BadK \cup {"none"}}
Cfgs == UNION
  {IF "keys" \in Slices THEN Pick(([Calm EXCEPT !.a = Seqs(KS, 2), !.b = Seqs(KS, 2), !.to = {Bo, Id(Bo, "k1"), Id(Bo, "k2"), Id(Bo, "zz"), Id(Ma, "k1")},
                                        !.from = {NONE, Al, Id(Al, "k1"), Id(Al, "k2"), Id(Al, "zz")}])) ELSE {},
   IF "three" \in Slices THEN Pick(([Calm EXCEPT !.a = [1..3 -> {"X", "P", "Xn", "Xm", "U"}], !.b = [1..3 -> {"X", "P", "U", "Xb", "K"}]])) ELSE {},
   IF "sign" \in Slices THEN Pick(([Calm EXCEPT !.s = Seqs(SS, 2), !.by = {Al, Id(Al, "s1"), Id(Al, "s2"), Id(Al, "k1"), Id(Al, "zz"), Id(Bo, "k1"), "nodid"}, !.prot = {NONE, "yes"}])) ELSE {},
   IF "addr" \in Slices THEN Pick(([Calm EXCEPT !.to = {Bo, Id(Bo, "k1"), Ma, "nodid", ""}, !.from = {NONE, Al, Id(Al, "k1"), Bo, "nodid", ""}, !.by = {NONE, Al, Id(Al, "s1"), "", "nodid"},
                                        !.mfrom = {NONE, Al, Bo, Id(Al, "k1")}, !.mto = {<<>>, <<Bo>>, <<Al, Bo>>, <<Ma>>, <<Id(Bo, "k1")>>}])) ELSE {},
   IF "fault" \in Slices THEN Pick(([Calm EXCEPT !.a = {<<"X">>, <<"Xn", "P">>, <<"P", "X">>}, !.s = {<<"E">>, <<"En", "P">>}, !.from = {NONE, Al, Id(Al, "k2")}, !.by = {NONE, Al, Id(Al, "s1")},
                                         !.prot = {NONE, "yes"}, !.fault = Faults \cup {<<"none">>}, !.gone = {{}, {Al}, {Bo}, {Al, Bo}}])) ELSE {}}

VARIABLES c, pc, i, acc, crv, sk, out,
          w, x        \* the world of c and what DCPack says about it (computed once)
vars == <<c, pc, i, acc, crv, sk, out>>
v     == Ev(c)
D(s)  == DidOf(w, s)
\* the resolvers, as the procedure sees them
Resolve(d)  == IF d \in DOMAIN v.env.dfault THEN v.env.dfault[d] ELSE IF d \in DOMAIN w.docs THEN "ok" ELSE "DIDNotResolved"
Doc(d)      == w.docs[d]
FindAns(l)  == IF v.env.sfind # NONE THEN v.env.sfind
               ELSE IF \E j \in DOMAIN l : l[j] \in DOMAIN v.env.sid /\ v.env.sid[l[j]] # "none"
                    THEN v.env.sid[(CHOOSE k \in SeqSet(l) : k \in DOMAIN v.env.sid /\ v.env.sid[k] # "none")] ELSE "ok"
Have(id)    == \E j \in DOMAIN w.wallets[Al] : w.wallets[Al][j].id = id
HaveOf(l)   == SelectSeq(l, Have)
GetAns(id)  == IF v.env.sget # NONE THEN v.env.sget ELSE IF id \in DOMAIN v.env.sid THEN v.env.sid[id] ELSE IF Have(id) THEN "ok" ELSE "none"
Secret(id)  == CHOOSE s \in SeqSet(w.wallets[Al]) : s.id = id
Method(d, id) == LET s == SelectSeq(Doc(d).vms, LAMBDA m : m.id = id) IN IF s = <<>> THEN [alg |-> "absent"] ELSE [alg |-> AlgOf(s[1])] @@ s[1]

Stop(k)     == pc' = "refused" /\ out' = [out EXCEPT !.kind = k] /\ UNCHANGED <<c, i, acc, crv, sk, w, x>>
Go(p)       == pc' = p /\ UNCHANGED <<c, out, w, x>>
Keep4       == UNCHANGED <<i, acc, crv, sk>>

Init == c \in Cfgs /\ pc = "args" /\ i = 0 /\ acc = <<>> /\ crv = "?" /\ sk = NONE
        /\ out = [kind |-> NONE, to |-> <<>>, from |-> NONE, sign |-> NONE]
        /\ w = WorldOf(c) /\ x = PackEncF(w, v)
Args ==
  /\ pc = "args"
  /\ IF \/ ~IsDid(w, c.to) \/ (c.from # NONE /\ ~IsDid(w, c.from)) \/ (c.by # NONE /\ ~IsDid(w, c.by))
        \/ (c.mto # <<>> /\ \A j \in DOMAIN c.mto : c.mto[j] # D(c.to))
        \/ (c.mfrom # NONE /\ c.from # NONE /\ D(c.from) # c.mfrom)
     THEN Stop("IllegalArgument")
     ELSE Go(IF c.by = NONE THEN "tdoc" ELSE "sdoc") /\ Keep4
\* signing: the signer's document, its authentication keys, the first (or the named one) in the wallet
SDoc == /\ pc = "sdoc"
        /\ IF Resolve(D(c.by)) # "ok" THEN Stop(Resolve(D(c.by)))
           ELSE IF Frag(w, c.by) /\ c.by \notin SeqSet(Doc(D(c.by)).auth) THEN Stop("DIDUrlNotFound")
           ELSE Go("sfind") /\ acc' = (IF Frag(w, c.by) THEN <<c.by>> ELSE Doc(D(c.by)).auth) /\ UNCHANGED <<i, crv, sk>>
SFind == /\ pc = "sfind"
         /\ IF FindAns(acc) # "ok" THEN Stop(FindAns(acc))
            ELSE IF HaveOf(acc) = <<>> THEN Stop("SecretNotFound")
            ELSE Go("sget") /\ sk' = HaveOf(acc)[1] /\ acc' = <<>> /\ UNCHANGED <<i, crv>>
SGet == /\ pc = "sget"
        /\ LET a == GetAns(sk) IN
           IF a = "none" THEN Stop("SecretNotFound")
           ELSE IF a # "ok" THEN Stop(a)
           ELSE IF Secret(sk).rep = "jwk-nox" THEN Stop("Malformed")
           ELSE IF Secret(sk).crv \notin {"E", "P", "K"} THEN Stop("Unsupported")
           ELSE pc' = "tdoc" /\ out' = [out EXCEPT !.sign = sk] /\ sk' = NONE /\ UNCHANGED <<c, i, acc, crv, w, x>>
\* documents of the recipient and the sender
TDoc == /\ pc = "tdoc"
        /\ IF Resolve(D(c.to)) # "ok" THEN Stop(Resolve(D(c.to)))
           ELSE LET l == SelectSeq(Doc(D(c.to)).ka, LAMBDA k : ~Frag(w, c.to) \/ k = c.to) IN
                IF c.from # NONE THEN Go("fdoc") /\ acc' = l /\ UNCHANGED <<i, crv, sk>>
                ELSE IF l = <<>> THEN Stop("DIDUrlNotFound")
                ELSE IF \E j \in DOMAIN l : Method(D(c.to), l[j]).alg = "absent" THEN Stop("DIDUrlNotFound")
                ELSE Go("scan") /\ acc' = l /\ i' = 1 /\ UNCHANGED <<crv, sk>>
FDoc == /\ pc = "fdoc"
        /\ IF Resolve(D(c.from)) # "ok" THEN Stop(Resolve(D(c.from)))
           ELSE LET l == SelectSeq(Doc(D(c.from)).ka, LAMBDA k : ~Frag(w, c.from) \/ k = c.from) IN
                IF l = <<>> \/ acc = <<>> THEN Stop("DIDUrlNotFound")
                ELSE IF FindAns(l) # "ok" THEN Stop(FindAns(l))
                ELSE IF HaveOf(l) = <<>> THEN Stop("SecretNotFound")
                ELSE IF \E j \in DOMAIN acc : Method(D(c.to), acc[j]).alg = "absent" THEN Stop("DIDUrlNotFound")
                ELSE IF \E j \in DOMAIN HaveOf(l) : Method(D(c.from), HaveOf(l)[j]).alg = "absent" THEN Stop("DIDUrlNotFound")
                ELSE Go("fscan") /\ i' = 1 /\ UNCHANGED <<acc, crv, sk>>
Mine == LET l == SelectSeq(Doc(D(c.from)).ka, LAMBDA k : ~Frag(w, c.from) \/ k = c.from) IN HaveOf(l)
\* the sender's keys one after the other, until one fits some key of the recipient
FScan == /\ pc = "fscan"
         /\ IF i > Len(Mine) THEN Stop("NoCompatibleCrypto")
            ELSE LET a == Method(D(c.from), Mine[i]).alg IN
                 IF a # "U" /\ \E j \in DOMAIN acc : Method(D(c.to), acc[j]).alg = a
                 THEN Go("fget") /\ crv' = a /\ sk' = Mine[i] /\ UNCHANGED <<i, acc>>
                 ELSE Go("fscan") /\ i' = i + 1 /\ UNCHANGED <<acc, crv, sk>>
FGet == /\ pc = "fget"
        /\ LET a == GetAns(sk) IN
           IF a = "none" THEN Stop("InvalidState") ELSE IF a # "ok" THEN Stop(a)
           ELSE IF crv \notin {"X", "P"} THEN Stop("Unsupported")
           ELSE IF Secret(sk).rep = "jwk-nox" THEN Stop("Malformed")
           ELSE Go("pick") /\ i' = 1 /\ UNCHANGED <<acc, crv, sk>>
\* the recipient's keys one after the other, until a supported one
Scan == /\ pc = "scan"
        /\ IF i > Len(acc) THEN Stop("NoCompatibleCrypto")
           ELSE LET a == Method(D(c.to), acc[i]).alg IN
                IF a = "U" THEN Go("scan") /\ i' = i + 1 /\ UNCHANGED <<acc, crv, sk>>
                ELSE IF a \notin {"X", "P"} THEN Stop("Unsupported")
                ELSE Go("pick") /\ crv' = a /\ i' = 1 /\ UNCHANGED <<acc, sk>>
\* every key of that curve
PickK == /\ pc = "pick"
         /\ IF i > Len(acc) THEN pc' = "packed" /\ out' = [out EXCEPT !.from = sk] /\ UNCHANGED <<c, i, acc, crv, sk, w, x>>
            ELSE LET m == Method(D(c.to), acc[i]) IN
                 IF m.alg # crv THEN Go("pick") /\ i' = i + 1 /\ UNCHANGED <<acc, crv, sk>>
                 ELSE IF m.rep # "jwk" THEN Stop("Malformed")
                 ELSE pc' = "pick" /\ i' = i + 1 /\ out' = [out EXCEPT !.to = Append(@, acc[i])] /\ UNCHANGED <<c, acc, crv, sk, w, x>>
PExp == [f |-> SetToSeq(x.f), toKids |-> IF pc = "packed" THEN out.to ELSE <<>>, fromKid |-> out.from, signKid |-> IF pc = "packed" THEN out.sign ELSE NONE]
EnvJ == LET e == v.env IN (IF e.dfault = <<>> THEN <<>> ELSE [dfault |-> e.dfault]) @@ (IF e.sid = <<>> THEN <<>> ELSE [sid |-> e.sid]) @@ [wallet |-> Al, sfind |-> e.sfind, sget |-> e.sget]
ScenarioOf ==
  [world |-> WorldJ(w),
   ops |-> <<[op |-> "pack_enc", msg |-> PlainJ(Msg(c), <<>>), to |-> c.to, out |-> "p", env |-> EnvJ, opts |-> [forward |-> FALSE] @@ (IF c.prot = "yes" THEN [protect |-> TRUE] ELSE <<>>), exp |-> PExp]
             @@ (IF c.from = NONE THEN <<>> ELSE [from |-> c.from]) @@ (IF c.by = NONE THEN <<>> ELSE [by |-> c.by])>>
           \o (IF pc = "packed" /\ Bo \in DOMAIN w.docs THEN <<[op |-> "unpack", in |-> "p", env |-> [wallet |-> Bo], opts |-> [all |-> TRUE, unwrap |-> TRUE]]>> ELSE <<>>)]
Stopped == /\ pc \in {"packed", "refused"} /\ i >= 0 /\ i' = -1 /\ UNCHANGED <<c, pc, acc, crv, sk, out, w, x>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == Args \/ SDoc \/ SFind \/ SGet \/ TDoc \/ FDoc \/ FScan \/ FGet \/ Scan \/ PickK \/ Stopped
Spec == Init /\ [][Next]_<<vars, w, x>>

----------------------------------------------------------------------------
Ok  == pc = "packed" /\ i = -1
No  == pc = "refused" /\ i = -1
\* the procedure is a refinement of the formula
Agrees == /\ Ok => x.f = {} /\ x.sel.kids = out.to /\ x.sel.fromKid = out.from /\ x.sg.fromKid = out.sign /\ x.sel.crv = crv
          /\ No => out.kind \in KindsOf(x.f)
\* C09: inconsistent arguments are refused as such, and never packed
Consistent == /\ IsDid(w, c.to) /\ (c.from = NONE \/ IsDid(w, c.from)) /\ (c.by = NONE \/ IsDid(w, c.by))
              /\ (c.mto = <<>> \/ D(c.to) \in SeqSet(c.mto)) /\ (c.from = NONE \/ c.mfrom = NONE \/ D(c.from) = c.mfrom)
Addressing == /\ (i = -1 /\ ~Consistent) => No /\ out.kind = "IllegalArgument"
              /\ (i = -1 /\ Consistent /\ c.fault[1] \in {"none", "did", "sfind", "sget", "sid"}) => (No => out.kind # "IllegalArgument")
\* C08, in the words of the property
Listed(d)  == Doc(d).ka
Usable(d)  == SelectSeq(Listed(d), LAMBDA k : Method(d, k).alg \notin {"absent", "U"})
Selection == Ok =>
  LET T == D(c.to)  A == {Method(T, k).alg : k \in SeqSet(out.to)} IN
  /\ out.to # <<>> /\ Cardinality(A) = 1 /\ A = {crv} /\ crv \in {"X", "P"}
  /\ IF Frag(w, c.to) THEN out.to = <<c.to>> /\ c.to \in SeqSet(Listed(T))
     ELSE out.to = SelectSeq(Listed(T), LAMBDA k : Method(T, k).alg = crv)
  /\ c.from = NONE /\ ~Frag(w, c.to) => crv = Method(T, Usable(T)[1]).alg
  /\ c.from = NONE => out.from = NONE
  /\ c.from # NONE =>
       /\ out.from \in SeqSet(Listed(D(c.from))) /\ Have(out.from) /\ Method(D(c.from), out.from).alg = crv
       /\ Frag(w, c.from) => out.from = c.from
       /\ ~Frag(w, c.from) => \A j \in DOMAIN Listed(D(c.from)) :
            LET k == Listed(D(c.from))[j] IN
            (Have(k) /\ \E t \in SeqSet(Listed(T)) : Method(T, t).alg = Method(D(c.from), k).alg /\ Method(T, t).alg \notin {"U", "absent"} /\ (Frag(w, c.to) => t = c.to))
            => (CHOOSE n \in DOMAIN Listed(D(c.from)) : Listed(D(c.from))[n] = out.from) <= j
  /\ (out.sign = NONE) = (c.by = NONE)
  /\ c.by # NONE => /\ out.sign \in SeqSet(Doc(D(c.by)).auth) /\ Have(out.sign)
                    /\ Frag(w, c.by) => out.sign = c.by
                    /\ ~Frag(w, c.by) => \A k \in SeqSet(Doc(D(c.by)).auth) : Have(k) =>
                         (CHOOSE n \in DOMAIN Doc(D(c.by)).auth : Doc(D(c.by)).auth[n] = out.sign) <= (CHOOSE n \in DOMAIN Doc(D(c.by)).auth : Doc(D(c.by)).auth[n] = k)
\* C08: when the keys are there, it is packed
Plenty == c.fault[1] = "none" /\ c.gone = {} /\ Consistent
Possible == (i = -1 /\ Plenty /\ c.by = NONE /\ c.from = NONE /\ ~Frag(w, c.to) /\ D(c.to) = Bo /\ c.b # <<>> /\ \A j \in DOMAIN c.b : c.b[j] \in {"X", "P", "Xn", "Pn", "U", "Xu", "Ps"})
            /\ (\E j \in DOMAIN c.b : c.b[j] \in {"X", "P", "Xn", "Pn", "Ps"}) => Ok
\* C18: a failing resolver that is needed shows, with its own kind; nothing is produced
Surfaces == i = -1 /\ Consistent /\ c.gone = {} =>
  LET f == c.fault IN
  /\ f[1] = "did" /\ f[2] \in {D(s) : s \in {c.to, c.from, c.by} \ {NONE}} => No /\ f[3] \in KindsOf(x.f)
  /\ f[1] = "sfind" /\ (c.from # NONE \/ c.by # NONE) => No
  /\ f[1] = "sget" /\ (c.from # NONE \/ c.by # NONE) => No
Unneeded == i = -1 /\ c.from = NONE /\ c.by = NONE /\ c.fault[1] \in {"sfind", "sget", "sid"} /\ c.gone = {} /\ Consistent /\ D(c.to) = Bo /\ ~Frag(w, c.to) /\ c.b = <<"P", "X">> => Ok
GoneDocs == i = -1 /\ Consistent /\ c.fault[1] = "none" /\ c.gone # {} /\ {D(s) : s \in {c.to, c.from, c.by} \ {NONE}} \cap c.gone # {}
            => No /\ "DIDNotResolved" \in KindsOf(x.f)
\* what is refused by the formula for one reason only has that reason's kind
Certain == No /\ Cardinality(KindsOf(x.f)) = 1 => KindsOf(x.f) = {out.kind}
Ends == pc \notin {"packed", "refused"} => ENABLED Next

----------------------------------------------------------------------------
BadOnCurve(doc, ids, q) == ids
BadFirst(s, P(_))  == LET I == {j \in DOMAIN s : P(s[j])} IN IF I = {} THEN 0 ELSE CHOOSE j \in I : \A k \in I : j >= k
BadArgF(ww, msg, to, from, by) == If(~IsDid(ww, to), Fault("IllegalArgument", "arg.to"))
BadFindF(e, ids)   == {}
BadGetF(ws, e, id, missing) == {}
BadKaOf(ww, doc, s) == doc.ka
=============================================================================
