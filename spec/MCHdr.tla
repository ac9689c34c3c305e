-------------------------------- MODULE MCHdr --------------------------------
(* One encrypted text from anybody, with every header chosen freely, in the hands of Bob: unpacking as
   a procedure over its recipients, with cursors, against the formula of DCUnpack; and what Bob may
   conclude from an acceptance, in the words of the properties.  Final states are replayed as crafted
   texts with the predicted outcome.                                                               *)
EXTENDS DCModel

CONSTANTS Slices, Some, Out

Ca    == "did:ex:carol"
Lx0   == LexOf({Al, Bo, Ma, Ca}, {"k1", "k2", "k3", "k9", "zz"}) @@ ("" :> [d |-> "", f |-> FALSE, i |-> FALSE])
Key(d, f)  == "X:" \o d \o "." \o f
PKey(d, f) == "P:" \o d \o "." \o f
\* entries of the recipient list: the key id, the key it is wrapped to, and what is wrapped
Ent(kid, key, cek) == [kid |-> kid, key |-> key, cek |-> cek]
EntOf(n) ==
  CASE n = "1"  -> Ent(Id(Bo, "k1"), Key(Bo, "k1"), "ok")
    [] n = "2"  -> Ent(Id(Bo, "k2"), Key(Bo, "k2"), "ok")
    [] n = "3"  -> Ent(Id(Bo, "k3"), Key(Bo, "k3"), "ok")
    [] n = "1x" -> Ent(Id(Bo, "k1"), Key(Bo, "k2"), "ok")
    [] n = "2m" -> Ent(Id(Bo, "k2"), Key(Ma, "k1"), "ok")
    [] n = "1o" -> Ent(Id(Bo, "k1"), Key(Bo, "k1"), "other")
    [] n = "2o" -> Ent(Id(Bo, "k2"), Key(Bo, "k2"), "other")
    [] n = "z"  -> Ent(Id(Bo, "zz"), Key(Ma, "k1"), "ok")
    [] n = "b"  -> Ent(Bo, Key(Bo, "k1"), "ok")
    [] n = "c"  -> Ent(Id(Ca, "k1"), Key(Ca, "k1"), "ok")
    [] n = "e"  -> Ent("", Key(Bo, "k1"), "ok")
Good   == {"1", "2", "3"}
EntKs  == Good \cup {"1x", "2m", "1o", "2o", "z", "b", "c", "e"}
\* what Bob holds under a key id
Holds  == {"own", "no", "other", "P", "E", "bad", "unsup"}
SecretOf(f, h) ==
  LET s == [id |-> Id(Bo, f), key |-> Key(Bo, f), crv |-> "X", rep |-> "jwk"] IN
  CASE h = "own"   -> <<s>>
    [] h = "no"    -> <<>>
    [] h = "other" -> <<[s EXCEPT !.key = Key(Bo, "k9")]>>
    [] h = "P"     -> <<[s EXCEPT !.key = PKey(Bo, f), !.crv = "P"]>>
    [] h = "E"     -> <<[s EXCEPT !.key = "E:" \o Bo \o "." \o f, !.crv = "E"]>>
    [] h = "bad"   -> <<[s EXCEPT !.rep = "jwk-nox"]>>
    [] h = "unsup" -> <<[s EXCEPT !.rep = "u-other"]>>
\* how Alice's document publishes the key the text names
Pubs   == {"ok", "unlisted", "nomethod", "other", "P", "E", "bad", "unsup", "nodoc"}
VmAl(p) == LET v == [id |-> Id(Al, "k1"), key |-> Key(Al, "k1"), crv |-> "X", rep |-> "jwk"] IN
  CASE p = "other" -> [v EXCEPT !.key = Key(Al, "k9")] [] p = "P" -> [v EXCEPT !.key = PKey(Al, "k1"), !.crv = "P"]
    [] p = "E" -> [v EXCEPT !.key = "E:" \o Al \o ".k1", !.crv = "E"] [] p = "bad" -> [v EXCEPT !.rep = "jwk-nox"] [] p = "unsup" -> [v EXCEPT !.rep = "u-other"] [] OTHER -> v
DocAl(p) == [NoDoc EXCEPT !.ka = IF p = "unlisted" THEN <<Id(Al, "k2")>> ELSE <<Id(Al, "k2"), Id(Al, "k1")>>,
                          !.vms = (IF p = "nomethod" THEN <<>> ELSE <<VmAl(p)>>) \o <<[id |-> Id(Al, "k2"), key |-> Key(Al, "k2"), crv |-> "X", rep |-> "jwk"]>>]
Docs(c) == LET D == Al :> DocAl(c.pub) @@ Bo :> [NoDoc EXCEPT !.ka = <<Id(Bo, "k1")>>] IN [d \in DOMAIN D \ (IF c.pub = "nodoc" THEN {Al} ELSE {}) |-> D[d]]
WorldOf(c) == Static(Docs(c), Bo :> (SecretOf("k1", c.h1) \o SecretOf("k2", c.h2) \o SecretOf("k3", c.h3)), Lx0)
EnvC(c) == LET f == c.fault  e == EnvOf(Bo) IN
  CASE f[1] = "did" -> [e EXCEPT !.dfault = (f[2] :> f[3])] [] f[1] = "sfind" -> [e EXCEPT !.sfind = f[2]]
    [] f[1] = "sget" -> [e EXCEPT !.sget = f[2]] [] f[1] = "sid" -> [e EXCEPT !.sid = (f[2] :> f[3])] [] OTHER -> e
Cl(c)   == [i \in DOMAIN c.rcp |-> EntOf(c.rcp[i])]
Msg     == MkMsg("m", NONE, <<>>, NoFp)
TermOf(c) ==
  LET R == Cl(c)  sup == c.enc \in Encs IN
  [MkJwe([NoSel({}) EXCEPT !.kids = <<>>, !.keys = <<>>, !.crv = "X"], FALSE, c.enc, IF c.pl = "msg" THEN Msg ELSE [k |-> "bad", kind |-> "Malformed"], 1) EXCEPT
     !.alg = c.alg, !.skid = c.skid, !.apu = c.apu, !.apu8 = c.apu # "!utf8", !.apvOk = c.apv = "ok", !.skey = IF c.alg = OPU THEN c.skey ELSE NONE,
     !.rcp = [i \in DOMAIN R |-> [kid |-> R[i].kid, key |-> R[i].key, b64 |-> TRUE, opens |-> sup /\ R[i].cek = "ok"]],
     !.intact = sup /\ \E i \in DOMAIN R : R[i].cek = "ok", !.utf8 = c.pl = "msg"]

Apus  == {NONE, Id(Al, "k1"), Id(Al, "k2"), Id(Al, "zz"), Al, "!utf8", Id(Ca, "k1"), ""}
Dom(s) ==
  LET all == {TRUE, FALSE}
      Base == [alg |-> {ES, OPU}, enc |-> {CBC}, rcp |-> {<<"1", "2">>, <<"2">>, <<"3", "1">>}, apv |-> {"ok"}, skid |-> {"same"}, apu |-> {Id(Al, "k1")}, skey |-> {Key(Al, "k1")}, pub |-> {"ok"},
               h1 |-> {"own"}, h2 |-> {"own", "no"}, h3 |-> {"own", "no"}, all |-> all, pl |-> {"msg"}, fault |-> {<<"none">>}]
      FK == {"IoError", "DIDNotResolved", "Malformed", "SecretNotFound"} IN
  CASE s = "rcp"   -> [Base EXCEPT !.rcp = UNION {[1..n -> EntKs] : n \in 0..3}, !.h1 = {"own", "no"}, !.apv = {"ok", "ok", "ok", "unsorted"}]
    [] s = "good"  -> [Base EXCEPT !.rcp = UNION {[1..n -> Good \cup {"1x", "2m", "1o", "2o", "z"}] : n \in 1..4}, !.h1 = {"own", "no", "other"}, !.h2 = {"own", "no", "P"}, !.h3 = {"own", "no", "bad"}]
    [] s = "hold"  -> [Base EXCEPT !.rcp = {<<"1", "2">>, <<"2", "1">>, <<"3", "2", "1">>, <<"1">>}, !.h1 = Holds, !.h2 = Holds, !.h3 = Holds]
    [] s = "hdr"   -> [Base EXCEPT !.enc = {CBC, XC, GCM, "A128GCM"}, !.apv = {"ok", "unsorted", "cut", "comma", "other"}, !.skid = {"same", NONE, Id(Al, "k2"), Al}, !.apu = Apus,
                                   !.skey = {Key(Al, "k1"), Key(Al, "k2"), Key(Ma, "k1")}, !.pl = {"msg", "utf8"}]
    [] s = "sender" -> [Base EXCEPT !.alg = {OPU}, !.pub = Pubs, !.skid = {"same", NONE}, !.skey = {Key(Al, "k1"), Key(Al, "k9"), Key(Ma, "k1")}, !.enc = {CBC, XC}, !.apu = {Id(Al, "k1"), Id(Al, "k2")}]
    [] s = "fault" -> [Base EXCEPT !.fault = {<<"none">>} \cup {<<"did", d, k>> : d \in {Al, Bo}, k \in FK} \cup {<<"sfind", k>> : k \in FK} \cup {<<"sget", k>> : k \in FK \cup {"none"}}
                                             \cup {<<"sid", Id(Bo, f), k>> : f \in {"k1", "k2", "k3"}, k \in FK \cup {"none"}}, !.h1 = {"own", "no"}, !.pub = {"ok", "nodoc"}]
Draw1(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
Fix(c) == [c EXCEPT !.skid = IF @ = "same" THEN (IF c.alg = OPU THEN c.apu ELSE NONE) ELSE @, !.apu = IF c.alg = ES /\ c.skid = "same" THEN NONE ELSE @]
Pick(S) == {Fix([alg |-> Draw1(S.alg, n), enc |-> Draw1(S.enc, n), rcp |-> Draw1(S.rcp, n), apv |-> Draw1(S.apv, n), skid |-> Draw1(S.skid, n), apu |-> Draw1(S.apu, n), skey |-> Draw1(S.skey, n),
             pub |-> Draw1(S.pub, n), h1 |-> Draw1(S.h1, n), h2 |-> Draw1(S.h2, n), h3 |-> Draw1(S.h3, n), all |-> Draw1(S.all, n), pl |-> Draw1(S.pl, n), fault |-> Draw1(S.fault, n)]) : n \in 1..Some}
Cfgs == UNION {Pick(Dom(s)) : s \in Slices}

VARIABLES c, pc, i, out
vars == <<c, pc, i, out>>
w  == WorldOf(c)
t  == TermOf(c)
e  == EnvC(c)
x  == UnpackOf(w, e, t, c.all, TRUE)
R  == Cl(c)

\* the resolvers, as the procedure sees them
Wal        == w.wallets[Bo]
Have(id)   == \E j \in DOMAIN Wal : Wal[j].id = id
Secr(id)   == CHOOSE s \in SeqSet(Wal) : s.id = id
Mine       == SelectSeq([j \in DOMAIN R |-> R[j].kid], Have)
Resolve(d) == IF d \in DOMAIN e.dfault THEN e.dfault[d] ELSE IF d \in DOMAIN w.docs THEN "ok" ELSE "DIDNotResolved"
FindAns    == IF e.sfind # NONE THEN e.sfind
              ELSE IF \E j \in DOMAIN R : R[j].kid \in DOMAIN e.sid /\ e.sid[R[j].kid] # "none" THEN e.sid[CHOOSE k \in DOMAIN e.sid : TRUE] ELSE "ok"
GetAns(id) == IF e.sget # NONE THEN e.sget ELSE IF id \in DOMAIN e.sid THEN e.sid[id] ELSE "ok"
Stop(k)    == pc' = "refused" /\ out' = k /\ UNCHANGED <<c, i>>
Go(p, n)   == pc' = p /\ i' = n /\ UNCHANGED <<c, out>>

Init == c \in Cfgs /\ pc = "head" /\ i = 0 /\ out = NONE
Header == /\ pc = "head"
        /\ IF c.apv # "ok" \/ c.apu = "!utf8" \/ (c.skid # NONE /\ c.skid # c.apu) THEN Stop("Malformed")
           ELSE IF R = <<>> \/ (\E j \in DOMAIN R : ~Frag(w, R[j].kid)) \/ (\E j \in DOMAIN R : DidOf(w, R[j].kid) # DidOf(w, R[1].kid)) THEN Stop("Malformed")
           ELSE Go(IF c.alg = OPU THEN "sender" ELSE "find", 1)
\* the named sender key, as its document publishes it now
Sender == /\ pc = "sender"
          /\ IF c.apu = NONE \/ ~Frag(w, c.apu) THEN Stop("Malformed")
             ELSE LET d == DidOf(w, c.apu)  s == SelectSeq(w.docs[d].vms, LAMBDA m : m.id = c.apu) IN
                  IF Resolve(d) # "ok" THEN Stop(Resolve(d))
                  ELSE IF c.apu \notin SeqSet(w.docs[d].ka) \/ s = <<>> THEN Stop("DIDUrlNotFound")
                  ELSE IF s[1].rep = "u-other" THEN Stop("Unsupported")
                  ELSE IF s[1].rep # "jwk" THEN Stop("Malformed")
                  ELSE Go("find", 1)
Find == /\ pc = "find"
        /\ IF FindAns # "ok" THEN Stop(FindAns) ELSE IF Mine = <<>> THEN Stop("SecretNotFound")
           ELSE IF c.alg = OPU /\ (c.enc # CBC \/ Vm(w.docs[DidOf(w, c.apu)], c.apu).crv \notin {"X", "P"}) THEN Stop("Unsupported") ELSE Go("open", 1)
\* one of Bob's keys after the other
Open == /\ pc = "open"
        /\ IF i > Len(Mine) \/ (i = 2 /\ ~c.all) THEN Go("text", i)
           ELSE LET id == Mine[i]  a == GetAns(id)  s == Secr(id)  r == R[CHOOSE j \in DOMAIN R : R[j].kid = id /\ \A n \in 1..(j - 1) : R[n].kid # id] IN
                IF a = "none" THEN Stop("InvalidState") ELSE IF a # "ok" THEN Stop(a)
                ELSE IF s.rep = "u-other" THEN Stop("Unsupported")
                ELSE IF s.rep # "jwk" THEN Stop("Malformed")
                ELSE IF s.crv \notin {"X", "P"} THEN Stop("Unsupported")
                ELSE IF c.alg = ES /\ c.enc \notin Encs THEN Stop("Unsupported")
                ELSE IF s.crv # "X" THEN Stop("Malformed")
                ELSE IF r.key # s.key \/ (c.alg = OPU /\ c.skey # Vm(w.docs[DidOf(w, c.apu)], c.apu).key) THEN Stop("Malformed")
                ELSE IF c.alg = OPU /\ Vm(w.docs[DidOf(w, c.apu)], c.apu).crv # "X" THEN Stop("Malformed")
                ELSE IF r.cek # "ok" THEN Stop("Malformed")
                ELSE Go("open", i + 1)
Text == /\ pc = "text"
        /\ IF c.pl = "utf8" THEN Stop("Malformed") ELSE Go("accepted", i)
RcpJ == [j \in DOMAIN R |-> [kid |-> R[j].kid, key |-> R[j].key] @@ (IF R[j].cek = "ok" THEN <<>> ELSE [cek |-> R[j].cek])]
KidsJ == [j \in DOMAIN R |-> R[j].kid]
ApvJ == CASE c.apv = "unsorted" -> [apv |-> [kids |-> <<"zz">> \o KidsJ]] [] c.apv = "cut" -> [apv |-> [kids |-> KidsJ, cut |-> 31]]
          [] c.apv = "comma" -> [apv |-> [kids |-> KidsJ, sep |-> ",", ext |-> TRUE]] [] c.apv = "other" -> [apv |-> "x"] [] OTHER -> <<>>
SpecJ == [t |-> "jwe", pl |-> [t |-> "plain", msg |-> PlainJ(Msg, <<>>)], to |-> RcpJ, alg |-> c.alg, enc |-> c.enc, crv |-> "X"]
         @@ ApvJ @@ (IF c.pl = "utf8" THEN [plhex |-> "7bff7d"] ELSE <<>>)
         @@ (IF c.apu = NONE THEN <<>> ELSE IF c.apu = "!utf8" THEN [apu |-> [hex |-> "6469643aff"]] ELSE [apu |-> c.apu])
         @@ (IF c.skid = NONE THEN <<>> ELSE [skid |-> c.skid]) @@ (IF c.alg = OPU THEN [skey |-> c.skey] ELSE <<>>)
EnvJ == (IF e.dfault = <<>> THEN <<>> ELSE [dfault |-> e.dfault]) @@ (IF e.sid = <<>> THEN <<>> ELSE [sid |-> e.sid]) @@ [wallet |-> Bo, sfind |-> e.sfind, sget |-> e.sget]
ScenarioOf == [world |-> WorldJ(w), ops |-> <<[op |-> "craft", spec |-> SpecJ, out |-> "p"],
                 [op |-> "unpack", in |-> "p", env |-> EnvJ, opts |-> [all |-> c.all, unwrap |-> TRUE], exp |-> ExpJ(x, IF x.f = {} THEN [msg |-> PlainJ(Msg, <<>>)] ELSE <<>>)]>>]
End  == /\ pc \in {"accepted", "refused"} /\ i >= 0 /\ i' = -1 /\ UNCHANGED <<c, pc, out>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == Header \/ Sender \/ Find \/ Open \/ Text \/ End
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ok == pc = "accepted" /\ i = -1
No == pc = "refused" /\ i = -1
\* the procedure refines the formula (an apu on an anonymous text may be refused, and is not a defect)
Agrees == /\ Ok => x.f = {} /\ x.meta.toKids = KidsJ /\ x.h = Msg.h
          /\ No => out \in KindsOf(x.f)
\* C16
Bound  == Ok => /\ c.apv = "ok" /\ R # <<>> /\ \A j \in DOMAIN R : Frag(w, R[j].kid) /\ DidOf(w, R[j].kid) = DidOf(w, R[1].kid)
                /\ c.skid # NONE => c.skid = c.apu
                /\ c.alg = OPU => c.apu # NONE /\ Frag(w, c.apu)
Consistent == /\ c.apv = "ok" /\ c.apu # "!utf8" /\ R # <<>> /\ (c.skid = NONE \/ c.skid = c.apu) /\ (c.alg = OPU => c.apu # NONE /\ Frag(w, c.apu))
              /\ \A j \in DOMAIN R : Frag(w, R[j].kid) /\ DidOf(w, R[j].kid) = DidOf(w, R[1].kid)
Checked == i = -1 => (Consistent <=> \A a \in ClassOf(x.f) : a \notin {"hdr.apv", "hdr.apu", "hdr.rcp"}) /\ (~Consistent => No)
\* C17, with the first key held, or with all
Fits(j) == Secr(R[j].kid).key = R[j].key /\ Secr(R[j].kid).rep = "jwk" /\ R[j].cek = "ok"
FirstAt(id) == CHOOSE j \in DOMAIN R : R[j].kid = id /\ \A n \in 1..(j - 1) : R[n].kid # id
Held   == {j \in DOMAIN R : Have(R[j].kid) /\ FirstAt(R[j].kid) = j}
AllOk  == Ok /\ c.all => \A j \in Held : Fits(j)
FirstOk == Ok => LET j == CHOOSE j \in Held : \A n \in Held : j <= n IN Fits(j)
Weaker == Ok /\ c.all => UnpackOf(w, e, t, FALSE, TRUE).f = {}
\* entries for keys that are not held make no difference
Own(r) == SelectSeq(r, LAMBDA n : Have(EntOf(n).kid))
Others == i = -1 /\ Consistent /\ Own(c.rcp) # <<>> /\ c.fault[1] \in {"none", "did", "sget"} /\ (\E j \in DOMAIN Own(c.rcp) : EntOf(Own(c.rcp)[j]).cek = "ok")
          => KindsOf(UnpackOf(w, e, TermOf([c EXCEPT !.rcp = Own(c.rcp)]), c.all, TRUE).f) = KindsOf(x.f)
\* C02: who has no key that was wrapped to does not read it
Reader == Ok => \E j \in DOMAIN Wal : \E n \in DOMAIN R : Wal[j].key = R[n].key
\* C04: the reported sender key is published for key agreement and was used
Named  == Ok /\ c.alg = OPU => /\ x.meta.fromKid = c.apu /\ x.meta.auth
                               /\ LET d == w.docs[DidOf(w, c.apu)] IN c.apu \in SeqSet(d.ka) /\ Vm(d, c.apu).key = c.skey
Unnamed == Ok /\ c.alg = ES => x.meta.fromKid = NONE /\ ~x.meta.auth /\ x.meta.anon
\* C24: what is made according to the rules is read
Made   == i = -1 /\ Consistent /\ c.fault[1] = "none" /\ c.pl = "msg" /\ (c.alg = ES \/ (c.pub = "ok" /\ c.enc = CBC /\ c.skey = Key(Al, IF c.apu = Id(Al, "k1") THEN "k1" ELSE "k2") /\ c.apu \in {Id(Al, "k1"), Id(Al, "k2")}))
          /\ c.enc \in Encs /\ Held # {} /\ (\A j \in Held : Fits(j)) => Ok
\* C15, C18
KindsSaid  == No => /\ (~Consistent /\ c.fault[1] = "none" => out = "Malformed")
                /\ (Consistent /\ c.fault[1] = "none" /\ Held = {} /\ (c.alg = ES \/ c.pub = "ok") => out \in {"SecretNotFound", "Malformed", "DIDUrlNotFound", "DIDNotResolved", "Unsupported"})
Surfaces == i = -1 /\ Consistent =>
  /\ c.fault[1] = "sfind" /\ (c.alg = ES \/ (c.pub = "ok" /\ c.apu = Id(Al, "k1") /\ c.enc = CBC)) => No /\ out = c.fault[2]
  /\ c.fault[1] = "did" /\ c.alg = OPU /\ c.fault[2] = DidOf(w, c.apu) => No /\ out = c.fault[3]
  /\ c.fault[1] = "did" /\ c.alg = ES => c.fault[3] \notin (KindsOf(x.f) \ {"Malformed", "SecretNotFound"})
Certain == No /\ Cardinality(KindsOf(x.f)) = 1 => KindsOf(x.f) = {out}
Ends   == pc \notin {"accepted", "refused"} => ENABLED Next

----------------------------------------------------------------------------
BadHdrF(ww, tt)              == IF tt.apvOk THEN {} ELSE Fault("Malformed", "hdr.apv")
BadSenderF(ww, ee, tt)       == {}
BadAuthKeyF(ww, ee, tt, all) == {}
BadRcpOf(tt, kid)            == tt.rcp[CHOOSE j \in DOMAIN tt.rcp : tt.rcp[j].kid = kid /\ \A n \in (j + 1)..Len(tt.rcp) : tt.rcp[n].kid # kid]
BadOpenF(ww, ee, tt, kid)    == {}
BadFound(ws, ee, ids)        == ids
=============================================================================
