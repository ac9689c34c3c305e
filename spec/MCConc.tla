-------------------------------- MODULE MCConc --------------------------------
(* Operations as what they are between suspensions: a question to a resolver, the answer, some
   computing, the next question.  A few of them run at the same time, in every interleaving, while
   documents and wallets change and operations are dropped half way.  The model checks
   - that operations do not influence each other: each comes out as the formulas of DCPack and
     DCUnpack say for the answers it was given, alone (isolation, C27);
   - that the relation by which DCTrace judges recorded executions (DCSched) accepts every such
     outcome, and rejects what an operation that mixes things up would do;
   - that an operation that is polled ends, whatever became of the others.
   Interleavings are written out as schedules and replayed.                                        *)
EXTENDS DCModel, DCSched

CONSTANTS Some, Out, NOps

Lx0   == LexOf({Al, Bo, M1}, {"k1", "k2", "s1", "s2", "k9"})
People == {Al, Bo}
SvcOf(d, hops) == [id |-> Id(d, "s"), k |-> "dc", uri |-> "https://ep.example/x", hasAccept |-> FALSE, accept |-> <<>>, rk |-> hops]
Keys0(d) == <<K("k1", "X", d), K("k2", "P", d)>>
Sigs0(d) == <<K("s1", "E", d), K("s2", "P", d)>>
Docs0(c) == [d \in {Al, Bo, M1} |-> IF d = M1 THEN DocOf(d, <<K("k1", "X", d)>>, <<>>, <<>>)
                                    ELSE DocOf(d, Keys0(d), Sigs0(d), IF d = Bo THEN <<SvcOf(d, c.hops)>> ELSE <<>>)]
Wals0    == [d \in {Al, Bo, M1} |-> IF d = M1 THEN WalletOf(d, <<K("k1", "X", d)>>) ELSE WalletOf(d, Keys0(d) \o Sigs0(d))]

----------------------------------------------------------------------------
(* Configurations: which operations, and which changes in which order. *)
Draw(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
Pick(s, n)  == IF n > 0 THEN s[RandomElement(DOMAIN s)] ELSE s[1]
Ways     == {<<Al, Bo>>, <<Bo, Al>>, <<Bo, Bo>>}
PackOp(k, p, to, from, by, prot, fwd, all, wal) ==
  [k |-> k, snd |-> p[1], rcv |-> p[2], to |-> IF to = "-" THEN p[2] ELSE Id(p[2], to), from |-> IF from = NONE THEN NONE ELSE IF from = "-" THEN p[1] ELSE Id(p[1], from),
   by |-> IF by = NONE /\ k \in {"sign", "check"} THEN p[1] ELSE IF by = NONE \/ (by = "-" /\ k \in {"issue", "token"}) THEN NONE ELSE IF by = "-" THEN p[1] ELSE Id(p[1], by), prot |-> prot, fwd |-> fwd, all |-> all,
   wallet |-> IF k \in {"pack", "sign", "issue"} THEN p[1] ELSE IF wal = "m" /\ p[2] = Bo THEN M1 ELSE p[2]]
\* keys that fit, mostly
\* pack and unpack encrypted texts; sign and check signed texts; issue and check tokens
Kinds0   == <<"pack", "pack", "pack", "unpack", "unpack", "sign", "check", "issue", "token">>
Makes    == {"pack", "sign", "issue"}
OpAt(n)  == LET to == Draw({"-", "k1", "k2"}, n)  k == Pick(Kinds0, n) IN
            PackOp(k, Draw(IF k \in {"issue", "token"} THEN Ways \ {<<Bo, Bo>>} ELSE Ways, n), to, Pick(<<NONE, "-", IF to = "-" THEN "k1" ELSE to, to>>, n), Pick(<<NONE, NONE, "-", "s1", "s2">>, n),
                   Draw({"yes", "no"}, n), Draw({"yes", "no"}, n), Draw({TRUE, FALSE}, n), Pick(<<"r", "r", "m">>, n))
Changes  == <<"rekey", "rekeydoc", "rekeywal", "crvdoc", "crvwal", "gone", "back", "drop", "drop", "rev", "rev", "forget", "svc">>
CfgAt(n) == [ops |-> [i \in 1..NOps |-> OpAt(n + i)], sets |-> [i \in 1..Pick(<<0, 1, 2, 2>>, n) |-> [k |-> Pick(Changes, n), d |-> Pick(<<Al, Bo, Bo, M1>>, n)]],
             drop |-> Pick(<<{}, {}, {1}, {2}>>, n), hops |-> Pick(<<<<>>, <<M1>>, <<M1>>, <<M1, M1>>, <<M1, Bo>>>>, n)]
Cfgs     == {CfgAt(n) : n \in 1..Some}

New(k)       == [k EXCEPT !.key = @ \o "n"]
Flip(k)      == [k EXCEPT !.crv = IF @ = "X" THEN "P" ELSE IF @ = "P" THEN "X" ELSE @, !.key = IF k.crv = "X" THEN "P:" \o SubSeq(@, 3, Len(@)) ELSE IF k.crv = "P" THEN "X:" \o SubSeq(@, 3, Len(@)) ELSE @]
IsKa(d, m)   == m.id \in {Id(d, "k1"), Id(d, "k2")}
AllOf(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
Tail1(s)     == IF s = <<>> THEN s ELSE Tail(s)
\* the documents and wallets after a change
DocsAfter(c, D, x) ==
  LET d == x.d IN
  CASE x.k = "back" -> [y \in DOMAIN D \cup {d} |-> IF y = d THEN Docs0(c)[d] ELSE D[y]]
    [] d \notin DOMAIN D -> D
    [] x.k \in {"rekey", "rekeydoc"} -> [D EXCEPT ![d].vms = AllOf(New, @)]
    [] x.k = "crvdoc" -> [D EXCEPT ![d].vms = [i \in DOMAIN @ |-> IF IsKa(d, @[i]) THEN Flip(@[i]) ELSE @[i]]]
    [] x.k = "gone" -> [y \in DOMAIN D \ {d} |-> D[y]]
    [] x.k = "drop" -> [D EXCEPT ![d].ka = Tail1(@), ![d].auth = Tail1(@)]
    [] x.k = "rev"  -> [D EXCEPT ![d].ka = Reverse(@), ![d].auth = Reverse(@)]
    [] x.k = "svc"  -> [D EXCEPT ![d].svcs = IF @ = <<>> THEN <<SvcOf(d, <<M1>>)>> ELSE IF @[1].rk = <<>> THEN <<SvcOf(d, <<M1>>)>> ELSE <<>>]
    [] OTHER -> D
WalsAfter(V, x) ==
  LET d == x.d IN
  CASE x.k = "back" -> [V EXCEPT ![d] = Wals0[d]]
    [] x.k \in {"rekey", "rekeywal"} -> [V EXCEPT ![d] = AllOf(New, @)]
    [] x.k = "crvwal" -> [V EXCEPT ![d] = [i \in DOMAIN @ |-> IF IsKa(d, @[i]) THEN Flip(@[i]) ELSE @[i]]]
    [] x.k = "forget" -> [V EXCEPT ![d] = Tail1(@)]
    [] OTHER -> V

----------------------------------------------------------------------------
(* What an operation is asked to do, as the formulas want it. *)
Msg(op, i) == MkMsg("m" \o ToString(i), op.snd, <<op.rcv>>, NoFp)
Ev(op, i)  == [ev |-> "pack_enc", env |-> EnvOf(op.snd), out |-> "p", msg |-> Msg(op, i), to |-> op.to, from |-> op.from, by |-> op.by, jh |-> "p",
               opts |-> [protect |-> op.prot, forward |-> op.fwd, svc |-> NONE, anon |-> NONE, hdr |-> ""]]
World0(c)  == Static(Docs0(c), Wals0, Lx0)
PackX(c, i) == PackEncF(World0(c), Ev(c.ops[i], i))
\* the text an unpacking operation is given: packed beforehand
MkJwt(sg, iss, sub) == [k |-> "jwt", ok |-> "ok", kid |-> sg.fromKid, typ |-> "JWT", alg |-> SigAlg(sg.crv), sigb64 |-> TRUE, skey |-> sg.skey, cok |-> TRUE, iss |-> iss, sub |-> sub, ch |-> "claims"]
\* the signer of a token
IssueSel(w, e, iss, kid) ==
  LET dF == DidF(w.docsS, e, iss, "signer.did") IN
  IF dF # {} THEN NoSel(dF) ELSE SignerSel(w, w.walletsS, e, w.docsS[iss], IF kid # NONE THEN <<kid>> ELSE w.docsS[iss].auth, kid, "signer")
TermOf(c, i) == LET op == c.ops[i] IN
                CASE op.k = "check" -> MkJws(SignSel(World0(c), EnvOf(op.snd), op.by), Msg(op, i))
                  [] op.k = "token" -> MkJwt(IssueSel(World0(c), EnvOf(op.snd), op.snd, op.by), op.snd, op.rcv)
                  [] OTHER          -> EncTerm(World0(c), Ev(op, i), PackX(c, i), 10 * i)
\* texts that cannot be packed are no texts
Fits(c)    == \A i \in DOMAIN c.ops : c.ops[i].k = "unpack" => PackX(c, i).f = {}

----------------------------------------------------------------------------
(* One operation.  m: its memory.  pc: what it waits for; q: the question that is outstanding. *)
W0     == [docs |-> <<>>, lex |-> Lx0]
Lk(s)  == Lx0[s]
NoSg   == [kid |-> NONE, key |-> NONE]
Mem0   == [pc |-> "new", q |-> [c |-> "-", ids |-> <<>>], calls |-> <<>>, st |-> "run", kind |-> NONE, td |-> NoDoc, fd |-> NoDoc, sg |-> NoSg, own |-> <<>>, n |-> 0, t |-> NoFp,
           kids |-> <<>>, keys |-> <<>>, from |-> NONE, skey |-> NONE, hops |-> <<>>, hkeys |-> <<>>, crv |-> "?", spk |-> NoSg, scrv |-> "?", signed |-> NONE, h |-> NONE, hasTo |-> FALSE]
Ask(m, p, c, ids)  == [m EXCEPT !.pc = p, !.q = [c |-> c, ids |-> ids]]
Refuse(m, k)       == [m EXCEPT !.pc = "end", !.st = "err", !.kind = k, !.q = [c |-> "-", ids |-> <<>>]]
Finish(m)          == [m EXCEPT !.pc = "end", !.st = "ok", !.q = [c |-> "-", ids |-> <<>>]]
Meth(doc, id)      == doc.vms[CHOOSE j \in DOMAIN doc.vms : doc.vms[j].id = id]
Ids(doc, s)        == SelectSeq(doc.ka, LAMBDA k : ~Lk(s).f \/ k = s)
ChooseTo(m, to, crv) == LET l == SelectSeq(Ids(m.td, to), LAMBDA k : Meth(m.td, k).crv = crv) IN
                        [m EXCEPT !.kids = l, !.keys = [j \in DOMAIN l |-> Meth(m.td, l[j]).key], !.crv = crv]
ThenRoute(op, m)   == IF op.fwd = "yes" THEN Ask(m, "route", "did", <<Lk(op.to).d>>) ELSE Finish(m)
\* the innermost forward, to the last hop, is made first
NextHop(m)         == IF Len(m.hkeys) = Len(m.hops) THEN Finish(m) ELSE Ask(m, "hop", "did", <<m.hops[Len(m.hops) - Len(m.hkeys)]>>)
Start(op, m)       == IF op.k = "issue" THEN Ask(m, "sdoc", "did", <<op.snd>>) ELSE IF op.by # NONE THEN Ask(m, "sdoc", "did", <<Lk(op.by).d>>) ELSE Ask(m, "tdoc", "did", <<Lk(op.to).d>>)
\* going into a text
Into(m, t) ==
  CASE t.k = "plain" -> [Finish(m) EXCEPT !.h = t.h]
    [] t.k = "jwt"   -> Ask([m EXCEPT !.t = t], "jdoc", "did", <<Lk(t.kid).d>>)
    [] t.k = "jws"   -> Ask([m EXCEPT !.t = t], "vdoc", "did", <<Lk(t.sigs[1].kid).d>>)
    [] t.alg = OPU   -> Ask([m EXCEPT !.t = t, !.kids = IF m.hasTo THEN @ ELSE Kids(t), !.hasTo = TRUE, !.from = t.apu], "udoc", "did", <<Lk(t.apu).d>>)
    [] OTHER         -> Ask([m EXCEPT !.t = t, !.kids = IF m.hasTo THEN @ ELSE Kids(t), !.hasTo = TRUE], "ufind", "find", Kids(t))
\* the answer a to the outstanding question: a document or <<>>; the listed ids; a secret or <<>>
Tell(op, m, a) ==
  CASE m.pc = "sdoc" -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF op.by # NONE /\ Lk(op.by).f /\ op.by \notin SeqSet(a.auth) THEN Refuse(m, "DIDUrlNotFound")
                        ELSE Ask(m, "sfind", "find", IF op.by # NONE /\ Lk(op.by).f THEN <<op.by>> ELSE a.auth)
    [] m.pc = "sfind" -> IF a = <<>> THEN Refuse(m, "SecretNotFound") ELSE Ask(m, "sget", "get", <<a[1]>>)
    [] m.pc = "sget" -> IF a = <<>> THEN Refuse(m, "SecretNotFound")
                        ELSE IF a.crv = "X" THEN Refuse(m, "Unsupported")
                        ELSE IF op.k # "pack" THEN Finish([m EXCEPT !.sg = [kid |-> a.id, key |-> a.key]])
                        ELSE Ask([m EXCEPT !.sg = [kid |-> a.id, key |-> a.key]], "tdoc", "did", <<Lk(op.to).d>>)
    [] m.pc = "tdoc" -> IF a = <<>> THEN Refuse(m, "DIDNotResolved")
                        ELSE IF op.from # NONE THEN Ask([m EXCEPT !.td = a], "fdoc", "did", <<Lk(op.from).d>>)
                        ELSE LET m2 == [m EXCEPT !.td = a]  l == Ids(a, op.to) IN
                             IF l = <<>> THEN Refuse(m, "DIDUrlNotFound") ELSE ThenRoute(op, ChooseTo(m2, op.to, Meth(a, l[1]).crv))
    [] m.pc = "fdoc" -> IF a = <<>> THEN Refuse(m, "DIDNotResolved")
                        ELSE IF Ids(a, op.from) = <<>> THEN Refuse(m, "DIDUrlNotFound")
                        ELSE Ask([m EXCEPT !.fd = a], "ffind", "find", Ids(a, op.from))
    [] m.pc = "ffind" -> IF a = <<>> THEN Refuse(m, "SecretNotFound") ELSE IF Ids(m.td, op.to) = <<>> THEN Refuse(m, "DIDUrlNotFound")
                         ELSE LET fit == SelectSeq(a, LAMBDA k : \E t \in SeqSet(Ids(m.td, op.to)) : Meth(m.td, t).crv = Meth(m.fd, k).crv) IN
                              IF fit = <<>> THEN Refuse(m, "NoCompatibleCrypto") ELSE Ask(m, "fget", "get", <<fit[1]>>)
    [] m.pc = "fget" -> IF a = <<>> THEN Refuse(m, "InvalidState")
                        ELSE LET crv == Meth(m.fd, m.q.ids[1]).crv IN
                             IF a.crv # crv THEN Refuse(m, "InvalidState")
                             ELSE ThenRoute(op, ChooseTo([m EXCEPT !.from = a.id, !.skey = a.key], op.to, crv))
    [] m.pc = "route" -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF a.svcs = <<>> THEN Finish(m) ELSE NextHop([m EXCEPT !.hops = a.svcs[1].rk])
    [] m.pc = "hop"   -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF a.ka = <<>> THEN Refuse(m, "DIDUrlNotFound")
                         ELSE NextHop([m EXCEPT !.hkeys = <<Meth(a, a.ka[1]).key>> \o @])
    [] m.pc = "udoc"  -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF m.t.apu \notin SeqSet(a.ka) THEN Refuse(m, "DIDUrlNotFound")
                         ELSE Ask([m EXCEPT !.spk = [kid |-> m.t.apu, key |-> Meth(a, m.t.apu).key], !.scrv = Meth(a, m.t.apu).crv], "ufind", "find", Kids(m.t))
    [] m.pc = "ufind" -> IF a = <<>> THEN Refuse(m, "SecretNotFound") ELSE Ask([m EXCEPT !.own = a, !.n = 1], "uget", "get", <<a[1]>>)
    [] m.pc = "uget"  -> IF a = <<>> THEN Refuse(m, "InvalidState")
                         ELSE IF a.crv # m.t.crv \/ a.key # RcpOf(m.t, a.id).key \/ (m.t.alg = OPU /\ (m.scrv # a.crv \/ m.spk.key # m.t.skey)) THEN Refuse(m, "Malformed")
                         ELSE IF op.all /\ m.n < Len(m.own) THEN Ask([m EXCEPT !.n = @ + 1], "uget", "get", <<m.own[m.n + 1]>>)
                         ELSE LET p == m.t.payload IN
                              IF m.t.alg = ES /\ p.k = "plain" /\ IsFwd(p)
                              THEN IF Lk(p.next).f THEN Ask(m, "nfind", "find", <<p.next>>) ELSE Ask(m, "ndoc", "did", <<p.next>>)
                              ELSE Into(m, p)
    [] m.pc = "ndoc"  -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE Ask(m, "nfind", "find", a.ka)
    [] m.pc = "nfind" -> IF a = <<>> THEN Into(m, m.t.payload) ELSE Into([m EXCEPT !.hasTo = FALSE], m.t.payload.inner)
    [] m.pc = "jdoc"  -> IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF m.t.kid \notin SeqSet(a.auth) THEN Refuse(m, "DIDUrlNotFound")
                         ELSE IF Meth(a, m.t.kid).key # m.t.skey THEN Refuse(m, "Malformed") ELSE Finish([m EXCEPT !.signed = m.t.kid])
    [] m.pc = "vdoc"  -> LET s == m.t.sigs[1] IN
                         IF a = <<>> THEN Refuse(m, "DIDNotResolved") ELSE IF s.kid \notin SeqSet(a.auth) THEN Refuse(m, "DIDUrlNotFound")
                         ELSE IF Meth(a, s.kid).key # s.skey THEN Refuse(m, "Malformed")
                         ELSE Into([m EXCEPT !.signed = s.kid], m.t.payload)

----------------------------------------------------------------------------
VARIABLES c, hd, hw, o, left, order, sets, drops
vars == <<c, hd, hw, o, left, order, sets, drops>>
Now     == Len(hd)
\* what the resolvers answer at this moment
Answer(op, q) ==
  LET V == hw[Now][op.wallet] IN
  CASE q.c = "did"  -> IF q.ids[1] \in DOMAIN hd[Now] THEN hd[Now][q.ids[1]] ELSE <<>>
    [] q.c = "find" -> SelectSeq(q.ids, LAMBDA k : \E j \in DOMAIN V : V[j].id = k)
    [] OTHER        -> LET s == SelectSeq(V, LAMBDA x : x.id = q.ids[1]) IN IF s = <<>> THEN <<>> ELSE s[1]
Running(i) == o[i].st = "run"
\* the part of the state that an operation reads and writes
StepOf(i, mem) == LET op == c.ops[i]  m == mem[i]
                      m2 == IF m.pc = "new" THEN (IF op.k \in Makes THEN Start(op, m) ELSE Into(m, TermOf(c, i)))
                            ELSE [Tell(op, m, Answer(op, m.q)) EXCEPT !.calls = Append(@, [c |-> m.q.c, ids |-> m.q.ids, v |-> Now])] IN
                  [mem EXCEPT ![i] = m2]
Init == /\ c \in Cfgs /\ Fits(c) /\ hd = <<Docs0(c)>> /\ hw = <<Wals0>> /\ left = 1 /\ order = <<>> /\ sets = <<>> /\ drops = <<>>
        /\ o = [i \in 1..NOps |-> Mem0]
Poll(i) == /\ Running(i) /\ o' = StepOf(i, o) /\ order' = Append(order, i - 1) /\ UNCHANGED <<c, hd, hw, left, sets, drops>>
Change  == /\ left > 0 /\ left <= Len(c.sets) /\ \E i \in 1..NOps : Running(i)
           /\ LET x == c.sets[left] IN
              /\ hd' = Append(hd, DocsAfter(c, hd[Now], x)) /\ hw' = Append(hw, WalsAfter(hw[Now], x))
              /\ sets' = Append(sets, [at |-> Len(order), v |-> Now + 1])
           /\ left' = left + 1 /\ UNCHANGED <<c, o, order, drops>>
Cancel(i) == /\ left > 0 /\ i \in c.drop /\ i <= NOps /\ Running(i) /\ o' = [o EXCEPT ![i].st = "gone"] /\ drops' = Append(drops, [at |-> Len(order), i |-> i - 1])
             /\ UNCHANGED <<c, hd, hw, left, order, sets>>
\* what is to be replayed
SetJ(s) == LET D == hd[s.v]  P == hd[s.v - 1] IN
  [at |-> s.at, world |-> [docs |-> [d \in {d \in DOMAIN D \cup DOMAIN P : (d \in DOMAIN D) # (d \in DOMAIN P) \/ (d \in DOMAIN D /\ D[d] # P[d])} |-> IF d \in DOMAIN D THEN D[d] ELSE "gone"],
                           wallets |-> [d \in {d \in DOMAIN hw[s.v] : hw[s.v][d] # hw[s.v - 1][d]} |-> hw[s.v][d]]]]
PackJ(op, i, h, pend) ==
  [op |-> "pack_enc", msg |-> PlainJ(Msg(op, i), <<>>), to |-> op.to, out |-> h, env |-> [wallet |-> op.snd, pend |-> pend], opts |-> [forward |-> op.fwd = "yes", protect |-> op.prot = "yes"]]
  @@ (IF op.from = NONE THEN <<>> ELSE [from |-> op.from]) @@ (IF op.by = NONE THEN <<>> ELSE [by |-> op.by])
SignJ(op, i, h, pend) == [op |-> "pack_signed", msg |-> PlainJ(Msg(op, i), <<>>), by |-> op.by, out |-> h, env |-> [wallet |-> op.snd, pend |-> pend]]
IssueJ(op, i, h, pend) == [op |-> "fp_pack", claims |-> [iss |-> op.snd, sub |-> op.rcv], out |-> h, env |-> [wallet |-> op.snd, pend |-> pend]] @@ (IF op.by = NONE THEN <<>> ELSE [kid |-> op.by])
OpJ(op, i) == LET n == ToString(i) IN
              CASE op.k = "pack"  -> PackJ(op, i, "s" \o n, 1)
                [] op.k = "sign"  -> SignJ(op, i, "s" \o n, 1)
                [] op.k = "issue" -> IssueJ(op, i, "s" \o n, 1)
                [] op.k = "token" -> [op |-> "fp_unpack", in |-> "p" \o n, env |-> [wallet |-> op.wallet, pend |-> 1]]
                [] OTHER -> [op |-> "unpack", in |-> "p" \o n, env |-> [wallet |-> op.wallet, pend |-> 1], opts |-> [all |-> op.all, unwrap |-> TRUE]]
Texts(i) == LET op == c.ops[i]  h == "p" \o ToString(i) IN
            CASE op.k = "unpack" -> <<PackJ(op, i, h, 0)>> [] op.k = "check" -> <<SignJ(op, i, h, 0)>> [] op.k = "token" -> <<IssueJ(op, i, h, 0)>> [] OTHER -> <<>>
ScenarioOf ==
  [world |-> [docs |-> hd[1], wallets |-> hw[1]],
   ops |-> FoldLeft(LAMBDA a, i : a \o Texts(i), <<>>, [i \in 1..NOps |-> i])
           \o <<[op |-> "sched", ops |-> [i \in 1..NOps |-> OpJ(c.ops[i], i)], order |-> order, sets |-> [j \in DOMAIN sets |-> SetJ(sets[j])], cancel |-> drops,
                 asks |-> [i \in 1..NOps |-> [st |-> o[i].st, kind |-> o[i].kind, calls |-> o[i].calls]]]>>]
Over == \A i \in 1..NOps : ~Running(i)
End  == /\ Over /\ left > 0 /\ left' = 0 /\ UNCHANGED <<c, hd, hw, o, order, sets, drops>>
        /\ (IF Sampled(Out) THEN Emit(ScenarioOf) ELSE TRUE)
Next == (\E i \in 1..NOps : Poll(i) \/ Cancel(i)) \/ Change \/ End
Spec == Init /\ [][Next]_vars
\* how it came about is no part of a state
View == <<c, hd, hw, o, left>>

----------------------------------------------------------------------------
\* what the formulas say, in world w and environment e, and whether the operation came out so
Matches(i, m, w, e) ==
  LET op == c.ops[i]
      Is(F, good) == IF m.st = "err" THEN m.kind \in KindsOf(F) ELSE F = {} /\ good IN
  CASE op.k = "pack" ->
       LET x == PackEncF(w, [Ev(op, i) EXCEPT !.env = e]) IN
       Is(x.f, /\ x.sel.kids = m.kids /\ x.sel.keys = m.keys /\ x.sel.fromKid = m.from /\ x.sel.skey = m.skey /\ x.sg.fromKid = m.sg.kid /\ x.sg.skey = m.sg.key
               /\ x.rt.hops = m.hops /\ \A j \in DOMAIN m.hops : AnonSel(w, w.docsR, e, m.hops[j], "hop").keys[1] = m.hkeys[j])
    [] op.k = "sign"  -> LET s == SignSel(w, e, op.by) IN Is(s.f, s.fromKid = m.sg.kid /\ s.skey = m.sg.key)
    [] op.k = "issue" -> LET s == IssueSel(w, e, op.snd, op.by) IN Is(s.f, s.fromKid = m.sg.kid /\ s.skey = m.sg.key)
    [] op.k = "token" -> Is(FpF(w.docsR, w, e, TermOf(c, i)), m.signed = TermOf(c, i).kid)
    [] OTHER ->
       LET x == UnpackOf(w, e, TermOf(c, i), op.all, TRUE) IN
       Is(x.f, x.h = m.h /\ x.meta.fromKid = m.from /\ x.meta.signFrom = m.signed /\ x.meta.toKids = m.kids)
At(n) == Static(hd[n], hw[n], Lx0)
EnvI(i) == EnvOf(c.ops[i].wallet)
Ended(i) == o[i].st \in {"ok", "err"}
\* steps that ask for a document of their own
RECURSIVE Chain(_)
Chain(t) == CASE t.k = "jwe" -> (IF t.apu = NONE THEN <<>> ELSE <<Lk(t.apu).d>>) \o Chain(t.payload)
              [] t.k = "jws" -> <<Lk(t.sigs[1].kid).d>>
              [] t.k = "plain" /\ "inner" \in DOMAIN t -> Chain(t.inner)
              [] OTHER -> <<>>
OwnOf(i) == LET op == c.ops[i]  a == <<op.to, op.from, op.by>> IN
            CASE op.k = "pack" -> [j \in 1..3 |-> IF a[j] = NONE THEN NONE ELSE Lk(a[j]).d] [] op.k = "unpack" -> Chain(TermOf(c, i)) [] OTHER -> <<>>
\* the judgement of DCTrace accepts what such an operation does
Judged == \A i \in 1..NOps : Ended(i) =>
            Explained(hd, hw, Lx0, EnvI(i), o[i].calls, o[i].st = "ok", LAMBDA w, e : Matches(i, o[i], w, e)) \/ Mixed(hw, EnvI(i), o[i].calls)
            \/ Again(hd, o[i].calls, OwnOf(i))
\* nothing changed while it ran: it comes out as in that one world, alone
Alone  == \A i \in 1..NOps : Ended(i) /\ Cardinality({o[i].calls[j].v : j \in DOMAIN o[i].calls}) = 1 =>
            Matches(i, o[i], At(o[i].calls[1].v), EnvI(i))
\* every key in an outcome was published, or held, at the moment when it was asked for
Honest == \A i \in 1..NOps : o[i].st = "ok" =>
  LET m == o[i]  op == c.ops[i]
      pub(k, id) == \E n \in AskedV(m.calls, "did", Lk(id).d) : \E v \in SeqSet(hd[n][Lk(id).d].vms) : v.id = id /\ v.key = k
      got(k, id) == \E n \in AskedV(m.calls, "get", id) : \E s \in SeqSet(hw[n][op.wallet]) : s.id = id /\ s.key = k IN
  CASE op.k = "pack" -> /\ \A j \in DOMAIN m.kids : pub(m.keys[j], m.kids[j])
                        /\ (m.from # NONE => got(m.skey, m.from)) /\ (m.sg.kid # NONE => got(m.sg.key, m.sg.kid))
                        \* ... the recipients all at the same moment
                        /\ \E n \in AskedV(m.calls, "did", op.rcv) : \A j \in DOMAIN m.kids : \E v \in SeqSet(hd[n][op.rcv].vms) : v.id = m.kids[j] /\ v.key = m.keys[j]
    [] op.k \in {"sign", "issue"} -> got(m.sg.key, m.sg.kid) /\ Lk(m.sg.kid).d = op.snd
    [] op.k = "token" -> pub(m.t.skey, m.signed)
    [] op.k = "check" -> \E j \in DOMAIN m.t.sigs : pub(m.t.sigs[j].skey, m.signed)
    [] OTHER -> /\ (m.from # NONE => pub(m.spk.key, m.from))
                /\ \E j \in DOMAIN m.calls : m.calls[j].c = "get"
\* nobody's progress depends on anybody else; it takes so many questions at most
Going  == \A i \in 1..NOps : Running(i) => ENABLED Poll(i)
Bounded == \A i \in 1..NOps : Len(o[i].calls) <= 12
\* a dropped operation leaves no trace in the others: they are as if it had never been (their memories
\* are functions of their own answers)
RECURSIVE Redo(_, _, _)
Redo(op, m, calls) ==
  IF calls = <<>> THEN m
  ELSE LET q == Head(calls)  V == hw[q.v][op.wallet]
           a == CASE q.c = "did"  -> IF q.ids[1] \in DOMAIN hd[q.v] THEN hd[q.v][q.ids[1]] ELSE <<>>
                  [] q.c = "find" -> SelectSeq(q.ids, LAMBDA k : \E j \in DOMAIN V : V[j].id = k)
                  [] OTHER        -> LET s == SelectSeq(V, LAMBDA x : x.id = q.ids[1]) IN IF s = <<>> THEN <<>> ELSE s[1] IN
       Redo(op, Tell(op, m, a), Tail(calls))
OwnOnly == \A i \in 1..NOps : o[i].st # "gone" /\ o[i].pc # "new" =>
             [o[i] EXCEPT !.calls = <<>>] = Redo(c.ops[i], IF c.ops[i].k \in Makes THEN Start(c.ops[i], Mem0) ELSE Into(Mem0, TermOf(c, i)), o[i].calls)

----------------------------------------------------------------------------
\* a document remembered from before
BadAnswer(op, q) ==
  LET V == hw[Now][op.wallet] IN
  CASE q.c = "did"  -> IF q.ids[1] \in DOMAIN hd[1] THEN hd[1][q.ids[1]] ELSE <<>>
    [] q.c = "find" -> SelectSeq(q.ids, LAMBDA k : \E j \in DOMAIN V : V[j].id = k)
    [] OTHER        -> LET s == SelectSeq(V, LAMBDA x : x.id = q.ids[1]) IN IF s = <<>> THEN <<>> ELSE s[1]
\* the recipient's document kept in one place for all
BadStep(i, mem) == LET op == c.ops[i]  m == mem[i]
                       m2 == IF m.pc = "new" THEN (IF op.k \in Makes THEN Start(op, m) ELSE Into(m, TermOf(c, i)))
                             ELSE [Tell(op, m, Answer(op, m.q)) EXCEPT !.calls = Append(@, [c |-> m.q.c, ids |-> m.q.ids, v |-> Now])] IN
                   [j \in DOMAIN mem |-> IF j = i THEN m2 ELSE IF m2.td # m.td THEN [mem[j] EXCEPT !.td = m2.td] ELSE mem[j]]
\* judged by the newest world only
BadPicks(calls, q) == LET I == AskedI(calls, q) IN {[id \in I |-> Len(hd)]}
=============================================================================
