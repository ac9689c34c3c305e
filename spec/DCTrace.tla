------------------------------- MODULE DCTrace -------------------------------
(* Trace validation: is a recorded execution of the library a behaviour of the specification?
   One action per recorded event; the judgement of the event against the specification yields the
   set of aspects in which the library deviated.  The run is accepted when every line was consumed
   and no deviation concerns the property under check.                                            *)
EXTENDS DCSched, DCApi, DCFocus, DCBind, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
Prop  == IOEnv.VF_PROP

VARIABLES l,       \* next line of the trace
          docs, wallets, lex,
          net,     \* text handle -> [term, jh]
          hd, hw,  \* versions of docs and wallets seen since the current schedule began
          sched,   \* number of operations of the current schedule still to be accounted for, -1: none
          fresh    \* every random value observed in produced envelopes
vars == <<l, docs, wallets, lex, net, hd, hw, sched, fresh>>

E == Trace[l]
\* world with possibly different versions for the roles of an operation
W(dk, ds, dr, wk, ws) == [docs |-> dk, docsF |-> dk, docsS |-> ds, docsR |-> dr, wallets |-> wk, walletsS |-> ws, lex |-> lex']
Now == W(docs, docs, docs, wallets, wallets)

Term(h) == IF h \in DOMAIN net THEN net[h] ELSE [term |-> [k |-> "bad", kind |-> "InvalidState"], jh |-> NONE]
Yes(o, d) == IF o = NONE THEN d ELSE o = "yes"
UnpackExp(w, v, h) ==
  UnpackOf(w, v.env, Term(h).term, Yes(v.opts.all, FALSE), Yes(v.opts.unwrap, v.opts.via = "struct"))
\* the evidence copy is checked with a plain environment: no failures, nothing changing meanwhile
UnpackJ(w, v, evid) ==
  LET x == UnpackExp(w, v, v.h) IN
  UnpackV(x, v, evid)
  \cup (IF v.base = NONE \/ (v.alt # NONE /\ TamperV(UnpackExp(w, v, v.alt), v) = {}) THEN {}
        ELSE TamperV(UnpackExp(w, v, v.base), v))
\* Where a model predicted the outcome of an unpack, the library must agree with that as well.
\* (Texts and claims are abstract in the models: only whether they are reported is compared.)
ExpV(v) ==
  IF "exp" \notin DOMAIN v THEN {}
  ELSE LET e == v.exp
           x == [f |-> SeqSet(e.f), m |-> SeqSet(e.m), h |-> IF e.h = "?" /\ v.st = "ok" THEN v.res.h ELSE e.h,
                 meta |-> [e.meta EXCEPT !.txt = NONE, !.fp = IF @ # NONE /\ v.st = "ok" THEN v.meta.fp ELSE @]] IN
       UnpackV(x, v, FALSE) \cup If(v.st = "ok" /\ e.meta.fp # NONE /\ v.meta.fp = NONE, {"u.meta.fp"})
PackExpV(v) ==
  IF "exp" \notin DOMAIN v THEN {}
  ELSE LET e == v.exp IN
       Verdict(SeqSet(e.f), v, IF e.f # <<>> \/ v.st # "ok" THEN {}
               ELSE If(v.meta.toKids # e.toKids, {"p.meta.to"}) \cup If(v.meta.fromKid # e.fromKid, {"p.meta.from"}) \cup If(v.meta.signKid # e.signKid, {"p.meta.sign"})
                    \cup If("svc" \in DOMAIN e /\ (v.meta.hasSvc # (e.svc.id # NONE) \/ (v.meta.hasSvc /\ (v.meta.svcId # e.svc.id \/ v.meta.svcUri # e.svc.uri))), {"p.meta.svc"}))
FpExpV(v) ==
  IF "exp" \notin DOMAIN v THEN {}
  ELSE LET F == SeqSet(v.exp.f) IN
       CASE v.st = "ok" /\ F # {} -> {"g.accept:" \o c : c \in ClassOf(F)}
         [] v.st = "ok"            -> If(v.rkid # v.exp.kid, {"g.content"})
         [] F = {}                 -> {"g.refuse"}
         [] v.kind \notin KindsOf(F) -> {"g.kind:" \o c : c \in ClassOf(F)}
         [] OTHER -> {}
IssueExpV(v) ==
  IF "exp" \notin DOMAIN v THEN {}
  ELSE LET F == SeqSet(v.exp.f) IN
       CASE v.st = "ok" /\ F # {} -> {"f.accept:" \o c : c \in ClassOf(F)}
         [] v.st = "ok"            -> If(v.rkid # v.exp.kid, {"f.meta.sign"})
         [] F = {}                 -> {"f.refuse"}
         [] v.kind \notin KindsOf(F) -> {"f.kind:" \o c : c \in ClassOf(F)}
         [] OTHER -> {}
\* classes of faults and kinds of outcome, for the coverage report
Classes(w, v) ==
  CASE v.ev = "unpack"   -> LET x == UnpackExp(w, v, v.h) IN
                            {"u!" \o c : c \in ClassOf(x.f)} \cup (IF x.f = {} THEN {"u=ok"} ELSE {}) \cup {"u:" \o v.st}
    [] v.ev = "pack_enc" -> LET x == PackEncF(w, v) IN
                            {"p!" \o c : c \in ClassOf(x.f)} \cup (IF x.f = {} THEN {"p=hops" \o ToString(Len(x.rt.hops))} ELSE {}) \cup {"p:" \o v.st}
    [] OTHER -> {v.ev \o ":" \o v.st}
Judge(w, v, evid) ==
  CASE v.ev = "unpack"      -> UnpackJ(w, v, evid) \cup ExpV(v)
    [] v.ev = "pack_plain"  -> PackPlainV(w, v)
    [] v.ev = "pack_signed" -> PackSignedV(w, v)
    [] v.ev = "pack_enc"    -> PackEncV(w, v) \cup PackExpV(v)
    [] v.ev = "wrap"        -> WrapV(w, v, Term(v.in))
    [] v.ev = "fp_pack"     -> FpPackV(w, v) \cup IssueExpV(v)
    [] v.ev = "fp_unpack"   -> FpUnpackV(w, v, v.t) \cup FpExpV(v)

\* An operation that ran while others ran and while documents or secrets changed (DCSched)
RECURSIVE Chain(_)
Chain(t) == CASE t.k = "jwe" /\ t.ok = "ok" -> (IF t.apu \in DOMAIN lex' THEN <<lex'[t.apu].d>> ELSE <<>>) \o (IF t.intact THEN Chain(t.payload) ELSE <<>>)
              [] t.k = "jws" /\ t.ok = "ok" -> [i \in DOMAIN t.sigs |-> IF t.sigs[i].kid \in DOMAIN lex' THEN lex'[t.sigs[i].kid].d ELSE NONE]
              [] t.k = "plain" /\ "inner" \in DOMAIN t -> Chain(t.inner)
              [] OTHER -> <<>>
Own(v) == CASE v.ev = "pack_enc" -> [i \in DOMAIN <<v.to, v.from, v.by>> |-> IF <<v.to, v.from, v.by>>[i] = NONE THEN NONE ELSE lex'[<<v.to, v.from, v.by>>[i]].d]
            [] v.ev = "unpack" -> Chain(Term(v.h).term)
            [] OTHER -> <<NONE>>
SchedJ(v) ==
  IF Len(hd) = 1 THEN Judge(Now, v, TRUE)
  ELSE IF "calls" \notin DOMAIN v THEN Judge(W(hd[1], hd[1], hd[1], hw[1], hw[1]), v, FALSE)
  ELSE IF Explained(hd, hw, lex', v.env, v.calls, v.st = "ok", LAMBDA w, e : Judge(w, [v EXCEPT !.env = e], FALSE) = {}) THEN {}
  ELSE IF Mixed(hw, v.env, v.calls) \/ Again(hd, v.calls, Own(v)) THEN {}
  ELSE {"c.version"} \cup Judge(Now, v, FALSE)

\* Random values that an operation produced
RECURSIVE Rand(_, _, _)
Rand(t, n, old) ==
  CASE t.k = "jwe" /\ t.ok = "ok" -> [i \in DOMAIN t.fresh |-> <<i, t.fresh[i]>>] \o (IF t.intact THEN Rand(t.payload, n, old) ELSE <<>>)
    [] t.k = "plain" /\ n > 0 -> <<<<0, t.id>>>> \o (IF n = 1 /\ old THEN <<>> ELSE Rand(t.inner, n - 1, old))
    [] OTHER -> <<>>
RandOf(w, v) ==
  IF v.st # "ok" THEN <<>>
  ELSE CASE v.ev = "pack_enc" -> Rand(v.term, Len(PackEncF(w, v).rt.hops), FALSE)
         [] v.ev = "wrap"     -> IF v.rks = <<>> THEN <<>> ELSE Rand(v.term, Len(v.rks), TRUE)
         [] OTHER             -> <<>>

Report(v, V) ==
  /\ \A a \in V : ~Concerned(Prop, a) \/ PrintT("VIOL|" \o v.sc \o "|" \o ToString(v.i) \o "|" \o a)
  /\ \A a \in V : Concerned(Prop, a) \/ PrintT("ELSE|" \o v.sc \o "|" \o ToString(v.i) \o "|" \o a)
Cover(V) == TLCSet(1, TLCGet(1) \cup V)

----------------------------------------------------------------------------
Is(e)  == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Learn  == lex' = E.lex @@ lex
AddDocs(d, x)    == [k \in (DOMAIN d \cup DOMAIN x.docs) \ SeqSet(x.gone) |-> IF k \in DOMAIN x.docs THEN x.docs[k] ELSE d[k]]

\* A new scenario starts in a new world
World == /\ Is("world") /\ lex' = E.lex
         /\ docs' = E.world.docs /\ wallets' = E.world.wallets
         /\ net' = <<>> /\ hd' = <<E.world.docs>> /\ hw' = <<E.world.wallets>> /\ sched' = -1
         /\ UNCHANGED fresh
\* Documents and wallets change
Change == /\ Is("set") /\ Learn
          /\ docs' = AddDocs(docs, E.world) /\ wallets' = E.world.wallets @@ wallets
          /\ hd' = IF sched >= 0 THEN Append(hd, docs') ELSE <<docs'>>
          /\ hw' = IF sched >= 0 THEN Append(hw, wallets') ELSE <<wallets'>>
          /\ UNCHANGED <<net, sched, fresh>>
\* Somebody puts a text on the network
Craft  == /\ Is("craft") /\ Learn
          /\ net' = (E.out :> [term |-> E.term, jh |-> E.jh]) @@ net
          /\ UNCHANGED <<docs, wallets, hd, hw, sched, fresh>>
\* The library performs an operation
Ops    == {"unpack", "pack_plain", "pack_signed", "pack_enc", "wrap", "fp_pack", "fp_unpack"}
Oper   == /\ l <= Len(Trace) /\ E.ev \in Ops /\ l' = l + 1 /\ Learn
          /\ LET J == IF sched >= 0 THEN SchedJ(E) ELSE Judge(Now, E, TRUE)
                 R == IF J = {} /\ Len(hd) = 1 THEN RandOf(Now, E) ELSE <<>>
                 A == IF Cardinality(SeqSet(R)) # Len(R) \/ SeqSet(R) \cap fresh # {} THEN {"p.fresh"} ELSE {} IN
             /\ fresh' = fresh \cup SeqSet(R)
             /\ Report(E, J \cup A \cup HostV(E))
             /\ Cover(IF Len(hd) = 1 THEN Classes(Now, E) ELSE {"changing:" \o E.ev \o ":" \o E.st})
             /\ Cover(HostClasses(E))
          /\ net' = IF E.st = "ok" /\ "term" \in DOMAIN E
                    THEN (E.out :> [term |-> E.term, jh |-> E.jh]) @@ net ELSE net
          /\ sched' = IF sched >= 0 THEN sched - 1 ELSE sched
          /\ UNCHANGED <<docs, wallets, hd, hw>>
Begin  == /\ Is("begin") /\ Learn /\ sched' = E.n /\ hd' = <<docs>> /\ hw' = <<wallets>>
          /\ UNCHANGED <<docs, wallets, net, fresh>>
Cancel == /\ Is("cancelled") /\ Learn /\ sched' = sched - 1 /\ UNCHANGED <<docs, wallets, net, hd, hw, fresh>>
\* Every operation of a schedule has completed or was cancelled
Finish == /\ Is("end") /\ Learn /\ sched' = -1 /\ hd' = <<docs>> /\ hw' = <<wallets>>
          /\ Report(E, IF sched = 0 THEN {} ELSE {"c.lost"})
          /\ UNCHANGED <<docs, wallets, net, fresh>>
\* Value-level calls
Value  == /\ l <= Len(Trace) /\ E.ev \in {"tpf", "json", "builder", "err", "exres", "defaults"} /\ l' = l + 1 /\ Learn
          /\ Report(E, CASE E.ev = "tpf" -> TpfV(E) [] E.ev = "json" -> JsonV(E) [] E.ev = "builder" -> BuilderV(E)
                         [] E.ev = "err" -> ErrV(E) [] E.ev = "exres" -> ExresV(E) [] OTHER -> DefaultsV(E))
          /\ Cover({E.ev \o (IF E.ev = "json" THEN "." \o E.arg.ty ELSE IF E.ev = "err" THEN "." \o E.arg.via
                             ELSE IF E.ev = "builder" THEN "." \o E.arg.of ELSE "") \o ":" \o E.st})
          /\ UNCHANGED <<docs, wallets, net, hd, hw, sched, fresh>>
\* The watchdog saw a call that did not return
Hang   == /\ Is("hang") /\ Report(E, {"hang"}) /\ UNCHANGED <<docs, wallets, lex, net, hd, hw, sched, fresh>>

Init == /\ l = 1 /\ docs = <<>> /\ wallets = <<>> /\ lex = <<>> /\ net = <<>> /\ hd = <<>> /\ hw = <<>> /\ sched = -1 /\ fresh = {}
        /\ TLCSet(1, {})
Next == World \/ Change \/ Craft \/ Oper \/ Begin \/ Cancel \/ Finish \/ Value \/ Hang
Spec == Init /\ [][Next]_vars
View == l
Accepted ==
  /\ \A c \in TLCGet(1) : PrintT("COV|" \o c)
  /\ PrintT("DONE|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Len(Trace)))
=============================================================================
