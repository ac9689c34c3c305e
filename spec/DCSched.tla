------------------------------- MODULE DCSched -------------------------------
(* Operations that ran while other operations ran and while documents or secrets changed.

   The calls of an operation tell in which version of the world each of its questions was answered:
   calls[i] = [c |-> "did" | "find" | "get", ids |-> what was asked for, v |-> version].  The
   operation must come out as the specification says for *those* answers: a document is one of the
   versions in which the operation resolved it, a secret is listed as when it was looked for and is
   the key that was given.  hd[n], hw[n]: documents and wallets of version n.

   The module is used twice: DCTrace judges recorded executions by it, and MCConc checks, over every
   interleaving of a few operations and changes, that it is neither too strict nor too lax.         *)
EXTENDS DCPack

AskedV(calls, c, id) == {calls[i].v : i \in {i \in DOMAIN calls : calls[i].c = c /\ id \in SeqSet(calls[i].ids)}}
AskedI(calls, c)     == UNION {SeqSet(calls[i].ids) : i \in {i \in DOMAIN calls : calls[i].c = c}}
\* every function that gives each id one of the versions in which it was asked for
Picks(calls, c) == LET V == [id \in AskedI(calls, c) |-> AskedV(calls, c, id)] IN
                   {f \in [DOMAIN V -> UNION {V[id] : id \in DOMAIN V}] : \A id \in DOMAIN V : f[id] \in V[id]}
\* documents: of version f[did] where resolved; otherwise of version `rest` (0: none at all)
DocsAt(hd, f, rest) ==
  LET P(d) == IF d \in DOMAIN f THEN d \in DOMAIN hd[f[d]] ELSE rest > 0 /\ d \in DOMAIN hd[rest]
      D    == {d \in UNION {DOMAIN hd[i] : i \in DOMAIN hd} : P(d)} IN
  [d \in D |-> IF d \in DOMAIN f THEN hd[f[d]][d] ELSE hd[rest][d]]
\* secrets: listed in version f[id] where looked for, of version g[id] where fetched
EntryAt(hw, n, wallet, id) == IF wallet \notin DOMAIN hw[n] THEN <<>> ELSE SelectSeq(hw[n][wallet], LAMBDA x : x.id = id)
WalletAt(hw, e, f, g, rest) ==
  LET all == UNION {SeqSet(hw[n][e.wallet]) : n \in {n \in DOMAIN hw : e.wallet \in DOMAIN hw[n]}}
      J   == {x.id : x \in all} \cup DOMAIN f \cup DOMAIN g
      of(id) == LET a == IF id \in DOMAIN g THEN EntryAt(hw, g[id], e.wallet, id) ELSE <<>>
                    b == IF id \in DOMAIN f THEN EntryAt(hw, f[id], e.wallet, id)
                         ELSE IF id \in DOMAIN g \/ rest = 0 THEN <<>> ELSE EntryAt(hw, rest, e.wallet, id) IN
                IF a # <<>> THEN <<a[1]>> ELSE IF b # <<>> THEN <<b[1]>> ELSE <<>> IN
  FoldLeft(LAMBDA acc, id : acc \o of(id), <<>>, SetToSeq(J))
\* the store lists what it then does not give
GoneAt(hw, e, g) == {id \in DOMAIN g : EntryAt(hw, g[id], e.wallet, id) = <<>>}
\* answers to the same question about a secret that differ
Mixed(hw, e, calls) ==
  \E id \in AskedI(calls, "find") \cup AskedI(calls, "get") :
    \/ Cardinality({EntryAt(hw, n, e.wallet, id) : n \in AskedV(calls, "find", id)}) > 1
    \/ Cardinality({EntryAt(hw, n, e.wallet, id) : n \in AskedV(calls, "get", id)}) > 1
\* one document asked for again, with another answer, by steps that DCPack and DCUnpack do not tell
\* apart (hops of a route); own: the DIDs asked for by steps of their own (sender, signer, recipient)
Again(hd, calls, own) ==
  \E d \in AskedI(calls, "did") :
    /\ Cardinality({IF d \in DOMAIN hd[n] THEN <<hd[n][d]>> ELSE <<>> : n \in AskedV(calls, "did", d)}) > 1
    /\ Cardinality({i \in DOMAIN calls : calls[i].c = "did" /\ d \in SeqSet(calls[i].ids)}) > 1 + Cardinality({j \in DOMAIN own : own[j] = d})
\* some way to read the answers under which the outcome is as it should be; won: the operation
\* succeeded (what was not asked for cannot have helped); P: judges in a world, in an environment
Explained(hd, hw, lx, e, calls, won, P(_, _)) ==
  LET R  == IF won THEN {0} ELSE DOMAIN hd
      DD == Picks(calls, "did") IN
  \E s \in Picks(calls, "find"), g \in Picks(calls, "get"), r \in R :
    LET ws == (e.wallet :> WalletAt(hw, e, s, g, r))
        ee == [e EXCEPT !.sid = @ @@ [id \in GoneAt(hw, e, g) |-> "none"]] IN
    \E a, b, c, d \in DD : P([docs |-> DocsAt(hd, a, r), docsF |-> DocsAt(hd, d, r), docsS |-> DocsAt(hd, b, r), docsR |-> DocsAt(hd, c, r), wallets |-> ws, walletsS |-> ws, lex |-> lx], ee)
=============================================================================
