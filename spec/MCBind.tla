------------------------------- MODULE MCBind -------------------------------
(* Operations of a binding ask their questions; the hosts complete the cells now, later, again, in
   another order, or not at all.  Checked: each operation comes out as if the answers had been given
   directly, no operation is left waiting, no cell is completed twice.  Each final state yields a
   host's script, under which operations of the library's bindings are then run.                    *)
EXTENDS DCBind, Integers, FiniteSets, TLC, Json

CONSTANTS OpCount, Questions, More, Some, Out   \* Some: how many hosts to look at, 0 for all
Ops == 1..OpCount
Qs  == 1..Questions
Answers == {HVAL, HERR("IoError"), HERR("InvalidState")}
Moves   == {"val", "err"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

VARIABLES ans,    \* what the host knows: the answer to each question of each operation
          script, \* how the host goes about it: further completions, forgetting
          cell,   \* the cells of the questions asked so far
          done,   \* how many of a script's moves were made; the host has let go of the cell at the end
          told,   \* what the host was told
          pc, heard, out
vars == <<ans, script, cell, done, told, pc, heard, out>>

\* A host may forget a cell only if its answer is "invalid state" anyway
Scripts == [more : Seqs(Moves, More), drop : BOOLEAN]
Draw(S, n) == IF n > 0 THEN RandomElement(S) ELSE {}
Hosts == LET A == [Ops -> [Qs -> Answers]]
             S == [Ops -> [Qs -> Scripts]] IN
         IF Some = 0 THEN A \X S ELSE {<<Draw(A, n), Draw(S, n)>> : n \in 1..Some}
Init == /\ \E h \in Hosts : ans = h[1] /\ script = h[2]
        /\ cell = [o \in Ops |-> <<>>] /\ done = [o \in Ops |-> [q \in Qs |-> 0]] /\ told = [o \in Ops |-> [q \in Qs |-> <<>>]]
        /\ pc = [o \in Ops |-> 1] /\ heard = [o \in Ops |-> <<>>] /\ out = [o \in Ops |-> <<>>]

Drops(o, q)  == script[o][q].drop /\ ans[o][q] = HERR("InvalidState")
MovesOf(o, q) == IF Drops(o, q) THEN <<>> ELSE <<ans[o][q]>> \o [i \in DOMAIN script[o][q].more |-> IF script[o][q].more[i] = "val" THEN HVAL ELSE HERR("Malformed")]
Gone(o, q)   == done[o][q] > Len(MovesOf(o, q))
Waiting(o)   == pc[o] > 0 /\ Len(cell[o]) = pc[o]

Ask(o)  == /\ pc[o] \in Qs /\ Len(cell[o]) = pc[o] - 1
           /\ cell' = [cell EXCEPT ![o] = Append(@, NewCell)]
           /\ UNCHANGED <<ans, script, done, told, pc, heard, out>>
\* the host completes a cell or, at the end, lets go of it
Move(o, q) == /\ q \in DOMAIN cell[o] /\ ~Gone(o, q)
              /\ done' = [done EXCEPT ![o][q] = @ + 1]
              /\ IF done[o][q] < Len(MovesOf(o, q))
                 THEN /\ cell' = [cell EXCEPT ![o][q] = Complete(@, MovesOf(o, q)[done[o][q] + 1])]
                      /\ told' = [told EXCEPT ![o][q] = Append(@, Told(cell[o][q]))]
                 ELSE UNCHANGED <<cell, told>>
              /\ UNCHANGED <<ans, script, pc, heard, out>>
Hear(o) == /\ Waiting(o) /\ (~cell[o][pc[o]].open \/ Gone(o, pc[o]))
           /\ LET h == Heard(cell[o][pc[o]]) IN
              /\ heard' = [heard EXCEPT ![o] = Append(@, h)]
              /\ pc' = [pc EXCEPT ![o] = IF h.k = "err" \/ @ = Questions THEN 0 ELSE @ + 1]
              /\ out' = [out EXCEPT ![o] = IF h.k = "err" \/ pc[o] = Questions THEN Append(@, h) ELSE @]
           /\ UNCHANGED <<ans, script, cell, done, told>>
Next == \E o \in Ops : Ask(o) \/ Hear(o) \/ \E q \in Qs : Move(o, q)
Spec == Init /\ [][Next]_vars

\* an operation whose resolvers answer directly
RECURSIVE Direct(_, _)
Direct(a, q) == IF a[q].k = "err" \/ q = Questions THEN <<a[q]>> ELSE Direct(a, q + 1)
Final == ~ENABLED Next
Same   == \A o \in Ops : (pc[o] = 0 => out[o] = Direct(ans[o], 1)) /\ Len(out[o]) <= 1
Hears  == \A o \in Ops : \A i \in DOMAIN heard[o] : heard[o][i] = ans[o][i]
Once   == \A o \in Ops : \A q \in Qs : told[o][q] = [i \in DOMAIN told[o][q] |-> IF i = 1 THEN "ok" ELSE "InvalidState"]
Ends   == Final => \A o \in Ops : pc[o] = 0
\* what a host lists, asked for what it may not have, in whatever order and with whatever else
Ids    == {"a", "b", "c"}
Lists  == \A asked \in Seqs(Ids, 3) : \A has \in SUBSET Ids :
            \A said \in {s \in Seqs(Ids \cup {"z"}, 4) : {s[i] : i \in DOMAIN s} \cap Ids = has} : Listed(asked, said) = SelectSeq(asked, LAMBDA x : x \in has)
ASSUME Lists
ASSUME \A k \in HostKinds : Thrown([form |-> "error", name |-> "DIDComm" \o k]) = HERR(k)
ASSUME \A k \in HostKinds : \A f \in {"string", "object", "error"} : Thrown([form |-> f, name |-> k]) = HERR("InvalidState")

BadComplete(c, a) == [open |-> FALSE, got |-> a]
BadTold(c)        == "ok"
BadHeard(c)       == c.got
\* scripts to run the bindings under
Forms == {"", "string", "object", "noname", "null", "other", "value"}
Finds == {"", "order", "dup", "extra"}
Shown == Final /\ RandomElement(1..Out) = 1 =>
         PrintT("HOST|" \o ToJson([inline |-> RandomElement(BOOLEAN), host |-> [i \in 1..(OpCount * Questions) |->
           LET s == script[((i - 1) \div Questions) + 1][((i - 1) % Questions) + 1] IN
           [more |-> s.more, drop |-> s.drop, form |-> RandomElement(Forms), find |-> RandomElement(Finds)]]]))
=============================================================================
