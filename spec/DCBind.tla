------------------------------- MODULE DCBind -------------------------------
(* How the questions and outcomes of an operation cross a language boundary.

   Behind a binding, the documents and secrets live with a host written in another language.  Every
   question an operation asks carries a one-shot cell which the host is to complete, with a value or
   with an error; the host may complete it again, or forget it.  Whatever the host does, the operation
   hears what it would have heard from a resolver of its own language, and the caller is told the
   outcome once.  (Hosts that settle promises differ only in the form of what they throw.)          *)
EXTENDS Naturals, Sequences

HERR(k) == [k |-> "err", kind |-> k]
HVAL    == [k |-> "val", kind |-> ""]

\* A cell: got is what it was completed with
NewCell == [open |-> TRUE, got |-> HVAL]
\* The host completes a cell: what becomes of it, and what the host is told
Complete(c, a) == IF c.open THEN [open |-> FALSE, got |-> a] ELSE c
Told(c)        == IF c.open THEN "ok" ELSE "InvalidState"
\* What the operation hears, once the cell is completed, or once nobody is left to do so
Heard(c)       == IF c.open THEN HERR("InvalidState") ELSE c.got

RECURSIVE ToldAll(_, _)
ToldAll(c, moves) == IF moves = <<>> THEN <<>> ELSE <<Told(c)>> \o ToldAll(Complete(c, IF Head(moves) = "val" THEN HVAL ELSE HERR("Malformed")), Tail(moves))

\* What was thrown into a promise: an error object with one of the documented names carries its kind
HostKinds == {"DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "Malformed", "IoError", "InvalidState", "NoCompatibleCrypto", "Unsupported", "IllegalArgument"}
Thrown(x) == IF x.form = "error" /\ x.name \in {"DIDComm" \o k : k \in HostKinds} THEN HERR(CHOOSE k \in HostKinds : x.name = "DIDComm" \o k) ELSE HERR("InvalidState")
\* Of the identifiers asked for, those the host lists: in the order asked, each as often as asked
Listed(asked, said) == SelectSeq(asked, LAMBDA x : \E i \in DOMAIN said : said[i] = x)

\* A recorded operation: its questions' cells, and how often its caller was told an outcome
HostV(v) ==
  IF "host" \notin DOMAIN v THEN {}
  ELSE (IF v.host.ends # 1 THEN {"h.ends"} ELSE {})
       \cup {"h.cell" : i \in {i \in DOMAIN v.host.cells : v.host.cells[i].rets # ToldAll(NewCell, v.host.cells[i].moves)}}
\* for the coverage report
HostClasses(v) == IF "host" \notin DOMAIN v THEN {} ELSE {"host:" \o (IF v.host.cells[i].moves = <<>> THEN "forgot" ELSE IF Len(v.host.cells[i].moves) > 1 THEN "again" ELSE "once") : i \in DOMAIN v.host.cells}
=============================================================================
