-------------------------------- MODULE DCApi --------------------------------
(* The value-level parts of the library: builders, errors, the bundled resolvers, forward parsing. *)
EXTENDS DCJson, DCUnpack

----------------------------------------------------------------------------
(* Builders as a fold of the calls over the initial value. *)
Put(f, k, v)   == (k :> v) @@ f
AppendTo(f, k, xs) == Put(f, k, Arr((IF k \in DOMAIN f THEN f[k].a ELSE <<>>) \o xs))
U(n)           == [t |-> "n", n |-> n, u |-> "u"]
Strs(x)        == [i \in DOMAIN x |-> S(x[i])]
\* what an attachment made by the harness for mark m looks like
Mark(m)        == Obj([id |-> S(m), data |-> Obj([json |-> Obj([mark |-> S(m)])])])
MsgCall(f, c) ==
  CASE c.c = "to"          -> AppendTo(f, "to", <<S(c.a)>>)
    [] c.c = "to_many"     -> AppendTo(f, "to", Strs(c.a))
    [] c.c = "attachment"  -> AppendTo(f, "attachments", <<Mark(c.a)>>)
    [] c.c = "attachments" -> AppendTo(f, "attachments", [i \in DOMAIN c.a |-> Mark(c.a[i])])
    [] c.c = "header"      -> Put(f, c.a[1], c.a[2])
    [] c.c \in {"created_time", "expires_time"} -> Put(f, c.c, U(c.a))
    [] OTHER               -> Put(f, c.c, S(c.a))
FpCall(f, c)  == IF c.c \in FpNum THEN Put(f, c.c, U(c.a)) ELSE Put(f, c.c, S(c.a))
AttCall(f, c) ==
  CASE c.c = "jws"    -> Put(f, "data", Obj(Put(f["data"].o, "jws", S(c.a))))
    [] c.c \in AttNum -> Put(f, c.c, U(c.a))
    [] OTHER          -> Put(f, c.c, S(c.a))
Built(a) ==
  CASE a.of = "Message"   -> Obj(FoldLeft(MsgCall, [id |-> S(a.init[1]), typ |-> S(PLAIN), type |-> S(a.init[2]), body |-> a.init[3]], a.calls))
    [] a.of = "FromPrior" -> Obj(FoldLeft(FpCall, [iss |-> S(a.init[1]), sub |-> S(a.init[2])], a.calls))
    [] a.of = "Base64"    -> Obj(FoldLeft(AttCall, [data |-> Obj([base64 |-> S(a.init[1])])], a.calls))
    [] a.of = "Json"      -> Obj(FoldLeft(AttCall, [data |-> Obj([json |-> a.init[1]])], a.calls))
    [] a.of = "Links"     -> Obj(FoldLeft(AttCall, [data |-> Obj([links |-> Arr(Strs(a.init[1])), hash |-> S(a.init[2])])], a.calls))
BuilderV(v) ==
  IF v.st \in {"panic", "hang"} THEN {"b." \o v.st}
  ELSE IF v.val # Built(v.arg) THEN {"b.value"} ELSE {}

----------------------------------------------------------------------------
(* Errors: an error is a kind and a chain of messages, newest first. *)
Disp == [DIDNotResolved |-> "DID not resolved", DIDUrlNotFound |-> "DID URL not found", SecretNotFound |-> "Secret not found",
         Malformed |-> "Malformed", IoError |-> "IO error", InvalidState |-> "Invalid state",
         NoCompatibleCrypto |-> "No compatible crypto", Unsupported |-> "Unsupported crypto or method",
         IllegalArgument |-> "Illegal argument"]
RECURSIVE Join(_)
Join(c) == IF Len(c) = 1 THEN c[1] ELSE c[1] \o ": " \o Join(Tail(c))
\* [ok, kind, chain] of the error made by `via`, before contexts
ErrOf(a, base) ==
  LET E(k, ch) == [ok |-> FALSE, kind |-> k, chain |-> ch]
      dec(k)   == IF k \in {"eof", "io", "small"} THEN "InvalidState" ELSE "Malformed" IN
  CASE a.via \in {"msg", "err_msg", "kind_no_context"} -> E(a.kind, <<a.m>>)
    [] a.via = "new"  -> E(a.kind, <<a.cause>>)
    [] a.via = "kind" -> E(a.kind, <<a.m, a.cause>>)
    [] a.via \in {"kind_ok", "kind_no_context_ok", "json_ok"} -> [ok |-> TRUE, kind |-> NONE, chain |-> <<>>]
    [] a.via \in {"json", "bs58"} -> E(dec(a.case), <<a.m, base>>)
    [] a.via \in {"json_from", "bs58_from"} -> E(dec(a.case), <<base>>)
    [] a.via = "bs58enc" -> E("InvalidState", <<a.m, base>>)
    [] a.via = "bs58enc_from" -> E("InvalidState", <<base>>)
ErrV(v) ==
  LET a == v.arg IN
  IF v.st \in {"panic", "hang"} THEN {"e." \o v.st}
  ELSE IF a.via = "to_error_kind"
       THEN (IF v.st = "err" /\ v.rkind = a.kind /\ v.disp = Disp[a.kind] /\ v.ser = a.kind /\ v.dbg = a.kind THEN {} ELSE {"e.kind"})
  ELSE LET base == IF v.st = "err" THEN v.base ELSE ""
           x    == ErrOf(a, base)
           ctx  == [i \in DOMAIN a.ctx |-> a.ctx[Len(a.ctx) + 1 - i]]
           ch   == ctx \o x.chain IN
       IF x.ok THEN (IF v.st = "ok" /\ v.val = "value" THEN {} ELSE {"e.success"})
       ELSE IF v.st # "err" THEN {"e.success"}
       ELSE (IF v.rkind # x.kind THEN {"e.kind"} ELSE {})
            \cup (IF v.chain # ch THEN {"e.chain"} ELSE {})
            \cup (IF v.disp # Disp[x.kind] \o ": " \o Join(ch) THEN {"e.display"} ELSE {})
            \cup (IF v.ser # x.kind \/ v.dbg # x.kind THEN {"e.name"} ELSE {})

----------------------------------------------------------------------------
(* The bundled resolvers as finite maps from ids to the first stored value. *)
Ans(a, q) ==
  LET lk(s, id) == LET ix == First(s, LAMBDA d : d.id = id) IN IF ix = 0 THEN <<>> ELSE <<s[ix].mark>> IN
  CASE q.k = "did" -> lk(a.docs, q.id)
    [] q.k = "get" -> lk(a.secrets, q.id)
    [] OTHER       -> SelectSeq(q.ids, LAMBDA i : lk(a.secrets, i) # <<>>)
ExresV(v) ==
  IF v.st \in {"panic", "hang"} THEN {"x." \o v.st}
  ELSE {"x." \o v.arg.q[i].k : i \in {i \in DOMAIN v.arg.q : v.ans[i].st # "ok" \/ v.ans[i].a # Ans(v.arg, v.arg.q[i])}}

----------------------------------------------------------------------------
(* Parsing a forward message. *)
TpfV(v) ==
  LET m == v.msg IN
  IF v.st # "ok" THEN {"t." \o v.st}
  ELSE IF v.is # IsFwd(m) THEN {"t.is"}
  ELSE IF v.is /\ (v.next # m.next \/ v.fh # m.injh \/ v.mh # m.h) THEN {"t.value"} ELSE {}
=============================================================================
