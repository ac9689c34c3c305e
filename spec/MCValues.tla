------------------------------ MODULE MCValues ------------------------------
(* The value-level parts of the library as one machine.  A state is a value under construction (of a
   message, an attachment, a from_prior), a JSON text under edit, an error on its way up, or a bundled
   resolver that is being filled and asked.  The invariants say what each must denote, independently of
   the operators of DCApi and DCJson that judge the library; every state is written out for replay.  *)
EXTENDS DCApi, Json, Randomization

CONSTANTS Parts,       \* which of "build", "json", "err", "res"
          Types,       \* of which JSON texts
          MaxCalls,    \* builder calls
          MaxEdits,    \* edits of one JSON text
          MaxCtx,      \* contexts put on an error
          MaxStore,    \* entries of a resolver
          Frac         \* percentage of the second and later edits and calls that are followed

VARIABLES part, of, seq, val
vars == <<part, of, seq, val>>
Thin(Sx) == IF Frac >= 100 \/ Len(seq) = 0 THEN Sx ELSE RandomSubset((Cardinality(Sx) * Frac) \div 100 + 1, Sx)
Emit(o)  == PrintT("OP|" \o ToJson(o))

----------------------------------------------------------------------------
(* Builders *)
Call(c, a) == [c |-> c, a |-> a]
MsgCalls == {Call("to", "a"), Call("to", "b"), Call("to_many", <<>>), Call("to_many", <<"b", "a">>), Call("to_many", <<"c">>),
             Call("from", "x"), Call("from", "y"), Call("thid", "t"), Call("thid", ""), Call("pthid", "p"), Call("pthid", "q"),
             Call("header", <<"h", S("1")>>), Call("header", <<"h", Obj([n |-> Arr(<<U("2")>>)])>>), Call("header", <<"g", [t |-> "z", z |-> "z"]>>),
             Call("created_time", "0"), Call("created_time", "18446744073709551615"), Call("expires_time", "7"), Call("expires_time", "8"),
             Call("from_prior", "j"), Call("from_prior", "k"),
             Call("attachment", "m1"), Call("attachment", "m2"), Call("attachments", <<>>), Call("attachments", <<"m2", "m3">>)}
FpCalls  == {Call("aud", "a"), Call("aud", "b"), Call("exp", "1"), Call("exp", "2"), Call("nbf", "3"), Call("nbf", "18446744073709551615"),
             Call("iat", "0"), Call("iat", "5"), Call("jti", "j"), Call("jti", "")}
AttCalls == {Call("id", "i"), Call("id", "j"), Call("description", "d"), Call("description", ""), Call("filename", "f"), Call("filename", "g"),
             Call("media_type", "m"), Call("media_type", "n"), Call("format", "f"), Call("format", "g"), Call("lastmod_time", "1"), Call("lastmod_time", "2"),
             Call("byte_count", "3"), Call("byte_count", "18446744073709551615"), Call("jws", "w"), Call("jws", "v")}
Calls(o) == CASE o = "Message" -> MsgCalls [] o = "FromPrior" -> FpCalls [] OTHER -> AttCalls
Inits(o) == CASE o = "Message" -> <<"i1", "ty", Obj([b |-> U("1")])>> [] o = "FromPrior" -> <<"iss", "sub">>
              [] o = "Base64" -> <<"QUJD">> [] o = "Json" -> <<Arr(<<S("x")>>)>> [] o = "Links" -> <<<<"l1", "l2">>, "hash">>
BArg(q)  == [of |-> of, init |-> Inits(of), calls |-> q]
BuildInit == part = "build" /\ of \in {"Message", "FromPrior", "Base64", "Json", "Links"} /\ seq = <<>> /\ val = Built(BArg(<<>>))
BuildNext == part = "build" /\ Len(seq) < MaxCalls /\ \E c \in Thin(Calls(of)) :
             /\ seq' = Append(seq, c) /\ val' = Built(BArg(seq')) /\ UNCHANGED <<part, of>>

\* the member a call is about, and whether it adds to it or replaces it
Field(c) == CASE c.c \in {"to", "to_many"} -> "to" [] c.c \in {"attachment", "attachments"} -> "attachments"
              [] c.c = "header" -> c.a[1] [] OTHER -> c.c
Adds(c)  == Field(c) \in {"to", "attachments"}
Items(c) == CASE c.c = "to" -> <<S(c.a)>> [] c.c = "attachment" -> <<Mark(c.a)>> [] c.c = "to_many" -> Strs(c.a)
              [] OTHER -> [i \in DOMAIN c.a |-> Mark(c.a[i])]
One(c)   == CASE c.c = "header" -> c.a[2]
              [] c.c \in {"created_time", "expires_time", "exp", "nbf", "iat", "lastmod_time", "byte_count"} -> U(c.a)
              [] OTHER -> S(c.a)
About(f) == {i \in DOMAIN seq : Field(seq[i]) = f}
Member(f) == IF f = "jws" THEN (IF "jws" \in DOMAIN val.o["data"].o THEN {val.o["data"].o["jws"]} ELSE {})
             ELSE IF f \in DOMAIN val.o THEN {val.o[f]} ELSE {}
RECURSIVE Gather(_, _)
Gather(f, n) == IF n = 0 THEN <<>> ELSE Gather(f, n - 1) \o (IF Field(seq[n]) = f THEN Items(seq[n]) ELSE <<>>)
Accumulates == part = "build" =>
  \A f \in {Field(c) : c \in Calls(of)} :
     LET I == About(f)  m == CHOOSE i \in {0} \cup I : \A j \in I : j <= i IN
     IF I = {} THEN Member(f) = {}
     ELSE IF Adds(seq[m]) THEN Member(f) = {Arr(Gather(f, Len(seq)))}
     ELSE Member(f) = {One(seq[m])}
Untouched == part = "build" =>
  /\ \A k \in DOMAIN Built(BArg(<<>>)).o : k = "data" \/ val.o[k] = Built(BArg(<<>>)).o[k]
  /\ "data" \in DOMAIN val.o => \A k \in DOMAIN Built(BArg(<<>>)).o["data"].o : val.o["data"].o[k] = Built(BArg(<<>>)).o["data"].o[k]
  /\ \A k \in DOMAIN val.o : k \in DOMAIN Built(BArg(<<>>)).o \/ \E i \in DOMAIN seq : Field(seq[i]) = k
\* calls about different members may be exchanged
Swap(i)  == [seq EXCEPT ![i] = seq[i + 1], ![i + 1] = seq[i]]
Commute  == part = "build" => \A i \in 1..(Len(seq) - 1) : Field(seq[i]) # Field(seq[i + 1]) => Built(BArg(Swap(i))) = val
\* what was built is its own JSON form
Ty == CASE of = "Message" -> "Message" [] of = "FromPrior" -> "FromPrior" [] OTHER -> "Attachment"
SelfForm == part = "build" => LET e == Expect(Ty, val) IN e.ok /\ e.v = val /\ e.ser = val

----------------------------------------------------------------------------
(* JSON texts.  A text is a full value of its type to which edits are made: a member is dropped, gets a
   value of another kind, or an unknown one is added; members of members as well.                    *)
Jwk   == Obj([kty |-> S("OKP"), crv |-> S("X25519"), x |-> S("AA")])
VmB   == Obj([id |-> S("d#k"), type |-> S("JsonWebKey2020"), controller |-> S("d"), publicKeyJwk |-> Jwk])
VmM   == Obj([id |-> S("d#m"), type |-> S("X25519KeyAgreementKey2020"), controller |-> S("d"), publicKeyMultibase |-> S("z6")])
VmC   == Obj([id |-> S("d#b"), type |-> S("Ed25519VerificationKey2018"), controller |-> S("d"), publicKeyBase58 |-> S("2N")])
SecB  == Obj([id |-> S("d#k"), type |-> S("JsonWebKey2020"), privateKeyJwk |-> Jwk])
SecC  == Obj([id |-> S("d#b"), type |-> S("X25519KeyAgreementKey2019"), privateKeyBase58 |-> S("2N")])
SvcB  == Obj([id |-> S("d#s"), type |-> S("DIDCommMessaging"), serviceEndpoint |-> Obj([uri |-> S("http://x"), accept |-> Arr(<<S("didcomm/v2"), S("b")>>), routingKeys |-> Arr(<<S("r1"), S("r2")>>)])])
SvcC  == Obj([id |-> S("d#o"), type |-> S("Other"), serviceEndpoint |-> Obj([any |-> U("1")])])
DocB  == Obj([id |-> S("d"), keyAgreement |-> Arr(<<S("d#k"), S("d#m")>>), authentication |-> Arr(<<S("d#b")>>),
              verificationMethod |-> Arr(<<VmB, VmM, VmC>>), service |-> Arr(<<SvcB, SvcC>>)])
AttB  == Obj([id |-> S("a"), description |-> S("d"), filename |-> S("f"), media_type |-> S("m"), format |-> S("o"), lastmod_time |-> U("1"), byte_count |-> U("2"),
              data |-> Obj([base64 |-> S("QQ"), jws |-> S("w")])])
AttL  == Obj([id |-> S("a"), data |-> Obj([links |-> Arr(<<S("l")>>), hash |-> S("h")])])
AttJ  == Obj([data |-> Obj([json |-> Obj([a |-> U("1")])])])
MsgB  == Obj([id |-> S("1"), typ |-> S(PLAIN), type |-> S("t"), body |-> Obj([a |-> S("b")]), from |-> S("d"), to |-> Arr(<<S("e"), S("f")>>), thid |-> S("x"), pthid |-> S("y"),
              created_time |-> U("5"), expires_time |-> U("6"), from_prior |-> S("j"), attachments |-> Arr(<<AttL, AttJ>>), custom |-> Arr(<<U("1")>>)])
FpB   == Obj([iss |-> S("a"), sub |-> S("b"), aud |-> S("c"), jti |-> S("d"), exp |-> U("1"), nbf |-> U("2"), iat |-> U("3")])
PoB   == Obj([protect_sender |-> Bl("true"), forward |-> Bl("false"), forward_headers |-> Obj([h |-> U("1")]), messaging_service |-> S("s"),
              enc_alg_auth |-> S("A256cbcHs512Ecdh1puA256kw"), enc_alg_anon |-> S("A256gcmEcdhEsA256kw")])
UoB   == Obj([expect_decrypt_by_all_keys |-> Bl("true"), unwrap_re_wrapping_forward |-> Bl("true")])
JBase == {<<"DIDDoc", DocB>>, <<"VM", VmB>>, <<"VM", VmM>>, <<"VM", VmC>>, <<"Secret", SecB>>, <<"Secret", SecC>>, <<"Service", SvcB>>, <<"Service", SvcC>>,
          <<"Message", MsgB>>, <<"Attachment", AttB>>, <<"Attachment", AttL>>, <<"Attachment", AttJ>>, <<"FromPrior", FpB>>, <<"PackOpts", PoB>>, <<"UnpackOpts", UoB>>}
Z     == [t |-> "z", z |-> "z"]
Num(n, u) == [t |-> "n", n |-> n, u |-> u]
\* (a JSON array is no value of the pool where an object is expected: the library reads structures from arrays as well)
Pool  == {Z, S("s"), S(""), Num("1", "u"), Num("-1", "f"), Num("1.5", "f"), Num("-9223372036854775808", "f"), Bl("true"), Arr(<<>>), Arr(<<S("s")>>), Arr(<<S("s"), Num("1", "u")>>), Obj([q |-> S("r")])}
More  == {"x-unknown", "publicKeyBase58", "publicKeyMultibase", "publicKeyJwk", "privateKeyJwk", "privateKeyMultibase", "privateKeyBase58", "accept", "routingKeys", "base64", "json", "links", "hash",
          "key_agreement", "id"}
\* names whose value is a structure for the library: no arrays there
Struct == {"serviceEndpoint", "data", "forward_headers"}
Names == {"Other", "JsonWebKey2020", "EcdsaSecp256k1VerificationKey2019", "Ed25519VerificationKey2020", "X25519KeyAgreementKey2020", "jsonWebKey2020", "DIDCommMessaging", "DidCommMessaging",
          PLAIN, "application/didcomm-signed+json", "A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256cbcHs512Ecdh1puA256kw", "XC20P"}
Put1(x, k, v)  == Obj(Put(x.o, k, v))
Drop1(x, k)    == Obj([m \in DOMAIN x.o \ {k} |-> x.o[m]])
PoolFor(k, v)  == (IF k \in Struct THEN {p \in Pool : p.t # "a"} ELSE Pool) \cup (IF v.t = "s" THEN {S(n) : n \in Names} ELSE {})
Edits1(x)      == {Drop1(x, k) : k \in DOMAIN x.o}
                  \cup UNION {{Put1(x, k, p) : p \in PoolFor(k, x.o[k])} : k \in DOMAIN x.o}
                  \cup {Put1(x, k, p) : k \in More \ DOMAIN x.o, p \in {Z, S("s"), Arr(<<S("s")>>), Obj([q |-> S("r")])}}
\* one level down: members that are objects, and the elements of arrays of objects
Edits(x) == Edits1(x)
            \cup UNION {{Put1(x, k, y) : y \in Edits1(x.o[k])} : k \in {k \in DOMAIN x.o : x.o[k].t = "o" /\ k \in Struct}}
            \cup UNION {UNION {{Put1(x, k, Arr([x.o[k].a EXCEPT ![i] = y])) : y \in Edits1(x.o[k].a[i]) \cup {S("s"), Z}} : i \in {i \in DOMAIN x.o[k].a : x.o[k].a[i].t = "o"}}
                        : k \in {k \in DOMAIN x.o : x.o[k].t = "a"}}
            \cup UNION {{Put1(x, k, Arr(Reverse(x.o[k].a))), Put1(x, k, Arr(x.o[k].a \o x.o[k].a))} : k \in {k \in DOMAIN x.o : x.o[k].t = "a"}}
JInit == part = "json" /\ \E b \in {b \in JBase : b[1] \in Types} : of = b[1] /\ val = b[2] /\ seq = <<>>
JNext == /\ part = "json" /\ Len(seq) < MaxEdits
         /\ \E x \in Thin(Edits(val)) : val' = x /\ seq' = Append(seq, 1) /\ UNCHANGED <<part, of>>
X     == Expect(of, val)
\* an accepted text has one normal form, which denotes the same value
Normal == part = "json" /\ X.ok /\ X.ser # NoSer => LET n == Expect(of, X.ser) IN n.ok /\ n.v = X.v /\ n.ser = X.ser
\* members nobody knows change nothing (a message keeps them)
Unknown == part = "json" =>
  LET y == Expect(of, Put1(val, "zz-unknown", U("9"))) IN
  IF of = "Message" THEN y.ok = X.ok /\ (X.ok => y.v = Put1(X.v, "zz-unknown", U("9")))
  ELSE y = X
Req == [DIDDoc |-> {"id", "keyAgreement", "authentication", "verificationMethod", "service"}, VM |-> {"id", "type", "controller"}, Secret |-> {"id", "type"},
        Service |-> {"id", "type", "serviceEndpoint"}, Message |-> {"id", "type", "body"}, Attachment |-> {"data"}, FromPrior |-> {"iss", "sub"}, PackOpts |-> {}, UnpackOpts |-> {}]
Opts == [DIDDoc |-> {}, VM |-> {}, Secret |-> {}, Service |-> {}, Message |-> {"from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments"},
         Attachment |-> AttStr \cup AttNum, FromPrior |-> FpStr \cup FpNum, PackOpts |-> {"forward_headers", "messaging_service"}, UnpackOpts |-> {}]
Required == part = "json" => \A k \in Req[of] : ~Expect(of, Drop1(val, k)).ok
\* an optional member may be left out; null is the same
Optional == part = "json" /\ X.ok => \A k \in Opts[of] : LET a == Expect(of, Drop1(val, k))  b == Expect(of, Put1(val, k, Z)) IN a.ok /\ b.ok /\ a.v = b.v /\ a.ser = b.ser
\* scalar members are taken over as they are
Kept == part = "json" /\ X.ok => \A k \in DOMAIN X.v.o : k \in DOMAIN val.o /\ val.o[k].t \in {"s", "n"} => X.v.o[k] = val.o[k] \/ of \in {"PackOpts", "Service"}
\* only the last of equals, only arrays of strings where strings are listed, only whole numbers for times
Typed == part = "json" /\ X.ok => \A k \in DOMAIN val.o :
  /\ k \in (MsgNum \cup AttNum \cup FpNum) /\ (of # "Message" \/ k \in MsgNum) /\ (of # "Attachment" \/ k \in AttNum) /\ (of # "FromPrior" \/ k \in FpNum) /\ of \in {"Message", "Attachment", "FromPrior"}
        => val.o[k].t = "z" \/ (val.o[k].t = "n" /\ val.o[k].u = "u")
  /\ k = "id" /\ of \in {"DIDDoc", "VM", "Secret", "Service", "Message"} => val.o[k].t = "s"
  /\ k \in {"keyAgreement", "authentication"} /\ of = "DIDDoc" => \A i \in DOMAIN val.o[k].a : val.o[k].a[i].t = "s"

----------------------------------------------------------------------------
(* Errors *)
Vias  == {"msg", "new", "err_msg", "kind", "kind_no_context", "kind_ok", "kind_no_context_ok", "json", "json_from", "json_ok", "bs58", "bs58_from", "bs58enc", "bs58enc_from"}
Cases(v) == CASE v \in {"json", "json_from"} -> {"eof", "syntax", "data", "io"} [] v \in {"bs58", "bs58_from"} -> {"small", "char", "other"} [] OTHER -> {"-"}
EInit == part = "err" /\ \E v \in Vias, k \in Kinds : \E c \in Cases(v) : of = <<v, k, c>> /\ seq = <<>> /\ val = ErrOf([via |-> v, kind |-> k, case |-> c, m |-> "m", cause |-> "cause"], "base")
ENext == /\ part = "err" /\ Len(seq) < MaxCtx
         /\ \E c \in {"", "c1", "c2: x"} : seq' = Append(seq, c) /\ val' = (IF val.ok THEN val ELSE [val EXCEPT !.chain = <<c>> \o @]) /\ UNCHANGED <<part, of>>
EArg  == [via |-> of[1], kind |-> of[2], case |-> of[3], m |-> "m", cause |-> "cause", ctx |-> seq]
ErrKind == part = "err" =>
  /\ val.ok = (of[1] \in {"kind_ok", "kind_no_context_ok", "json_ok"})
  /\ ~val.ok => val.kind = CASE of[1] \in {"json", "json_from"} -> IF of[3] \in {"eof", "io"} THEN "InvalidState" ELSE "Malformed"
                            [] of[1] \in {"bs58", "bs58_from"} -> IF of[3] = "small" THEN "InvalidState" ELSE "Malformed"
                            [] of[1] \in {"bs58enc", "bs58enc_from"} -> "InvalidState"
                            [] OTHER -> of[2]
ErrChain == part = "err" /\ ~val.ok =>
  /\ Len(val.chain) >= Len(seq) + 1
  /\ \A i \in DOMAIN seq : val.chain[i] = seq[Len(seq) + 1 - i]
  /\ val.chain[Len(val.chain)] = CASE of[1] \in {"msg", "err_msg", "kind_no_context"} -> "m" [] of[1] \in {"new", "kind"} -> "cause" [] OTHER -> "base"
\* and the judge agrees with the machine
ErrJudge == part = "err" =>
  LET k == val.kind
      e == IF val.ok THEN [st |-> "ok", val |-> "value"]
           ELSE [st |-> "err", base |-> "base", rkind |-> k, chain |-> val.chain, disp |-> Disp[k] \o ": " \o Join(val.chain), ser |-> k, dbg |-> k] IN
  /\ ErrV([arg |-> EArg] @@ e) = {}
  /\ ~val.ok => /\ ErrV([arg |-> EArg] @@ [e EXCEPT !.rkind = IF k = "IoError" THEN "Malformed" ELSE "IoError"]) # {}
                /\ ErrV([arg |-> EArg] @@ [e EXCEPT !.chain = Append(@, "x")]) # {}
                /\ ErrV([arg |-> EArg] @@ [st |-> "ok", val |-> "value"]) # {}

----------------------------------------------------------------------------
(* Bundled resolvers: val is the list of entries, all ids are asked for *)
Ids   == {"did:ex:a", "did:ex:ab", "did:ex:a#k", "DID:ex:a", ""}
RInit == part = "res" /\ of = "res" /\ seq = <<>> /\ val = <<>>
RNext == part = "res" /\ Len(val) < MaxStore /\ \E i \in Ids : val' = Append(val, [id |-> i, mark |-> "m" \o ToString(Len(val))]) /\ UNCHANGED <<part, of, seq>>
IdSeq == <<"did:ex:ab", "did:ex:a", "did:ex:zz", "did:ex:a", "did:ex:a#k", "", "DID:ex:a">>
RQ    == [i \in 1..Len(IdSeq) |-> [k |-> "did", id |-> IdSeq[i]]] \o [i \in 1..Len(IdSeq) |-> [k |-> "get", id |-> IdSeq[i]]]
         \o <<[k |-> "find", ids |-> IdSeq], [k |-> "find", ids |-> <<>>], [k |-> "find", ids |-> Reverse(IdSeq)]>>
RArg  == [docs |-> val, secrets |-> val, q |-> RQ]
FirstStored == part = "res" => \A i \in 1..Len(RQ) : LET q == RQ[i]  a == Ans(RArg, q) IN
  IF q.k = "find" THEN /\ SeqSet(a) = SeqSet(q.ids) \cap {e.id : e \in SeqSet(val)}
                       /\ \A id \in SeqSet(a) : Cardinality({j \in DOMAIN a : a[j] = id}) = Cardinality({j \in DOMAIN q.ids : q.ids[j] = id})
                       /\ \A j, k \in DOMAIN a : j < k => \E n, m \in DOMAIN q.ids : n < m /\ q.ids[n] = a[j] /\ q.ids[m] = a[k]
  ELSE IF \A j \in DOMAIN val : val[j].id # q.id THEN a = <<>>
  ELSE \E j \in DOMAIN val : a = <<val[j].mark>> /\ val[j].id = q.id /\ \A k \in 1..(j - 1) : val[k].id # q.id

----------------------------------------------------------------------------
Init == /\ part \in Parts
        /\ CASE part = "build" -> BuildInit [] part = "json" -> JInit [] part = "err" -> EInit [] part = "res" -> RInit
Next == BuildNext \/ JNext \/ ENext \/ RNext
Spec == Init /\ [][Next]_vars
\* every state, once
OpOf == CASE part = "build" -> [op |-> "builder", arg |-> BArg(seq)]
          [] part = "json"  -> [op |-> "json", arg |-> [ty |-> of, v |-> val]]
          [] part = "err"   -> [op |-> "err", arg |-> EArg]
          [] part = "res"   -> [op |-> "exres", arg |-> RArg]
Wrote == Emit(OpOf)

----------------------------------------------------------------------------
BadAppendTo(f, k, xs) == Put(f, k, Arr(xs))
BadPut(f, k, v)       == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f
BadMark(m)            == Obj([id |-> S(m), data |-> Obj([json |-> Obj([mark |-> S("m")])])])
BadKeep(x, K)         == [k \in K \cap DOMAIN x.o |-> At(x, k)]
BadMaterial(x, p)     == IF Has(x, p \o "KeyJwk") THEN [ok |-> TRUE, k |-> "jwk", m |-> At(x, p \o "KeyJwk"), n |-> p \o "KeyBase58"]
                         ELSE [ok |-> FALSE, k |-> "", m |-> S(""), n |-> ""]
BadIsU(x)             == x.t = "n"
BadIsStrs(x)          == x.t = "a"
BadFirst(s, P(_))     == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
=============================================================================
