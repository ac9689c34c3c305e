------------------------------- MODULE DCJson -------------------------------
(* The JSON forms of DID documents, secrets, messages, attachments, from_prior claims, options and
   algorithm names: which values are accepted, what they denote, and how they are written.

   JSON values are tagged records: [t |-> "s", s], [t |-> "n", n (text), u ("u": unsigned 64 bit)],
   [t |-> "b", b ("true"/"false")], [t |-> "z"], [t |-> "a", a], [t |-> "o", o : name -> value].
   A parser returns [ok, v]; v is the denoted value, again as a tagged value whose member names are
   those of the harness's dump (made by field access, never through the library's serde code).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

S(x)   == [t |-> "s", s |-> x]
Arr(x) == [t |-> "a", a |-> x]
Obj(f) == [t |-> "o", o |-> f]
Bl(b)  == [t |-> "b", b |-> b]
Bad    == [ok |-> FALSE, v |-> [t |-> "z", z |-> "z"]]
Good(v) == [ok |-> TRUE, v |-> v]

IsO(x)    == x.t = "o"
IsS(x)    == x.t = "s"
Has(x, k) == k \in DOMAIN x.o
At(x, k)  == x.o[k]
HasS(x, k) == Has(x, k) /\ IsS(At(x, k))
IsStrs(x) == x.t = "a" /\ \A i \in DOMAIN x.a : IsS(x.a[i])
HasStrs(x, k) == Has(x, k) /\ IsStrs(At(x, k))
\* an optional member: absent, null or satisfying P
Null(x, k) == ~Has(x, k) \/ At(x, k).t = "z"
OptOk(x, k, P(_)) == Null(x, k) \/ P(At(x, k))
IsU(x)    == x.t = "n" /\ x.u = "u"
IsB(x)    == x.t = "b"
\* the function with the members K of x that are neither absent nor null
Keep(x, K) == [k \in {k \in K : ~Null(x, k)} |-> At(x, k)]
Fun(K, f(_)) == [k \in K |-> f(k)]

----------------------------------------------------------------------------
VmTypes  == {"JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018",
             "EcdsaSecp256k1VerificationKey2019", "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other"}
\* material: the first of the known members that is well formed decides
Material(x, p) ==
  IF Has(x, p \o "KeyJwk") THEN [ok |-> TRUE, k |-> "jwk", m |-> At(x, p \o "KeyJwk"), n |-> p \o "KeyJwk"]
  ELSE IF HasS(x, p \o "KeyMultibase") THEN [ok |-> TRUE, k |-> "mb", m |-> At(x, p \o "KeyMultibase"), n |-> p \o "KeyMultibase"]
  ELSE IF HasS(x, p \o "KeyBase58") THEN [ok |-> TRUE, k |-> "b58", m |-> At(x, p \o "KeyBase58"), n |-> p \o "KeyBase58"]
  ELSE [ok |-> FALSE, k |-> "", m |-> S(""), n |-> ""]
ParseVM(x) ==
  IF ~IsO(x) \/ ~HasS(x, "id") \/ ~HasS(x, "type") \/ ~HasS(x, "controller") THEN Bad
  ELSE LET m == Material(x, "public") IN
       IF At(x, "type").s \notin VmTypes \/ ~m.ok THEN Bad
       ELSE Good(Obj([id |-> At(x, "id"), type |-> At(x, "type"), controller |-> At(x, "controller"),
                      matk |-> S(m.k), mat |-> m.m]))
SerVM(x) == LET m == Material(x, "public") IN
  Obj([id |-> At(x, "id"), type |-> At(x, "type"), controller |-> At(x, "controller")] @@ (m.n :> m.m))
ParseSecret(x) ==
  IF ~IsO(x) \/ ~HasS(x, "id") \/ ~HasS(x, "type") THEN Bad
  ELSE LET m == Material(x, "private") IN
       IF At(x, "type").s \notin VmTypes \/ ~m.ok THEN Bad
       ELSE Good(Obj([id |-> At(x, "id"), type |-> At(x, "type"), matk |-> S(m.k), mat |-> m.m]))
SerSecret(x) == LET m == Material(x, "private") IN
  Obj([id |-> At(x, "id"), type |-> At(x, "type")] @@ (m.n :> m.m))

ParseSvc(x) ==
  IF ~IsO(x) \/ ~HasS(x, "id") \/ ~HasS(x, "type") \/ ~Has(x, "serviceEndpoint") THEN Bad
  ELSE LET e == At(x, "serviceEndpoint") IN
       IF ~IsO(e) THEN Bad
       ELSE IF At(x, "type").s = "DIDCommMessaging"
            THEN IF ~HasS(e, "uri") \/ ~OptOk(e, "accept", IsStrs) \/ (Has(e, "routingKeys") /\ ~IsStrs(At(e, "routingKeys"))) THEN Bad
                 ELSE Good(Obj([id |-> At(x, "id"), k |-> S("dc"), uri |-> At(e, "uri"),
                                rk |-> IF Has(e, "routingKeys") THEN At(e, "routingKeys") ELSE Arr(<<>>)]
                               @@ Keep(e, {"accept"})))
       ELSE IF At(x, "type").s = "Other" THEN Good(Obj([id |-> At(x, "id"), k |-> S("other"), data |-> e]))
       ELSE Bad
SerSvc(x) == LET e == At(x, "serviceEndpoint") IN
  Obj([id |-> At(x, "id"), type |-> At(x, "type"),
       serviceEndpoint |-> IF At(x, "type").s = "Other" THEN e
                           ELSE Obj([uri |-> At(e, "uri"),
                                     routingKeys |-> IF Has(e, "routingKeys") THEN At(e, "routingKeys") ELSE Arr(<<>>)]
                                    @@ Keep(e, {"accept"}))])
All(x, k, P(_)) == Has(x, k) /\ At(x, k).t = "a" /\ \A i \in DOMAIN At(x, k).a : P(At(x, k).a[i]).ok
Map(x, k, P(_)) == Arr([i \in DOMAIN At(x, k).a |-> P(At(x, k).a[i])])
ParseDoc(x) ==
  IF ~IsO(x) \/ ~HasS(x, "id") \/ ~HasStrs(x, "keyAgreement") \/ ~HasStrs(x, "authentication")
     \/ ~All(x, "verificationMethod", ParseVM) \/ ~All(x, "service", ParseSvc) THEN Bad
  ELSE Good(Obj([id |-> At(x, "id"), ka |-> At(x, "keyAgreement"), auth |-> At(x, "authentication"),
                 vms |-> Map(x, "verificationMethod", LAMBDA y : ParseVM(y).v),
                 svcs |-> Map(x, "service", LAMBDA y : ParseSvc(y).v)]))
SerDoc(x) == Obj([id |-> At(x, "id"), keyAgreement |-> At(x, "keyAgreement"), authentication |-> At(x, "authentication"),
                  verificationMethod |-> Map(x, "verificationMethod", SerVM), service |-> Map(x, "service", SerSvc)])

----------------------------------------------------------------------------
PLAIN == "application/didcomm-plain+json"
AttStr == {"id", "description", "filename", "media_type", "format"}
AttNum == {"lastmod_time", "byte_count"}
ParseAtt(x) ==
  IF ~IsO(x) \/ ~Has(x, "data") \/ ~IsO(At(x, "data")) THEN Bad
  ELSE LET d == At(x, "data") IN
       IF ~OptOk(d, "jws", IsS) \/ (\E k \in AttStr : ~OptOk(x, k, IsS)) \/ (\E k \in AttNum : ~OptOk(x, k, IsU)) THEN Bad
       ELSE LET c == IF HasS(d, "base64") THEN {"base64"}
                     ELSE IF Has(d, "json") THEN {"json"}
                     ELSE IF HasStrs(d, "links") /\ HasS(d, "hash") THEN {"links", "hash"} ELSE {} IN
            IF c = {} THEN Bad
            ELSE Good(Obj(Keep(x, AttStr \cup AttNum)
                          @@ [data |-> Obj([k \in c |-> At(d, k)] @@ Keep(d, {"jws"}))]))
MsgStr == {"from", "thid", "pthid", "from_prior"}
MsgNum == {"created_time", "expires_time"}
Std    == {"id", "typ", "type", "body", "to", "attachments"} \cup MsgStr \cup MsgNum
ParseMsg(x) ==
  IF ~IsO(x) \/ ~HasS(x, "id") \/ ~HasS(x, "type") \/ ~Has(x, "body") THEN Bad
  ELSE IF (Has(x, "typ") /\ ~IsS(At(x, "typ"))) \/ (\E k \in MsgStr : ~OptOk(x, k, IsS)) \/ (\E k \in MsgNum : ~OptOk(x, k, IsU))
          \/ ~OptOk(x, "to", IsStrs) \/ ~(Null(x, "attachments") \/ All(x, "attachments", ParseAtt)) THEN Bad
  ELSE Good(Obj([id |-> At(x, "id"), type |-> At(x, "type"), body |-> At(x, "body"),
                 typ |-> IF Has(x, "typ") THEN At(x, "typ") ELSE S(PLAIN)]
                @@ Keep(x, MsgStr \cup MsgNum \cup {"to"})
                @@ (IF Null(x, "attachments") THEN <<>>
                    ELSE [attachments |-> Map(x, "attachments", LAMBDA y : ParseAtt(y).v)])
                @@ [k \in DOMAIN x.o \ Std |-> At(x, k)]))
FpStr == {"aud", "jti"}
FpNum == {"exp", "nbf", "iat"}
ParseFp(x) ==
  IF ~IsO(x) \/ ~HasS(x, "iss") \/ ~HasS(x, "sub") \/ (\E k \in FpStr : ~OptOk(x, k, IsS)) \/ (\E k \in FpNum : ~OptOk(x, k, IsU)) THEN Bad
  ELSE Good(Obj([iss |-> At(x, "iss"), sub |-> At(x, "sub")] @@ Keep(x, FpStr \cup FpNum)))

----------------------------------------------------------------------------
AnonName == [A256cbcHs512EcdhEsA256kw |-> "A256CBC-HS512", Xc20pEcdhEsA256kw |-> "XC20P", A256gcmEcdhEsA256kw |-> "A256GCM"]
AuthName == [A256cbcHs512Ecdh1puA256kw |-> "A256CBC-HS512"]
SignName == [EdDSA |-> "EdDSA", ES256 |-> "ES256", ES256K |-> "ES256K"]
ParseName(x, N) == IF IsS(x) /\ x.s \in DOMAIN N THEN Good(S(N[x.s])) ELSE Bad
Dflt(x, k, d)   == IF Has(x, k) THEN At(x, k) ELSE d
ParsePO(x) ==
  IF ~IsO(x) \/ (\E k \in {"protect_sender", "forward"} : Has(x, k) /\ ~IsB(At(x, k)))
     \/ ~OptOk(x, "forward_headers", IsO) \/ ~OptOk(x, "messaging_service", IsS)
     \/ (Has(x, "enc_alg_auth") /\ ~ParseName(At(x, "enc_alg_auth"), AuthName).ok)
     \/ (Has(x, "enc_alg_anon") /\ ~ParseName(At(x, "enc_alg_anon"), AnonName).ok) THEN Bad
  ELSE Good(Obj([protect |-> Dflt(x, "protect_sender", Bl("false")), forward |-> Dflt(x, "forward", Bl("true")),
                 auth |-> S("A256CBC-HS512"),
                 anon |-> IF Has(x, "enc_alg_anon") THEN ParseName(At(x, "enc_alg_anon"), AnonName).v ELSE S("XC20P")]
                @@ (IF Null(x, "forward_headers") THEN <<>> ELSE [headers |-> At(x, "forward_headers")])
                @@ (IF Null(x, "messaging_service") THEN <<>> ELSE [svc |-> At(x, "messaging_service")])))
UO == {"expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"}
ParseUO(x) ==
  IF ~IsO(x) \/ (\E k \in UO : Has(x, k) /\ ~IsB(At(x, k))) THEN Bad
  ELSE Good(Obj([all |-> Dflt(x, "expect_decrypt_by_all_keys", Bl("false")),
                 unwrap |-> Dflt(x, "unwrap_re_wrapping_forward", Bl("false"))]))

NoSer == [t |-> "none", none |-> "none"]
\* expectation for parsing x as a ty: [ok, v, ser]
Expect(ty, x) ==
  LET R(p, s) == [ok |-> p.ok, v |-> p.v, ser |-> IF p.ok THEN s ELSE NoSer] IN
  CASE ty = "DIDDoc"     -> LET p == ParseDoc(x) IN R(p, IF p.ok THEN SerDoc(x) ELSE NoSer)
    [] ty = "VM"         -> LET p == ParseVM(x) IN R(p, IF p.ok THEN SerVM(x) ELSE NoSer)
    [] ty = "Service"    -> LET p == ParseSvc(x) IN R(p, IF p.ok THEN SerSvc(x) ELSE NoSer)
    [] ty = "Secret"     -> LET p == ParseSecret(x) IN R(p, IF p.ok THEN SerSecret(x) ELSE NoSer)
    [] ty = "Message"    -> LET p == ParseMsg(x) IN R(p, p.v)
    [] ty = "Attachment" -> LET p == ParseAtt(x) IN R(p, p.v)
    [] ty = "FromPrior"  -> LET p == ParseFp(x) IN R(p, p.v)
    [] ty = "Anon"       -> R(ParseName(x, AnonName), x)
    [] ty = "Auth"       -> R(ParseName(x, AuthName), x)
    [] ty = "Sign"       -> R(ParseName(x, SignName), x)
    [] ty = "PackOpts"   -> R(ParsePO(x), NoSer)
    [] ty = "UnpackOpts" -> R(ParseUO(x), NoSer)
    [] ty = "Headers"    -> R(IF IsO(x) THEN Good(x) ELSE Bad, x)
    [] ty = "Keys"       -> R(IF IsStrs(x) THEN Good(x) ELSE Bad, x)

JsonV(v) ==
  LET x == Expect(v.arg.ty, v.arg.v)
      a == "j." IN
  CASE v.st \in {"panic", "hang"} -> {a \o v.st}
    [] v.st = "ok" /\ ~x.ok -> {a \o "accept"}
    [] v.st = "reject" /\ x.ok -> {a \o "reject"}
    [] v.st = "ok" -> (IF v.val # x.v THEN {a \o "value"} ELSE {}) \cup (IF v.ser # x.ser THEN {a \o "ser"} ELSE {})
                      \cup (IF ~v.rt THEN {a \o "roundtrip"} ELSE {})
    [] v.st = "reject" -> {}
    [] OTHER -> {a \o "odd"}

\* The programmatic defaults
DefaultsV(v) ==
  IF v.st \in {"panic", "hang"} THEN {"o." \o v.st}
  ELSE (IF v.pack # Obj([protect |-> Bl("false"), forward |-> Bl("true"), auth |-> S("A256CBC-HS512"), anon |-> S("XC20P")]) THEN {"o.pack"} ELSE {})
       \cup (IF v.unpack # Obj([all |-> Bl("false"), unwrap |-> Bl("true")]) THEN {"o.unpack"} ELSE {})
       \cup (IF v.anon # "XC20P" \/ v.auth # "A256CBC-HS512" THEN {"o.alg"} ELSE {})
=============================================================================
