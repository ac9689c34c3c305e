------------------------------- MODULE DCModel -------------------------------
(* The generative side of the specification: the envelope an operation produces, as a symbolic term.
   DCPack judges envelopes, DCUnpack opens them, this module builds them; MCWorld checks that the
   three agree, and the models that follow put them on a network with an adversary.              *)
EXTENDS DCPack, Json

NoFp == [k |-> "none"]
\* a plaintext with content h; addressing as given
MkMsg(h, from, to, fp) ==
  [k |-> "plain", h |-> h, id |-> h, from |-> from, hasTo |-> to # <<>>, to |-> to, typok |-> TRUE, fp |-> fp,
   type |-> "t", bk |-> "obj/none", ak |-> <<>>, next |-> NONE, inner |-> NoFp, injh |-> NONE, bm |-> "",
   hdr |-> "", std |-> "", natt |-> 0]
MkFwd(next, inner, hdr, id) ==
  [MkMsg("fwd" \o ToString(id), NONE, <<>>, NoFp) EXCEPT
     !.type = FORWARD, !.bk = "obj/str", !.ak = <<"json">>, !.next = next, !.inner = inner, !.injh = "inner",
     !.bm = "next", !.hdr = hdr, !.natt = 1]
MkJws(sel, p) ==
  [k |-> "jws", ok |-> "ok", payload |-> p, pok |-> TRUE, txt |-> IF p.k = "plain" THEN "txt:" \o p.h ELSE "txt", w |-> "payload,signatures", esc |-> FALSE,
   sigs |-> <<[kid |-> sel.fromKid, alg |-> SigAlg(sel.crv), typ |-> "application/didcomm-signed+json", skey |-> sel.skey,
               sigb64 |-> TRUE, w |-> "header,protected,signature|kid|alg,typ|true|64"]>>]
Sizes(enc) == CASE enc = XC -> <<24, 16, 32>> [] enc = GCM -> <<12, 16, 32>> [] OTHER -> <<16, 32, 64>>
MkJwe(sel, auth, enc, p, n) ==
  [k |-> "jwe", ok |-> "ok", alg |-> IF auth THEN OPU ELSE ES, enc |-> enc, typ |-> "application/didcomm-encrypted+json",
   skid |-> IF auth THEN sel.fromKid ELSE NONE, apu |-> IF auth THEN sel.fromKid ELSE NONE, apu8 |-> TRUE, apvOk |-> TRUE,
   crv |-> sel.crv, epkOk |-> TRUE,
   rcp |-> [i \in DOMAIN sel.kids |-> [kid |-> sel.kids[i], key |-> sel.keys[i], b64 |-> TRUE, opens |-> TRUE]],
   skey |-> IF auth THEN sel.skey ELSE NONE, b64 |-> TRUE, intact |-> TRUE, utf8 |-> TRUE, payload |-> p, esc |-> FALSE,
   fresh |-> <<ToString(3 * n), ToString(3 * n + 1), ToString(3 * n + 2)>>, ceklen |-> Sizes(enc)[3],
   w |-> [top |-> "ciphertext,iv,protected,recipients,tag", prot |-> IF auth THEN "alg,apu,apv,enc,epk,skid,typ" ELSE "alg,apv,enc,epk,typ",
          rcp |-> "encrypted_key,header/kid", b64 |-> TRUE, iv |-> Sizes(enc)[1], tag |-> Sizes(enc)[2], ek |-> ToString(Sizes(enc)[3] + 8),
          kty |-> IF sel.crv = "X" THEN "OKP" ELSE "EC", epk |-> IF sel.crv = "X" THEN "crv,kty,x" ELSE "crv,kty,x,y",
          xy |-> IF sel.crv = "X" THEN "32/0" ELSE "32/32"]]
\* the onion, innermost layer last; nonces n, n+1, ...
RECURSIVE MkOnion(_, _, _, _, _, _, _, _, _)
MkOnion(w, e, hops, i, to, anon, hdr, inner, n) ==
  IF i > Len(hops) THEN inner
  ELSE MkJwe(AnonSel(w, w.docsR, e, hops[i], "hop"), FALSE, anon,
             MkFwd(IF i = Len(hops) THEN to ELSE hops[i + 1],
                   MkOnion(w, e, hops, i + 1, to, anon, hdr, inner, n + 1), hdr, n), n)
\* the envelope pack_encrypted must produce; x = PackEncF(w, v)
EncTerm(w, v, x, n) ==
  LET anon == Opt(v.opts.anon, XC)
      prot == v.from # NONE /\ Opt(v.opts.protect, "no") = "yes"
      t3   == IF v.by # NONE THEN MkJws(x.sg, v.msg) ELSE v.msg
      t2   == IF v.from # NONE THEN MkJwe(x.sel, TRUE, CBC, t3, n) ELSE MkJwe(x.sel, FALSE, anon, t3, n)
      t1   == IF prot THEN MkJwe(x.sel, FALSE, anon, t2, n + 1) ELSE t2 IN
  MkOnion(w, v.env, x.rt.hops, 1, v.to, anon, v.opts.hdr, t1, n + 2)
\* every outcome pack_encrypted may have
EncOutcomes(w, v, n) ==
  LET x == PackEncF(w, v)  svc == x.rt.hops # <<>> IN
  IF x.f # {} THEN {[st |-> "err", kind |-> k] : k \in KindsOf(x.f)}
  ELSE {[st |-> "ok", kind |-> NONE, term |-> EncTerm(w, v, x, n), leak |-> FALSE, vis |-> <<>>,
         meta |-> [fromKid |-> x.sel.fromKid, signKid |-> x.sg.fromKid, toKids |-> x.sel.kids, hasSvc |-> svc,
                   svcId |-> IF svc THEN x.rt.id ELSE NONE, svcUri |-> IF svc THEN x.rt.uri ELSE NONE]]}

----------------------------------------------------------------------------
(* What a set of private keys gives access to, by the cryptography alone. *)
RECURSIVE Reads(_, _)
Reads(K, t) ==
  CASE t.k = "jwe"   -> IF \E i \in DOMAIN t.rcp : t.rcp[i].key \in K /\ t.rcp[i].opens THEN Reads(K, t.payload) ELSE {}
    [] t.k = "jws"   -> Reads(K, t.payload)
    [] t.k = "plain" -> {t.h} \cup (IF t.inner.k = "none" THEN {} ELSE Reads(K, t.inner))
    [] OTHER -> {}
\* sub-terms obtained on the way
RECURSIVE Parts(_, _)
Parts(K, t) ==
  {t} \cup
  CASE t.k = "jwe"   -> IF \E i \in DOMAIN t.rcp : t.rcp[i].key \in K /\ t.rcp[i].opens THEN Parts(K, t.payload) ELSE {}
    [] t.k = "jws"   -> Parts(K, t.payload)
    [] t.k = "plain" -> IF t.inner.k = "none" THEN {} ELSE Parts(K, t.inner)
    [] OTHER -> {}
\* values in clear on the outside of a text
Clear(t) == CASE t.k = "jwe" -> {t.skid, t.apu} \cup {t.rcp[i].kid : i \in DOMAIN t.rcp} [] OTHER -> {}

----------------------------------------------------------------------------
(* Worlds for models.  Names of DIDs are strings without '#'; key ids are DID#fragment. *)
Al == "did:ex:alice"   Bo == "did:ex:bob"   Ma == "did:ex:mallory"   Ol == "did:ex:old"
M1 == "did:ex:m1"      M2 == "did:ex:m2"    ME == "did:ex:med1"
Id(d, f)    == d \o "#" \o f
NoDoc       == [ka |-> <<>>, auth |-> <<>>, vms |-> <<>>, svcs |-> <<>>]
LexOf(D, F) == LET I == {<<d, "">> : d \in D} \cup (D \X F) IN
  [s \in {IF p[2] = "" THEN p[1] ELSE Id(p[1], p[2]) : p \in I} |->
     LET p == CHOOSE p \in I : s = IF p[2] = "" THEN p[1] ELSE Id(p[1], p[2]) IN [d |-> p[1], f |-> p[2] # "", i |-> TRUE]]
\* a key description: [f fragment, crv, key, rep, pub : listed and/or given a method, own : secret held]
K(f, crv, d)   == [f |-> f, crv |-> crv, key |-> crv \o ":" \o d \o "." \o f, rep |-> "jwk", lst |-> TRUE, vm |-> TRUE, own |-> TRUE, srep |-> "jwk"]
DocOf(d, ka, auth, svcs) ==
  LET L(s) == LET t == SelectSeq(s, LAMBDA k : k.lst) IN [i \in DOMAIN t |-> Id(d, t[i].f)]
      V(s) == LET t == SelectSeq(s, LAMBDA k : k.vm)  IN [i \in DOMAIN t |-> [id |-> Id(d, t[i].f), key |-> t[i].key, crv |-> t[i].crv, rep |-> t[i].rep]] IN
  [ka |-> L(ka), auth |-> L(auth), vms |-> V(ka) \o V(auth), svcs |-> svcs]
WalletOf(d, ks) == LET t == SelectSeq(ks, LAMBDA k : k.own) IN
  [i \in DOMAIN t |-> [id |-> Id(d, t[i].f), key |-> t[i].key, crv |-> t[i].crv, rep |-> t[i].srep]]
Static(docs, wallets, lex) == [docs |-> docs, docsF |-> docs, docsS |-> docs, docsR |-> docs, wallets |-> wallets, walletsS |-> wallets, lex |-> lex]
EnvOf(wallet) == [wallet |-> wallet, dfault |-> <<>>, sfind |-> NONE, sget |-> NONE, sid |-> <<>>]

----------------------------------------------------------------------------
(* Behaviours of a model are written out as scenarios for the harness: a line "BEH|" followed by
   JSON.  Where the model predicts the outcome, the operation carries it (field exp); DCTrace then
   compares the library's outcome with the prediction as well as with the recorded envelope.      *)
Emit(scn)      == PrintT("BEH|" \o ToJson(scn))
WorldJ(ww)     == [docs |-> ww.docs, wallets |-> ww.wallets]
PlainJ(m, add) == [id |-> m.h, typ |-> "application/didcomm-plain+json", type |-> "https://ex.org/p/1.0/t", body |-> [content |-> m.h]]
                  @@ (IF m.from = NONE THEN <<>> ELSE [from |-> m.from]) @@ (IF m.hasTo THEN [to |-> m.to] ELSE <<>>) @@ add
ExpJ(xx, add)  == [f |-> SetToSeq(xx.f), m |-> SetToSeq(xx.m), meta |-> xx.meta, h |-> "?"] @@ add
UnpackJ(h, wallet, all, unwrap, exp) ==
  [op |-> "unpack", in |-> h, env |-> [wallet |-> wallet], opts |-> [all |-> all, unwrap |-> unwrap], exp |-> exp]
\* one in n
Sampled(n) == n > 0 /\ RandomElement(1..n) = 1
=============================================================================
