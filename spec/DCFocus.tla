------------------------------ MODULE DCFocus ------------------------------
(* Which deviations concern which property.  An aspect is a string; a property is concerned with
   every aspect that starts with one of its prefixes.  Aspects, by first letter:
     u unpack, p pack and wrap, f issuing a from_prior, g unpacking one, t parsing a forward,
     j JSON forms, b builders, e errors, x example resolvers, o option defaults, c concurrency.
   A panic or a hang concerns every property whose check observes it.                          *)
EXTENDS Naturals, Sequences, TLC

Starts(a, p) == Len(a) >= Len(p) /\ SubSeq(a, 1, Len(p)) = p
Both(k, S)   == {k \o ".accept:" \o s : s \in S} \cup {k \o ".kind:" \o s : s \in S}

Concerns(c) ==
  CASE c = "C01" -> {"u.refuse", "u.content", "p.refuse", "p.content", "p.layers", "p.recip", "p.fwd.", "f.refuse", "f.content", "g."}
    [] c = "C02" -> {"p.keys", "p.recip", "p.leak", "p.meta.to", "p.fwd.", "p.layers", "u.content", "u.refuse", "u.accept:", "u.tamper",
                     "u.kind:nosecret", "u.kind:crypt", "u.meta.to"}
    [] c = "C03" -> {"u.tamper", "u.accept:", "u.content", "u.meta."}
    [] c = "C04" -> {"u.meta.auth", "u.meta.from", "u.meta.enc", "u.refuse", "p.sender", "p.meta.from", "p.layers", "u.content"}
                    \cup Both("u", {"sender", "resolver.sender", "hdr.apu", "crypt", "encalg", "struct"})
    [] c = "C05" -> {"u.meta.nr", "u.meta.auth", "u.meta.sign", "u.meta.alg", "u.refuse", "u.content", "p.signer", "p.meta.sign", "p.layers"}
                    \cup Both("u", {"sig", "resolver.sig", "struct"})
    [] c = "C06" -> {"u.meta.", "u.metaser", "p.meta.", "u.refuse"}
    [] c = "C07" -> {"p.anon", "p.vis", "p.layers", "p.keys", "p.fwd.", "p.wire", "u.meta.anon", "u.meta.from"}
    [] c = "C08" -> {"p.keys", "p.recip", "p.curve", "p.sender", "p.signer", "p.alg", "p.refuse", "p.meta.", "p.layers", "f."}
                    \cup Both("p", {"to.", "from.", "hop.", "signer.", "nocompat", "secret", "resolver"})
    [] c = "C09" -> {"p.refuse"} \cup Both("p", {"arg."})
    [] c = "C10" -> {"p.fwd.", "p.meta.svc", "p.layers", "p.alg", "p.anon", "p.refuse", "p.keys", "u.refuse", "u.content"}
                    \cup Both("p", {"hop.", "med.", "svc.", "fwd.", "resolver"})
    [] c = "C11" -> {"t.", "u.meta.rewrap", "u.meta.", "u.content", "u.refuse"} \cup Both("u", {"next", "resolver.next", "struct"})
    [] c = "C12" -> {"p.meta.svc", "p.fwd.", "p.refuse", "p.layers", "p.recip"} \cup Both("p", {"svc.", "med.", "hop.", "resolver"})
    [] c = "C13" -> {"u.meta.fp", "g.", "u.refuse"} \cup Both("u", {"fp.", "resolver.fp"}) \cup Both("p", {"fp.", "resolver.fp"})
    [] c = "C14" -> {"f.", "g.", "p.refuse", "u.meta.fp"} \cup Both("p", {"claims", "fp.", "resolver.fp"})
    [] c = "C15" -> {"u.accept:", "u.kind:", "u.refuse", "g.", "p.accept:", "p.kind:", "u.content", "j."}
    [] c = "C16" -> {"u.accept:", "u.kind:hdr", "u.refuse", "p.wire"}
    [] c = "C17" -> {"u.refuse", "u.accept:", "u.kind:", "u.content", "u.meta."}
    [] c = "C18" -> {"u.refuse", "p.refuse", "f.refuse", "g.refuse", "u.accept:", "p.accept:", "f.accept:", "g.accept:",
                     "u.kind:", "p.kind:", "f.kind:", "g.kind:"}
    [] c = "C19" -> {"p.fresh", "p.curve"}
    [] c = "C20" -> {"p.", "u.", "f.", "g."}
    [] c = "C21" -> {"j."}
    [] c = "C22" -> {"j.", "p.content", "p.wire", "u.content", "u.accept:", "u.kind:", "u.refuse"}
    [] c = "C23" -> {"b."}
    [] c = "C24" -> {"p.wire", "p.alg", "p.layers", "p.sender", "f.wire", "f.alg", "f.signer", "u.refuse", "u.content", "g.refuse"}
    [] c = "C25" -> {"e."}
    [] c = "C26" -> {"x."}
    [] c = "C27" -> {"u.", "p.", "f.", "g.", "c."}
    [] c = "C28" -> {"o.", "p.alg", "p.layers", "p.badopts", "u.badopts", "p.fwd.", "u.meta.alg", "p.anon", "p.meta.svc", "u.refuse", "p.refuse",
                     "j.", "u.meta.rewrap", "u.accept:"}
    [] OTHER -> {"u.", "p.", "f.", "g.", "t.", "j.", "b.", "e.", "x.", "o.", "c.", "h."}

Crash == {"u.panic", "u.hang", "p.panic", "p.hang", "f.panic", "f.hang", "g.panic", "g.hang", "t.panic", "t.hang",
          "j.panic", "j.hang", "b.panic", "b.hang", "e.panic", "e.hang", "x.panic", "x.hang", "o.panic", "o.hang", "hang"}
Concerned(c, a) == a \in Crash \/ \E p \in Concerns(c) : Starts(a, p)
=============================================================================
