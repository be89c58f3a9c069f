----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Recorded sessions of reading containers and using what was read.        *)
(***************************************************************************)
EXTENDS TraceBase, Stores
K == INSTANCE KsSpec
VARIABLES i, ks, rf
Has(r, f) == f \in DOMAIN r
Range(f) == { f[j] : j \in DOMAIN f }
NoKs == [s \in 0..15 |-> K!None]
What(e) ==
  CASE e.kind = "jks" -> ReadJks(e.data, e.p1, e.p2, Range(e.good))
    [] e.kind = "key6" -> ReadKey6(e.data, e.p1)
    [] e.kind = "p12" -> ReadP12(e.data, e.p1, [good |-> Range(e.good), blobs |-> e.blobs, other |-> e.other])
\* what a key handed out shows of itself
KShows(k, r) == IF k.t = "dstu" THEN r.priv = PrivDer(k.key) /\ (Encodable(k.key.cv, k.key.Q) => r.pub = PubDer(k.key))
                ELSE r.priv = k.der
ListShows(l, r) == Len(l) = Len(r) /\ \A j \in 1..Len(l) : KShows(l[j], r[j])
\* nothing is handed out on failure, and whatever happened, repeating it allocates nothing more
Clean(r) == (r.ok = 0 => r.same = 1) /\ (Has(r, "grow") => r.grow = 0)
\* keys of a form not followed: they are keys
SomeKeys(r) == \A j \in 1..Len(r.keys) : r.keys[j].priv # << >> => ReadOneKey(r.keys[j].priv, {}).v # "bad"
ReadOk(w, r) ==
  /\ ~Has(r, "crash")
  /\ r.ok \in {0, 1} /\ Clean(r)
  /\ CASE w.v = "bad" -> r.ok = 0
       [] w.v = "unk" -> r.ok = 1 => SomeKeys(r)
       [] w.v = "ok" -> IF r.ok = 0 THEN ~w.full
                        ELSE (\E l \in w.keys : ListShows(l, r.keys)) /\ r.certs = w.certs
Distinct(r) == Cardinality(Range(r.ptrs)) = Len(r.ptrs)
\* damage somewhere in a container whose content is known: refused, or nothing of it changed
DamageOk(e, r) ==
  /\ ~Has(r, "crash") /\ r.ok \in {0, 1} /\ Clean(r)
  /\ r.ok = 1 => [j \in 1..Len(r.keys) |-> r.keys[j].priv] = e.keys /\ r.certs = e.certs
Init == i = 1 /\ ks = NoKs /\ rf = NoKs
Begin == Tr[i].op = "begin" /\ ks' = NoKs /\ rf' = NoKs
Same == ks' = ks /\ rf' = rf
Read ==
  /\ Tr[i].op = "read"
  /\ \E w \in {What(Tr[i])} :
     LET e == Tr[i]  r == e.res  good == ReadOk(w, r) IN
     /\ Judge(i, good /\ (r.ok = 1 => Distinct(r)), [holds |-> w.v, must |-> w.full])
     /\ Say([k |-> "note", i |-> i, must_refuse |-> IF w.v = "bad" THEN 1 ELSE 0, must_accept |-> IF w.full THEN 1 ELSE 0,
             not_followed |-> IF w.v = "unk" THEN 1 ELSE 0])
     /\ rf' = rf
     /\ ks' = IF good /\ r.ok = 1 /\ w.v = "ok" /\ e.keep = 1
              THEN K!NextKs(ks, e, CHOOSE l \in w.keys : ListShows(l, r.keys), w.certs) ELSE ks
\* a container whose reading is not specified from its octets
Damaged == Tr[i].op = "damaged" /\ Judge(i, DamageOk(Tr[i], Tr[i].res), [want |-> "refused, or the same content"]) /\ Same
UseOk(o, r) ==
  CASE o.t = "cert" -> r.out = o.der
    [] OTHER -> /\ r.ok = 1 /\ KShows(o, r)
                /\ o.t = "dstu" =>
                   LET k == o.key  w == OrderBytes(k.cv)  body == SubSeq(r.sig, 3, Len(r.sig))  be == IF k.le THEN Rev(body) ELSE body
                   IN Len(r.sig) = 2 + 2*w /\ ValidPair(k.cv, k.Q, r.hash, BigBe(SubSeq(be, w+1, 2*w)), BigBe(SubSeq(be, 1, w)))
Cert(d) == [t |-> "cert", der |-> d]
Handle ==
  /\ Tr[i].op \in {"num", "key", "cert", "refkey", "refcert", "use", "drop", "free"}
  /\ LET e == Tr[i]  r == e.res IN
     IF Has(r, "crash") THEN Judge(i, FALSE, [want |-> "no crash"]) /\ Same
     ELSE /\ Assert(K!CanDo(ks, rf, e), <<"event outside the protocol", i>>)
          /\ CASE e.op = "num" -> Judge(i, r.nk = Len(ks[e.s].keys) /\ r.nc = Len(ks[e.s].certs), [nk |-> Len(ks[e.s].keys), nc |-> Len(ks[e.s].certs)])
               [] e.op = "key" -> LET w == K!Look(ks, e) IN
                    Judge(i, r.ok = w.ok /\ (w.ok = 1 => KShows(w.obj, r) /\ r.ptr = e.first), [ok |-> w.ok])
               [] e.op = "cert" -> LET w == K!Look(ks, e) IN
                    Judge(i, r.ok = w.ok /\ (w.ok = 1 => r.out = w.obj /\ r.ptr = e.first), [ok |-> w.ok])
               [] e.op = "use" -> LET o == rf[e.r].obj IN Judge(i, UseOk(o, r), [want |-> "the object as read"])
               [] OTHER -> Judge(i, r.ok = 1, [ok |-> 1])
          /\ ks' = K!NextKs(ks, e, << >>, << >>)
          /\ rf' = IF e.op = "refcert" THEN [rf EXCEPT ![e.r] = K!Hold(Cert(ks[e.s].certs[e.pos + 1]))] ELSE K!NextRf(ks, rf, e)
Balance == Tr[i].op = "balance" /\ Judge(i, ~Has(Tr[i].res, "crash") /\ Tr[i].res.grow = 0, [grow |-> 0]) /\ Same
Nop == Tr[i].op = "nop" /\ Judge(i, ~Has(Tr[i].res, "crash"), [want |-> "no crash"]) /\ Same
Next == i <= Len(Tr) /\ (Begin \/ Read \/ Damaged \/ Handle \/ Balance \/ Nop) /\ i' = i + 1
End == Finish(i)
=============================================================================
