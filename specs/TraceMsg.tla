------------------------------ MODULE TraceMsg ------------------------------
(***************************************************************************)
(* Recorded sessions of HMAC, PBKDF2, encrypted keys and messages,         *)
(* certificates, requests and signed messages.                             *)
(***************************************************************************)
EXTENDS TraceBase, Msgs
VARIABLES i, hm, st
Has(r, f) == f \in DOMAIN r
PIn(o) == XorBytes(<< o >>, << 54 >>)[1]
POut(o) == XorBytes(<< o >>, << 92 >>)[1]
HM == INSTANCE HmacSpec WITH BlockLen <- 32, DFresh <- HF!Fresh, DUpd <- HF!Upd, DValue <- HF!Value, PadIn <- PIn, PadOut <- POut, ZeroOctet <- 0
NoHm == [s \in 0..9 |-> HM!Absent]
Absent == [there |-> FALSE]
NoKeys == [s \in 0..15 |-> Absent]
HmOps == {"hm_new", "hm_init", "hm_re", "hm_upd", "hm_fin", "hm_copy", "hm_free"}
K(s) == st[s].key

\* ---- encryption
EncOps == {"hmac", "pbkdf2", "p8enc", "p8pem", "p8dec", "cms_enc", "cms_dec", "cms_env", "cms_denv"}
P8Good(k, pw, x) == LET p == EpkiParts(x) IN
  /\ p.ok /\ p.p.sb = DefaultSbox /\ Len(p.p.salt) >= 8 /\ p.p.iter >= 1000
  /\ PbeOpen(p.p, pw, p.enc) = PrivDer(k)
EncOk(e, r) ==
  CASE e.op = "hmac" -> r.ok = 1 /\ r.out = Hmac(e.key, e.data)
    [] e.op = "pbkdf2" -> r.ok = 1 /\ r.out = Pbkdf2(e.pass, e.salt, e.iter, e.len)
    [] e.op = "p8enc" -> /\ r.ok = 1
                         /\ LET p == EpkiParts(r.out) IN
                            /\ p.ok /\ p.p.sb = DefaultSbox /\ p.p.salt = e.salt /\ p.p.iter = e.iter
                            /\ PbeOpen(p.p, e.pass, p.enc) = PrivDer(K(e.s))
    [] e.op = "p8pem" -> r.ok = 1 /\ P8Good(K(e.s), e.pass, r.out)
    [] e.op = "p8dec" -> LET p == ReadEpki(e.der, e.pass) IN
         (CASE p.v = "bad" -> r.ok = 0
           [] p.v = "unk" -> r.ok = 1 => ParsePriv(r.priv).v # "bad"
           [] p.v = "ok" -> IF r.ok = 0 THEN ~p.full ELSE r.priv = PrivDer(p.key))
    [] e.op = "cms_enc" -> IF Len(e.key) # 32 THEN r.ok = 0
         ELSE r.ok = 1 /\ LET p == EncData(r.out) IN p.ok /\ p.sb = DefaultSbox /\ Len(p.iv) = 8 /\ OpenData(p, e.key) = e.data
    [] e.op = "cms_dec" -> LET p == EncData(e.der) IN
         IF ~p.ok THEN TRUE
         ELSE IF Len(p.iv) # 8 \/ Len(p.sb) # 64 THEN r.ok = 0
         ELSE r.ok = 1 /\ r.out = OpenData(p, e.key)
    [] e.op = "cms_env" -> r.ok = 1 /\ LET p == EnvData(r.out) IN p.ok /\ p.sb = DefaultSbox /\ Len(p.iv) = 8 /\ Len(p.enc) = Len(e.data)
    [] e.op = "cms_denv" -> IF e.right = 1 THEN r.ok = 1 /\ r.out = e.data ELSE r.ok = 0 \/ e.data = << >> \/ r.out # e.data

\* ---- signatures on structures
SignOps == {"x_make", "x_verify", "x_key", "x_chain", "req_make", "req_verify", "m_sign", "m_verify"}
PubKey(x) == LET c == CertOf(x) IN IF c.ok THEN ParsePub(c.spki) ELSE Dunno
\* an answer yes needs a valid signature; no, an invalid one, where the structure was followed
XOk(s, good, r) == IF r.parsed = 0 THEN r.ok = 0 ELSE IF s.ok THEN r.ok = (IF good THEN 1 ELSE 0) ELSE TRUE
\* the tables under which the attributes of a message may be hashed, to make and to verify one
ATab(e, k) == IF e.kind = "p7" THEN {k.sb, DefaultSbox} ELSE {k.sb}
\* PKCS#7 verification in the library hashes the attributes without the key
Lost(e, k) == e.kind = "p7" /\ k.sb # DefaultSbox
KeysIn(e, m) == IF e.cert = << >> THEN { PubKey(m.certs[j]) : j \in 1..Len(m.certs) } ELSE { PubKey(e.cert) }
MsgOk(e, r, m) ==
  IF ~m.ok THEN TRUE
  ELSE LET c == IF e.det = 1 THEN e.data ELSE m.content
           ks == KeysIn(e, m)
           good == \E p \in ks : p.v # "ok" \/ MsgGood(p.key, m, c, ATab(e, p.key))
       IN /\ r.ok = 1 => good /\ r.out = c
          /\ e.must = 1 => /\ good /\ r.parsed = 1
                           /\ r.ok = 1 \/ (m.attrs /\ \E p \in ks : p.v = "ok" /\ Lost(e, p.key))
SignOk(e, r) ==
  CASE e.op = "x_make" -> IF ~K(e.k).hasD THEN r.ok = 0
                          ELSE r.ok = 1 /\ CertGood(K(e.k), r.out) /\ CertOf(r.out).spki = PubDer(K(e.subj))
    [] e.op = "req_make" -> IF ~K(e.k).hasD THEN r.ok = 0
                            ELSE r.ok = 1 /\ Signed(r.out).ok /\ ReqGood(K(e.k), r.out) /\ ReqKey(r.out).key.Q = K(e.k).Q
    [] e.op = "x_verify" -> XOk(CertOf(e.der), CertGood(K(e.k), e.der), r) /\ (e.must = 1 => r.parsed = 1 /\ CertOf(e.der).ok)
    [] e.op = "req_verify" -> /\ e.must = 1 => r.parsed = 1 /\ Signed(e.der).ok
                              /\ IF e.k >= 0 THEN XOk(Signed(e.der), ReqGood(K(e.k), e.der), r)
                                 ELSE LET p == ReqKey(e.der) IN p.v = "ok" /\ p.full => XOk(Signed(e.der), ReqGood(p.key, e.der), r)
    [] e.op = "x_key" -> LET p == PubKey(e.der) IN
         (CASE p.v = "bad" -> r.ok = 0
           [] p.v = "unk" -> TRUE
           [] p.v = "ok" -> IF r.ok = 0 THEN e.must = 0 ELSE Encodable(p.key.cv, p.key.Q) => r.pub = PubDer(p.key))
    [] e.op = "x_chain" -> LET p == PubKey(e.ca)  l == CertOf(e.leaf)  c == CertOf(e.ca) IN
         r.ok = (IF l.issuer = c.subject /\ CertGood(p.key, e.leaf) THEN 1 ELSE 0)
    [] e.op = "m_sign" -> /\ r.ok = 1
         /\ LET m == MsgOf(r.out)  k == K(e.k) IN
            /\ m.ok /\ m.there = (e.det = 0) /\ (m.there => m.content = e.data) /\ m.attrs = (e.noattr = 0)
            /\ m.dalg = DigestOid /\ m.salg = AlgOid(k.le) /\ e.cert \in { m.certs[j] : j \in 1..Len(m.certs) }
            /\ MsgGood(k, m, e.data, {k.sb})
    [] e.op = "m_verify" -> MsgOk(e, r, MsgOf(e.der))
KnownLoss(e, r) == IF e.op = "m_verify" /\ ~Has(r, "crash") /\ r.ok = 0 /\ e.must = 1 THEN 1 ELSE 0

Init == i = 1 /\ hm = NoHm /\ st = NoKeys
Begin == Tr[i].op = "begin" /\ hm' = NoHm /\ st' = NoKeys
Load == /\ Tr[i].op = "load"
        /\ \E p \in { IF Tr[i].kind = "priv" THEN ParsePriv(Tr[i].der) ELSE ParsePub(Tr[i].der) } :
           /\ Judge(i, ~Has(Tr[i].res, "crash") /\ p.v = "ok" /\ Tr[i].res.ok = 1, [want |-> "a key"])
           /\ st' = [st EXCEPT ![Tr[i].s] = [there |-> TRUE, key |-> p.key]]
        /\ hm' = hm
Hm == /\ Tr[i].op \in HmOps
      /\ Assert(HM!CanDo(hm, Tr[i]), <<"event outside the protocol", i>>)
      /\ \E a \in {HM!Apply(hm, Tr[i])} : Judge(i, Agrees(a.res, Tr[i].res), a.res) /\ hm' = a.h
      /\ st' = st
Other == /\ Tr[i].op \in EncOps \cup SignOps \cup {"nop"}
         /\ LET e == Tr[i]  r == e.res IN
            /\ Judge(i, /\ ~Has(r, "crash")
                        /\ CASE e.op \in EncOps -> EncOk(e, r) [] e.op \in SignOps -> SignOk(e, r) [] OTHER -> TRUE, [want |-> e.op])
            /\ (KnownLoss(e, r) = 1 => Say([k |-> "note", i |-> i, p7_own_table |-> 1]))
            /\ (e.op = "p8dec" => Say([k |-> "note", i |-> i, must_refuse |-> IF ReadEpki(e.der, e.pass).v = "bad" THEN 1 ELSE 0]))
         /\ UNCHANGED << hm, st >>
Next == i <= Len(Tr) /\ (Begin \/ Load \/ Hm \/ Other) /\ i' = i + 1
End == Finish(i)
=============================================================================
