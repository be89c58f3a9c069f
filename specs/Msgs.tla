-------------------------------- MODULE Msgs --------------------------------
(***************************************************************************)
(* Messages and certificates around the DSTU algorithms, from their        *)
(* octets: encrypted private keys and CMS EncryptedData (what they hold    *)
(* for a password or key), certificates, requests, PKCS#7 and CMS          *)
(* SignedData (what is signed, by which key it is validly signed).         *)
(***************************************************************************)
EXTENDS Pbes2, FiniteSets
\* the node reached from the whole by child numbers; st # "ok" when there is none
RECURSIVE Down(_,_,_)
Down(x, n, path) ==
  IF n.st # "ok" \/ path = << >> THEN n
  ELSE LET it == Items(x, n) IN
       IF it.st # "ok" \/ Len(it.l) < path[1] THEN Bad ELSE Down(x, it.l[path[1]], Tail(path))
Whole(x) == LET n == Elem(x, 1, Len(x)) IN IF n.st = "ok" /\ n.tag = 48 /\ n.e = Len(x) THEN n ELSE Bad
Node(x, path) == Down(x, Whole(x), path)
KidsOf(x, n) == IF n.st # "ok" THEN [st |-> "bad", l |-> << >>] ELSE Items(x, n)
Tags(l) == [j \in 1..Len(l) |-> l[j].tag]

\* ---- private keys under a password
EpkiOut(alg, enc) == DSeq(alg \o DOct(enc))
ReadEpki(x, pw) ==
  LET t == KidsOf(x, Whole(x)) IN
  IF t.st # "ok" \/ Tags(t.l) # << 48, 4 >> THEN Dunno
  ELSE LET alg == Raw(x, t.l[1])  enc == Body(x, t.l[2])  p == PbeParts(alg) IN
       IF ~p.ok \/ x # EpkiOut(alg, enc) THEN Dunno
       ELSE ParsePriv(PbeOpen(p, pw, enc))
EpkiParts(x) == LET t == KidsOf(x, Whole(x)) IN
  IF t.st # "ok" \/ Tags(t.l) # << 48, 4 >> THEN No5
  ELSE LET p == PbeParts(Raw(x, t.l[1])) IN
       IF p.ok /\ x = EpkiOut(Raw(x, t.l[1]), Body(x, t.l[2])) THEN [ok |-> TRUE, p |-> p, enc |-> Body(x, t.l[2])] ELSE No5

\* ---- encrypted data
EncContent(iv, sb, enc) == DSeq(DOid(Pkcs7(1)) \o DSeq(DOid(CfbOid) \o CfbParams(iv, sb)) \o Tlv(128, enc))
EncDataOut(iv, sb, enc) == DSeq(DOid(Pkcs7(6)) \o Tlv(160, DSeq(DInt(BZero) \o EncContent(iv, sb, enc))))
\* [ok, iv, sb, enc] of the EncryptedContentInfo n
EncParts(x, n) ==
  LET iv == Down(x, n, << 2, 2, 1 >>)  sb == Down(x, n, << 2, 2, 2 >>)  en == Down(x, n, << 3 >>) IN
  IF n.st # "ok" \/ iv.st # "ok" \/ sb.st # "ok" \/ en.st # "ok" THEN No5
  ELSE LET r == [ok |-> TRUE, iv |-> Body(x, iv), sb |-> Body(x, sb), enc |-> Body(x, en)] IN
       IF Tlv(48, Body(x, n)) = EncContent(r.iv, r.sb, r.enc) THEN r ELSE No5
EncData(x) == LET p == EncParts(x, Node(x, << 2, 1, 2 >>)) IN
  IF ~p.ok THEN No5 ELSE IF x = EncDataOut(p.iv, p.sb, p.enc) THEN p ELSE No5
EnvData(x) == EncParts(x, Node(x, << 2, 1, 3 >>))
OpenData(p, key) == CfbRun(0, p.sb, key, p.iv, p.enc)

\* ---- certificates and requests: [ok, tbs, oid, alg, sig]
Signed(x) ==
  LET w == Whole(x)  t == KidsOf(x, w) IN
  IF t.st # "ok" \/ Tags(t.l) # << 48, 48, 3 >> \/ t.l[3].e < t.l[3].b THEN No5
  ELSE LET o == KidsOf(x, t.l[2]) IN
       IF o.st # "ok" \/ Len(o.l) \notin {1, 2} \/ o.l[1].tag # 6 THEN No5
       ELSE [ok |-> TRUE, tbs |-> SubSeq(x, w.b, t.l[1].e), n |-> t.l[1], oid |-> Body(x, o.l[1]), alg |-> Raw(x, t.l[2]),
             unused |-> x[t.l[3].b], sig |-> SubSeq(x, t.l[3].b + 1, t.l[3].e)]
\* the fields of a certificate's signed part: [ok, serial, alg, issuer, subject, spki]
CertOf(x) ==
  LET s == Signed(x) IN
  IF ~s.ok THEN No5
  ELSE LET t == KidsOf(x, s.n) IN
       IF t.st # "ok" \/ Len(t.l) < 7 THEN No5
       ELSE LET f == IF t.l[1].tag = 160 THEN 1 ELSE 0 IN
            IF f + 6 > Len(t.l) \/ t.l[f+1].tag # 2 \/ \E j \in 2..6 : t.l[f+j].tag # 48 THEN No5
            ELSE [ok |-> TRUE, serial |-> Body(x, t.l[f+1]), alg |-> Raw(x, t.l[f+2]), issuer |-> Raw(x, t.l[f+3]),
                  subject |-> Raw(x, t.l[f+5]), spki |-> Raw(x, t.l[f+6])]
ReqKey(x) == LET s == Signed(x)  t == KidsOf(x, IF s.ok THEN s.n ELSE Bad) IN IF t.st = "ok" /\ Len(t.l) >= 3 THEN ParsePub(Raw(x, t.l[3])) ELSE No
SignedBy(k, s) == s.oid = AlgOid(k.le) /\ s.unused = 0 /\ Verifies(k.cv, k.le, k.Q, Hash(k.sb, s.tbs), s.sig)
CertGood(k, x) == LET s == Signed(x)  c == CertOf(x) IN c.ok /\ c.alg = s.alg /\ SignedBy(k, s)
ReqGood(k, x) == SignedBy(k, Signed(x))

\* ---- signed data with one signer: [ok, there, content, dalg, salg, attrs, aset, digests, sig, certs]
AttrOid(t) == << 42, 134, 72, 134, 247, 13, 1, 9, t >>                \* 3 content type, 4 message digest
MsgOf(x) ==
  LET sd == KidsOf(x, Node(x, << 2, 1 >>)) IN
  IF Node(x, << 1 >>).st # "ok" THEN No5
  ELSE IF Body(x, Node(x, << 1 >>)) # Pkcs7(2) \/ sd.st # "ok" \/ Len(sd.l) < 4 THEN No5
  ELSE IF Tags(SubSeq(sd.l, 1, 3)) # << 2, 49, 48 >> \/ sd.l[Len(sd.l)].tag # 49 THEN No5
  ELSE IF \E j \in 4..(Len(sd.l)-1) : sd.l[j].tag \notin {160, 161} THEN No5
  ELSE
  LET en == KidsOf(x, sd.l[3])
      cs == { j \in 4..(Len(sd.l)-1) : sd.l[j].tag = 160 }
      ct == IF Cardinality(cs) # 1 THEN [st |-> "ok", l |-> << >>] ELSE KidsOf(x, sd.l[CHOOSE j \in cs : TRUE])
      si == KidsOf(x, sd.l[Len(sd.l)])
  IN IF en.st # "ok" \/ ct.st # "ok" \/ si.st # "ok" THEN No5
     ELSE IF Len(en.l) \notin {1, 2} \/ Len(si.l) # 1 THEN No5
     ELSE IF en.l[1].tag # 6 \/ (Len(en.l) = 2 /\ en.l[2].tag # 160) \/ si.l[1].tag # 48 THEN No5
     ELSE
     LET body == IF Len(en.l) = 2 THEN KidsOf(x, en.l[2]) ELSE [st |-> "ok", l |-> << >>]
         s == KidsOf(x, si.l[1])
         at == Len(s.l) > 3 /\ s.l[4].tag = 160
         f == IF at THEN 1 ELSE 0
     IN IF body.st # "ok" \/ s.st # "ok" \/ Len(s.l) < 5 + f THEN No5
        ELSE IF (Len(en.l) = 2 /\ Tags(body.l) # << 4 >>) \/ s.l[3].tag # 48 \/ s.l[4+f].tag # 48 \/ s.l[5+f].tag # 4 THEN No5
        ELSE
        LET da == Down(x, s.l[3], << 1 >>)  sa == Down(x, s.l[4+f], << 1 >>)
            as == IF at THEN KidsOf(x, s.l[4]) ELSE [st |-> "ok", l |-> << >>]
            \* every attribute is SEQUENCE { OID, SET { one or more } }, and as re-encoding would give it
            Plain(n) == LET t == KidsOf(x, n) IN n.tag = 48 /\ t.st = "ok" /\ Tags(t.l) = << 6, 49 >> /\ KidsOf(x, t.l[2]).st = "ok"
                        /\ Raw(x, n) = DSeq(DOid(Body(x, t.l[1])) \o Tlv(49, Body(x, t.l[2])))
        IN IF da.st # "ok" \/ sa.st # "ok" \/ as.st # "ok" THEN No5
           ELSE IF (at /\ as.l = << >>) \/ \E j \in 1..Len(as.l) : ~Plain(as.l[j]) THEN No5
           ELSE
           LET Vals(t) == UNION { { Body(x, KidsOf(x, KidsOf(x, as.l[j]).l[2]).l[k]) : k \in 1..Len(KidsOf(x, KidsOf(x, as.l[j]).l[2]).l) } :
                                  j \in { j \in 1..Len(as.l) : Body(x, KidsOf(x, as.l[j]).l[1]) = AttrOid(t) } }
           IN [ok |-> TRUE, there |-> Len(en.l) = 2, content |-> IF Len(en.l) = 2 THEN Body(x, body.l[1]) ELSE << >>, etype |-> Body(x, en.l[1]),
               dalg |-> Body(x, da), salg |-> Body(x, sa), attrs |-> at, aset |-> IF at THEN Tlv(49, Body(x, s.l[4])) ELSE << >>,
               digests |-> IF at THEN Vals(4) ELSE {}, sig |-> Body(x, s.l[5+f]),
               certs |-> [j \in 1..Len(ct.l) |-> Raw(x, ct.l[j])]]
\* is content c of message m validly signed by k: the content is hashed with the default table (the
\* library hashes it before it knows the signer), the attributes with the key's
MsgGood(k, m, c, atab) ==
  IF m.attrs THEN /\ m.digests = { Hash(DefaultSbox, c) }
                  /\ \E t \in atab : Verifies(k.cv, k.le, k.Q, Hash(t, m.aset), m.sig)
  ELSE Verifies(k.cv, k.le, k.Q, Hash(DefaultSbox, c), m.sig)
\* ---- making (for the model)
Attr(t, v) == DSeq(DOid(AttrOid(t)) \o Tlv(49, v))
SignedOut(k, nonce, cert, id, c, attached, attrs) ==
  LET as == Attr(3, DOid(Pkcs7(1))) \o Attr(4, DOct(Hash(DefaultSbox, c)))
      h == IF attrs THEN Hash(k.sb, Tlv(49, as)) ELSE Hash(DefaultSbox, c)
      s == SignWith(k.cv, k.d, h, nonce)
      Null == << 5, 0 >>
  IN DSeq(DOid(Pkcs7(2)) \o Tlv(160, DSeq(DInt(BOne) \o Tlv(49, DSeq(DOid(DigestOid) \o Null))
       \o DSeq(DOid(Pkcs7(1)) \o (IF attached THEN Tlv(160, DOct(c)) ELSE << >>)) \o Tlv(160, cert)
       \o Tlv(49, DSeq(DInt(BOne) \o id \o DSeq(DOid(DigestOid) \o Null) \o (IF attrs THEN Tlv(160, as) ELSE << >>)
                       \o DSeq(DOid(AlgOid(k.le)) \o Null) \o DOct(SigDer(k.cv, k.le, s.r, s.s)))))))
=============================================================================
