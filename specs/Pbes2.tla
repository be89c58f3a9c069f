------------------------------- MODULE Pbes2 --------------------------------
(***************************************************************************)
(* Encryption by password (PBES2, RFC 8018) over the DSTU algorithms: the  *)
(* algorithm identifier, the key from PBKDF2 with HMAC-DSTU 34.311, the    *)
(* data in the cipher's stream mode with the table of the identifier.      *)
(***************************************************************************)
EXTENDS KeyCodec
XOp(a, b) == XorBytes(<< a >>, << b >>)[1]
NoDer(iv, t) == << >>
NoParse(d) == [ok |-> FALSE, iv |-> << >>, table |-> << >>]
Cf == INSTANCE CipherSpec WITH B <- 8, BlockEnc <- GostEnc, XorOctet <- XOp, DefaultTable <- DefaultSbox, TableSize <- 64,
         ZeroIv <- << 0,0,0,0,0,0,0,0 >>, ParamDer <- NoDer, ParamParse <- NoParse
CfbRun(enc, sb, key, iv, data) ==
  IF data = << >> THEN << >>
  ELSE Cf!Stream(Cf!Restart([Cf!Setup(enc) EXCEPT !.key = key, !.iv = iv, !.sb = sb]), data, << >>).out
Pkcs5(t) == << 42, 134, 72, 134, 247, 13, 1, 5, t >>                 \* 1.2.840.113549.1.5.t: 12 PBKDF2, 13 PBES2
Pkcs7(t) == << 42, 134, 72, 134, 247, 13, 1, 7, t >>          \* 1.2.840.113549.1.7.t: 1 data, 6 encrypted data
HmacOid == << 42, 134, 36, 2, 1, 1, 1, 1, 1, 2 >>                    \* 1.2.804.2.1.1.1.1.1.2
DigestOid == << 42, 134, 36, 2, 1, 1, 1, 1, 2, 1 >>                  \* 1.2.804.2.1.1.1.1.2.1
CfbOid == << 42, 134, 36, 2, 1, 1, 1, 1, 1, 1, 3 >>                  \* 1.2.804.2.1.1.1.1.1.1.3
CfbParams(iv, sb) == DSeq(DOct(iv) \o DOct(sb))
PbeAlg(salt, iter, iv, sb) ==
  DSeq(DOid(Pkcs5(13)) \o DSeq(
    DSeq(DOid(Pkcs5(12)) \o DSeq(DOct(salt) \o DInt(BigOf(iter)) \o DSeq(DOid(HmacOid) \o << 5, 0 >>)))
    \o DSeq(DOid(CfbOid) \o CfbParams(iv, sb))))
PbeSeal(pw, salt, iter, iv, sb, plain) == CfbRun(1, sb, Pbkdf2(pw, salt, iter, 32), iv, plain)
\* the parts of an algorithm identifier, when it is of this kind and plainly encoded: [ok, salt, iter, iv, sb]
No5 == [ok |-> FALSE]
PbeParts(alg) ==
  LET T(n, l) == Len(l) = Len(n) /\ \A j \in 1..Len(l) : l[j].tag = n[j]
      Kids(n) == Items(alg, n)
      a == Elem(alg, 1, Len(alg))
  IN
  IF a.st # "ok" \/ a.tag # 48 \/ a.e # Len(alg) THEN No5
  ELSE LET t == Kids(a) IN
  IF t.st # "ok" \/ ~T(<< 6, 48 >>, t.l) \/ Body(alg, t.l[1]) # Pkcs5(13) THEN No5
  ELSE LET q == Kids(t.l[2]) IN
  IF q.st # "ok" \/ ~T(<< 48, 48 >>, q.l) THEN No5
  ELSE LET kd == Kids(q.l[1])  en == Kids(q.l[2]) IN
  IF kd.st # "ok" \/ en.st # "ok" \/ ~T(<< 6, 48 >>, kd.l) \/ ~T(<< 6, 48 >>, en.l) THEN No5
  ELSE IF Body(alg, kd.l[1]) # Pkcs5(12) \/ Body(alg, en.l[1]) # CfbOid THEN No5
  ELSE LET kp == Kids(kd.l[2])  ep == Kids(en.l[2]) IN
  IF kp.st # "ok" \/ ep.st # "ok" \/ ~T(<< 4, 2, 48 >>, kp.l) \/ ~T(<< 4, 4 >>, ep.l) THEN No5
  ELSE LET pr == Kids(kp.l[3])  iter == IntOf(Body(alg, kp.l[2]))  iv == Body(alg, ep.l[1])  sb == Body(alg, ep.l[2]) IN
  IF pr.st # "ok" \/ ~iter.ok \/ Len(iv) # 8 \/ Len(sb) # 64 THEN No5
  ELSE IF Len(pr.l) # 2 \/ pr.l[1].tag # 6 \/ Body(alg, pr.l[1]) # HmacOid \/ pr.l[2].tag # 5 THEN No5
  ELSE IF iter.neg \/ iter.v = BZero \/ NumBits(iter.v) > 16 THEN No5
  ELSE [ok |-> TRUE, salt |-> Body(alg, kp.l[1]), iter |-> NatOf(iter.v), iv |-> iv, sb |-> sb]
PbeOpen(p, pw, enc) == CfbRun(0, p.sb, Pbkdf2(pw, p.salt, p.iter, 32), p.iv, enc)
=============================================================================
