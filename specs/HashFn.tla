------------------------------- MODULE HashFn -------------------------------
(***************************************************************************)
(* The DSTU 34.311 digest of a whole message, by DigestSpec's transitions: *)
(* what an init, one update and a final yield.  Also HMAC and PBKDF2 over  *)
(* it (RFC 2104, RFC 8018).                                                *)
(***************************************************************************)
EXTENDS Gost34311, Big
LenB(blocks, r) == << 8 * r >> \o LePad(BigOf(blocks), 31)
HF == INSTANCE DigestSpec WITH B <- 32, FinalStep <- HashStep, SumAdd <- Add256, ZeroBlock <- Zero32,
                         LenBlock <- LenB, DefaultTable <- DefaultSbox, TableSize <- 64
Hash(sb, m) == HF!Value(HF!Upd([HF!Fresh EXCEPT !.sb = sb], m))

\* the digest of the digest of ... m, n times
RECURSIVE PHashTimes(_,_,_)
PHashTimes(sb, m, n) == IF n = 0 THEN m ELSE PHashTimes(sb, Hash(sb, m), n-1)
HashTimes(sb, m, n) == PHashTimes(sb, m, n)              \* (J)

HmacBlock(k) == LET k0 == IF Len(k) > 32 THEN Hash(DefaultSbox, k) ELSE k
                IN  [i \in 1..32 |-> IF i <= Len(k0) THEN k0[i] ELSE 0]
Rep32(v) == [i \in 1..32 |-> v]
PHmac(k, m) == LET b == HmacBlock(k)
              IN  Hash(DefaultSbox, XorBytes(b, Rep32(92)) \o Hash(DefaultSbox, XorBytes(b, Rep32(54)) \o m))
Hmac(k, m) == PHmac(k, m)                                \* (J)
RECURSIVE Pbkdf2Iter(_,_,_,_)
Pbkdf2Iter(pw, u, acc, n) == IF n = 0 THEN acc ELSE LET v == PHmac(pw, u) IN Pbkdf2Iter(pw, v, XorBytes(acc, v), n-1)
PPbkdf2Block(pw, salt, iter, i) == LET u == PHmac(pw, salt \o BePad(BigOf(i), 4)) IN Pbkdf2Iter(pw, u, u, iter-1)
Pbkdf2Block(pw, salt, iter, i) == PPbkdf2Block(pw, salt, iter, i)   \* (J)
RECURSIVE Pbkdf2From(_,_,_,_,_)
Pbkdf2From(pw, salt, iter, len, i) ==
  IF len <= 0 THEN << >>
  ELSE SubSeq(Pbkdf2Block(pw, salt, iter, i), 1, IF len < 32 THEN len ELSE 32) \o Pbkdf2From(pw, salt, iter, len - 32, i+1)
Pbkdf2(pw, salt, iter, len) == Pbkdf2From(pw, salt, iter, len, 1)
=============================================================================
