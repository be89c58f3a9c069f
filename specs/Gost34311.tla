----------------------------- MODULE Gost34311 -----------------------------
(***************************************************************************)
(* GOST 34.311-95 (GOST R 34.11-94) step function, from the text of the    *)
(* standard / RFC 5831.  256-bit values are 32-octet sequences, octet 1    *)
(* being the least significant.                                            *)
(***************************************************************************)
EXTENDS GostBlock, FiniteSets

Zero32 == [i \in 1..32 |-> 0]

\* P: octet phi(i) moves; (i+1)+4(k-1) <- 8i+k
PTransform(y) == [n \in 1..32 |-> LET i == (n-1) % 4  k == (n-1) \div 4 + 1 IN y[8*i + k]]
\* A: y4||y3||y2||y1 -> (y1 xor y2)||y4||y3||y2
ATransform(y) == SubSeq(y, 9, 32) \o [i \in 1..8 |-> y[i] ^^ y[i+8]]
\* C3 is ff00ffff000000ffff0000ff00ffff00ff00ff00ff00ff00ff00ff0000ff00ff... ; C2 = C4 = 0
C3 == [i \in 1..32 |-> IF i-1 \in {31,29,28,24,23,20,18,17,14,12,10,8,7,5,3,1} THEN 255 ELSE 0]

Keys(H, M) ==
  LET U1 == H               V1 == M
      U2 == ATransform(U1)  V2 == ATransform(ATransform(V1))
      U3 == XorBytes(ATransform(U2), C3)  V3 == ATransform(ATransform(V2))
      U4 == ATransform(U3)  V4 == ATransform(ATransform(V3))
  IN  << PTransform(XorBytes(U1,V1)), PTransform(XorBytes(U2,V2)),
         PTransform(XorBytes(U3,V3)), PTransform(XorBytes(U4,V4)) >>

\* psi over sixteen 16-bit words, least significant first (octet pairs)
Psi(y) == SubSeq(y, 3, 32) \o
          [b \in 1..2 |-> ((y[b] ^^ y[2+b]) ^^ (y[4+b] ^^ y[6+b])) ^^ (y[24+b] ^^ y[30+b])]
RECURSIVE PsiN(_,_)
PsiN(y, n) == IF n = 0 THEN y ELSE PsiN(Psi(y), n-1)

PureStep(sb, H, M) ==
  LET K == Keys(H, M)
      S == PureEnc(sb, K[1], SubSeq(H,1,8)) \o PureEnc(sb, K[2], SubSeq(H,9,16)) \o
           PureEnc(sb, K[3], SubSeq(H,17,24)) \o PureEnc(sb, K[4], SubSeq(H,25,32))
  IN  PsiN(XorBytes(H, Psi(XorBytes(M, PsiN(S, 12)))), 61)

HashStep(sb, H, M) == PureStep(sb, H, M)   \* (J)

\* Checksum: addition modulo 2^256, octet 1 least significant.
RECURSIVE AddCarry(_,_,_,_)
AddCarry(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET t == a[i] + b[i] + c IN << t % 256 >> \o AddCarry(a, b, i+1, t \div 256)
PureAdd256(a, b) == AddCarry(a, b, 1, 0)
Add256(a, b) == PureAdd256(a, b)          \* (J)

(* The two running values after absorbing whole blocks one after another.  *)
RECURSIVE PureAbsorb(_,_,_,_)
PureAbsorb(sb, H, S, data) ==
  IF Len(data) < 32 THEN << H, S >>
  ELSE LET m == SubSeq(data, 1, 32)
       IN  PureAbsorb(sb, HashStep(sb, H, m), Add256(S, m), SubSeq(data, 33, Len(data)))
Absorb(sb, H, S, data) == PureAbsorb(sb, H, S, data)  \* (J)

(* The same for a 32k-octet pattern repeated n times (n given as k1*k2).    *)
RECURSIVE PureAbsorbRep(_,_,_,_,_)
PureAbsorbRep(sb, H, S, pat, n) ==
  IF n = 0 THEN << H, S >>
  ELSE LET r == Absorb(sb, H, S, pat) IN PureAbsorbRep(sb, r[1], r[2], pat, n-1)
AbsorbRep(sb, H, S, pat, n) == PureAbsorbRep(sb, H, S, pat, n)  \* (J)
=============================================================================
