-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size, and polynomials over GF(2), as little-     *)
(* endian octet sequences without trailing zero octets (0 is << >>).  TLC's *)
(* integers are 32 bits wide, the curves of DSTU 4145 need up to 432.      *)
(* Pure definitions are the meaning; Big.java evaluates the operators      *)
(* marked (J) with java.math.BigInteger and SelfTest compares them.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Bitwise

RECURSIVE Norm(_)
Norm(s) == IF s = << >> THEN s ELSE IF s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s)-1)) ELSE s

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN << >> ELSE << n % 256 >> \o BigOf(n \div 256)
RECURSIVE NatOf(_)
NatOf(b) == IF b = << >> THEN 0 ELSE b[1] + 256 * NatOf(Tail(b))   \* small values only
BZero == << >>
BOne == << 1 >>

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE PBAddC(_,_,_,_)
PBAddC(a, b, i, c) == IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN << >> ELSE << c >>)
                      ELSE LET t == At(a,i) + At(b,i) + c IN << t % 256 >> \o PBAddC(a, b, i+1, t \div 256)
PBAdd(a, b) == Norm(PBAddC(a, b, 1, 0))
BAdd(a, b) == PBAdd(a, b)                                  \* (J)

RECURSIVE PBCmpAt(_,_,_)
PBCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE PBCmpAt(a, b, i-1)
PBCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE PBCmpAt(a, b, Len(a))
BCmp(a, b) == PBCmp(a, b)                                  \* (J)

RECURSIVE PBSubC(_,_,_,_)
PBSubC(a, b, i, c) == IF i > Len(a) THEN << >>
                      ELSE LET t == a[i] - At(b,i) - c
                           IN  << IF t < 0 THEN t + 256 ELSE t >> \o PBSubC(a, b, i+1, IF t < 0 THEN 1 ELSE 0)
PBSub(a, b) == Norm(PBSubC(a, b, 1, 0))                    \* a >= b
BSub(a, b) == PBSub(a, b)                                  \* (J)

BitLenByte(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
                 ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE x
NumBits(a) == IF a = << >> THEN 0 ELSE 8*(Len(a)-1) + BitLenByte(a[Len(a)])
Pow2(k) == << 1,2,4,8,16,32,64,128 >>[k+1]
BBit(a, i) == IF i \div 8 + 1 > Len(a) THEN 0 ELSE (a[i \div 8 + 1] \div Pow2(i % 8)) % 2

\* keep only bits 0..k-1
PTruncBits(a, k) ==
  Norm([i \in 1..(IF Len(a) < (k+7) \div 8 THEN Len(a) ELSE (k+7) \div 8) |->
          IF i = k \div 8 + 1 /\ k % 8 # 0 THEN a[i] % Pow2(k % 8) ELSE a[i]])
TruncBits(a, k) == PTruncBits(a, k)                        \* (J)

\* shift left by one bit
RECURSIVE PShl1C(_,_,_)
PShl1C(a, i, c) == IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
                   ELSE << (2*a[i] + c) % 256 >> \o PShl1C(a, i+1, (2*a[i] + c) \div 256)
PShl1(a) == PShl1C(a, 1, 0)

\* a mod n, a*b mod n by binary long division / double-and-add
RECURSIVE PModFrom(_,_,_,_)
PModFrom(a, n, i, r) ==      \* i: next bit of a (descending), r: remainder so far
  IF i < 0 THEN r
  ELSE LET d == PBAdd(PShl1(r), IF BBit(a,i) = 1 THEN BOne ELSE BZero)
       IN  PModFrom(a, n, i-1, IF PBCmp(d, n) >= 0 THEN PBSub(d, n) ELSE d)
PBMod(a, n) == PModFrom(a, n, NumBits(a)-1, BZero)
BMod(a, n) == PBMod(a, n)                                  \* (J)
POnce(x, n) == IF PBCmp(x, n) >= 0 THEN PBSub(x, n) ELSE x     \* x < 2n
RECURSIVE PMulFrom(_,_,_,_,_)
PMulFrom(a, b, n, i, r) ==
  IF i < 0 THEN r
  ELSE LET d == POnce(PShl1(r), n)
       IN  PMulFrom(a, b, n, i-1, IF BBit(b,i) = 1 THEN POnce(PBAdd(d, a), n) ELSE d)
PBMulMod(a, b, n) == PMulFrom(PBMod(a, n), b, n, NumBits(b)-1, BZero)
BMulMod(a, b, n) == PBMulMod(a, b, n)                      \* (J)

(* ---- polynomials over GF(2) modulo p ---- *)
PPXor(a, b) == Norm([i \in 1..MaxI(Len(a), Len(b)) |-> At(a,i) ^^ At(b,i)])
PXor(a, b) == PPXor(a, b)                                  \* (J)

RECURSIVE PPModFrom(_,_,_,_)
PPModFrom(a, p, i, r) ==
  IF i < 0 THEN r
  ELSE LET d == PPXor(PShl1(r), IF BBit(a,i) = 1 THEN BOne ELSE BZero)
       IN  PPModFrom(a, p, i-1, IF NumBits(d) = NumBits(p) THEN PPXor(d, p) ELSE d)
PPMod(a, p) == PPModFrom(a, p, NumBits(a)-1, BZero)
PMod(a, p) == PPMod(a, p)                                  \* (J)
PPOnce(x, p) == IF NumBits(x) = NumBits(p) THEN PPXor(x, p) ELSE x
RECURSIVE PPMulFrom(_,_,_,_,_)
PPMulFrom(a, b, p, i, r) ==
  IF i < 0 THEN r
  ELSE LET d == PPOnce(PShl1(r), p)
       IN  PPMulFrom(a, b, p, i-1, IF BBit(b,i) = 1 THEN PPXor(d, a) ELSE d)
PPMulMod(a, b, p) == PPMulFrom(PPMod(a,p), b, p, NumBits(b)-1, BZero)
PMulMod(a, b, p) == PPMulMod(a, b, p)                      \* (J)

\* a^(2^m - 2), the inverse in GF(2^m); p irreducible of degree m
RECURSIVE PPInvFrom(_,_,_,_)
PPInvFrom(sq, p, i, r) ==    \* r = a^(2^1 + ... + 2^i), sq = a^(2^i)
  IF i = NumBits(p) - 2 THEN r
  ELSE LET s2 == PMulMod(sq, sq, p) IN PPInvFrom(s2, p, i+1, PMulMod(r, s2, p))
PPInv(a, p) == PPInvFrom(a, p, 0, BOne)
PInv(a, p) == PPInv(a, p)                                  \* (J)

\* fixed-width octet strings
LePad(a, w) == [i \in 1..w |-> At(a, i)]
BePad(a, w) == Rev(LePad(a, w))
BigLe(s) == Norm(s)
BigBe(s) == Norm(Rev(s))
=============================================================================
