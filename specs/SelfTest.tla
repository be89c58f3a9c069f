------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The machinery's own check: every operator for which TLC is given a Java *)
(* evaluation agrees with its TLA+ definition on pseudo-random and edge    *)
(* values; the definitions reproduce published test vectors; the curve     *)
(* table is consistent.                                                    *)
(***************************************************************************)
EXTENDS HashFn, Rbg, Curves, Dstu4145, Sha1, TLC, Integers

\* small deterministic generator
RECURSIVE Rnd(_,_)
Rnd(x, n) == IF n = 0 THEN << >> ELSE LET y == (x * 16807 + 12345) % 65521 IN << (y \div 7) % 256 >> \o Rnd(y, n-1)

\* GostR3411_94_TestParamSet of RFC 5831 packed in our format (row 1 first)
TestRows == <<
 <<4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3>>, <<14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9>>,
 <<5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11>>, <<7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3>>,
 <<6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2>>, <<4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14>>,
 <<13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12>>, <<1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12>> >>
TestSbox == [i \in 1..64 |-> LET r == TestRows[(i-1) \div 8 + 1]  j == 2*((i-1) % 8) IN 16*r[j+1] + r[j+2]]

Msg32 == <<84,104,105,115,32,105,115,32,109,101,115,115,97,103,101,44,32,108,101,110,103,116,104,61,51,50,32,98,121,116,101,115>>
LenBlock(n) == [i \in 1..32 |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN n \div 256 ELSE 0]
\* RFC 5831 7.3.1: printed least significant octet first as usual implementations do
VecExpected == <<177,196,102,211,117,25,184,46,131,25,129,159,243,37,149,224,71,162,140,182,248,62,255,28,105,22,168,21,166,55,255,250>>
VecOk == LET h == PureStep(TestSbox, Zero32, Msg32)
             l == PureStep(TestSbox, h, LenBlock(256))
         IN  PureStep(TestSbox, l, Msg32) = VecExpected

Sbs == << DefaultSbox, Rnd(77, 64), TestSbox >>
BlockOk == \A i \in 1..3 : \A s \in {1, 5, 99} :
   LET k == Rnd(s, 32)  b == Rnd(s+1, 8)
   IN /\ GostEnc(Sbs[i], k, b) = PureEnc(Sbs[i], k, b)
      /\ GostDec(Sbs[i], k, b) = PureDec(Sbs[i], k, b)
      /\ PureDec(Sbs[i], k, PureEnc(Sbs[i], k, b)) = b
HashOk == \A i \in 1..3 : \A s \in {3, 8} :
   LET h == Rnd(s, 32)  m == Rnd(s+1, 32)  d == Rnd(s+2, 96)
   IN /\ HashStep(Sbs[i], h, m) = PureStep(Sbs[i], h, m)
      /\ Add256(h, m) = PureAdd256(h, m)
      /\ Absorb(Sbs[i], h, m, d) = PureAbsorb(Sbs[i], h, m, d)
      /\ AbsorbRep(Sbs[i], h, m, SubSeq(d,1,64), 2) = PureAbsorbRep(Sbs[i], h, m, SubSeq(d,1,64), 2)
AddEdge == Add256([i \in 1..32 |-> 255], [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0]) = Zero32

Nums == { << >>, <<1>>, <<255>>, <<0,1>>, Norm(Rnd(4, 5)), Norm(Rnd(9, 9)), Norm(Rnd(11, 17)) }
Mods == { <<7>>, <<1,1>>, Norm(Rnd(21,9)) }
NumOk == /\ \A a \in Nums, b \in Nums :
              /\ BAdd(a,b) = PBAdd(a,b) /\ BCmp(a,b) = PBCmp(a,b) /\ PXor(a,b) = PPXor(a,b)
              /\ (PBCmp(a,b) >= 0) => BSub(a,b) = PBSub(a,b)
         /\ \A a \in Nums, n \in Mods : BMod(a,n) = PBMod(a,n)
         /\ \A a \in Nums, k \in {1, 5, 8, 9, 64, 300} : TruncBits(a,k) = PTruncBits(a,k)
         /\ \A a \in Nums, b \in {<<5>>, Norm(Rnd(9,9))}, n \in Mods : BMulMod(a,b,n) = PBMulMod(a,b,n)
Polys == { <<11>>, <<37>>, <<27, 1>>, NamedCurve[1].p }
PolyOk == /\ \A a \in Nums, p \in Polys : PMod(a,p) = PPMod(a,p)
          /\ \A a \in Nums, b \in {<<5>>, Norm(Rnd(9,9))}, p \in Polys : PMulMod(a,b,p) = PPMulMod(a,b,p)
          /\ \A a \in Nums \ {<< >>}, p \in Polys : LET x == PMod(a,p) IN x # BZero => PInv(x,p) = PPInv(x,p) /\ PMulMod(x, PInv(x,p), p) = BOne
          /\ \A a \in Nums, p \in Polys : LET x == PMod(a,p) IN Trace(x,p) = PTrace(x,p) /\ HalfTrace(x,p) = PHalfTrace(x,p)
\* a tiny curve in full: y^2+xy = x^3+x^2+1 over GF(2^5)
Tiny == [p |-> <<37>>, a |-> <<1>>, b |-> <<1>>, n |-> <<11>>, gx |-> <<1>>, gy |-> <<1>>]
TinyPts == {Inf} \cup {P \in {Pt(BigOf(i), BigOf(j)) : i \in 0..31, j \in 0..31} : OnCurve(Tiny, P)}
MulOk == /\ \A P \in TinyPts, k \in 0..23 : Mul(Tiny, BigOf(k), P) = PMul(Tiny, BigOf(k), P)
         /\ \A i \in {1, 7} : LET c == NamedCurve[i]  k == Norm(Rnd(i+40, 19)) IN Mul(c, k, Base(c)) = PMul(c, k, Base(c))
CurvesOk == \A i \in 1..10 : CurveOk(NamedCurve[i]) /\ Degree(NamedCurve[i]) = FieldDegrees[i]

RbgOk == \A s \in {2, 31} : RbgRun(Rnd(s, 32), Rnd(s+1, 8), Rnd(s+2, 8), 5) = PRbgRun(Rnd(s, 32), Rnd(s+1, 8), Rnd(s+2, 8), 5)
\* "abc"
ShaVec == PSha1(<< 97, 98, 99 >>) = << 169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157 >>
ShaOk == /\ \A n \in {0, 1, 55, 56, 63, 64, 65, 119, 120, 200} : Sha1(Rnd(n+3, n)) = PSha1(Rnd(n+3, n))
         /\ Sha1Times(Rnd(5, 30), 3) = PSha1Times(Rnd(5, 30), 3)
TimesOk == \A n \in {0, 1, 31, 32, 33, 70} : HashTimes(Sbs[2], Rnd(n+1, n), 4) = PHashTimes(Sbs[2], Rnd(n+1, n), 4)
MacOk == /\ \A n \in {0, 1, 31, 32, 33, 70} : Hmac(Rnd(n+1, n), Rnd(n+9, 2*n)) = PHmac(Rnd(n+1, n), Rnd(n+9, 2*n))
         /\ \A n \in {0, 8, 40} : Pbkdf2Block(Rnd(n+1, n), Rnd(n+2, n+1), 3, n+1) = PPbkdf2Block(Rnd(n+1, n), Rnd(n+2, n+1), 3, n+1)
T(name, ok) == PrintT(<<"SELFTEST", name, ok>>)
VARIABLE done
Init == /\ done = TRUE
        /\ T("rfc5831 vector", VecOk) /\ T("block", BlockOk) /\ T("hash", HashOk /\ AddEdge)
        /\ T("numbers", NumOk) /\ T("polynomials", PolyOk) /\ T("points", MulOk) /\ T("generator", RbgOk) /\ T("curves", CurvesOk)
        /\ T("sha1", ShaVec /\ ShaOk) /\ T("repeated hash", TimesOk) /\ T("hmac", MacOk)
Next == UNCHANGED done
=============================================================================
