-------------------------------- MODULE EC2m --------------------------------
(***************************************************************************)
(* Elliptic curves y^2 + xy = x^3 + a x^2 + b over GF(2^m) = GF(2)[t]/p.   *)
(* A curve is a record [p, a, b, n, gx, gy] of Big values.  Nothing here    *)
(* is overridden except Mul, whose override is compared with PMul.         *)
(***************************************************************************)
EXTENDS Big

Inf == [inf |-> TRUE, x |-> BZero, y |-> BZero]
Pt(x, y) == [inf |-> FALSE, x |-> x, y |-> y]
Base(c) == Pt(c.gx, c.gy)
Degree(c) == NumBits(c.p) - 1

OnCurve(c, P) ==
  \/ P.inf
  \/ LET x2 == PMulMod(P.x, P.x, c.p)
     IN  /\ NumBits(P.x) <= Degree(c) /\ NumBits(P.y) <= Degree(c)
         /\ PXor(PMulMod(P.y, P.y, c.p), PMulMod(P.x, P.y, c.p))
              = PXor(PXor(PMulMod(x2, P.x, c.p), PMulMod(c.a, x2, c.p)), PMod(c.b, c.p))

Neg(c, P) == IF P.inf THEN P ELSE Pt(P.x, PXor(P.x, P.y))

Dbl(c, P) ==
  IF P.inf \/ P.x = BZero THEN Inf
  ELSE LET l  == PXor(P.x, PMulMod(P.y, PInv(P.x, c.p), c.p))
           x3 == PXor(PXor(PMulMod(l, l, c.p), l), c.a)
           y3 == PXor(PMulMod(P.x, P.x, c.p), PMulMod(PXor(l, BOne), x3, c.p))
       IN  Pt(x3, y3)

Add(c, P, Q) ==
  IF P.inf THEN Q ELSE IF Q.inf THEN P
  ELSE IF P.x = Q.x THEN (IF P.y = Q.y THEN Dbl(c, P) ELSE Inf)
  ELSE LET l  == PMulMod(PXor(P.y, Q.y), PInv(PXor(P.x, Q.x), c.p), c.p)
           x3 == PXor(PXor(PXor(PMulMod(l, l, c.p), l), PXor(P.x, Q.x)), c.a)
           y3 == PXor(PXor(PMulMod(l, PXor(P.x, x3), c.p), x3), P.y)
       IN  Pt(x3, y3)

RECURSIVE MulFrom(_,_,_,_,_)
MulFrom(c, k, P, i, R) ==
  IF i < 0 THEN R
  ELSE LET D == Dbl(c, R) IN MulFrom(c, k, P, i-1, IF BBit(k,i) = 1 THEN Add(c, D, P) ELSE D)
PMul(c, k, P) == MulFrom(c, k, P, NumBits(k)-1, Inf)
Mul(c, k, P) == PMul(c, k, P)                    \* (J)

RECURSIVE TraceFrom(_,_,_,_)
TraceFrom(z, p, i, r) == IF i = NumBits(p) - 1 THEN r
                         ELSE LET s == PMulMod(z, z, p) IN TraceFrom(s, p, i+1, PXor(r, s))
PTrace(z, p) == NatOf(TraceFrom(z, p, 1, z))     \* 0 or 1
Trace(z, p) == PTrace(z, p)                      \* (J)

\* half-trace: for odd m and Tr(z) = 0 a solution w of w^2 + w = z
RECURSIVE HalfFrom(_,_,_,_)
HalfFrom(z, p, i, r) == IF i > (NumBits(p) - 2) \div 2 THEN r
                        ELSE LET s2 == PMulMod(z, z, p)  s == PMulMod(s2, s2, p)
                             IN  HalfFrom(s, p, i+1, PXor(r, s))
PHalfTrace(z, p) == HalfFrom(z, p, 1, z)
HalfTrace(z, p) == PHalfTrace(z, p)              \* (J)

RECURSIVE SqrtFrom(_,_,_)
SqrtFrom(z, p, i) == IF i = NumBits(p) - 2 THEN z ELSE SqrtFrom(PMulMod(z, z, p), p, i+1)
Sqrt(z, p) == SqrtFrom(z, p, 0)                  \* z^(2^(m-1))

(* ---- DSTU 4145 point compression (6.9) and restoration (6.10) ---- *)
SetBit0(x, b) == Norm([i \in 1..MaxI(Len(x), 1) |-> IF i = 1 THEN 2*(At(x,1) \div 2) + b ELSE x[i]])

Compress(c, P) ==       \* P not infinity
  IF P.x = BZero THEN BZero
  ELSE SetBit0(P.x, Trace(PMulMod(P.y, PInv(P.x, c.p), c.p), c.p))

\* [ok, pt]; c.a must be 0 or 1, the degree odd
Expand(c, z) ==
  IF z = BZero THEN [ok |-> TRUE, pt |-> Pt(BZero, Sqrt(c.b, c.p))]
  ELSE IF NumBits(z) > Degree(c) THEN [ok |-> FALSE, pt |-> Inf]
  ELSE LET k  == BBit(z, 0)
           x0 == SetBit0(z, 0)
           ta == IF c.a = BZero THEN 0 ELSE Degree(c) % 2
           x  == IF Trace(x0, c.p) # ta THEN SetBit0(x0, 1) ELSE x0
           x2 == PMulMod(x, x, c.p)
           w  == PMulMod(PXor(PXor(PMulMod(x2, x, c.p), PMulMod(c.a, x2, c.p)), c.b), PInv(x2, c.p), c.p)
           h  == HalfTrace(w, c.p)
           h1 == IF Trace(h, c.p) = k THEN h ELSE PXor(h, BOne)
       IN  IF x = BZero \/ Trace(w, c.p) = 1 THEN [ok |-> FALSE, pt |-> Inf]
           ELSE [ok |-> TRUE, pt |-> Pt(x, PMulMod(h1, x, c.p))]
=============================================================================
