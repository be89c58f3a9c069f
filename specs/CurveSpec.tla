------------------------------ MODULE CurveSpec -----------------------------
(***************************************************************************)
(* The table of named curves as a thing to be questioned: start from a     *)
(* named curve, change one parameter (flip a, one bit of b or of n, take   *)
(* another base point, another field polynomial) and look at what the      *)
(* result denotes and how it is encoded.                                   *)
(***************************************************************************)
EXTENDS KeyCodec
CONSTANTS Bits              \* which bits of b and n are changed
VARIABLES i, c, what
vars == << i, c, what >>

\* Miller-Rabin for one base: n = 2^s q + 1
RECURSIVE Twos(_,_)
Twos(v, j) == IF BBit(v, j) = 1 THEN j ELSE Twos(v, j + 1)
RECURSIVE ShrK(_,_)
ShrK(v, k) == [j \in 1..((NumBits(v) - k + 7) \div 8) |->
                 LET b(t) == IF 8*(j-1) + t + k < NumBits(v) THEN BBit(v, 8*(j-1) + t + k) ELSE 0
                 IN b(0) + 2*b(1) + 4*b(2) + 8*b(3) + 16*b(4) + 32*b(5) + 64*b(6) + 128*b(7)]
RECURSIVE PowMod(_,_,_,_,_)
PowMod(x, e, n, j, acc) == IF j < 0 THEN acc
                           ELSE LET q == BMulMod(acc, acc, n) IN PowMod(x, e, n, j - 1, IF BBit(e, j) = 1 THEN BMulMod(q, x, n) ELSE q)
RECURSIVE SquaresTo(_,_,_,_)
SquaresTo(x, n, k, m1) == x = m1 \/ (k > 1 /\ SquaresTo(BMulMod(x, x, n), n, k - 1, m1))
Strong(n, w) == LET m1 == BSub(n, BOne)  s == Twos(m1, 0)  q == ShrK(m1, s)
                    x == PowMod(BigOf(w), q, n, NumBits(q) - 1, BOne)
                IN x = BOne \/ SquaresTo(x, n, s, m1)
ProbablyPrime(n) == \A w \in {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} : Strong(n, w)

FlipBit(v, j) == PXor(v, [t \in 1..(j \div 8 + 1) |-> IF t = j \div 8 + 1 THEN Pow2(j % 8) ELSE 0])
Fits(x) == OnCurve(x, Base(x))

Init == i \in 1..10 /\ c = NamedCurve[i] /\ what = "named"
FlipA == what = "named" /\ c' = [c EXCEPT !.a = IF @ = BZero THEN BOne ELSE BZero] /\ what' = "a" /\ i' = i
ChangeB == what = "named" /\ \E j \in Bits : j < Degree(c) /\ c' = [c EXCEPT !.b = FlipBit(@, j)] /\ what' = "b" /\ i' = i
ChangeN == what = "named" /\ \E j \in Bits : j < NumBits(c.n) /\ c' = [c EXCEPT !.n = FlipBit(@, j)] /\ what' = "n" /\ i' = i
OtherG == what = "named" /\ \E k \in {2, 3, 5, 100} :
            LET P == Mul(c, BigOf(k), Base(c)) IN c' = [c EXCEPT !.gx = P.x, !.gy = P.y] /\ what' = "g" /\ i' = i
NegG == what = "named" /\ c' = [c EXCEPT !.gy = PXor(c.gx, @)] /\ what' = "g" /\ i' = i
OtherP == what = "named" /\ \E j \in 1..10 : c' = [c EXCEPT !.p = NamedCurve[j].p] /\ c'.p # c.p /\ what' = "p" /\ i' = i
Next == FlipA \/ ChangeB \/ ChangeN \/ OtherG \/ NegG \/ OtherP

\* the named ones are what the standard says they are
NamedSound ==
  what = "named" =>
    /\ Degree(c) = FieldDegrees[i] /\ PrimeNat(Degree(c)) /\ Frob(<< 2 >>, c.p, Degree(c)) = << 2 >>
    /\ c.a \in {BZero, BOne} /\ c.b # BZero /\ CurveOk(c) /\ ProbablyPrime(c.n)
    \* cofactor 2 (a = 1) or 4 (a = 0): n is about 2^m over it
    /\ NumBits(c.n) \in (IF c.a = BOne THEN {Degree(c) - 1, Degree(c)} ELSE {Degree(c) - 2, Degree(c) - 1})
    /\ NamedIndex(c) = {i}
    /\ SigSize(c) = 2 + 2 * ((NumBits(c.n) + 7) \div 8)
\* given by name or explicitly it is the same curve, in either byte order
Denotes(der, le) == LET n == Elem(der, 1, Len(der)) IN ParseParams(der, n, le)
NamedRead ==
  what = "named" => \A le \in BOOLEAN : \A der \in ParamForms(le, c, DefaultSbox) :
    LET p == Denotes(der, le) IN p.v = "ok" /\ p.full /\ p.cv = c /\ ParamsDer(le, p.cv, p.sb) = DSeq(DOid(CurveOid(i - 1)))
\* a changed one is not the named one, and what it is read as is not either
Different ==
  what # "named" =>
    /\ NamedIndex(c) = {}
    /\ Fits(c) => \A le \in BOOLEAN :
         LET p == Denotes(ParamsDer(le, c, DefaultSbox), le)
         IN p.v = "ok" => NamedIndex(p.cv) = {} /\ p.cv = c
\* with a valid order only the change of the base point leaves a sound curve
StillSound == what \in {"g"} => Sound(c)
=============================================================================
