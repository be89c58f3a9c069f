------------------------------ MODULE Dstu4145 ------------------------------
(***************************************************************************)
(* DSTU 4145-2002 keys, signatures and their verification, as relations    *)
(* over octet strings.  Points, curves and numbers are those of EC2m/Big.  *)
(***************************************************************************)
EXTENDS EC2m

OrderBytes(c) == (NumBits(c.n) + 7) \div 8
FieldBytes(c) == (Degree(c) + 7) \div 8

\* Public key of private value d
PubOf(c, d) == Neg(c, Mul(c, d, Base(c)))

\* hash octets -> field element: little-endian integer cut to m bits, never 0
HashToField(c, h) == LET v == TruncBits(BigLe(h), Degree(c)) IN IF v = BZero THEN BOne ELSE v
FieldToNum(c, y) == TruncBits(y, NumBits(c.n) - 1)

\* value of r for hash h and point R
RFor(c, h, R) == FieldToNum(c, PMulMod(HashToField(c, h), R.x, c.p))

\* the signature with nonce e, or fail when this e must be rejected
SignWith(c, d, h, e) ==
  LET R == Mul(c, e, Base(c))
      r == IF R.inf THEN BZero ELSE RFor(c, h, R)
      s == BMod(BAdd(e, BMulMod(d, r, c.n)), c.n)
  IN  IF R.inf \/ R.x = BZero \/ r = BZero \/ s = BZero
      THEN [ok |-> FALSE, r |-> BZero, s |-> BZero]
      ELSE [ok |-> TRUE, r |-> r, s |-> s]

ValidPair(c, Q, h, r, s) ==
  /\ r # BZero /\ s # BZero /\ BCmp(r, c.n) < 0 /\ BCmp(s, c.n) < 0
  /\ LET R == Add(c, Mul(c, s, Base(c)), Mul(c, r, Q))
     IN  ~R.inf /\ RFor(c, h, R) = r

\* nonce behind a signature by d
NonceOf(c, d, r, s) ==
  LET dr == BMulMod(d, r, c.n)
  IN  IF BCmp(s, dr) >= 0 THEN BSub(s, dr) ELSE BSub(BAdd(s, c.n), dr)

(* ---- signature octets ---- *)
\* s then r, each of the byte length of n, most significant octet first; the
\* little-endian algorithm reverses the whole string
SigBody(c, le, r, s) == LET b == BePad(s, OrderBytes(c)) \o BePad(r, OrderBytes(c)) IN IF le THEN Rev(b) ELSE b
SigDer(c, le, r, s) == LET b == SigBody(c, le, r, s) IN << 4, Len(b) >> \o b     \* length always < 128
SigSize(c) == 2 + 2 * OrderBytes(c)

\* definite-length OCTET STRING at the front of x: [ok, body]
OctetString(x) ==
  LET bad == [ok |-> FALSE, body |-> << >>]
  IN IF Len(x) < 2 \/ x[1] # 4 THEN bad
     ELSE IF x[2] < 128
     THEN (IF Len(x) < 2 + x[2] THEN bad ELSE [ok |-> TRUE, body |-> SubSeq(x, 3, 2 + x[2])])
     ELSE LET k == x[2] - 128
          IN IF k = 0 \/ k > 2 \/ Len(x) < 2 + k THEN bad
             ELSE LET n == NatOf(Rev(SubSeq(x, 3, 2 + k)))
                  IN IF Len(x) < 2 + k + n THEN bad
                     ELSE [ok |-> TRUE, body |-> SubSeq(x, 3 + k, 2 + k + n)]

\* what verification answers for signature octets x
Verifies(c, le, Q, h, x) ==
  LET o    == OctetString(x)
      raw  == IF o.ok THEN o.body ELSE x
      half == Len(raw) \div 2
      be   == IF le THEN Rev(raw) ELSE raw
  IN  /\ Len(raw) % 2 = 0
      /\ Len(raw) >= 2 * OrderBytes(c)
      /\ ValidPair(c, Q, h, BigBe(SubSeq(be, half + 1, 2 * half)), BigBe(SubSeq(be, 1, half)))
=============================================================================
