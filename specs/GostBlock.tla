----------------------------- MODULE GostBlock -----------------------------
(***************************************************************************)
(* GOST 28147-89 block transformation over octet strings (sequences of     *)
(* 0..255), as used by DSTU.  Written from the standard, not from the C.   *)
(* The pure definitions below are the specification; GostBlock.java gives  *)
(* TLC a faster evaluation of the operators marked (J), cross-checked      *)
(* against the definitions by SelfTest.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise

Byte == 0..255

\* The DSTU default substitution table (DKE No 1), packed two nibbles per octet.
DefaultSbox == <<
  169,214,235, 69,241, 60,112,130,   128,196,150,123, 35, 31, 94,173,
  246, 88,235,164,192, 55, 41, 29,    56,217,107,240, 37,202, 78, 23,
  248,233,114, 13,198, 21,180, 58,    40,151, 95, 11,193,222,163,100,
   56,181,100,234, 44, 23,159,208,    18, 62,109,184,250,197,121,  4 >>

IsSbox(sb) == Len(sb) = 64 /\ \A i \in 1..64 : sb[i] \in Byte

\* Node r (0..7) of the packed table applied to nibble j.  Row r occupies octets
\* 8r+1 .. 8r+8; even entries are in the high nibble.
SboxAt(sb, r, j) == LET b == sb[8*r + (j \div 2) + 1]
                    IN  IF j % 2 = 0 THEN b \div 16 ELSE b % 16

\* 32-bit words are <<low 16 bits, high 16 bits>>.
WordOf(s, i)   == << s[i] + 256*s[i+1], s[i+2] + 256*s[i+3] >>
BytesOfWord(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256 >>
XorW(a, b)     == << a[1] ^^ b[1], a[2] ^^ b[2] >>
AddW(a, b)     == LET lo == a[1] + b[1]
                      hi == a[2] + b[2] + (lo \div 65536)
                  IN  << lo % 65536, hi % 65536 >>

SubHalf(sb, r, h) == SboxAt(sb, r, h % 16) + 16 * SboxAt(sb, r+1, (h \div 16) % 16)
                     + 256 * SboxAt(sb, r+2, (h \div 256) % 16)
                     + 4096 * SboxAt(sb, r+3, (h \div 4096) % 16)
Rotl11(w) == << ((w[1] % 32) * 2048) + (w[2] \div 32), ((w[2] % 32) * 2048) + (w[1] \div 32) >>
F(sb, w) == Rotl11(<< SubHalf(sb, 0, w[1]), SubHalf(sb, 4, w[2]) >>)

\* Key word used in round i (1..32).
EncIdx(i) == IF i <= 24 THEN (i-1) % 8 ELSE 32 - i
DecIdx(i) == IF i <= 8  THEN i-1       ELSE (32 - i) % 8

RECURSIVE Rounds(_,_,_,_,_,_)
Rounds(sb, key, a, b, i, idx) ==     \* a, b: N1, N2 before round i
  IF i > 32 THEN << a, b >>
  ELSE Rounds(sb, key, XorW(b, F(sb, AddW(a, WordOf(key, 4*idx[i] + 1)))), a, i+1, idx)

Feistel(sb, key, blk, idx) ==
  LET r == Rounds(sb, key, WordOf(blk,1), WordOf(blk,5), 1, idx)
  IN  BytesOfWord(r[2]) \o BytesOfWord(r[1])    \* last round does not swap

PureEnc(sb, key, blk) == Feistel(sb, key, blk, [i \in 1..32 |-> EncIdx(i)])
PureDec(sb, key, blk) == Feistel(sb, key, blk, [i \in 1..32 |-> DecIdx(i)])

GostEnc(sb, key, blk) == PureEnc(sb, key, blk)   \* (J)
GostDec(sb, key, blk) == PureDec(sb, key, blk)   \* (J)

XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]   \* (J)
=============================================================================
