-------------------------------- MODULE Der --------------------------------
(***************************************************************************)
(* DER out (exact), and a reader for what may come in.  The reader answers *)
(* "bad" for octets no encoding of the element can begin with, "unk" for   *)
(* forms it does not follow (high tag numbers, indefinite lengths,         *)
(* constructed strings), and otherwise the element, minimal length or not. *)
(***************************************************************************)
EXTENDS Big

RECURSIVE DLenOct(_)
DLenOct(n) == IF n = 0 THEN << >> ELSE DLenOct(n \div 256) \o << n % 256 >>
DLen(n) == IF n < 128 THEN << n >> ELSE LET o == DLenOct(n) IN << 128 + Len(o) >> \o o
Tlv(tag, body) == << tag >> \o DLen(Len(body)) \o body
DSeq(body) == Tlv(48, body)
DOct(body) == Tlv(4, body)
DOid(body) == Tlv(6, body)
DBit(body) == Tlv(3, << 0 >> \o body)
\* non-negative INTEGER
DInt(v) == LET b == Rev(v) IN Tlv(2, IF b = << >> THEN << 0 >> ELSE IF b[1] >= 128 THEN << 0 >> \o b ELSE b)

Bad == [st |-> "bad", tag |-> 0, b |-> 0, e |-> 0]
Unk == [st |-> "unk", tag |-> 0, b |-> 0, e |-> 0]
RECURSIVE Val(_,_,_)
Val(x, i, k) == IF k = 0 THEN 0 ELSE Val(x, i, k-1) * 256 + x[i + k - 1]
\* element at position i, nothing beyond position lim; its contents are x[b..e]
Elem(x, i, lim) ==
  IF i >= lim THEN Bad
  ELSE IF x[i] % 32 = 31 \/ x[i] \in {35, 36} THEN Unk
  ELSE LET l == x[i+1] IN
       IF l < 128 THEN (IF i + 1 + l > lim THEN Bad ELSE [st |-> "ok", tag |-> x[i], b |-> i + 2, e |-> i + 1 + l])
       ELSE IF l = 128 \/ l > 132 THEN Unk
       ELSE IF i + l - 127 > lim THEN Bad
       ELSE IF l = 132 /\ x[i+2] > 0 THEN Bad
       ELSE LET n == Val(x, i+2, l - 128) IN
            IF n > lim \/ i + l - 127 + n > lim THEN Bad
            ELSE [st |-> "ok", tag |-> x[i], b |-> i + l - 126, e |-> i + l - 127 + n]
Body(x, n) == SubSeq(x, n.b, n.e)
\* the elements between b and e: [st, l]
RECURSIVE ElemsFrom(_,_,_,_)
ElemsFrom(x, i, e, acc) ==
  IF i = e + 1 THEN [st |-> "ok", l |-> acc]
  ELSE LET n == Elem(x, i, e) IN
       IF n.st # "ok" THEN [st |-> n.st, l |-> acc] ELSE ElemsFrom(x, n.e + 1, e, Append(acc, n))
Items(x, n) == ElemsFrom(x, n.b, n.e, << >>)
\* INTEGER contents: [ok, neg, v]
IntOf(o) == IF o = << >> THEN [ok |-> FALSE, neg |-> FALSE, v |-> BZero]
            ELSE [ok |-> TRUE, neg |-> o[1] >= 128, v |-> BigBe(o)]
=============================================================================
