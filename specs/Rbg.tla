-------------------------------- MODULE Rbg ---------------------------------
(***************************************************************************)
(* The bit generator of DSTU 4145 Annex A over GOST 28147 in simple        *)
(* substitution with the default table.  A generator is [key, I, s]:       *)
(*   x = E(I xor s), the bit is the lowest of x, s' = E(x xor I).          *)
(* Octets are filled from the least significant bit.                       *)
(***************************************************************************)
EXTENDS GostBlock
\* 40 octets of seed (32 key, 8 state) and the 8 octets of the start time
RbgStart(seed, t8) == [key |-> SubSeq(seed, 1, 32), I |-> GostEnc(DefaultSbox, SubSeq(seed, 1, 32), t8), s |-> SubSeq(seed, 33, 40)]
BitStep(key, I, s) == LET x == GostEnc(DefaultSbox, key, XorBytes(I, s))
                      IN [bit |-> x[1] % 2, s |-> GostEnc(DefaultSbox, key, XorBytes(x, I))]
RECURSIVE OctetStep(_,_,_,_,_)
OctetStep(key, I, s, j, acc) == IF j = 8 THEN [o |-> acc, s |-> s]
                                ELSE LET b == BitStep(key, I, s) IN OctetStep(key, I, b.s, j + 1, acc + b.bit * 2^j)
RECURSIVE OctetsFrom(_,_,_,_)
OctetsFrom(key, I, s, n) == IF n = 0 THEN s
                            ELSE LET b == OctetStep(key, I, s, 0, 0) IN << b.o >> \o OctetsFrom(key, I, b.s, n - 1)
\* n octets followed by the 8 octets of the state after them
PRbgRun(key, I, s, n) == OctetsFrom(key, I, s, n)
RbgRun(key, I, s, n) == PRbgRun(key, I, s, n)                  \* (J)
RbgOut(g, n) == LET r == RbgRun(g.key, g.I, g.s, n) IN [out |-> SubSeq(r, 1, n), g |-> [g EXCEPT !.s = SubSeq(r, n + 1, n + 8)]]
=============================================================================
