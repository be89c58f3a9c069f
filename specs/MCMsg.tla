-------------------------------- MODULE MCMsg -------------------------------
EXTENDS MsgSpec, TLC
CONSTANTS KeyNums, Lens
MKey(le, d, sb) == LET D == BigOf(d) IN [le |-> le, cv |-> NamedCurve[1], sb |-> sb, hasD |-> TRUE, d |-> D, hasQ |-> TRUE, Q |-> PubOf(NamedCurve[1], D)]
T1 == [j \in 1..64 |-> (j * 37) % 256]
AllKeys == << MKey(TRUE, 1234567, DefaultSbox), MKey(FALSE, 1234567, T1), MKey(FALSE, 7654321, DefaultSbox), MKey(TRUE, 1234567, T1) >>
MCKeys == TLCEval([j \in KeyNums |-> AllKeys[j]])
MCContents == { [j \in 1..n |-> (n * 13 + j) % 128] : n \in Lens }
MCSecrets == { [j \in 1..32 |-> j], [j \in 1..32 |-> IF j = 3 THEN 99 ELSE j] }
=============================================================================
