---------------------------- MODULE TraceCipher ----------------------------
EXTENDS TraceBase, GostBlock, Integers
VARIABLES i, st
XO(a, b) == a ^^ b
Der(iv, t) == << 48, 76, 4, 8 >> \o iv \o << 4, 64 >> \o t
Parse(d) == IF /\ Len(d) = 78 /\ d[1] = 48 /\ d[2] = 76 /\ d[3] = 4 /\ d[4] = 8 /\ d[13] = 4 /\ d[14] = 64
            THEN [ok |-> TRUE, iv |-> SubSeq(d, 5, 12), table |-> SubSeq(d, 15, 78)]
            ELSE [ok |-> FALSE, iv |-> << >>, table |-> << >>]
CS == INSTANCE CipherSpec WITH B <- 8, BlockEnc <- GostEnc, XorOctet <- XO, DefaultTable <- DefaultSbox, TableSize <- 64,
         ZeroIv <- << 0,0,0,0,0,0,0,0 >>, ParamDer <- Der, ParamParse <- Parse
Fresh == [s \in 0..9 |-> CS!Absent]
Init == i = 1 /\ st = Fresh
Begin == Tr[i].op = "begin" /\ st' = Fresh /\ i' = i + 1
Event == /\ Tr[i].op # "begin"
         /\ Assert(CS!CanDo(st, Tr[i]), <<"event outside the protocol", i>>)
         /\ \E r \in {CS!Apply(st, Tr[i])} :      \* a single evaluation
              /\ Judge(i, Agrees(r.res, Tr[i].res), r.res)
              /\ st' = r.st /\ i' = i + 1
Next == i <= Len(Tr) /\ (Begin \/ Event)
End == Finish(i)
=============================================================================
