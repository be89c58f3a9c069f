---------------------------- MODULE TraceDigest ----------------------------
EXTENDS TraceBase, Gost34311, Big
VARIABLES i, st
LenB(blocks, r) == << 8 * r >> \o LePad(BigOf(blocks), 31)
DS == INSTANCE DigestSpec WITH B <- 32, FinalStep <- HashStep, SumAdd <- Add256, ZeroBlock <- Zero32,
                         LenBlock <- LenB, DefaultTable <- DefaultSbox, TableSize <- 64
Fresh == [s \in 0..9 |-> DS!Absent]
Init == i = 1 /\ st = Fresh
Begin == Tr[i].op = "begin" /\ st' = Fresh /\ i' = i + 1
Event == /\ Tr[i].op # "begin"
         /\ Assert(DS!CanDo(st, Tr[i]), <<"event outside the protocol", i>>)
         /\ \E r \in {DS!Apply(st, Tr[i])} :      \* a single evaluation
              /\ Judge(i, Agrees(r.res, Tr[i].res), r.res)
              /\ st' = r.st /\ i' = i + 1
Next == i <= Len(Tr) /\ (Begin \/ Event)
End == Finish(i)
=============================================================================
