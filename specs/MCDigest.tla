------------------------------ MODULE MCDigest ------------------------------
(***************************************************************************)
(* DigestSpec with free terms for the hash function, checked exhaustively: *)
(* whatever sequence of calls is made on two contexts, the value each will *)
(* deliver is the digest - defined separately, on the whole message - of   *)
(* exactly the octets supplied to it since its own initialisation, under   *)
(* its own table (C01, C02).                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxMsg, MaxUpd, Slots

BB == 2
ZB == << 0, 0 >>
RECURSIVE Abs(_,_,_,_)
Step(sb, H, m) == << "h", sb, H, m >>
Plus(S, m) == << "+", S, m >>
Abs(sb, H, S, d) == IF Len(d) < BB THEN << H, S >>
                    ELSE Abs(sb, Step(sb, H, SubSeq(d,1,BB)), Plus(S, SubSeq(d,1,BB)), SubSeq(d, BB+1, Len(d)))
RECURSIVE Rep(_,_,_,_,_)
Rep(sb, H, S, d, n) == IF n = 0 THEN << H, S >> ELSE LET r == Abs(sb, H, S, d) IN Rep(sb, r[1], r[2], d, n-1)
LB(n, r) == << "len", n * BB + r >>

VARIABLES st, msg, tab
INSTANCE DigestSpec WITH B <- BB, Absorb <- Abs, AbsorbRep <- Rep, FinalStep <- Step, SumAdd <- Plus, ZeroBlock <- ZB,
                         LenBlock <- LB, DefaultTable <- "d", TableSize <- 64

(* the standard's definition on a complete message *)
Blk(m, i) == [j \in 1..BB |-> IF (i-1)*BB + j <= Len(m) THEN m[(i-1)*BB + j] ELSE 0]
RECURSIVE Chain(_,_,_,_), Total(_,_,_)
Chain(sb, m, i, n) == IF i = 0 THEN ZB ELSE Step(sb, Chain(sb, m, i-1, n), Blk(m, i))
Total(m, i, n) == IF i = 0 THEN ZB ELSE Plus(Total(m, i-1, n), Blk(m, i))
RefDigest(sb, m) ==
  LET n  == (Len(m) + BB - 1) \div BB
      h  == IF n = 0 THEN Step(sb, ZB, ZB) ELSE Chain(sb, m, n, n)
  IN  Step(sb, Step(sb, h, << "len", Len(m) >>), Total(m, n, n))

Data == UNION { [1..k -> {0, 1}] : k \in 0..MaxUpd }
Events ==
  [op : {"new", "init", "fin", "free"}, s : Slots]
  \cup [op : {"upd"}, s : Slots, data : Data]
  \cup [op : {"rep"}, s : Slots, data : {<< 0, 1 >>}, n : 1..2]
  \cup [op : {"copy"}, s : Slots, from : Slots]
  \cup [op : {"sbox"}, s : Slots, p1 : {64, 63}, given : BOOLEAN, data : {"t"}]

Init == /\ st = [s \in Slots |-> Absent]
        /\ msg = [s \in Slots |-> << >>]
        /\ tab = [s \in Slots |-> "d"]
Do(ev) ==
  /\ CanDo(st, ev)
  /\ ev.op = "rep" => Len(msg[ev.s]) + BB * ev.n <= MaxMsg
  /\ ev.op = "upd" => Len(msg[ev.s]) + Len(ev.data) <= MaxMsg
  /\ st' = Apply(st, ev).st
  /\ msg' = CASE ev.op = "init" -> [msg EXCEPT ![ev.s] = << >>]
              [] ev.op = "upd"  -> [msg EXCEPT ![ev.s] = @ \o ev.data]
              [] ev.op = "rep"  -> [msg EXCEPT ![ev.s] = @ \o (IF ev.n = 1 THEN ev.data ELSE ev.data \o ev.data)]
              [] ev.op = "copy" -> [msg EXCEPT ![ev.s] = msg[ev.from]]
              [] ev.op \in {"fin", "free", "new"} -> [msg EXCEPT ![ev.s] = << >>]
              [] OTHER -> msg
  /\ tab' = CASE ev.op = "init" -> [tab EXCEPT ![ev.s] = "d"]
              [] ev.op = "copy" -> [tab EXCEPT ![ev.s] = tab[ev.from]]
              [] ev.op = "sbox" /\ ev.p1 = 64 /\ ev.given -> [tab EXCEPT ![ev.s] = ev.data]
              [] ev.op \in {"fin", "free", "new"} -> [tab EXCEPT ![ev.s] = "d"]
              [] OTHER -> tab
Next == \E ev \in Events : Do(ev)

DigestIsOfOwnMessage == \A s \in Slots : st[s].st = "open" => Value(st[s]) = RefDigest(tab[s], msg[s])
Others == [][\A ev \in Events : Do(ev) => \A s \in Slots \ {ev.s} : st'[s] = st[s]]_<<st, msg, tab>>
RemShort == \A s \in Slots : st[s].st = "open" => Len(st[s].rem) < BB
=============================================================================
