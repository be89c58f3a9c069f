------------------------------ MODULE GenCipher ------------------------------
(***************************************************************************)
(* Call sequences over cipher contexts for the replay: the protocol of     *)
(* CipherSpec with data lengths, and keys, IVs and tables by number.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Lens, D
E1(sb, k, b) == << 0 >>
X1(a, b) == 0
PD(iv, t) == << "der", iv, t >>
PP(d) == IF d[1] = "der" THEN [ok |-> TRUE, iv |-> d[2], table |-> d[3]] ELSE [ok |-> FALSE, iv |-> << >>, table |-> 0]
VARIABLES st, hist, fin
CS == INSTANCE CipherSpec WITH B <- 1, BlockEnc <- E1, XorOctet <- X1, DefaultTable <- "d", TableSize <- 64, ZeroIv <- << "z" >>,
                              ParamDer <- PD, ParamParse <- PP
Init == st = [s \in Slots |-> CS!Absent] /\ hist = << >> /\ fin = FALSE
Rec(ev, abs) == CS!CanDo(st, abs) /\ st' = CS!Apply(st, abs).st /\ hist' = Append(hist, ev)
Same(ev) == Rec(ev, ev)
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << st, hist >>
Few == Cardinality({s \in Slots : st[s].st = "set"}) < 2
Opt == {<< >>, << 1 >>, << 2 >>}
Call ==
  /\ Len(hist) < D /\ UNCHANGED fin
  /\ \/ \E s \in Slots : Same([op |-> "new", s |-> s])
     \/ \E s \in Slots : st[s].st = "bare" /\ \E e \in {0, 1}, k \in Opt, v \in Opt : Same([op |-> "init", s |-> s, cipher |-> TRUE, enc |-> e, key |-> k, iv |-> v])
     \/ \E s \in Slots : st[s].st = "set" /\ \E c \in BOOLEAN : \E e \in {-1, 0, 1}, k \in Opt, v \in Opt : Same([op |-> "init", s |-> s, cipher |-> c, enc |-> e, key |-> k, iv |-> v])
     \/ \E s \in Slots, l \in Lens, p \in {0, 1}, o \in 0..2 : Rec([op |-> "upd", s |-> s, len |-> l, inplace |-> p, off |-> o], [op |-> "upd", s |-> s, data |-> << 1 >>])
     \/ \E s \in Slots, f \in Slots, x \in 1..3 : Same([op |-> "copy", s |-> s, from |-> f])
     \/ \E s \in Slots, n \in {64, 63, 65, 0}, t \in 1..3 : Same([op |-> "sbox", s |-> s, p1 |-> n, given |-> (n # 64 \/ t > 1), data |-> << t >>])
     \/ \E s \in Slots, x \in 1..3 : Same([op |-> "getp", s |-> s]) \/ Same([op |-> "fin", s |-> s])
     \/ \E s \in Slots, v \in 1..2, t \in 1..3 : Same([op |-> "setp", s |-> s, data |-> << "der", << v >>, << t >> >>])
     \/ \E s \in Slots, v \in 1..2 : Same([op |-> "setp", s |-> s, data |-> << "bad", v >>])
     \/ \E s \in Slots : Len(hist) > 3 /\ (Same([op |-> "free", s |-> s]) \/ Same([op |-> "reset", s |-> s]))
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
