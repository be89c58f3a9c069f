------------------------------ MODULE MCKeygen ------------------------------
(***************************************************************************)
(* KeygenSpec with symbolic curves and tables: a context's settings are    *)
(* the last ones accepted in its own history (a duplicate inheriting the   *)
(* history of its original), whatever happens to other contexts.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Slots, D
VARIABLES kc, his, keys, who
CN(v) == IF v \in {"n1", "n2"} THEN {v} ELSE {}
TN(v) == IF v \in {"t1", "lax"} THEN {v} ELSE {}
LX(v) == v = "lax"
INSTANCE KeygenSpec WITH DefaultCurve <- "dc", DefaultTable <- "dt", CurveOf <- CN, TableOf <- TN, Lax <- LX
Events == [op : {"g_new"}, s : Slots, le : {0, 1}] \cup [op : {"g_init", "g_gen", "g_free", "g_other"}, s : Slots]
  \cup [op : {"g_cstr"}, s : Slots, v : {"n1", "n2", "?"}] \cup [op : {"g_sstr"}, s : Slots, v : {"t1", "lax", "?"}]
  \cup [op : {"g_grp"}, s : Slots, given : BOOLEAN, cv : {"x"}] \cup [op : {"g_sbox"}, s : Slots, given : BOOLEAN, p1 : {64, 63}, data : {"u"}]
  \cup [op : {"g_dup"}, s : Slots, from : Slots]
Init == kc = [s \in Slots |-> None] /\ his = [s \in Slots |-> << >>] /\ keys = << >> /\ who = 0
Do(e, g) ==
  /\ CanDo(kc, e)
  /\ LET r == Apply(kc, e, g) IN
     /\ g \in r.ok /\ kc' = r.kc
     /\ his' = CASE e.op \in {"g_new", "g_free"} -> [his EXCEPT ![e.s] = << >>]
                 [] e.op = "g_dup" -> IF g = 1 THEN [his EXCEPT ![e.s] = his[e.from]] ELSE his
                 [] e.op \in {"g_cstr", "g_sstr", "g_grp", "g_sbox"} /\ g = 1 -> [his EXCEPT ![e.s] = Append(@, << e, g >>)]
                 [] OTHER -> his
     /\ keys' = IF e.op = "g_gen" /\ g = 1 THEN << kc[e.s].le, kc[e.s].cv, kc[e.s].sb, his[e.s] >> ELSE << >>
     /\ Len(his'[e.s]) <= D /\ who' = e.s
Next == \E e \in Events, g \in {0, 1} : Do(e, g)
RECURSIVE LastCv(_), LastSb(_)
LastCv(h) == IF h = << >> THEN "dc"
             ELSE LET x == h[Len(h)] IN
                  IF x[2] = 1 /\ x[1].op = "g_cstr" THEN x[1].v ELSE IF x[2] = 1 /\ x[1].op = "g_grp" THEN x[1].cv
                  ELSE LastCv(SubSeq(h, 1, Len(h) - 1))
LastSb(h) == IF h = << >> THEN "dt"
             ELSE LET x == h[Len(h)] IN
                  IF x[2] = 1 /\ x[1].op = "g_sstr" THEN x[1].v ELSE IF x[2] = 1 /\ x[1].op = "g_sbox" THEN x[1].data
                  ELSE LastSb(SubSeq(h, 1, Len(h) - 1))
Settings == \A s \in Slots : kc[s].st # "none" => kc[s].cv = LastCv(his[s]) /\ kc[s].sb = LastSb(his[s])
KeysHonour == keys # << >> => keys[2] = LastCv(keys[4]) /\ keys[3] = LastSb(keys[4])
OnlyOwn == [][\A s \in Slots \ {who'} : kc'[s] = kc[s]]_<< kc, his, keys, who >>
=============================================================================
