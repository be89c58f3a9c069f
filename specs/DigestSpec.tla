----------------------------- MODULE DigestSpec -----------------------------
(***************************************************************************)
(* Digest contexts as the EVP layer exposes them: a set of slots, each     *)
(* absent, open (a message is being supplied) or done.  Apply(st, ev) is   *)
(* the transition relation as a function: the state after event ev and the *)
(* result the caller must see.  Parameterised over the hash primitives, so *)
(* that MCDigest can instantiate it with free terms and small blocks, and  *)
(* TraceDigest with the real algorithm.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS B,                  \* octets per block
          Absorb(_,_,_,_),    \* (table, H, S, whole blocks) -> <<H, S>>
          AbsorbRep(_,_,_,_,_), \* (table, H, S, whole blocks, n): the same n times over
          FinalStep(_,_,_),   \* one step: (table, H, block) -> H
          SumAdd(_,_),        \* checksum addition
          ZeroBlock,          \* B zero octets
          LenBlock(_,_),      \* (whole blocks, extra octets) -> block with the bit length
          DefaultTable,
          TableSize

Fresh == [st |-> "open", sb |-> DefaultTable, H |-> ZeroBlock, S |-> ZeroBlock, blocks |-> 0, rem |-> << >>]
Absent == [st |-> "none"]
Done(c) == [st |-> "done"]

Pad(rem) == [i \in 1..B |-> IF i <= Len(rem) THEN rem[i] ELSE ZeroBlock[i]]

\* supply data: full blocks are absorbed, the rest is kept
Upd(c, data) ==
  LET all  == c.rem \o data
      full == (Len(all) \div B) * B
      hs   == Absorb(c.sb, c.H, c.S, SubSeq(all, 1, full))
  IN  [c EXCEPT !.H = hs[1], !.S = hs[2], !.blocks = @ + full \div B, !.rem = SubSeq(all, full + 1, Len(all))]

\* the same for a block-aligned pattern supplied n times when nothing is pending
UpdRep(c, pat, n) ==
  LET hs == AbsorbRep(c.sb, c.H, c.S, pat, n)
  IN  [c EXCEPT !.H = hs[1], !.S = hs[2], !.blocks = @ + n * (Len(pat) \div B)]

\* value of the digest of everything supplied so far
Value(c) ==
  LET last == c.rem # << >>
      p    == Pad(c.rem)
      H1   == IF last THEN FinalStep(c.sb, c.H, p) ELSE c.H
      S1   == IF last THEN SumAdd(c.S, p) ELSE c.S
      \* the reference implementation (and every deployed one) hashes one zero
      \* block for the empty message
      H2   == IF ~last /\ c.blocks = 0 THEN FinalStep(c.sb, H1, ZeroBlock) ELSE H1
      H3   == FinalStep(c.sb, H2, LenBlock(c.blocks, Len(c.rem)))
  IN  FinalStep(c.sb, H3, S1)

(* ---- events ---- *)
Open(st, s) == st[s].st = "open"
CanDo(st, ev) ==
  CASE ev.op = "new"   -> st[ev.s].st = "none"
    [] ev.op = "init"  -> st[ev.s].st # "none"
    [] ev.op = "upd"   -> Open(st, ev.s)
    [] ev.op = "rep"   -> Open(st, ev.s) /\ st[ev.s].rem = << >> /\ Len(ev.data) % B = 0
    [] ev.op = "fin"   -> Open(st, ev.s)
    [] ev.op = "copy"  -> st[ev.s].st # "none" /\ Open(st, ev.from) /\ ev.s # ev.from
    [] ev.op = "sbox"  -> Open(st, ev.s) /\ st[ev.s].blocks = 0 /\ st[ev.s].rem = << >>
    [] ev.op = "free"  -> st[ev.s].st # "none"
    [] OTHER -> FALSE

Ok(st) == [st |-> st, res |-> [ok |-> 1]]
Apply(st, ev) ==
  CASE ev.op = "new"  -> Ok([st EXCEPT ![ev.s] = [st |-> "done"]])
    [] ev.op = "init" -> Ok([st EXCEPT ![ev.s] = Fresh])
    [] ev.op = "upd"  -> Ok([st EXCEPT ![ev.s] = Upd(@, ev.data)])
    [] ev.op = "rep"  -> Ok([st EXCEPT ![ev.s] = UpdRep(@, ev.data, ev.n)])
    [] ev.op = "fin"  -> [st |-> [st EXCEPT ![ev.s] = [st |-> "done"]],
                          res |-> [ok |-> 1, out |-> Value(st[ev.s])]]
    [] ev.op = "copy" -> Ok([st EXCEPT ![ev.s] = st[ev.from]])
    [] ev.op = "sbox" -> IF ev.p1 = TableSize /\ ev.given THEN Ok([st EXCEPT ![ev.s].sb = ev.data])
                         ELSE [st |-> st, res |-> [ok |-> 0]]
    [] ev.op = "free" -> Ok([st EXCEPT ![ev.s] = Absent])
=============================================================================
