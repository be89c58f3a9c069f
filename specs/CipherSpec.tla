----------------------------- MODULE CipherSpec -----------------------------
(***************************************************************************)
(* Cipher contexts as the EVP layer exposes them.  A context remembers     *)
(* direction, key, IV and table; the stream state is derived data: the     *)
(* gamma of the current block and the ciphertext octets of the current     *)
(* block seen so far.  Parameterised over the block encryption.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

CONSTANTS B,                \* block size in octets
          BlockEnc(_,_,_),  \* (table, key, block) -> block
          XorOctet(_,_),
          DefaultTable, TableSize, ZeroIv,
          ParamDer(_,_),    \* (iv, table) -> octets
          ParamParse(_)     \* octets -> [ok, iv, table]

None == << >>               \* no key given
Absent == [st |-> "none"]
Bare   == [st |-> "bare", enc |-> 0]     \* allocated, no cipher yet
Setup(enc) == [st |-> "set", enc |-> enc, key |-> None, iv |-> ZeroIv, ivset |-> FALSE, sb |-> DefaultTable,
               gamma |-> << >>, seen |-> << >>]

\* start the stream from the IV in force
Restart(c) == [c EXCEPT !.gamma = IF c.key = None THEN << >> ELSE BlockEnc(c.sb, c.key, c.iv), !.seen = << >>]

\* one octet through the stream: the ciphertext octet enters the register
PushC(c, cb) ==
  LET s == Append(c.seen, cb)
  IN  IF Len(s) < B THEN [c EXCEPT !.seen = s]
      ELSE [c EXCEPT !.gamma = BlockEnc(c.sb, c.key, s), !.seen = << >>]
\* up to one block at a time, so that long data does not mean deep recursion per octet
RECURSIVE Part(_,_,_)
Part(c, data, out) ==
  IF data = << >> THEN [c |-> c, out |-> out]
  ELSE LET x == XorOctet(Head(data), c.gamma[Len(c.seen) + 1])
       IN  Part(PushC(c, IF c.enc = 1 THEN x ELSE Head(data)), Tail(data), Append(out, x))
Chunk == 16 * B
RECURSIVE Stream(_,_,_)
Stream(c, data, out) ==
  \* (never true: has TLC evaluate state and output here, not in one deep recursion at the end)
  IF Len(c.seen) < 0 \/ Len(out) < 0 THEN [c |-> c, out |-> out]
  ELSE IF Len(data) <= Chunk THEN LET r == Part(c, data, << >>) IN [c |-> r.c, out |-> out \o r.out]
  ELSE LET r == Part(c, SubSeq(data, 1, Chunk), << >>)
       IN  Stream(r.c, SubSeq(data, Chunk + 1, Len(data)), out \o r.out)

(* ---- events ---- *)
Ready(c) == c.st = "set" /\ c.key # None /\ c.ivset
CanDo(st, ev) ==
  CASE ev.op = "new"  -> st[ev.s].st = "none"
    [] ev.op = "init" -> \/ st[ev.s].st = "set"
                         \/ st[ev.s].st = "bare" /\ ev.cipher
    [] ev.op = "upd"  -> Ready(st[ev.s]) /\ ev.data # << >>
    [] ev.op = "fin"  -> Ready(st[ev.s])
    [] ev.op = "copy" -> st[ev.s].st # "none" /\ st[ev.from].st = "set" /\ ev.s # ev.from
    [] ev.op = "sbox" -> st[ev.s].st = "set"
    [] ev.op = "getp" -> st[ev.s].st = "set" /\ st[ev.s].ivset
    [] ev.op = "setp" -> st[ev.s].st = "set"
    [] ev.op = "free" -> st[ev.s].st # "none"
    [] ev.op = "reset" -> st[ev.s].st # "none"
    [] OTHER -> FALSE

Ok(st) == [st |-> st, res |-> [ok |-> 1]]
No(st) == [st |-> st, res |-> [ok |-> 0]]
InitCtx(c, ev) ==
  LET e  == IF ev.enc = -1 THEN c.enc ELSE ev.enc
      c0 == IF c.st = "bare" THEN Setup(e) ELSE [c EXCEPT !.enc = e]   \* naming the same cipher again changes nothing
      c1 == IF ev.key # None THEN [c0 EXCEPT !.key = ev.key] ELSE c0
      c2 == IF ev.iv # None THEN [c1 EXCEPT !.iv = ev.iv, !.ivset = TRUE] ELSE c1
  IN  IF ev.key # None \/ ev.iv # None THEN Restart(c2) ELSE c2

Apply(st, ev) ==
  CASE ev.op = "new"  -> Ok([st EXCEPT ![ev.s] = Bare])
    [] ev.op = "init" -> Ok([st EXCEPT ![ev.s] = InitCtx(@, ev)])
    [] ev.op = "upd"  -> LET r == Stream(st[ev.s], ev.data, << >>)
                         IN  [st |-> [st EXCEPT ![ev.s] = r.c], res |-> [ok |-> 1, out |-> r.out]]
    [] ev.op = "fin"  -> [st |-> st, res |-> [ok |-> 1, outl |-> 0]]
    [] ev.op = "copy" -> Ok([st EXCEPT ![ev.s] = st[ev.from]])
    [] ev.op = "sbox" -> IF ev.p1 = TableSize /\ ev.given
                         THEN Ok([st EXCEPT ![ev.s] = Restart([@ EXCEPT !.sb = ev.data])]) ELSE No(st)
    [] ev.op = "getp" -> [st |-> st, res |-> [ok |-> 1, out |-> ParamDer(st[ev.s].iv, st[ev.s].sb)]]
    [] ev.op = "setp" -> LET p == ParamParse(ev.data)
                         IN  IF p.ok THEN Ok([st EXCEPT ![ev.s] = Restart([@ EXCEPT !.iv = p.iv, !.ivset = TRUE, !.sb = p.table])])
                             ELSE No(st)
    [] ev.op = "free" -> Ok([st EXCEPT ![ev.s] = Absent])
    [] ev.op = "reset" -> Ok([st EXCEPT ![ev.s] = Bare])
=============================================================================
