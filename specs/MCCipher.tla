------------------------------ MODULE MCCipher ------------------------------
(***************************************************************************)
(* CipherSpec with free terms, checked exhaustively (C03, C04, C05):       *)
(*  - what a context outputs is a function of direction, key, IV and table *)
(*    in force and of the data since the stream (re)started, computed here *)
(*    from the whole history at once (CFB defined on a complete message);  *)
(*  - decrypting what was encrypted under equal settings gives the data    *)
(*    back, whatever the chunking;                                         *)
(*  - an event on one context never changes another.                       *)
(* Octets are sets of atoms, exclusive or is symmetric difference, so the  *)
(* cancellation laws hold and nothing else does.                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxData, MaxUpd, Keys, Ivs, Tables

BB == 2
Xor(a, b) == (a \ b) \cup (b \ a)
Enc(sb, k, blk) == [i \in 1..BB |-> { << sb, k, blk, i >> }]
PDer(iv, t) == << "der", iv, t >>
PParse(d) == IF d[1] = "der" THEN [ok |-> TRUE, iv |-> d[2], table |-> d[3]] ELSE [ok |-> FALSE, iv |-> << >>, table |-> 0]
Z == << {}, {} >>

VARIABLES st, g, last   \* g: ghost history per slot; last: event and result of the last step
INSTANCE CipherSpec WITH B <- BB, BlockEnc <- Enc, XorOctet <- Xor, DefaultTable <- "d", TableSize <- 64, ZeroIv <- Z,
                         ParamDer <- PDer, ParamParse <- PParse

Iv(i) == << {<< i >>}, {<< i >>} >>
Datum == { {}, {<< "x" >>} }
Data == UNION { [1..k -> Datum] : k \in 1..MaxUpd }
Events ==
  [op : {"new", "fin", "free", "getp", "reset"}, s : Slots]
  \cup [op : {"init"}, s : Slots, cipher : BOOLEAN, enc : {-1, 0, 1}, key : {None} \cup {<< k >> : k \in Keys}, iv : {None} \cup {Iv(i) : i \in Ivs}]
  \cup [op : {"upd"}, s : Slots, data : Data]
  \cup [op : {"copy"}, s : Slots, from : Slots]
  \cup [op : {"sbox"}, s : Slots, p1 : {64, 63}, given : {TRUE}, data : Tables]
  \cup [op : {"setp"}, s : Slots, data : {PDer(Iv(i), t) : i \in Ivs, t \in Tables \cup {"d"}} \cup {<< "bad" >>}]

(* CFB on a complete history: plain/cipher octets with the direction in     *)
(* which each was processed.                                               *)
NoG == [dir |-> 0, key |-> None, iv |-> Z, ivset |-> FALSE, sb |-> "d", in |-> << >>, dirs |-> << >>]
RECURSIVE RefC(_,_)        \* ciphertext octet number n of a history
RefGamma(h, n) ==          \* gamma octet for position n: block encryption of the previous ciphertext block
  LET b == (n - 1) \div BB
      reg == IF b = 0 THEN h.iv ELSE [j \in 1..BB |-> RefC(h, (b-1)*BB + j)]
  IN  Enc(h.sb, h.key, reg)[((n-1) % BB) + 1]
RefC(h, n) == IF h.dirs[n] = 1 THEN Xor(h.in[n], RefGamma(h, n)) ELSE h.in[n]
RefOut(h, n) == Xor(h.in[n], RefGamma(h, n))

Clear(h) == [h EXCEPT !.in = << >>, !.dirs = << >>]
Ghost(h, ev) ==
  CASE ev.op = "new" -> NoG
    [] ev.op = "free" -> NoG
    [] ev.op = "reset" -> NoG
    [] ev.op = "init" ->
         LET d  == IF ev.enc = -1 THEN h.dir ELSE ev.enc
             h0 == [h EXCEPT !.dir = d]
             h1 == [h0 EXCEPT !.key = IF ev.key = None THEN @ ELSE ev.key,
                              !.iv = IF ev.iv = None THEN @ ELSE ev.iv, !.ivset = @ \/ ev.iv # None]
         IN  IF ev.key # None \/ ev.iv # None THEN Clear(h1) ELSE h1
    [] ev.op = "upd" -> [h EXCEPT !.in = @ \o ev.data, !.dirs = @ \o [i \in 1..Len(ev.data) |-> h.dir]]
    [] ev.op = "sbox" -> IF ev.p1 = 64 THEN Clear([h EXCEPT !.sb = ev.data]) ELSE h
    [] ev.op = "setp" -> IF ev.data[1] = "der" THEN Clear([h EXCEPT !.iv = ev.data[2], !.ivset = TRUE, !.sb = ev.data[3]]) ELSE h
    [] OTHER -> h

NoLast == [op |-> "start"]
Init == st = [s \in Slots |-> Absent] /\ g = [s \in Slots |-> NoG] /\ last = NoLast
Do(ev) ==
  /\ CanDo(st, ev)
  /\ ev.op = "upd" => Len(g[ev.s].in) + Len(ev.data) <= MaxData
  /\ LET r == Apply(st, ev)
     IN /\ st' = r.st
        /\ g' = [g EXCEPT ![ev.s] = IF ev.op = "copy" THEN g[ev.from] ELSE Ghost(@, ev)]
        /\ last' = IF ev.op = "upd" THEN [op |-> "upd", s |-> ev.s, out |-> r.res.out]
                   ELSE IF ev.op = "getp" THEN [op |-> "getp", s |-> ev.s, out |-> r.res.out] ELSE NoLast
Next == \E ev \in Events : Do(ev)

\* what was just output is what CFB over the complete history prescribes
OutputIsCfb ==
  last.op = "upd" => LET h == g[last.s]  n == Len(h.in)  k == Len(last.out)
                     IN  \A i \in 1..k : last.out[i] = RefOut(h, n - k + i)
ExportIsExact == last.op = "getp" => last.out = << "der", g[last.s].iv, g[last.s].sb >>
\* the settings in force are the ones last given
Settings == \A s \in Slots : st[s].st = "set" =>
              /\ st[s].key = g[s].key /\ st[s].iv = g[s].iv /\ st[s].sb = g[s].sb /\ st[s].enc = g[s].dir /\ st[s].ivset = g[s].ivset
              /\ Len(st[s].seen) = Len(g[s].in) % BB
\* decryption by a context with the same settings undoes encryption, octet by octet
RoundTrip == \A s \in Slots :
   LET h == g[s] IN (st[s].st = "set" /\ h.key # None /\ h.in # << >> /\ \A i \in 1..Len(h.in) : h.dirs[i] = 1) =>
     LET c == [i \in 1..Len(h.in) |-> RefOut(h, i)]
         d == Stream(Restart([Setup(0) EXCEPT !.key = h.key, !.iv = h.iv, !.sb = h.sb]), c, << >>)
     IN  d.out = h.in
=============================================================================
