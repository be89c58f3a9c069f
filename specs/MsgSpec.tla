------------------------------- MODULE MsgSpec ------------------------------
(***************************************************************************)
(* A message travels: it is made by a signer (or a holder of a secret),    *)
(* possibly altered on the way or shown with other content, and judged     *)
(* with the right or another key.                                          *)
(***************************************************************************)
EXTENDS Msgs
CONSTANTS Kinds, KeyList, Contents, Damage, Secrets
VARIABLES kind, k, con, how, x, sc, rs, ph
vars == << kind, k, con, how, x, sc, rs, ph >>
Name(j) == DSeq(Tlv(49, DSeq(DOid(<< 85, 4, 3 >>) \o Tlv(12, << 96 + j >>))))
Time == Tlv(23, << 50, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90 >>)
SigAlg(key) == DSeq(DOid(AlgOid(key.le)))
Sealed2(key, tbs) == LET s == SignWith(key.cv, key.d, Hash(key.sb, tbs), << 5 >>) IN
   DSeq(tbs \o SigAlg(key) \o DBit(SigDer(key.cv, key.le, s.r, s.s)))
CertOut(key, c) == Sealed2(key, DSeq(Tlv(160, DInt(<< 2 >>)) \o Tlv(2, << 1 >> \o c) \o SigAlg(key) \o Name(1) \o DSeq(Time \o Time) \o Name(2) \o PubDer(key)))
ReqOut(key, c) == Sealed2(key, DSeq(DInt(BZero) \o Name(3) \o PubDer(key) \o Tlv(160, c)))
Iv == << 1, 2, 3, 4, 5, 6, 7, 8 >>
Pass(s) == SubSeq(s, 1, 3)
Make2 == CASE kind = "cert" -> CertOut(k, con)
           [] kind = "req" -> ReqOut(k, con)
           [] kind = "msg" -> SignedOut(k, << 7 >>, << 48, 0 >>, DSeq(Name(1) \o DInt(BOne)), con, how.att, how.attrs)
           [] kind = "enc" -> EncDataOut(Iv, k.sb, CfbRun(1, k.sb, sc, Iv, con))
           [] kind = "epki" -> EpkiOut(PbeAlg(Iv, 2, Iv, k.sb), PbeSeal(Pass(sc), Iv, 2, Iv, k.sb, PrivDer(k)))
Init == /\ ph = "made" /\ x = << >> /\ kind \in Kinds /\ k \in { KeyList[j] : j \in DOMAIN KeyList } /\ con \in Contents /\ sc \in Secrets /\ rs = sc
        /\ how \in [att : BOOLEAN, attrs : BOOLEAN]
        /\ (kind # "msg" => how = [att |-> TRUE, attrs |-> TRUE]) /\ (kind \notin {"enc", "epki"} => sc = CHOOSE s \in Secrets : TRUE)
        /\ (kind = "epki" => con = CHOOSE c \in Contents : TRUE)
Send == ph = "made" /\ ph' = "sent" /\ x' = Make2 /\ UNCHANGED << kind, k, con, how, sc, rs >>
Hurt == /\ ph = "sent" /\ ph' = "hurt" /\ UNCHANGED << kind, k, con, how, sc, rs >>
        /\ \/ \E j \in 1..Len(x), v \in Damage : x' = [x EXCEPT ![j] = (@ + v) % 256]
           \/ \E j \in {1, 2, Len(x) \div 2, Len(x) - 1} : x' = SubSeq(x, 1, j)
Wrong == ph = "sent" /\ ph' = "wrong" /\ rs' \in Secrets \ {sc} /\ UNCHANGED << kind, k, con, how, x, sc >>
Next == Send \/ Hurt \/ Wrong
\* what a verifier concludes with key q and, for a detached message, content c
Valid(q, c) == CASE kind = "cert" -> CertGood(q, x)
                 [] kind = "req" -> LET s == Signed(x) IN s.ok /\ ReqGood(q, x)
                 [] kind = "msg" -> LET m == MsgOf(x) IN m.ok /\ MsgGood(q, m, IF m.there THEN m.content ELSE c, {q.sb})
Signs == kind \in {"cert", "req", "msg"}
Orig == Make2
Accepted == ph = "sent" /\ Signs => Valid(k, con)
OtherKey == ph = "sent" /\ Signs => \A j \in DOMAIN KeyList : KeyList[j] # k => ~Valid(KeyList[j], con)
OtherContent == ph = "sent" /\ kind = "msg" /\ ~how.att => \A c \in Contents : c # con => ~Valid(k, c)
\* damage that is not noticed changed nothing of what was signed
Noticed == ph = "hurt" /\ Signs /\ Valid(k, con) =>
   CASE kind = "msg" -> LET m == MsgOf(x)  o == MsgOf(Orig) IN m.content = o.content /\ m.aset = o.aset
     [] OTHER -> Signed(x).tbs = Signed(Orig).tbs
Names == ph = "sent" => CASE kind = "msg" -> MsgOf(x).dalg = DigestOid /\ MsgOf(x).salg = AlgOid(k.le)
                          [] kind \in {"cert", "req"} -> Signed(x).oid = AlgOid(k.le)
                          [] OTHER -> TRUE
Opened == ph = "sent" => CASE kind = "enc" -> EncData(x).ok /\ OpenData(EncData(x), sc) = con
                           [] kind = "epki" -> LET p == ReadEpki(x, Pass(sc)) IN p.v = "ok" /\ p.full /\ p.key = k
                           [] OTHER -> TRUE
NotOpened == ph = "wrong" => CASE kind = "enc" -> Len(con) < 4 \/ OpenData(EncData(x), rs) # con
                               [] kind = "epki" -> ReadEpki(x, Pass(rs)).v = "bad"
                               [] OTHER -> TRUE
=============================================================================
