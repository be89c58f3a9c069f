----------------------------- MODULE StoreSpec ------------------------------
(***************************************************************************)
(* A container travels: its content and passwords are chosen, it is        *)
(* written, possibly damaged (one octet, cut short, an octet removed, or   *)
(* read with another password), and read.                                  *)
(***************************************************************************)
EXTENDS Stores
CONSTANTS Kinds, Curves, Contents, Passwords, Damage, Certs
VARIABLES kind, con, pw, x, rp, ph
vars == << kind, con, pw, x, rp, ph >>
\* contents are lists of entry codes: 1 key, 2 key with certificate, 3 key with a second key, 4 trusted certificate
ACurve == CHOOSE cv \in Curves : TRUE
KeyNo(j) == LET d == BigOf((j % (NatOf(ACurve.n) - 1)) + 1) IN
            [le |-> j % 2 = 0, cv |-> ACurve, sb |-> DefaultSbox, hasD |-> TRUE, d |-> d, hasQ |-> TRUE, Q |-> PubOf(ACurve, d)]
SecondOf(j) == [KeyNo(j + 3) EXCEPT !.le = TRUE]
AttrDer(k) == LET w == OrderBytes(k.cv) IN
  DSeq(DOid(AttrCurveOid) \o Tlv(49, DSeq(CustomDer(FALSE, k.cv) \o DOct(<< 1 >>) \o DOct(<< 2 >>))))
  \o DSeq(DOid(AttrKeyOid) \o Tlv(49, DOct(RevOctets(LePad(k.d, w)))))
P8Of(j, code) == LET k == KeyNo(j) IN
  IF code # 3 THEN PrivDer(k)
  ELSE DSeq(DInt(BZero) \o AlgDer(k) \o DOct(k.d) \o Tlv(160, AttrDer(SecondOf(j))))
CertNo(j) == Certs[(j % Len(Certs)) + 1]
Entry(j, code) ==
  [t |-> IF code = 4 THEN "cert" ELSE "key", name |-> << 97 + j >>, time |-> [i \in 1..8 |-> j], ct |-> << 88 >>,
   salt |-> [i \in 1..20 |-> i + j], p8 |-> IF code = 4 THEN << >> ELSE P8Of(j, code), certs |-> IF code \in {2, 4} THEN << CertNo(j) >> ELSE << >>]
Entries(l) == [j \in 1..Len(l) |-> Entry(j, l[j])]
RECURSIVE KeysOf(_,_)
KeysOf(l, j) == IF j > Len(l) THEN << >>
  ELSE (CASE l[j] = 4 -> << >> [] l[j] = 3 -> << Dstu(KeyNo(j)), Dstu(SecondOf(j)) >> [] OTHER -> << Dstu(KeyNo(j)) >>) \o KeysOf(l, j+1)
RECURSIVE CertsOf(_,_)
CertsOf(l, j) == IF j > Len(l) THEN << >> ELSE (IF l[j] \in {2, 4} THEN << CertNo(j) >> ELSE << >>) \o CertsOf(l, j+1)
\* Key-6 holds the first entry only; ten thousand rounds are not needed to see what matters
KdRounds == 3
Bag(j, code) == IF code = 4 THEN << DSeq(DOid(BagOid(3)) \o Tlv(160, DSeq(DOid(X509CertOid) \o Tlv(160, DOct(CertNo(j)))))) >>
                ELSE << DSeq(DOid(BagOid(1)) \o Tlv(160, P8Of(j, code))) >>
                     \o (IF code = 2 THEN << DSeq(DOid(BagOid(6)) \o Tlv(160, DSeq(DSeq(DOid(BagOid(3)) \o Tlv(160, DSeq(DOid(X509CertOid) \o Tlv(160, DOct(CertNo(j))))))))) >> ELSE << >>)
RECURSIVE Cat(_)
Cat(l) == IF l = << >> THEN << >> ELSE l[1] \o Cat(Tail(l))
\* every entry in a safe of its own
P12Body(l) == DSeq(Cat([j \in 1..Len(l) |-> DSeq(DOid(Pkcs7(1)) \o Tlv(160, DOct(DSeq(Cat(Bag(j, l[j]))))))]))
P12Out(l, p) == LET b == P12Body(l)  salt == << 1, 2, 3, 4, 5, 6, 7, 8 >> IN
  DSeq(DInt(<< 3 >>) \o DSeq(DOid(Pkcs7(1)) \o Tlv(160, DOct(b)))
       \o DSeq(DSeq(DSeq(DOid(Sha1Oid) \o << 5, 0 >>) \o DOct(Sha1Hmac(P12MacKey(Utf16(p).o \o << 0, 0 >>, salt, 2), b))) \o DOct(salt) \o DInt(<< 2 >>)))
Write2 == CASE kind = "jks" -> JksOut(<< 254, 237, 254, 237 >>, Entries(con), pw.s, pw.k)
            [] kind = "key6" -> Key6Out(P8Of(1, con[1]), 170, pw.s, << 1, 2 >>, 5 * (con[1] - 1), KdRounds)
            [] kind = "p12" -> P12Out(con, pw.s)
Read2 == CASE kind = "jks" -> ReadJks(x, rp.s, rp.k, { Certs[j] : j \in DOMAIN Certs })
           [] kind = "key6" -> ReadKey6R(x, rp.s, KdRounds)
           [] kind = "p12" -> ReadP12(x, rp.s, [good |-> { Certs[j] : j \in DOMAIN Certs }, blobs |-> << >>, other |-> 0])
Fits == (kind = "key6" => Len(con) = 1 /\ con[1] \in {1, 3}) /\ (kind = "p12" => con # << >>)
Init == /\ ph = "made" /\ x = << >> /\ kind \in Kinds /\ con \in Contents /\ Fits
        /\ \E a, b \in Passwords : pw = [s |-> a, k |-> b] /\ (kind # "jks" => a = b)
        /\ rp = pw
Write == ph = "made" /\ ph' = "sent" /\ x' = Write2 /\ UNCHANGED << kind, con, pw, rp >>
Hurt == /\ ph = "sent" /\ ph' = "hurt" /\ UNCHANGED << kind, con, pw, rp >>
        /\ \/ \E j \in 1..Len(x), v \in Damage : x' = [x EXCEPT ![j] = (@ + v) % 256]
           \/ \E j \in 0..(Len(x)-1) : x' = SubSeq(x, 1, j)
           \/ \E j \in 1..Len(x) : x' = SubSeq(x, 1, j-1) \o SubSeq(x, j+1, Len(x))
Wrong == /\ ph = "sent" /\ ph' = "wrong" /\ UNCHANGED << kind, con, pw, x >>
         /\ \E a, b \in Passwords : rp' = [s |-> a, k |-> b] /\ rp' # pw
Next == Write \/ Hurt \/ Wrong
Wanted == [keys |-> IF kind = "key6" THEN KeysOf(SubSeq(con, 1, 1), 1)
                    ELSE IF kind = "p12" THEN KeysOf([j \in 1..Len(con) |-> IF con[j] = 3 THEN 1 ELSE con[j]], 1) ELSE KeysOf(con, 1),
           certs |-> IF kind = "key6" THEN << >> ELSE CertsOf(con, 1)]
\* what was written is read, and has to be
RoundTrip == ph = "sent" => LET r == Read2 IN r.v = "ok" /\ r.full /\ r.keys = { Wanted.keys } /\ r.certs = Wanted.certs
\* with another password that matters nothing is read
NoOther == ph = "wrong" => LET r == Read2 IN
   (IF kind = "key6" THEN r.v = "ok" ELSE r.v # "bad") => rp.s = pw.s /\ (kind = "jks" => \A j \in 1..Len(con) : con[j] = 4)
\* no damage is taken for other content, where the format protects it
Sealed == ph = "hurt" /\ kind \in {"jks", "p12"} => LET r == Read2 IN
   r.v = "ok" => r.keys = { Wanted.keys } /\ r.certs = Wanted.certs
NothingLost == ph = "hurt" /\ kind = "jks" => Read2.v = "bad"
=============================================================================
