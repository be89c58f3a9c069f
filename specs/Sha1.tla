-------------------------------- MODULE Sha1 --------------------------------
(***************************************************************************)
(* SHA-1 (FIPS 180-4) of octet strings, as the Java and PKCS#12 containers *)
(* use it.  Words are << low 16 bits, high 16 bits >>.  Sha1.java gives    *)
(* TLC a faster evaluation of the operators marked (J).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC
S1Add2(a, b) == LET lo == a[1] + b[1] IN << lo % 65536, (a[2] + b[2] + (lo \div 65536)) % 65536 >>
S1Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
S1And2(a, b) == << a[1] & b[1], a[2] & b[2] >>
S1Not2(a) == << 65535 - a[1], 65535 - a[2] >>
S1Rot2(a, n, m, k) == << ((a[1] * m) % 65536) + (a[2] \div k), ((a[2] * m) % 65536) + (a[1] \div k) >>   \* m = 2^n, k = 2^(16-n)
S1R1(a) == S1Rot2(a, 1, 2, 32768)
S1R5(a) == S1Rot2(a, 5, 32, 2048)
S1R30(a) == S1Rot2(<< a[2], a[1] >>, 14, 16384, 4)
S1WordBe(s, i) == << s[i+2] * 256 + s[i+3], s[i] * 256 + s[i+1] >>
S1BytesBe(w) == << w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256 >>
S1Fn(t, b, c, d) == IF t < 20 THEN S1Xor2(S1And2(b, c), S1And2(S1Not2(b), d))
                  ELSE IF t < 40 \/ t >= 60 THEN S1Xor2(b, S1Xor2(c, d))
                  ELSE S1Xor2(S1And2(b, c), S1Xor2(S1And2(b, d), S1And2(c, d)))
S1Kt(t) == IF t < 20 THEN << 31129, 23170 >> ELSE IF t < 40 THEN << 60321, 28377 >>
         ELSE IF t < 60 THEN << 48348, 36635 >> ELSE << 49622, 51810 >>
RECURSIVE S1Sched(_,_)
S1Sched(w, t) == IF t = 80 THEN w ELSE S1Sched(Append(w, S1R1(S1Xor2(S1Xor2(w[t-2], w[t-7]), S1Xor2(w[t-13], w[t-15])))), t+1)
RECURSIVE S1Rnds(_,_,_)
S1Rnds(w, v, t) == IF t = 80 THEN v
  ELSE LET x == S1Add2(S1Add2(S1R5(v[1]), S1Fn(t, v[2], v[3], v[4])), S1Add2(v[5], S1Add2(S1Kt(t), w[t+1])))
       IN  S1Rnds(w, << x, v[1], S1R30(v[2]), v[3], v[4] >>, t+1)
S1Block(h, m, p) == LET w == TLCEval(S1Sched([i \in 1..16 |-> S1WordBe(m, p + 4*(i-1))], 16))
                            r == TLCEval(S1Rnds(w, h, 0))
                        IN  [i \in 1..5 |-> S1Add2(h[i], r[i])]
RECURSIVE S1Blocks(_,_,_)
S1Blocks(h, m, p) == IF p > Len(m) THEN h ELSE S1Blocks(TLCEval(S1Block(h, m, p)), m, p + 64)
S1Pad(m) == LET z == (119 - (Len(m) % 64)) % 64  n == 8 * Len(m)
          IN  m \o << 128 >> \o [i \in 1..z |-> 0] \o << 0, 0, 0, 0 >>
                \o << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
S1H0 == << << 8961, 26437 >>, << 43913, 61389 >>, << 56574, 39098 >>, << 21622, 4146 >>, << 57840, 50130 >> >>
PSha1(m) == LET h == S1Blocks(S1H0, S1Pad(m), 1) IN S1BytesBe(h[1]) \o S1BytesBe(h[2]) \o S1BytesBe(h[3]) \o S1BytesBe(h[4]) \o S1BytesBe(h[5])
Sha1(m) == PSha1(m)                                                     \* (J)
RECURSIVE PSha1Times(_,_)
PSha1Times(m, n) == IF n = 0 THEN m ELSE PSha1Times(PSha1(m), n-1)
Sha1Times(m, n) == PSha1Times(m, n)                                     \* (J)
=============================================================================
