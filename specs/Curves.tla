------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The ten recommended curves of DSTU 4145-2002 (Annex G), as Big values.  *)
(* CurvesOk (checked by SelfTest) establishes what a table can be asked    *)
(* for: irreducible-like field size, base point on the curve, n*G = O,     *)
(* Hasse bound with cofactor 2 or 4.                                       *)
(***************************************************************************)
EXTENDS EC2m

NamedCurve == <<
  [ p |-> <<201,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8>>,
    a |-> <<1>>,
    b |-> <<33,93,69,193,25,138,99,94,146,3,180,10,33,200,45,42,70,8,97,255,5>>,
    n |-> <<77,241,188,57,45,38,226,43,193,190,2,0,0,0,0,0,0,0,0,0,4>>,
    gx |-> <<190,35,88,243,163,248,218,41,114,35,196,165,131,233,76,215,93,95,248,226,2>>,
    gy |-> <<58,114,205,226,12,224,240,63,208,217,132,82,185,215,81,140,138,0,111,130,3>> ],
  [ p |-> <<65,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,128>>,
    a |-> <<1>>,
    b |-> <<172,125,130,90,49,164,241,48,9,138,81,32,159,117,17,8,35,235,206,227,110>>,
    n |-> <<31,112,247,159,242,215,199,188,46,177,255,255,255,255,255,255,255,255,255,255,63>>,
    gx |-> <<84,205,33,139,1,162,178,48,61,10,145,3,40,25,104,106,120,83,102,31,122>>,
    gy |-> <<24,153,213,95,228,53,212,142,217,86,145,144,184,198,14,28,120,38,235,73,95>> ],
  [ p |-> <<7,4,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,32>>,
    a |-> <<>>,
    b |-> <<217,55,180,111,107,143,39,187,59,133,246,221,110,193,47,219,153,4,200,118,133,16>>,
    n |-> <<49,40,187,37,56,110,96,103,78,155,24,0,0,0,0,0,0,0,0,0,0,8>>,
    gx |-> <<202,137,115,211,129,145,122,86,173,47,162,143,68,240,173,110,204,155,97,26,212,4>>,
    gy |-> <<161,145,217,224,28,92,255,247,139,2,210,109,94,199,52,178,73,40,193,28,181,16>> ],
  [ p |-> <<23,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8>>,
    a |-> <<1>>,
    b |-> <<16,183,190,114,69,24,4,45,227,65,163,7,221,136,47,111,67,38,101,133,224,166,4>>,
    n |-> <<239,54,66,182,90,254,53,4,150,129,185,255,255,255,255,255,255,255,255,255,255,255,3>>,
    gx |-> <<3,125,44,2,103,70,149,169,155,129,72,127,197,109,210,43,75,70,81,254,6,186,6>>,
    gy |-> <<158,58,220,102,138,120,9,255,170,135,130,202,128,80,6,236,220,130,53,54,188,95,2>> ],
  [ p |-> <<1,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,128>>,
    a |-> <<1>>,
    b |-> <<3,252,254,80,39,72,224,39,255,129,73,107,139,14,137,213,196,46,144,2,33,110,200,123>>,
    n |-> <<79,71,247,136,103,188,218,193,202,121,167,105,0,0,0,0,0,0,0,0,0,0,0,64>>,
    gx |-> <<41,113,235,218,118,254,252,194,181,185,88,172,210,166,18,121,74,255,242,98,183,20,65,113>>,
    gy |-> <<218,8,219,3,141,205,19,150,250,150,219,17,47,144,229,239,23,198,119,139,86,30,196,41>> ],
  [ p |-> <<19,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2>>,
    a |-> <<1>>,
    b |-> <<44,77,69,206,110,147,170,38,3,138,59,221,245,78,213,27,162,100,126,207,199,52,85,103,149,80,177,115,105>>,
    n |-> <<215,224,207,3,38,29,3,34,105,138,47,231,116,233,19,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>,
    gx |-> <<150,254,94,178,238,3,208,40,39,243,69,53,29,118,49,60,91,243,141,17,161,59,248,205,182,38,165,205,63>>,
    gy |-> <<53,141,109,249,157,11,190,50,77,197,145,46,59,94,217,186,123,74,229,169,237,222,84,76,147,122,181,168,156>> ],
  [ p |-> <<1,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2>>,
    a |-> <<>>,
    b |-> <<16,190,227,219,106,234,158,31,134,87,140,69,193,37,148,255,148,35,148,167,215,56,249,24,126,101,21,1,114,148,244,206,1>>,
    n |-> <<13,71,125,144,20,119,225,211,135,233,130,241,58,33,89,103,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,128>>,
    gx |-> <<183,15,210,216,220,232,169,52,35,198,16,27,202,145,196,122,0,126,108,48,11,38,205,85,108,155,14,125,32,239,41,42>>,
    gy |-> <<239,20,216,86,241,44,112,139,151,11,214,169,147,44,129,230,2,49,160,238,216,246,204,159,68,212,68,247,31,212,134,6,1>> ],
  [ p |-> <<21,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8>>,
    a |-> <<1>>,
    b |-> <<187,104,73,144,134,1,201,189,144,96,139,241,13,5,65,226,226,226,153,197,192,150,66,79,233,61,109,108,94,75,5,181,102,54,213,247,199,147,3>>,
    n |-> <<183,183,34,64,96,212,136,165,187,15,57,13,167,93,130,243,194,121,192,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,3>>,
    gx |-> <<170,50,114,110,45,192,82,60,116,103,49,109,39,155,35,122,8,90,130,205,92,247,107,209,241,146,30,76,152,36,2,26,41,157,24,139,238,22,2>>,
    gy |-> <<160,242,199,55,34,171,64,131,190,247,199,17,154,220,242,242,168,98,119,103,209,197,102,40,110,156,4,46,157,176,174,127,43,210,172,107,48,217,5>> ],
  [ p |-> <<1,0,32,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,128>>,
    a |-> <<1>>,
    b |-> <<54,81,153,86,123,67,85,151,167,121,76,57,146,61,249,184,218,202,66,254,42,12,75,166,164,106,191,71,107,85,71,68,101,213,122,98,209,243,166,183,176,66,210,138,252,67>>,
    n |-> <<73,45,155,4,68,239,69,34,129,232,140,210,143,66,34,79,130,250,163,117,11,48,156,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64>>,
    gx |-> <<161,185,179,65,53,55,74,191,120,159,16,154,229,18,254,181,57,150,224,129,166,12,64,26,232,123,62,65,118,122,25,97,249,211,224,154,169,73,140,240,18,213,221,110,74,50>>,
    gy |-> <<16,60,43,68,38,22,5,31,186,65,205,84,244,170,129,52,254,195,132,25,182,198,73,58,4,43,185,103,165,209,119,249,199,7,144,83,57,158,245,119,68,91,122,89,171,1>> ],
  [ p |-> <<43,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,128>>,
    a |-> <<1>>,
    b |-> <<243,202,64,198,105,164,218,23,49,73,202,18,195,45,174,24,107,83,172,107,198,54,89,151,222,174,174,138,210,216,136,249,191,213,52,1,105,78,249,196,39,61,140,254,109,194,143,112,106,15,73,16,206,3>>,
    n |-> <<207,4,5,17,149,122,12,217,128,175,203,31,138,170,129,47,240,36,167,192,168,9,128,69,117,49,186,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,63>>,
    gx |-> <<125,133,124,148,197,67,59,253,153,30,23,194,38,132,6,88,80,169,162,73,237,123,194,73,174,90,78,135,134,137,248,114,239,122,213,36,8,46,195,3,142,154,237,231,186,107,161,51,129,217,121,186,98,26>>,
    gy |-> <<185,45,224,144,224,36,55,114,226,181,8,51,165,75,161,30,155,118,193,85,168,57,24,141,107,57,170,49,243,65,162,141,244,165,76,75,117,81,244,102,222,189,150,254,190,11,247,193,49,64,225,225,181,112>> ] >>

FieldDegrees == << 163, 167, 173, 179, 191, 233, 257, 307, 367, 431 >>

CurveOk(c) == /\ OnCurve(c, Base(c))
              /\ Mul(c, c.n, Base(c)).inf
              /\ ~Mul(c, BSub(c.n, BOne), Base(c)).inf
              /\ NumBits(c.n) >= 160
              /\ BBit(c.n, 0) = 1

\* DER contents octets of the OID of named curve i (0..9): 1.2.804.2.1.1.1.1.3.1.1.2.i
CurveOid(i) == << 42, 134, 36, 2, 1, 1, 1, 1, 3, 1, 1, 2, i >>
\* dstu4145le: 1.2.804.2.1.1.1.1.3.1.1 ; dstu4145be: 1.2.804.2.1.1.1.1.3.1.1.1.1
AlgOid(le) == IF le THEN << 42, 134, 36, 2, 1, 1, 1, 1, 3, 1, 1 >>
              ELSE << 42, 134, 36, 2, 1, 1, 1, 1, 3, 1, 1, 1, 1 >>
=============================================================================
