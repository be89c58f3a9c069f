------------------------------ MODULE MCStore ------------------------------
EXTENDS StoreSpec, TinyCurves
CvDef == { Tiny[2] }
CertDef == << << 48, 3, 2, 1, 5 >>, << 48, 3, 2, 1, 7 >> >>
ConSmall == { << >>, << 1 >>, << 2 >>, << 3 >>, << 4 >>, << 1, 4 >> }
ConBig == { << >> } \cup { << a >> : a \in 1..4 } \cup { << a, b >> : a \in 1..4, b \in 1..4 }
PwDef == { << 97 >>, << 97, 98 >>, << 208, 191 >> }
DmgSmall == { 1, 128 }
DmgBig == { 1, 2, 3, 16, 127, 128, 255 }
=============================================================================
