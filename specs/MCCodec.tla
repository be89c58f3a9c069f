------------------------------ MODULE MCCodec ------------------------------
EXTENDS CodecSpec, TinyCurves
CONSTANTS Which
MCCurves == { Tiny[i] : i \in Which }
MCTables == { DefaultSbox, [i \in 1..64 |-> (i * 7) % 256] }
=============================================================================
