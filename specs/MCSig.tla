------------------------------- MODULE MCSig -------------------------------
EXTENDS SigSpec, TinyCurves
CONSTANTS Which, HashMax
MCCurves == { Tiny[i] : i \in Which }
\* one-octet hashes of every value, and longer ones whose low bits vanish
MCHashes == { << v >> : v \in 0..HashMax } \cup { << 0, 1 >>, << 0, 0, 255 >>, << 224, 7 >> }
=============================================================================
