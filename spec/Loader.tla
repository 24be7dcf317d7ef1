------------------------------- MODULE Loader -------------------------------
(* Data sets are fixed sequences of records; a load hands out fresh copies.  *)
EXTENDS Integers, Sequences
\* n < 0 stands for "all"
Loaded(data, n) == IF n < 0 \/ n > Len(data) THEN data ELSE SubSeq(data, 1, n)
=============================================================================
