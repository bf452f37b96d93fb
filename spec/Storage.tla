------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Storage.  A dataset owns the blocks that were allocated for it; no block *)
(* has two owners, and a released dataset leaves none behind.  What can be *)
(* observed from outside is the number of blocks in use.  A library may    *)
(* keep some storage of its own (buffers, caches), which must not depend   *)
(* on how often operations are repeated.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* counts, taken whenever no dataset exists, after each repetition of the same work: the first repetitions may fill caches *)
Growing(c) == Len(c) >= 3 /\ c[Len(c)] > c[Len(c) - 1] /\ c[Len(c) - 1] > c[Len(c) - 2]
=============================================================================
