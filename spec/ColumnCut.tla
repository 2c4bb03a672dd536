------------------------------ MODULE ColumnCut ------------------------------
(***************************************************************************)
(* The encoder of fixed-width columns refines the arithmetic of CutAll:    *)
(* what Apalache proves of CutAll for every block size holds of it.        *)
(***************************************************************************)
EXTENDS ColumnEncoder

CONSTANT Width

Values_(s) == Len(Vals(s))
Numbers == INSTANCE CutAll WITH
  Deviation <- "none",
  w <- Width,
  held <- Values_(rem),
  rest <- CASE pc = "topup" -> Values_(buf)
            [] pc = "loop"  -> Values_(buf) - bpos
            [] OTHER        -> 0,
  given <- Values_(col),
  done <- NumVals(blocks),
  last <- LET n == Len(blocks) - nfinal IN IF n = 0 THEN 0 ELSE blocks[n].n,
  pc <- IF pc = "tail" THEN "idle" ELSE pc
Refines == Numbers!Spec
=============================================================================
