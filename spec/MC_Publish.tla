------------------------------ MODULE MC_Publish ------------------------------
(* TLC's model of Publish *)
EXTENDS Publish
=============================================================================
