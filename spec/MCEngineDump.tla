---------------------------- MODULE MCEngineDump ----------------------------
(* Writes the scenes of a family of MCEngine, for replay in the code.       *)
EXTENDS MCEngine
ASSUME Dump
DInit == sc = 0 /\ bund = 0 /\ tree = 0 /\ folw = 0 /\ it = 0 /\ pc = 0 /\ todo = 0 /\ shown = 0 /\ front = 0 /\ parts = 0
DNext == FALSE /\ UNCHANGED vars
=============================================================================
