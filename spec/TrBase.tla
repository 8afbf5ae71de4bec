------------------------------- MODULE TrBase -------------------------------
(***************************************************************************)
(* Frame of all trace specifications.  A trace file has one scenario per   *)
(* line; TLC starts in one initial state per scenario and takes one step   *)
(* per recorded step, so the number of distinct states tells whether every *)
(* recorded step was consumed.  A verdict never stops a run: what a step   *)
(* violates is printed as  FAIL|scenario|step|{<<property, clause>>, ...}  *)
(* and the scenario goes on.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Clauses

Scen == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES s,     \* scenario
          i      \* steps consumed

Steps(k) == Scen[k].steps

Report(fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("FAIL|" \o ToString(Scen[s].id) \o "|" \o ToString(i + 1) \o "|" \o ToString(fails))

\* Counters of what was decided (not only recorded); read back with TLCGet.
Tally(k, n) == IF n = 0 THEN TRUE ELSE TLCSet(k, TLCGet(k) + n)
TallyInit == \A k \in 1..20 : TLCSet(k, 0)
Post == PrintT("TALLY|" \o ToString([k \in 1..20 |-> TLCGet(k)]))
=============================================================================
