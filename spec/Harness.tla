------------------------------- MODULE Harness -------------------------------
(* Generic trace checker.  A trace is a sequence of records written by a     *)
(* driver that called the real putting-dune code.  The checked module (which *)
(* EXTENDS this one and the design module) supplies                          *)
(*   InitSt        the abstract state before the first record,               *)
(*   Fails(st, r)  the SET of named clauses of the specification that record *)
(*                 r violates in state st ({} = r is an allowed step),       *)
(*   After(st, r)  the abstract state after r (resynchronised with what the  *)
(*                 record says, so that the rest of the trace is checked),   *)
(*   Tags(st, r)   which interesting situations r exercised (non-vacuity).   *)
(* The verdict is total: every record is judged, all failing clauses are     *)
(* named together with the record that violates them.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt, Fails(_, _), After(_, _), Tags(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* index of the next record
          st,    \* abstract state
          bad,   \* the failures so far: <<record index, set of clauses>>
          tags   \* situations exercised so far

hvars == <<l, st, bad, tags>>

\* At most MaxBad failures with the same set of clauses are kept in detail;
\* where (a record number) is kept for all.
MaxBad == 4
Limit == IF "ALL" \in DOMAIN IOEnv THEN 1000 ELSE MaxBad
SameClauses(b, f) == Cardinality({i \in DOMAIN b : b[i][2] = f})

HInit == /\ l = 1 /\ st = InitSt /\ bad = <<>> /\ tags = {}

HNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l]
                f == Fails(st, r)
            IN /\ bad' = IF f = {} \/ SameClauses(bad, f) >= Limit THEN bad
                         ELSE Append(bad, <<l, f>>)
               /\ tags' = tags \cup Tags(st, r)
               /\ st' = After(st, r)
         /\ l' = l + 1

HSpec == HInit /\ [][HNext]_hvars

\* Written once, in the state in which the whole trace has been consumed.
Report == \/ l <= Len(Trace)
          \/ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad, tags |-> tags])

Clause(name, ok) == IF ok THEN {} ELSE {name}
Tag(name, ok) == IF ok THEN {name} ELSE {}
=============================================================================
