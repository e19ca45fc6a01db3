--------------------------------- MODULE Saved ---------------------------------
(* Checkpoints of a network are taken while it trains; the best of them is      *)
(* saved as an archive, and that is the network that is loaded from it.         *)
(*   New kind local global               "detector" or "aligner" and its number *)
(*                                       of outputs                             *)
(*   Checkpoint ver score                a checkpoint and how good it is        *)
(*   Final ver                           one that was not evaluated             *)
(*   Save name over rel out dated        saves to an archive; over: may replace *)
(*        names files moved              one; dated: the name was not given and *)
(*                                       is that of today; files: the version   *)
(*                                       in every archive afterwards, which is  *)
(*                                       found by loading it, -1 if it cannot   *)
(*                                       be loaded or is none of the versions;  *)
(*                                       names: the other files there; moved:   *)
(*                                       the process or the checkpoints are not *)
(*                                       as they were                           *)
(*   Use name out ver local global       an archive is loaded and used          *)
EXTENDS Integers, Sequences

TC(name, ok) == IF ok THEN {} ELSE {name}
SavedInit == [score |-> <<>>, vers |-> <<>>, files |-> <<0, 0, 0>>, local |-> 0, global |-> 0]
RECURSIVE BestOf(_, _, _)
BestOf(score, i, b) == IF i > Len(score) THEN b ELSE BestOf(score, i + 1, IF score[i] > score[b] THEN i ELSE b)
Best(st) == st.vers[BestOf(st.score, 1, 1)]
Fresh(st, r) == st.files[r.name] = 0
SaveFails(st, r) ==
  LET may == r.over \/ Fresh(st, r)
      want == [st.files EXCEPT ![r.name] = Best(st)]
      others == {k \in 1..3 : k # r.name} IN
  TC("C35:archive_can_be_loaded", \A k \in 1..3 : r.files[k] >= 0)
  \cup (IF may THEN TC("C35:saves", r.out = "returned")
                    \cup (IF r.out # "returned" \/ r.files[r.name] < 0 THEN {} ELSE TC("C35:best_checkpoint_is_saved", r.files[r.name] = want[r.name]))
        ELSE TC("C35:archive_is_only_replaced_when_asked", r.out = "raised" /\ r.files[r.name] = st.files[r.name]))
  \cup TC("C35:other_archives_are_kept", \A k \in others : r.files[k] = st.files[k])
  \cup TC("C35:saved_under_the_name_asked_for", r.out = "returned" => r.files[r.name] # 0 /\ r.dated)
  \cup TC("C35:nothing_else_is_written", r.names = 0)
  \cup TC("C35:working_directory_is_kept", ~r.moved)
UseFails(st, r) ==
  TC("C35:loaded_network_is_the_saved_one", r.out = "returned" /\ r.ver = st.files[r.name])
  \cup (IF r.out = "returned" THEN TC("C35:outputs_of_the_network", r.local = st.local /\ r.global = st.global) ELSE {})
SavedFails(st, r) == CASE r.e = "Save" -> SaveFails(st, r) [] r.e = "Use" -> UseFails(st, r) [] OTHER -> {}
SavedAfter(st, r) ==
  CASE r.e = "New" -> [SavedInit EXCEPT !.local = r.local, !.global = r.global]
    [] r.e = "Checkpoint" -> [st EXCEPT !.score = Append(@, r.score), !.vers = Append(@, r.ver)]
    [] r.e = "Save" -> [st EXCEPT !.files = r.files]
    [] OTHER -> st
===============================================================================
