--------------------------------- MODULE Fetch ---------------------------------
(* Fetching a model from an archive into a folder that only ever holds complete *)
(* models.  Versions of the model are 1, 2, ..; what is in its place is one of  *)
(* them, 0 if there is none, -1 if it is anything else (such as part of one).   *)
(*   New                                 nothing is there                       *)
(*   Call reload src ver fault           one call; src: "good", "missing",      *)
(*        out seen after left asked      "truncated", "corrupt"; fault: "none", *)
(*                                       "fail" (a file operation fails once),  *)
(*                                       "kill"; out: "returned", "raised",     *)
(*                                       "killed"; seen: what the model that    *)
(*                                       was returned finds in its place;       *)
(*                                       left: what else lies there; asked:     *)
(*                                       whether the archive was read           *)
(*   Pause reload ver after              a call is suspended for a while        *)
(*   Resume ver out seen after           and goes on                            *)
EXTENDS Integers, Sequences

TC(name, ok) == IF ok THEN {} ELSE {name}
FetchInit == [vis |-> 0, left |-> 0]
Needed(st, r) == st.vis = 0 \/ r.reload
Want(st, r) == IF Needed(st, r) THEN r.ver ELSE st.vis
\* While a model is replaced, there may be none for a moment.
Between(st, r) == {st.vis} \cup (IF Needed(st, r) /\ r.src = "good" THEN {r.ver} \cup (IF r.reload THEN {0} ELSE {}) ELSE {})

CallFails(st, r) ==
  TC("C34:never_part_of_a_model", r.after >= 0)
  \cup (CASE r.out = "returned" ->
               TC("C34:broken_archive_is_reported", Needed(st, r) => r.src = "good")
               \cup (IF Needed(st, r) /\ r.src # "good" THEN {} ELSE
                     TC("C34:returned_model_is_complete", r.seen > 0)
                     \cup TC("C34:the_model_asked_for", r.seen = Want(st, r) /\ r.after = r.seen))
          [] r.out = "raised" ->
               TC("C34:fetching_works_again", ~(r.fault = "none" /\ (r.src = "good" \/ ~Needed(st, r))))
               \cup TC("C34:kept_what_was_there", r.after \in Between(st, r))
          [] OTHER -> TC("C34:kept_what_was_there", r.after \in Between(st, r)))
  \cup TC("C34:complete_model_is_not_fetched_again", r.out # "killed" /\ r.asked => Needed(st, r))
  \cup TC("C34:nothing_left_behind", r.fault = "none" => r.left <= st.left)

PauseFails(st, r) == TC("C34:never_part_of_a_model", r.after >= 0)
                     \cup TC("C34:kept_what_was_there", r.after \in Between(st, r))
\* Somebody else may have fetched the model meanwhile, and one of the two may fail for it.
ResumeFails(st, r) ==
  TC("C34:never_part_of_a_model", r.after >= 0)
  \cup (IF r.out = "returned" THEN TC("C34:returned_model_is_complete", r.seen > 0 /\ r.seen \in {st.vis, r.ver} /\ r.after = r.seen)
        ELSE TC("C34:kept_what_was_there", r.after \in {st.vis, r.ver}))

FetchFails(st, r) == CASE r.e = "Call" -> CallFails(st, r) [] r.e = "Pause" -> PauseFails(st, r)
                       [] r.e = "Resume" -> ResumeFails(st, r) [] OTHER -> {}
FetchAfter(st, r) == CASE r.e = "New" -> FetchInit
                       [] r.e \in {"Call", "Pause", "Resume"} -> [vis |-> r.after, left |-> r.left]
                       [] OTHER -> st
===============================================================================
