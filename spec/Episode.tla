------------------------------ MODULE Episode ------------------------------
(***************************************************************************)
(* The stateful episode interface (dm_env wrapper) as a protocol machine.  *)
(* s = [phase, n, t, h]: phase "fresh" (nothing to step or read),          *)
(* "running" or "finished"; n = scenarios taken from the generator so far; *)
(* t = clock of the running scenario; h = length of its recording.         *)
(* w = warm-up length, hz(n) = length of the n-th scenario's recording.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh == [phase |-> "fresh", n |-> 0, t |-> 0, h |-> 0]
NotInit == "SimulationNotInitializedError"
Finished == "EpisodeAlreadyFinishedError"

\* result of each operation: <<new state, outcome>>; outcome "FIRST", "MID",
\* "LAST", "state" (a successful read) or the name of the error
DoReset(s, w, hz(_)) ==
  LET m == s.n + 1 IN
  IF hz(m) > w THEN <<[phase |-> "running", n |-> m, t |-> w - 1, h |-> hz(m)], "FIRST">>
  ELSE <<[phase |-> "fresh", n |-> m, t |-> 0, h |-> 0], NotInit>>
\* term: the wrapped environment reports the state stepped to as terminated
DoStep(s, term) ==
  CASE s.phase = "fresh" -> <<s, NotInit>>
    [] s.phase = "finished" -> <<s, Finished>>
    [] s.phase = "running" ->
         IF s.t + 1 >= s.h - 1 \/ term THEN <<[s EXCEPT !.t = @ + 1, !.phase = "finished"], "LAST">>
         ELSE <<[s EXCEPT !.t = @ + 1], "MID">>
DoRead(s) == IF s.phase = "fresh" THEN <<s, NotInit>> ELSE <<s, "state">>
=============================================================================
