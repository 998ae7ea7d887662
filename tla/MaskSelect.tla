----------------------------- MODULE MaskSelect -----------------------------
(***************************************************************************)
(* Design model of the choice of the mask: N workers compute the penalty   *)
(* of one candidate each and report it over a buffered channel in whatever *)
(* order they finish; after all have, the collector drains the channel.    *)
(* Whatever the schedule, the choice has to be the lowest-numbered mask    *)
(* among those with the lowest penalty.  TieBreak = FALSE is the design    *)
(* before the repair 90ca279: TLC then finds the schedule that breaks it.  *)
(*                                                                         *)
(* In simulation mode the completion orders are emitted and imposed on the *)
(* real workers through the hooks.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Scores, TieBreak
Workers == 0..(N - 1)

VARIABLES score, state, chan, order, best
vars == <<score, state, chan, order, best>>

Init == /\ score \in [Workers -> Scores]
        /\ state = [w \in Workers |-> "idle"]
        /\ chan = <<>> /\ order = <<>> /\ best = <<1000, 0>>
Start(w)  == state[w] = "idle" /\ state' = [state EXCEPT ![w] = "running"] /\ UNCHANGED <<score, chan, order, best>>
Report(w) == /\ state[w] = "running"
             /\ state' = [state EXCEPT ![w] = "sent"]
             /\ chan' = Append(chan, w) /\ order' = Append(order, w)
             /\ UNCHANGED <<score, best>>
AllSent == \A w \in Workers : state[w] = "sent"
Better(w) == score[w] < best[1] \/ (TieBreak /\ score[w] = best[1] /\ w < best[2])
Collect == /\ AllSent /\ chan # <<>>
           /\ chan' = Tail(chan)
           /\ best' = IF Better(Head(chan)) THEN <<score[Head(chan)], Head(chan)>> ELSE best
           /\ UNCHANGED <<score, state, order>>
Next == (\E w \in Workers : Start(w) \/ Report(w)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == AllSent /\ chan = <<>>
Minimal == CHOOSE w \in Workers : \A u \in Workers : score[w] < score[u] \/ (score[w] = score[u] /\ w <= u)
ScheduleIndependent == Done => best[2] = Minimal
Terminates == <>Done
Emit == Done => PrintT("## " \o ToJson([order |-> order]))
View == <<score, state, chan, best>>
=============================================================================
