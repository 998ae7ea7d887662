--------------------------- MODULE ConcurrentSave ---------------------------
(***************************************************************************)
(* Design model of Saves that run at the same time.  Each Save renders its *)
(* symbol in two halves into a buffer, emits the buffer to its sink,       *)
(* closes the sink and returns; the sink of one of them may fail.          *)
(* With Shared = TRUE all Saves render into the same buffer (a pool that   *)
(* hands one out twice, a package variable): then Isolated is refuted.     *)
(* Complete interleavings are emitted and imposed on the real Saves.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Shared
Jobs == 1..N
Buf(j) == IF Shared THEN 1 ELSE j

VARIABLES pc, buf, out, res, faulty, sched
vars == <<pc, buf, out, res, faulty, sched>>
Init == /\ pc = [j \in Jobs |-> "first"] /\ buf = [j \in Jobs |-> <<>>]
        /\ out = [j \in Jobs |-> <<>>] /\ res = [j \in Jobs |-> "none"]
        /\ faulty \in 0..N /\ sched = <<>>
Go(j, from, to) == pc[j] = from /\ pc' = [pc EXCEPT ![j] = to] /\ sched' = Append(sched, j) /\ UNCHANGED faulty
First(j)  == Go(j, "first", "second") /\ buf' = [buf EXCEPT ![Buf(j)] = <<j>>] /\ UNCHANGED <<out, res>>
Second(j) == Go(j, "second", "emit") /\ buf' = [buf EXCEPT ![Buf(j)] = Append(@, j)] /\ UNCHANGED <<out, res>>
Emitting(j) == /\ Go(j, "emit", "close") /\ UNCHANGED buf
               /\ IF faulty = j THEN res' = [res EXCEPT ![j] = "error"] /\ UNCHANGED out
                  ELSE out' = [out EXCEPT ![j] = buf[Buf(j)]] /\ res' = [res EXCEPT ![j] = "ok"]
Close(j)  == Go(j, "close", "done") /\ UNCHANGED <<buf, out, res>>
Next == \E j \in Jobs : First(j) \/ Second(j) \/ Emitting(j) \/ Close(j)
Spec == Init /\ [][Next]_vars /\ \A j \in Jobs : WF_vars(First(j) \/ Second(j) \/ Emitting(j) \/ Close(j))

Isolated == \A j \in Jobs : pc[j] \in {"close", "done"} =>
              /\ res[j] = (IF faulty = j THEN "error" ELSE "ok")
              /\ res[j] = "ok" => out[j] = <<j, j>>
AllDone == <>(\A j \in Jobs : pc[j] = "done")
Emit == (\A j \in Jobs : pc[j] = "done") => PrintT("## " \o ToJson([sched |-> sched, faulty |-> faulty]))
=============================================================================
