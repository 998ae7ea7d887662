------------------------------ MODULE Terminal ------------------------------
(***************************************************************************)
(* Design model of the terminal writer's protocol: paint, flush once, wait *)
(* for a key (other events are skipped), restore the terminal.  Scripts of *)
(* events are emitted and replayed into the real writer.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxEvents
Types == {"key", "resize", "mouse", "error", "interrupt", "raw", "none"}

VARIABLES script, fail, left, pc, calls, res
vars == <<script, fail, left, pc, calls, res>>
Scripts == UNION {[1..n -> Types] : n \in 0..MaxEvents}
Init == /\ script \in Scripts /\ fail \in BOOLEAN /\ left = script /\ pc = "init" /\ calls = <<>> /\ res = "none"
Begin == pc = "init" /\ calls' = <<"init">> /\ pc' = "flush" /\ UNCHANGED <<script, fail, left, res>>
Flush == /\ pc = "flush" /\ calls' = Append(calls, "flush")
         /\ (IF fail THEN pc' = "close" /\ res' = "flush-error" ELSE pc' = "wait" /\ UNCHANGED res)
         /\ UNCHANGED <<script, fail, left>>
Poll == /\ pc = "wait" /\ left # <<>> /\ left' = Tail(left)
        /\ (IF Head(left) = "key" THEN calls' = Append(calls, "poll:key") /\ pc' = "close" /\ res' = "ok"
            ELSE calls' = Append(calls, "poll:other") /\ UNCHANGED <<pc, res>>)
        /\ UNCHANGED <<script, fail>>
Close == pc = "close" /\ calls' = Append(calls, "close") /\ pc' = "done" /\ UNCHANGED <<script, fail, left, res>>
Next == Begin \/ Flush \/ Poll \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

HasKey(s) == \E k \in DOMAIN s : s[k] = "key"
Skips == res = "ok" => HasKey(script) /\ \A k \in 1..(Len(script) - Len(left) - 1) : script[k] # "key"
FlushedOnce == pc \in {"wait", "close", "done"} => Len(SelectSeq(calls, LAMBDA c : c = "flush")) = 1
Restores == <>(pc = "done" \/ (pc = "wait" /\ ~HasKey(script)))
Emit == (pc = "init") => PrintT("## " \o ToJson([events |-> script, flush |-> fail]))
=============================================================================
