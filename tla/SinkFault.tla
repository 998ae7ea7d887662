------------------------------ MODULE SinkFault -----------------------------
(***************************************************************************)
(* Design model of a writer on a faulty sink: the encoder cuts the picture *)
(* into chunks, possibly through a buffer, and passes them to the sink,    *)
(* whose k-th write fails.  CheckLast = FALSE is the classic mistake (the  *)
(* final flush is not checked) and must be refuted.                        *)
(* Emits the kinds of sink, chunking and failure to replay.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Chunks, CheckLast

VARIABLES n, buffered, fault, done, sent, err, pc
vars == <<n, buffered, fault, done, sent, err, pc>>
Init == /\ n \in 1..Chunks /\ buffered \in BOOLEAN /\ fault \in 0..(n + 1)
        /\ done = 0 /\ sent = 0 /\ err = FALSE /\ pc = "encode"
Hit(k) == k = fault
(* Unbuffered: every chunk is a write of its own.                          *)
Direct == /\ pc = "encode" /\ ~buffered /\ done < n
          /\ sent' = sent + 1 /\ done' = done + 1 /\ err' = Hit(sent + 1)
          /\ pc' = IF err' THEN "return" ELSE pc
          /\ UNCHANGED <<n, buffered, fault>>
Collect == pc = "encode" /\ buffered /\ done < n /\ done' = done + 1 /\ UNCHANGED <<n, buffered, fault, sent, err, pc>>
Finish == /\ pc = "encode" /\ done = n
          /\ IF buffered THEN sent' = sent + 1 /\ err' = (Hit(sent + 1) /\ CheckLast) ELSE UNCHANGED <<sent, err>>
          /\ pc' = "return" /\ UNCHANGED <<n, buffered, fault, done>>
Next == Direct \/ Collect \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Failed == fault >= 1 /\ fault <= sent
Reported == pc = "return" => err = Failed
Terminates == <>(pc = "return")
Kinds == {[kind |-> k, sink |-> s, mode |-> m] : k \in {"jpeg", "png", "comp"}, s \in {"stream"}, m \in {"zero", "short", "all", "sticky"}}
         \cup {[kind |-> k, sink |-> "file", mode |-> "zero"] : k \in {"jpeg", "png", "comp", "text"}}
ASSUME \A x \in Kinds : PrintT("## " \o ToJson(x))
=============================================================================
