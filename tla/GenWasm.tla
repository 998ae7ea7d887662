------------------------------ MODULE GenWasm -------------------------------
(***************************************************************************)
(* The module as its user sees it: alive, and answering every call.  The   *)
(* classes of calls, and every history of them up to a bound.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen

Good == {"plain", "styled", "encoded", "jpeg", "content-only", "odd-but-fine"}
Bad  == {"too-long", "no-arguments", "bad-colour", "wrong-mode", "odd-content", "odd-options", "odd-values", "huge", "negative", "impossible"}

(* The same call once more, or with one argument or option changed: what   *)
(* is remembered of a call must not show in the next one.                  *)
Near == {"again", "nearly-again"}

VARIABLES hist, answers
Init == hist = <<>> /\ answers = <<>>
Call(c) == /\ Len(hist) < MaxLen
           /\ hist' = Append(hist, c)
           /\ \E a \in {"picture", "error"} :
                /\ (c \in Good => a = "picture") /\ (c \in {"no-arguments", "too-long", "impossible"} => a = "error")
                /\ answers' = Append(answers, a)
Next == \/ \E c \in Good \cup Bad : Call(c)
        \/ hist # <<>> /\ \E c \in Near : Call(c)
Spec == Init /\ [][Next]_<<hist, answers>>

(* Whatever happened before, a good call is answered with a picture.       *)
Alive == \A i \in DOMAIN hist : hist[i] \in Good => answers[i] = "picture"
Emit == hist # <<>> => PrintT("## " \o ToJson([calls |-> hist]))
=============================================================================
