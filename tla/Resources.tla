----------------------------- MODULE Resources ------------------------------
(***************************************************************************)
(* What the library holds while it works: goroutines of a construction,    *)
(* files it opened itself.  An operation is started, takes internal steps  *)
(* and returns; at rest nothing may run and only the files of writers that *)
(* were created and not yet used may be open.                              *)
(*                                                                         *)
(* Flaw = "early-return" (a failing worker makes the construction return   *)
(* while the others can never deliver), "error-leak" (a failing write is   *)
(* returned without closing) and "option-leak" (a picture that cannot be   *)
(* decoded stays open) must be refuted.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Slots, Flaw

Texts   == {"ok", "big", "toolong", "badmode", "badchars", "many"}
Made    == {"jpeg", "png", "comp", "fullstd", "fullcomp", "badenc", "styled"}   \* the file can be opened
Unmade  == {"nodirstd", "nodircomp", "isdirstd", "isdircomp"}                   \* it cannot
Fails   == {"fullstd", "fullcomp", "badenc"}                                    \* opened, but the write fails
Aside   == {"nil", "stream", "badstream", "text", "textclosed",                 \* saves that open nothing
            "logo", "logojpeg", "logobad", "logonone", "half", "halfbad", "halfnone",
            "read", "readbad", "readnone", "keep", "keepbad", "keepnone"}       \* options and helpers: opened and closed within
Workers == 2

VARIABLES at,       \* step of the operation in progress
          busy,     \* goroutines running or blocked
          slot,     \* writers: "free", "fresh" (file open), "used"
          kind,     \* what kind of writer
          temp,     \* files opened for the duration of an operation, still open
          ops
vars == <<at, busy, slot, kind, temp, ops>>
Idle == [op |-> "idle", s |-> 0, w |-> 0]

Init == at = Idle /\ busy = 0 /\ slot = [s \in Slots |-> "free"] /\ kind = [s \in Slots |-> ""] /\ temp = 0 /\ ops = <<>>
Log(op, s, k) == Len(ops) < MaxLen /\ at = Idle /\ ops' = Append(ops, [op |-> op, s |-> s, kind |-> k])

New(t) == /\ Log("new", 0, t)
          /\ IF t \in {"toolong", "badmode", "badchars"} THEN UNCHANGED <<at, busy>>
             ELSE busy' = Workers /\ at' = [op |-> "collect", s |-> 0, w |-> 0]
          /\ UNCHANGED <<slot, kind, temp>>
Deliver == /\ at.op = "collect" /\ at.w < Workers /\ busy > 0
           /\ busy' = busy - 1 /\ at' = [at EXCEPT !.w = @ + 1] /\ UNCHANGED <<slot, kind, temp, ops>>
Collected == /\ at.op = "collect" /\ (at.w = Workers \/ (Flaw = "early-return" /\ at.w > 0))
             /\ at' = Idle /\ UNCHANGED <<busy, slot, kind, temp, ops>>

Create(s, k) == /\ slot[s] = "free" /\ Log("create", s, k)
                /\ (IF k \in Made THEN slot' = [slot EXCEPT ![s] = "fresh"] /\ kind' = [kind EXCEPT ![s] = k] ELSE UNCHANGED <<slot, kind>>)
                /\ UNCHANGED <<at, busy, temp>>
Save(s) == /\ slot[s] \in {"fresh", "used"} /\ Log("save", s, kind[s])
           /\ at' = [op |-> "close", s |-> s, w |-> IF kind[s] \in Fails \/ slot[s] = "used" THEN 1 ELSE 0] /\ UNCHANGED <<busy, slot, kind, temp>>
Closed == /\ at.op = "close"
          /\ slot' = [slot EXCEPT ![at.s] = IF Flaw = "error-leak" /\ at.w = 1 /\ @ = "fresh" THEN "leaked" ELSE "used"]
          /\ at' = Idle /\ UNCHANGED <<busy, kind, temp, ops>>
Close(s) == /\ slot[s] = "fresh" /\ Log("close", s, kind[s]) /\ slot' = [slot EXCEPT ![s] = "used"] /\ UNCHANGED <<at, busy, kind, temp>>
Beside(k) == /\ Log("beside", 0, k) /\ temp' = temp + 1 /\ at' = [op |-> "beside", s |-> 0, w |-> IF k \in {"logobad", "halfbad", "readbad"} THEN 1 ELSE 0]
             /\ UNCHANGED <<busy, slot, kind>>
Done == /\ at.op = "beside" /\ temp' = (IF Flaw = "option-leak" /\ at.w = 1 THEN temp ELSE temp - 1)
        /\ at' = Idle /\ UNCHANGED <<busy, slot, kind, ops>>

Next == \/ \E t \in Texts : New(t)
        \/ Deliver \/ Collected \/ Closed \/ Done
        \/ \E s \in Slots : Save(s) \/ Close(s) \/ \E k \in Made \cup Unmade : Create(s, k)
        \/ \E k \in Aside : Beside(k)
Spec == Init /\ [][Next]_vars

AtRest == at = Idle
NothingRuns == AtRest => busy = 0
NothingOpen == AtRest => temp = 0 /\ \A s \in Slots : slot[s] \in {"free", "fresh", "used"}
(* The files open at rest: those of the writers not used yet.               *)
Emit == AtRest /\ Len(ops) = MaxLen => PrintT("## " \o ToJson([ops |-> ops]))
=============================================================================
