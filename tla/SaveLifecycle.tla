--------------------------- MODULE SaveLifecycle ----------------------------
(***************************************************************************)
(* Design model of Save: a sequence of calls, each to no writer or to one  *)
(* of the writers, whose Write succeeds (0), fails (1) or panics (2) and   *)
(* whose Close succeeds or fails.  Close runs after Write whatever its     *)
(* outcome; the result is Write's.  Deferred = FALSE closes only when      *)
(* Write has returned, and must be refuted.  Histories are emitted and     *)
(* replayed with scripted writers.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Writers, MaxSaves, Deferred

VARIABLES pc, cur, log, saves, res
vars == <<pc, cur, log, saves, res>>
None == [w |-> 0, werr |-> 0, cerr |-> 0]

Init == pc = "idle" /\ cur = None /\ log = <<>> /\ saves = <<>> /\ res = <<>>
Call(w, we, ce) ==
  /\ pc = "idle" /\ Len(saves) < MaxSaves
  /\ (w = 0 => we = 0 /\ ce = 0)
  /\ cur' = [w |-> w, werr |-> we, cerr |-> ce]
  /\ saves' = Append(saves, cur')
  /\ pc' = IF w = 0 THEN "return" ELSE "write"
  /\ UNCHANGED <<log, res>>
Write  == pc = "write" /\ log' = Append(log, <<"write", cur.w>>) /\ pc' = (IF cur.werr = 2 /\ ~Deferred THEN "return" ELSE "close") /\ UNCHANGED <<cur, saves, res>>
Close  == pc = "close" /\ log' = Append(log, <<"close", cur.w>>) /\ pc' = "return" /\ UNCHANGED <<cur, saves, res>>
Return == pc = "return" /\ res' = Append(res, cur.werr) /\ pc' = "idle" /\ UNCHANGED <<cur, log, saves>>
Next == (\E w \in {0} \cup Writers, we \in 0..2, ce \in 0..1 : Call(w, we, ce)) \/ Write \/ Close \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Write \/ Close \/ Return)

Real == SelectSeq(saves, LAMBDA s : s.w # 0)
OncePerSave == pc = "idle" =>
  /\ Len(log) = 2 * Len(Real)
  /\ \A k \in 1..Len(Real) : log[2*k - 1] = <<"write", Real[k].w>> /\ log[2*k] = <<"close", Real[k].w>>
ReportsWrite == pc = "idle" => Len(res) = Len(saves) /\ \A k \in DOMAIN res : res[k] = saves[k].werr
NilSucceeds == pc = "idle" => \A k \in DOMAIN saves : saves[k].w = 0 => res[k] = 0
Returns == pc # "idle" ~> pc = "idle"
Emit == (pc = "idle" /\ Len(saves) = MaxSaves) => PrintT("## " \o ToJson([saves |-> saves]))
=============================================================================
