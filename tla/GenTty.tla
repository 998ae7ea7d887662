------------------------------- MODULE GenTty -------------------------------
(***************************************************************************)
(* Sessions of the command on a terminal: paint, resizes that change       *)
(* nothing, one key, restoration; or a refusal before anything is shown.   *)
(* Every complete session is emitted.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxResizes
Texts == {"short", "medium", "dash", "toolong", "empty", "help"}
Forms == {"plain", "equals", "single", "with-picture-flags", "bad-borders", "bad-block", "unknown", "twice"}
Keys  == {"letter", "enter", "space", "arrow", "esc", "ctrl-c", "utf8", "tab", "nul", "ctrl-z", "ctrl-d", "backspace", "digit", "up"}
VARIABLES text, form, steps, screen, line, status
vars == <<text, form, steps, screen, line, status>>
Fine == text # "toolong" /\ form \notin {"bad-borders", "bad-block", "unknown"}
Init == text \in Texts /\ form \in Forms /\ steps = <<>> /\ screen = "main" /\ line = "cooked" /\ status = -1
Paint == screen = "main" /\ status = -1 /\ Fine /\ screen' = "symbol" /\ line' = "raw" /\ UNCHANGED <<text, form, steps, status>>
Refuse == screen = "main" /\ status = -1 /\ ~Fine /\ status' = 1 /\ UNCHANGED <<text, form, steps, screen, line>>
Resize(r) == screen = "symbol" /\ Len(steps) < MaxResizes /\ steps' = Append(steps, r) /\ UNCHANGED <<text, form, screen, line, status>>
Key(k) == screen = "symbol" /\ steps' = Append(steps, k) /\ screen' = "main" /\ line' = "cooked" /\ status' = 0 /\ UNCHANGED <<text, form>>
Next == Paint \/ Refuse \/ (\E r \in {"bigger", "smaller"} : Resize(r)) \/ (\E k \in Keys : Key(k))
Spec == Init /\ [][Next]_vars
Restored == status >= 0 => screen = "main" /\ line = "cooked"
Honest   == status >= 0 => (status = 0) = Fine
Emit == status >= 0 => PrintT("## " \o ToJson([text |-> text, form |-> form, steps |-> steps]))
=============================================================================
