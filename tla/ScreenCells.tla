----------------------------- MODULE ScreenCells ----------------------------
(***************************************************************************)
(* What a character cell <<character, foreground, background>> looks like. *)
(* Colours are palette indices + 1, 0 standing for the terminal's default. *)
(***************************************************************************)
EXTENDS Integers
FullBlock == 9608
Dark  == {1, 17}              \* black, and black of the colour cube
Light == {8, 16, 232}         \* white, bright white, white of the colour cube
Look(ch, fg, bg) == IF ch = FullBlock THEN fg ELSE IF ch \in {0, 32} THEN bg ELSE -1
(* A cell that belongs to no symbol.                                       *)
Neutral(ch, bg) == ch # FullBlock /\ bg \notin Dark \cup Light
=============================================================================
