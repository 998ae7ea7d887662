------------------------------- MODULE GenKit -------------------------------
(***************************************************************************)
(* Pipelines of image helpers: kinds of source picture and of operations.  *)
(* A model of what is known of the picture: two-coloured after             *)
(* thresholding, colourless after graying, opaque after a JPEG.  Between   *)
(* two calls the picture's owner may paint upon it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
Types == {"rgba", "nrgba", "plain", "translucent", "gray", "gray16", "rgba64", "nrgba64", "cmyk", "paletted", "ycbcr"}
Ops == {"gray", "bin", "scale", "same", "save-png", "save-jpeg", "save-other", "save-fail", "paint"}

VARIABLES type, ops, known
Init == type \in Types /\ ops = <<>> /\ known = (IF type \in {"gray", "gray16"} THEN {"colourless"} ELSE {})
Learn(o) == CASE o = "gray" -> known \cup {"colourless"}
              [] o = "bin" -> {"colourless", "two"}
              [] o \in {"scale", "save-jpeg"} -> (known \ {"two"})
              [] o = "paint" -> {}
              [] OTHER -> known
Do(o) == /\ Len(ops) < MaxLen /\ (IF ops = <<>> THEN TRUE ELSE ops[Len(ops)] \notin {"save-other", "save-fail"})
         /\ ops' = Append(ops, o)
         /\ (o = "paint" => Len(ops) < MaxLen - 1)
         /\ known' = Learn(o)
         /\ UNCHANGED type
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<type, ops, known>>
TwoIsColourless == "two" \in known => "colourless" \in known
Emit == ops # <<>> => PrintT("## " \o ToJson([type |-> type, ops |-> ops]))
=============================================================================
