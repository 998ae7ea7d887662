------------------------------ MODULE GenImage ------------------------------
(***************************************************************************)
(* Image options as a state machine: options are applied one after the     *)
(* other to the settings so far.  Every option list up to a length is      *)
(* emitted and drawn by the real writer; the invariants say that the last  *)
(* setting of a kind wins and that kinds do not influence each other.      *)
(***************************************************************************)
EXTENDS StdImage, TLC, Json
CONSTANT MaxLen

O(o, t, n, c, l, x, hex) == [o |-> o, t |-> t, n |-> n, c |-> c, l |-> l, s |-> <<>>, x |-> x, y |-> "", hex |-> hex]
Alphabet == {
  O("fg", "rgba", 0, <<10, 200, 30, 255>>, <<>>, "", <<>>),
  O("fg", "nil", 0, <<>>, <<>>, "", <<>>),
  O("bg", "nrgba", 0, <<250, 220, 1, 255>>, <<>>, "", <<>>),
  O("bg", "nil", 0, <<>>, <<>>, "", <<>>),
  O("fghex", "", 0, <<>>, <<>>, "#1aF", <<35, 49, 97, 70>>),
  O("fghex", "", 0, <<>>, <<>>, "#0180fE", <<35, 48, 49, 56, 48, 102, 69>>),
  O("bghex", "", 0, <<>>, <<>>, "", <<>>),
  O("bghex", "", 0, <<>>, <<>>, "#9cD", <<35, 57, 99, 68>>),
  O("bghex", "", 0, <<>>, <<>>, "#Fedc90", <<35, 70, 101, 100, 99, 57, 48>>),
  O("transparent", "", 0, <<>>, <<>>, "", <<>>),
  O("width", "", 0, <<>>, <<>>, "", <<>>),
  O("width", "", 2, <<>>, <<>>, "", <<>>),
  O("width", "", 5, <<>>, <<>>, "", <<>>),
  O("border", "", 0, <<>>, <<>>, "", <<>>),
  O("border", "", 0, <<>>, <<3>>, "", <<>>),
  O("border", "", 0, <<>>, <<0, 7>>, "", <<>>),
  O("border", "", 0, <<>>, <<1, 2, 4, 9>>, "", <<>>),
  O("enc", "png", 0, <<>>, <<>>, "", <<>>),
  O("enc", "jpeg", 0, <<>>, <<>>, "", <<>>),
  O("enc", "nil", 0, <<>>, <<>>, "", <<>>)}

VARIABLES opts, cfg
Init == opts = <<>> /\ cfg = DefaultImg
Set1(o) == Len(opts) < MaxLen /\ opts' = Append(opts, o) /\ cfg' = ApplyImg(cfg, o)
Next == \E o \in Alphabet : Set1(o)
Spec == Init /\ [][Next]_<<opts, cfg>>

Effective(o) == CASE o.o \in {"fg", "bg"} -> o.t # "nil" [] o.o = "bghex" -> Len(o.hex) > 0 [] o.o = "enc" -> o.t # "nil" [] OTHER -> TRUE
Kind(o) == CASE o.o \in {"fg", "fghex"} -> "fg" [] o.o \in {"bg", "bghex"} -> "bg" [] OTHER -> o.o
LastOf(kind) == LET I == {i \in DOMAIN opts : Kind(opts[i]) = kind /\ Effective(opts[i])}
              IN  IF I = {} THEN <<>> ELSE <<opts[CHOOSE i \in I : \A j \in I : j <= i]>>
Only(kind) == FoldLeft(ApplyImg, DefaultImg, LastOf(kind))
LastWins == /\ cfg.fg = Only("fg").fg /\ cfg.bg = Only("bg").bg /\ cfg.bw = Only("width").bw
            /\ cfg.bd = Only("border").bd /\ cfg.tr = Only("transparent").tr /\ cfg.fmt = Only("enc").fmt
Sound == cfg.bw \in 1..255 /\ \A k \in 1..4 : cfg.bd[k] >= 0 /\ cfg.fg[k] \in 0..255 /\ cfg.bg[k] \in 0..255
Emit == PrintT("## " \o ToJson([opts |-> opts]))
=============================================================================
