-------------------------------- MODULE Wasm --------------------------------
(***************************************************************************)
(* generateQRCode(content, options): what a call asks for.  An option is   *)
(* [f, t, n, s]: property name, type of its value, the number or flag, the *)
(* characters of a string.  Calls whose options leave the documented       *)
(* ranges ask for nothing in particular; only the form of the result and   *)
(* the later calls matter then.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, StdImage, QRRequest

Hex(ch) == (ch >= 48 /\ ch <= 57) \/ (ch >= 65 /\ ch <= 70) \/ (ch >= 97 /\ ch <= 102)
IsHexColour(s) == Len(s) \in {4, 7} /\ s[1] = 35 /\ \A i \in 2..Len(s) : Hex(s[i])
LevelOf(s) == CASE s = <<76>> -> 1 [] s = <<77>> -> 2 [] s = <<81>> -> 3 [] s = <<72>> -> 4 [] OTHER -> 0
FormatOf(s) == CASE s \in {<<106, 112, 103>>, <<106, 112, 101, 103>>} -> "jpeg" [] s \in {<<>>, <<112, 110, 103>>} -> "png" [] OTHER -> ""

(* Is the value of one of the documented ones?                             *)
Documented(o) ==
  CASE o.t = "missing" -> TRUE
    [] o.f = "encodeVersion" -> o.t = "num" /\ o.n \in 0..40
    [] o.f = "encodeMode" -> o.t = "num" /\ o.n \in {0, 4, 8, 16, 32}
    [] o.f = "encodeECLevel" -> o.t = "str" /\ (o.s = <<>> \/ LevelOf(o.s) > 0)
    [] o.f \in {"outputBgColor", "outputQrColor"} -> o.t = "str" /\ (o.s = <<>> \/ IsHexColour(o.s))
    [] o.f \in {"outputBgTransparent", "outputCircleShape"} -> o.t = "bool"
    [] o.f = "outputQrWidth" -> o.t = "num" /\ o.n \in 0..255
    [] o.f = "outputImageEncoder" -> o.t = "str" /\ FormatOf(o.s) # ""
    [] o.f = "outputMargin" -> o.t = "num" /\ o.n \in 0..5000
    [] OTHER -> TRUE
(* A number no picture can have.                                           *)
Impossible(o) == /\ o.t = "num"
                 /\ \/ o.f = "encodeVersion" /\ o.n \notin 0..40
                    \/ o.f = "outputQrWidth" /\ o.n \notin 0..255
                    \/ o.f = "outputMargin" /\ o.n < 0

Used(o) == o.t # "missing"
EncodeOf(opts) ==
  FoldLeft(LAMBDA acc, o :
    CASE ~Used(o) -> acc
      [] o.f = "encodeVersion" -> Append(acc, [o |-> "ver", n |-> o.n])
      [] o.f = "encodeMode"    -> Append(acc, [o |-> "mode", n |-> o.n])
      [] o.f = "encodeECLevel" -> Append(acc, [o |-> "ec", n |-> LevelOf(o.s)])
      [] OTHER -> acc, <<>>, opts)

WasmDefault == [DefaultImg EXCEPT !.fmt = "png"]
Styled(st, o) ==
  CASE ~Used(o) -> st
    [] o.f = "outputBgColor" -> IF o.s = <<>> THEN st ELSE [st EXCEPT !.bg = HexColour(o.s)]
    [] o.f = "outputQrColor" -> IF o.s = <<>> THEN st ELSE [st EXCEPT !.fg = HexColour(o.s)]
    [] o.f = "outputBgTransparent" -> [st EXCEPT !.tr = o.n = 1]
    [] o.f = "outputCircleShape" -> IF o.n = 1 THEN [st EXCEPT !.shape = "circle"] ELSE st
    [] o.f = "outputQrWidth" -> IF o.n = 0 THEN st ELSE [st EXCEPT !.bw = o.n]
    [] o.f = "outputMargin" -> IF o.n = 0 THEN st ELSE [st EXCEPT !.bd = <<o.n, o.n, o.n, o.n>>]
    [] o.f = "outputImageEncoder" -> [st EXCEPT !.fmt = FormatOf(o.s)]
    [] OTHER -> st
ImageOf(opts) ==
  LET st == FoldLeft(Styled, WasmDefault, opts)
  IN  [st EXCEPT !.tr = @ /\ st.fmt = "png"]

(* The kinds of call: "error" (no content, or impossible), "open", or "plain".            *)
OptsOf(args) == IF Len(args) >= 2 /\ args[2].t = "obj" THEN args[2].obj ELSE <<>>
KindOf(args) ==
  IF Len(args) = 0 THEN "error"
  ELSE IF args[1].t # "text" THEN "open"
  ELSE IF Len(args) >= 2 /\ args[2].t = "odd" /\ args[2].odd \notin {"null", "undefined", "number", "bool", "nulls", "undefineds", "object", "proto", "asker", "asker2", "inherited"} THEN "open"
  ELSE IF \E i \in DOMAIN OptsOf(args) : Impossible(OptsOf(args)[i]) THEN "error"
  ELSE IF \E i \in DOMAIN OptsOf(args) : ~Documented(OptsOf(args)[i]) THEN "open"
  ELSE "plain"
(* With something else than an object for options no format is asked for.  *)
AnyFormat(args) == Len(args) >= 2 /\ args[2].t = "odd" /\ args[2].odd \in {"null", "undefined", "number", "bool"}
=============================================================================
