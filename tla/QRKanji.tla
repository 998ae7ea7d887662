------------------------------ MODULE QRKanji -------------------------------
(***************************************************************************)
(* KanjiTab[i+1] = the Unicode code point of the kanji-mode value i, 0 if  *)
(* there is none.  KanjiOf[cp-16#4E00+1] = 1 + the kanji-mode value of the *)
(* ideograph cp, 0 if there is none.  Both tables are made from an         *)
(* independent Shift JIS codec by tools/mkkanji.py.                        *)
(***************************************************************************)
EXTENDS Json, TLC, IOUtils, Sequences
KanjiTab == TLCEval(JsonDeserialize(IOEnv.VERIF_DATA \o "/kanji.json"))
KanjiOf  == TLCEval(JsonDeserialize(IOEnv.VERIF_DATA \o "/kanjicp.json"))
=============================================================================
