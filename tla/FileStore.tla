------------------------------ MODULE FileStore -----------------------------
(***************************************************************************)
(* Output files as a state machine: two names in a directory, each absent, *)
(* a file of its own, the same file as the other name (a hard link) or a   *)
(* symbolic link to the other name; the contents of the files; the         *)
(* descriptors open.  A save through a writer made for a name opens and    *)
(* truncates the file the name leads to (creating it if there is none),    *)
(* writes the picture, closes it.  Truncate = FALSE leaves the tail of     *)
(* longer old content and must be refuted.  A writer may be given a file   *)
(* to take a halftone or logo picture from, which may be the file it is    *)
(* about to replace; the picture is the one found there before.            *)
(* ReadFirst = FALSE truncates before reading and must be refuted.         *)
(* Contents are <<length, tag>> pairs; histories are emitted and replayed  *)
(* on a real directory.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Files, MaxLen, Truncate, ReadFirst

Kinds == {"jpeg", "png", "comp"}
Size(kind, sym) == (CASE kind = "jpeg" -> 5 [] kind = "png" -> 3 [] kind = "comp" -> 2) + sym
VARIABLES at,    \* name -> 0 (absent), -1 (symbolic link to the other name) or the number of a file
          heap,  \* number of a file -> content
          open, ops, last
vars == <<at, heap, open, ops, last>>
Absent == <<-1, "">>
None == [f |-> -1, want |-> Absent]
Target(a, f) == IF a[f] = -1 THEN 1 - f ELSE f
Content(a, h, f) == IF a[Target(a, f)] = 0 THEN Absent ELSE h[a[Target(a, f)]]
Unused(a) == CHOOSE i \in 1..2 : \A f \in Files : a[f] # i

Init == at = [f \in Files |-> 0] /\ heap = [i \in 1..2 |-> Absent] /\ open = {} /\ ops = <<>> /\ last = None
More == Len(ops) < MaxLen
Did2(op, f, len, kind, sym, p) == ops' = Append(ops, [op |-> op, f |-> f, len |-> len, kind |-> kind, sym |-> sym, p |-> p])
Did(op, f, len, kind, sym) == Did2(op, f, len, kind, sym, 0)
(* what c gives for the old content comes to be found under the name       *)
Write(f, c(_)) ==
  LET t == Target(at, f)
      i == IF at[t] = 0 THEN Unused(at) ELSE at[t]
  IN  /\ at' = [at EXCEPT ![t] = i]
      /\ heap' = [heap EXCEPT ![i] = c(IF at[t] = 0 THEN Absent ELSE heap[i])]
Put(f, len) == /\ More /\ Write(f, LAMBDA old : <<len, "old">>)
               /\ Did("put", f, len, "", 0) /\ last' = None /\ UNCHANGED open
Remove(f) == /\ More /\ at' = [at EXCEPT ![f] = 0] /\ Did("remove", f, 0, "", 0) /\ last' = None /\ UNCHANGED <<heap, open>>
Hard(f) == /\ More /\ at[1 - f] > 0 /\ at' = [at EXCEPT ![f] = at[1 - f]]
           /\ Did("hard", f, 0, "", 0) /\ last' = None /\ UNCHANGED <<heap, open>>
Sym(f) == /\ More /\ at[1 - f] # -1 /\ at' = [at EXCEPT ![f] = -1]
          /\ Did("sym", f, 0, "", 0) /\ last' = None /\ UNCHANGED <<heap, open>>
Save(f, kind, sym) ==
  LET n == Size(kind, sym)
      new == <<n, kind \o ToString(sym)>>
  IN  /\ More
      /\ Write(f, LAMBDA old : IF Truncate \/ old[1] <= n THEN new ELSE <<old[1], new[2] \o "+tail">>)
      /\ Did("save", f, 0, kind, sym)
      /\ last' = [f |-> f, want |-> new] /\ UNCHANGED open
(* a save over the picture found under the name p                          *)
Over(f, kind, sym, p) ==
  LET base == <<(IF kind = "half" THEN 4 ELSE 6) + sym, kind \o ToString(sym)>>
      with(pic) == IF pic[2] \in {"", "old"} THEN base ELSE <<base[1] + 1, base[2] \o "(" \o pic[2] \o ")">>
      cut == ~ReadFirst /\ (p = f \/ -1 \in {at[0], at[1]} \/ at[0] = at[1])
      want == with(Content(at, heap, p))
  IN  /\ More
      /\ Write(f, LAMBDA old : IF cut THEN base ELSE want)
      /\ Did2("save", f, 0, kind, sym, p)
      /\ last' = [f |-> f, want |-> want] /\ UNCHANGED open
Next == \E f \in Files : \/ \E len \in {0, 3, 9} : Put(f, len)
                         \/ Remove(f) \/ Hard(f) \/ Sym(f)
                         \/ \E kind \in Kinds, sym \in 0..1 : Save(f, kind, sym)
                         \/ \E kind \in {"half", "logo"}, sym \in 0..1, p \in Files : Over(f, kind, sym, p)
Spec == Init /\ [][Next]_vars
TypeOK == ~ \A f \in Files : at[f] = -1
Exactly == last # None => Content(at, heap, last.f) = last.want
(* only names that lead to the same file are concerned                     *)
Others == [][\A f \in Files : (Content(at', heap', f) # Content(at, heap, f) /\ f # ops'[Len(ops')].f)
               => (at'[0] = at'[1] \/ -1 \in {at'[0], at'[1]})]_vars
Closed == open = {}
Emit == (Len(ops) = MaxLen /\ ops[MaxLen].op = "save") => PrintT("## " \o ToJson([ops |-> ops]))
=============================================================================
