--------------------------- MODULE TraceResources ---------------------------
(***************************************************************************)
(* Trace specification of what is held after each operation (C30).         *)
(* An observation is [op, s, kind, err, run, open]: the operation, whether *)
(* it reported an error, goroutines more than at the start, files open     *)
(* that were not at the start.  rd.fresh: the writers that hold a file.    *)
(***************************************************************************)
EXTENDS TraceCommon
Made   == {"jpeg", "png", "comp", "fullstd", "fullcomp", "badenc", "styled"}
Unmade == {"nodirstd", "nodircomp", "isdirstd", "isdircomp"}
Fails  == {"fullstd", "fullcomp", "badenc"}
Init == evt \in DOMAIN Trace /\ pc = "step" /\ rd = [k |-> 1, fresh |-> <<>>]

(* fresh is a sequence of <<slot, name of its file>>.                      *)
Without(s) == SelectSeq(rd.fresh, LAMBDA p : p[1] # s)
After(o) == CASE o.op = "create" /\ o.kind \in Made -> Append(rd.fresh, <<o.s, o.file>>)
              [] o.op \in {"save", "close"} -> Without(o.s)
              [] OTHER -> rd.fresh
Fresh(s) == \E i \in DOMAIN rd.fresh : rd.fresh[i][1] = s
Failure(o) == CASE o.op = "new" -> o.kind \in {"toolong", "badmode", "badchars"}
                [] o.op = "create" -> o.kind \in Unmade
                [] o.op = "save" -> o.kind \in Fails \/ ~Fresh(o.s)
                [] o.op = "close" -> FALSE
                [] OTHER -> o.kind \in {"badstream", "textclosed", "readbad", "readnone", "keepbad", "keepnone"}
Bag(l) == [x \in {l[i] : i \in DOMAIN l} |-> Cardinality({i \in DOMAIN l : l[i] = x})]
Step ==
  /\ pc = "step"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd.k > Len(e.obs) THEN Accept
     ELSE LET o == e.obs[rd.k]
              fresh == After(o)
              bad == FirstBad(<< <<o.err = Failure(o), "outcome">>, <<o.run <= 0, "running">>,
                                 <<Bag(o.open) = Bag([i \in DOMAIN fresh |-> fresh[i][2]]), "open">> >>)
          IN  IF bad # "" THEN Reject(<<bad, rd.k>>)
              ELSE rd' = [k |-> rd.k + 1, fresh |-> fresh] /\ Goto("step")
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
