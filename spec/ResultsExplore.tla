--------------------------- MODULE ResultsExplore ---------------------------
(* All histories of two slots up to `max' operations; each is replayed.       *)
(*  Conserved  an error or a value is in as many slots as it was put into,    *)
(*             less those destroyed or taken: nothing is duplicated by moves  *)
EXTENDS Results, Json, IOUtils
X == JsonDeserialize(IOEnv.VF_TYPES)   \* [worlds |-> <<[cfg, ops, max]>>]
VARIABLES w, s, hist, put
vars == <<w, s, hist, put>>
W == X.worlds[w]
Init == w \in 1..Len(X.worlds) /\ s = [i \in Slots |-> None] /\ hist = <<>> /\ put = 0
Next == \E i \in 1..Len(W.ops) :
  /\ Len(hist) < W.max /\ Able(s, W.ops[i])
  /\ s' = After(W.cfg, s, W.ops[i])
  /\ hist' = Append(hist, i)
  /\ put' = put + (IF W.ops[i].o \in {"val", "err"} THEN 1 ELSE 0)
  /\ PrintT(<<"PATH", w, hist', <<>> >>)
  /\ UNCHANGED w
Conserved == (W.cfg.moved # "keeps") => Cardinality({i \in Slots : s[i].k = "val"}) <= put
Apart == W.cfg.moved # "keeps" /\ s[1].k = "val" /\ s[2].k = "val" => put >= 2
Spec == Init /\ [][Next]_vars
==============================================================================
