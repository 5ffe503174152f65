---------------------------- MODULE ResultsTrace ----------------------------
(* Are the recorded histories behaviours of Results?                          *)
EXTENDS Results, Json, IOUtils
Types == JsonDeserialize(IOEnv.VF_TYPES)
Sessions == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES sid, l, s, bad
vars == <<sid, l, s, bad>>
Init == sid \in 1..Len(Sessions) /\ l = 0 /\ s = [i \in Slots |-> None] /\ bad = {}
Next ==
  /\ bad = {} /\ l < Len(Sessions[sid].ev)
  /\ LET S == Sessions[sid]  e == S.ev[l + 1]  c == Types.cfgs[S.cfg + 1]  j == ResultBad(c, s, e) IN
     /\ bad' = j
     /\ IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", S.id, l + 1, j>>)
     /\ s' = IF e.o \in {"crash", "hang"} THEN s ELSE After(c, s, e)
  /\ l' = l + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
==============================================================================
