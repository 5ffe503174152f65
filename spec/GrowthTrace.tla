----------------------------- MODULE GrowthTrace -----------------------------
(* Recorded calls that write near the end of the counting range.              *)
EXTENDS Growth, Json, IOUtils, TLC
Lines == ndJsonDeserialize(IOEnv.VF_TRACE)

GrowBad(e) ==
  IF e.f = "crash" THEN {"crash"} ELSE
  LET t == Calls(e, e.s, e.p, e.ns)
      E(ok, name) == IF ok THEN {} ELSE {name}
  IN E((e.ok = 1) = t.ok, "result") \cup E(e.ok = 1 \/ e.ec = 1, "error")
     \cup E(e.p2 = t.p, "position") \cup E(e.s2 = t.s, "size")
     \cup E(\A i \in 1..Len(e.rs) : Le(e.rs[i], Longer(e.lim, e.s)), "allocation-limit")
     \cup E(e.out = 0, "outside-the-buffer")

VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Lines) /\ done = FALSE
Next == /\ ~done
        /\ LET e == Lines[id]  j == GrowBad(e)
           IN IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", e.id, 1, j>>)
        /\ done' = TRUE
        /\ UNCHANGED id
Spec == Init /\ [][Next]_vars
===========================================================================
