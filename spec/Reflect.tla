------------------------------- MODULE Reflect -------------------------------
(* Objects as their members see them: an object is the sequence of its        *)
(* members' values.  Visiting calls the visitor once with all members in      *)
(* order of declaration, members themselves and not copies, so that what the  *)
(* visitor assigns is in the object afterwards; types and count follow the    *)
(* declaration whatever the object holds (C28).                               *)
EXTENDS Wire, Json, IOUtils, TLC

Types == JsonDeserialize(IOEnv.VF_TYPES)
TraceTable == Types.table
Sessions == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES sid, l, x, bad
vars == <<sid, l, x, bad>>
Init == sid \in 1..Len(Sessions) /\ l = 0 /\ x = <<>> /\ bad = {}

Clause(ok, name) == IF ok THEN {} ELSE {name}
SameAll(ts, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(ts[i], a[i], b[i])
\* c = [ts |-> descriptors, codes |-> what the types are called]
After(c, s, e) == IF e.o \in {"new", "assign"} THEN e.v ELSE s
Judge(c, s, e) ==
  LET n == Len(c.ts) IN
  CASE e.o \in {"crash", "hang"} -> {e.o}
    [] e.o = "new" -> Clause(SameAll(c.ts, e.x, e.v), "object")
    [] e.o = "count" -> Clause(\A i \in 1..Len(e.n) : e.n[i] = n, "member-count")
    [] e.o = "types" -> Clause(e.codes = c.codes, "member-types")
    [] e.o = "visit" -> Clause(e.calls = 1, "visited-once") \cup Clause(e.ret = 1, "visitor-result")
                        \cup Clause(e.place = 1, "members-themselves")
                        \cup Clause(SameAll(c.ts, e.seen, s), "members-seen")
                        \cup Clause(SameAll(c.ts, e.x, s), "object")
    [] e.o = "assign" -> Clause(e.calls = 1, "visited-once")
                         \cup Clause(SameAll(c.ts, e.x, e.v), "object")
    [] OTHER -> {"unknown"}

Next ==
  /\ bad = {} /\ l < Len(Sessions[sid].ev)
  /\ LET S == Sessions[sid]  e == S.ev[l + 1]  c == Types.cfgs[S.cfg + 1]  j == Judge(c, x, e) IN
     /\ bad' = j
     /\ IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", S.id, l + 1, j>>)
     /\ x' = IF j = {} THEN After(c, x, e) ELSE x
  /\ l' = l + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
==============================================================================
