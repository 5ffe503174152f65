------------------------------- MODULE RpcTrace -------------------------------
(* Are the recorded executions behaviours of the Rpc specification?           *)
EXTENDS Rpc, Json, IOUtils, TLC

Types == JsonDeserialize(IOEnv.VF_TYPES)
TraceTable == Types.table
Sessions == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES sid, l, st, bad
vars == <<sid, l, st, bad>>

Of(o) == [buf |-> o.b, op |-> o.op, ip |-> o.ip]
None == [buf |-> <<>>, op |-> 0, ip |-> 0]
Init == /\ sid \in 1..Len(Sessions)
        /\ l = 0
        /\ st = [A |-> None, Z |-> None, cnt |-> 0]
        /\ bad = {}

NewEvBad(c, e) ==
  Clause(e.A.op = 0 /\ e.A.ip = 0 /\ ("Z" \in DOMAIN e => e.Z.op = 0 /\ e.Z.ip = 0), "new")

Judge(c, s, e) ==
  IF "er" \in DOMAIN e /\ e.er \in {"exc", "exc:alloc", "inconsistent", "differs", "badcategory"}
  THEN {e.er}
  ELSE (IF "threw" \in DOMAIN e THEN Clause((e.er = "ok") = (e.threw = 0), "throwing-form") ELSE {})
       \cup CASE e.o = "new" -> NewEvBad(c, e)
              [] e.o = "req" -> RequestBad(c, s, e)
              [] e.o = "raw" -> RawBad(c, s, e)
              [] e.o = "serve" -> ServeBad(c, s, e)
              [] e.o = "resp" -> ResponseBad(c, s, e)
              [] e.o = "apply" -> ApplyBad(c, s, e)
              [] e.o = "s" -> RSeekBad(c, s, e)
              [] OTHER -> {e.o}

Next ==
  /\ bad = {}
  /\ l < Len(Sessions[sid].ev)
  /\ LET S == Sessions[sid]
         e == S.ev[l + 1]
         j == Judge(Types.cfgs[S.cfg + 1], st, e)
     IN /\ bad' = j
        /\ IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", S.id, l + 1, j>>)
        /\ st' = IF e.o \in {"crash", "hang"} THEN st
                 ELSE [A |-> Of(e.A), Z |-> IF "Z" \in DOMAIN e THEN Of(e.Z) ELSE None, cnt |-> e.cnt]
  /\ l' = l + 1
  /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars
===========================================================================
