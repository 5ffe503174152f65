-------------------------------- MODULE Trace --------------------------------
(* Are the recorded executions behaviours of the Archive specification?       *)
(* One behaviour per session; its steps are the recorded calls.               *)
EXTENDS Archive, Json, IOUtils, TLC

Types == JsonDeserialize(IOEnv.VF_TYPES)      \* [table |->, calls |->, cfgs |->]
TraceTable == Types.table
Sessions == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES sid,  \* which session
          l,    \* events judged so far
          st,   \* [buf, op, ip]
          bad   \* clauses the last event violated
vars == <<sid, l, st, bad>>

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 0
        /\ st = [buf |-> Sessions[sid].b0, op |-> 0, ip |-> 0]
        /\ bad = {}

Full(e, s) == IF "b" \in DOMAIN e THEN e ELSE [b |-> s.buf] @@ e

Judge(c, s, e) ==
  IF "er" \in DOMAIN e /\ e.er \in {"exc", "exc:alloc", "inconsistent", "differs", "badcategory"}
  THEN {e.er}
  \* what a second execution of the same session showed (at run time, for one made by the compiler)
  ELSE IF "tw" \in DOMAIN e /\ e.tw # e.mine THEN {"differs-at-run-time"}
  ELSE LET ths == IF "threw" \in DOMAIN e
                  THEN Clause((e.er = "ok") = (e.threw = 0), "throwing-form") ELSE {}
           \* writing changes nothing but the buffer and the position
           un == Clause("ch" \notin DOMAIN e, "written-object-changed")
       IN ths \cup un \cup
     CASE e.o = "new" -> NewBad(c, s.buf, e)
       [] e.o = "w" -> WriteBad(c, s, Types.calls[e.t + 1], e.v, e)
       [] e.o = "r" -> ReadBad(c, s, Types.calls[e.t + 1], e.v, e)
       [] e.o = "s" -> SeekBad(s, e)
       [] e.o = "poke" -> PokeBad(s, e)
       [] e.o = "q" -> QueryBad(s, e)
       [] OTHER -> {e.o}                      \* crash, hang

After(s, e) ==
  [buf |-> e.b,
   op |-> IF "op" \in DOMAIN e THEN e.op ELSE s.op,
   ip |-> IF "ip" \in DOMAIN e THEN e.ip ELSE s.ip]

Next ==
  /\ bad = {}
  /\ l < Len(Sessions[sid].ev)
  /\ LET S == Sessions[sid]
         e == Full(S.ev[l + 1], st)
         j == Judge(Types.cfgs[S.cfg + 1], st, e)
     IN /\ bad' = j
        /\ IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", S.id, l + 1, j>>)
        /\ st' = After(st, e)
  /\ l' = l + 1
  /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars
===========================================================================
