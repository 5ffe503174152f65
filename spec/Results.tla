------------------------------- MODULE Results -------------------------------
(* Results of calls that may fail: a slot holds a value or an error, can be   *)
(* moved to another slot, asked, taken out of, and thrown from (C29).         *)
(*                                                                            *)
(* c = [moved |-> "keeps" (numbers, references, nothing), "husk" (an object   *)
(*      of unspecified value stays behind) or "gone" (what is owned leaves),  *)
(*      counts |-> 1 if the living objects are counted]                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slots == 1..2
None == [k |-> "none"]
Val(n) == [k |-> "val", v |-> n]
Err(n) == [k |-> "err", c |-> n]
Husk == [k |-> "husk"]

\* can the operation be done
Able(s, e) ==
  CASE e.o \in {"val", "err"} -> s[e.s] = None
    [] e.o = "mov" -> s[e.s] # None /\ s[3 - e.s] = None
    [] e.o \in {"get", "take"} -> s[e.s].k = "val"
    [] e.o = "thr" -> s[e.s].k \in {"val", "err"}
    [] e.o \in {"ask", "del"} -> s[e.s] # None
    [] OTHER -> TRUE
\* what is left of what is moved from
Left(c, x) == IF x.k = "val" /\ c.moved # "keeps" THEN Husk ELSE x
After(c, s, e) ==
  CASE e.o = "val" -> [s EXCEPT ![e.s] = Val(e.v)]
    [] e.o = "err" -> [s EXCEPT ![e.s] = Err(e.c)]
    [] e.o = "mov" -> [s EXCEPT ![3 - e.s] = s[e.s], ![e.s] = Left(c, @)]
    [] e.o = "take" -> [s EXCEPT ![e.s] = Left(c, @)]
    [] e.o = "thr" -> IF e.how = 2 THEN [s EXCEPT ![e.s] = Left(c, @)] ELSE s
    [] e.o = "del" -> [s EXCEPT ![e.s] = None]
    [] e.o = "end" -> [i \in Slots |-> None]
    [] OTHER -> s
\* how many objects are alive
Alive(c, s) ==
  IF c.counts = 0 THEN 0
  ELSE Cardinality({i \in Slots : s[i].k = "val" \/ (s[i].k = "husk" /\ c.moved = "husk")})

Clause(ok, name) == IF ok THEN {} ELSE {name}
ResultBad(c, s, e) ==
  LET x == IF "s" \in DOMAIN e THEN s[e.s] ELSE None  t == After(c, s, e) IN
  (IF e.o \in {"crash", "hang"} THEN {e.o} ELSE
   Clause(e.alive = Alive(c, t), "objects-alive") \cup Clause(e.twice = 0, "constructed-and-destroyed-once"))
  \cup
  CASE e.o = "ask" -> Clause(e.ok = (IF x.k = "err" THEN 0 ELSE 1) /\ e.fl = 1 - e.ok /\ e.fok = e.ok /\ e.ffl = e.fl, "success-and-failure")
                      \cup (IF x.k = "err" THEN Clause(e.er = x.c, "error") ELSE {})
    [] e.o \in {"get", "take"} -> Clause(e.got = x.v, "value")
    [] e.o = "thr" -> IF x.k = "err" THEN Clause(e.threw = x.c, "throws-the-error")
                      ELSE Clause(e.threw = 0, "throws") \cup (IF e.threw = 0 THEN Clause(e.got = x.v, "value") ELSE {})
    [] e.o = "code" -> Clause(e.ok = (IF e.c = 0 THEN 1 ELSE 0) /\ e.fl = 1 - e.ok /\ e.eok = e.ok /\ e.efl = e.fl, "success-and-failure")
                       \cup Clause(e.same = 1, "code") \cup Clause(e.threw = e.c, "throws-the-error")
    [] OTHER -> {}
==============================================================================
