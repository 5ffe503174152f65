------------------------------- MODULE Explore -------------------------------
(* The archive as a transition system of its own: all sequences of the given  *)
(* calls, from the given start, up to a buffer of MaxLen bytes.  TLC visits    *)
(* every reachable state and prints, for every transition, the calls that lead *)
(* to it and the call itself; the harness replays each on the library.         *)
(*                                                                             *)
(* While exploring, the specification is checked against itself:               *)
(*  ReadsBack  everything written completely and not overwritten since reads   *)
(*             back equal, from where it was written (C01, C05, C13)           *)
(*  Possible   the outcome the model takes is one that trace validation        *)
(*             allows (no call is left without an allowed outcome)             *)
(*  Inside     the positions are inside the buffer (C14)                       *)
EXTENDS Archive, Json, IOUtils, TLC

X == JsonDeserialize(IOEnv.VF_TYPES)   \* [table, worlds |-> <<[cfg, calls, ops, max, b0]>>]
XTable == X.table

VARIABLES w,     \* which world
          st,    \* [buf, op, ip]; buf may be unknown after a failure
          led,   \* what was written: set of [p, n, t, v]
          lost,  \* 0, or the number of the call that failed: nothing is known any more
          hist   \* the calls so far
vars == <<w, st, led, lost, hist>>

W == X.worlds[w]
Init == /\ w \in 1..Len(X.worlds)
        /\ st = [buf |-> X.worlds[w].b0, op |-> 0, ip |-> 0]
        /\ led = {} /\ lost = 0 /\ hist = <<>>

\* what a complete write makes of the state
Written(c, ts, vs) ==
  LET rs == Items(ts, vs, WOpt(c))
      all == Concat(rs)
      n == Len(all)
      \* certain to succeed: with a limit on growth, only what stays clear of it
      peak == Hi(n, Peak(rs))
      clear == \/ c.olim < 0 \/ st.op + peak <= Len(st.buf)
               \/ Grown(c, Hi(Len(st.buf), st.op + peak) + peak + 16) <= c.olim
      ok == /\ ts = <<>> \/ Last(rs).e = "ok"
            /\ IF c.kind = "grow" THEN clear ELSE st.op + n <= Len(st.buf)
  IN [ok |-> ok,
      s |-> [st EXCEPT !.op = @ + n, !.buf = Splice(@, st.op, all)],
      led |-> {x \in led : x.p + x.n <= st.op \/ x.p >= st.op + n}
              \cup (IF n = 0 THEN {} ELSE {[p |-> st.op, n |-> n, ts |-> ts, vs |-> vs]}),
      ev |-> [er |-> "ok", op |-> st.op + n, ip |-> st.ip, b |-> Splice(st.buf, st.op, all)]]
Read(c, ts, ovs) ==
  LET r == DecItems(ts, ovs, 1, ROpt(c), st.buf, st.ip, <<>>)
  IN [ok |-> r.e = "ok", s |-> [st EXCEPT !.ip = r.p],
      ev |-> [er |-> "ok", op |-> st.op, ip |-> r.p, b |-> st.buf, nv |-> r.vs, al |-> 0, lk |-> 0]]

Emit(i) == PrintT(<<"PATH", w, hist \o <<i>>, <<st, lost>> >>)

Step(i) ==
  LET e == W.ops[i]  c == W.cfg IN
  CASE e.o = "w" ->
         LET x == Written(c, W.calls[e.t + 1], e.v) IN
         IF x.ok THEN /\ Len(x.s.buf) <= W.max
                      /\ st' = x.s /\ led' = x.led /\ lost' = 0
                      /\ Assert(WriteBad(c, st, W.calls[e.t + 1], e.v, x.ev) = {}, <<"Possible", st, e>>)
         ELSE st' = st /\ led' = {} /\ lost' = i
    [] e.o = "r" ->
         LET x == Read(c, W.calls[e.t + 1], e.v) IN
         IF x.ok THEN /\ st' = x.s /\ led' = led /\ lost' = 0
                      /\ Assert(ReadBad(c, st, W.calls[e.t + 1], e.v, x.ev) = {}, <<"Possible", st, e>>)
         ELSE st' = st /\ led' = {} /\ lost' = i
    [] e.o = "s" ->
         LET p == Seek(IF e.a = "out" THEN st.op ELSE st.ip, e) IN
         /\ p \in 0..Len(st.buf)
         /\ st' = IF e.a = "out" THEN [st EXCEPT !.op = p] ELSE [st EXCEPT !.ip = p]
         /\ UNCHANGED <<led, lost>>
    [] e.o = "poke" ->
         /\ e.n + Len(e.d) <= Len(st.buf)
         /\ st' = [st EXCEPT !.buf = Splice(@, e.n, e.d)]
         /\ led' = {x \in led : x.p + x.n <= e.n \/ x.p >= e.n + Len(e.d)}
         /\ UNCHANGED lost
    [] e.o = "q" -> UNCHANGED <<st, led, lost>>

Next ==
  \E i \in 1..Len(W.ops) :
    /\ lost >= 0
    /\ lost > 0 => i \in ToSet(W.after)
    /\ IF lost > 0 THEN st' = st /\ led' = led /\ lost' = -lost ELSE Step(i)
    /\ Emit(i)
    /\ hist' = hist \o <<i>>
    /\ UNCHANGED w

Inside == lost = 0 => st.op \in 0..Len(st.buf) /\ st.ip \in 0..Len(st.buf)
ReadsBack == \A x \in led :
  LET r == DecItems(x.ts, x.vs, 1, [ROpt(W.cfg) EXCEPT !.lim = -1], st.buf, x.p, <<>>)
  IN r.e = "ok" /\ r.p = x.p + x.n /\ \A j \in 1..Len(x.ts) : VEq(x.ts[j], r.vs[j], x.vs[j])

Spec == Init /\ [][Next]_vars
Shape == <<w, st, led, lost>>
==============================================================================
