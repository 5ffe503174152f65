--------------------------------- MODULE Rpc ---------------------------------
(* A client and a server of bound functions over one or two channels, and the *)
(* application of functions to an archive.                                    *)
(* State: A, the channel of requests (the only one if c.same = 1), and Z, the *)
(* channel of responses, each [buf, op, ip]; cnt, how often member functions  *)
(* of the context object ran.  As in Archive, a step is described by the set  *)
(* of clauses an outcome violates.                                            *)
EXTENDS Archive

Chan(st, k, c) == IF k = 2 /\ c.same = 0 THEN st.Z ELSE st.A
Same(s, o) == o.b = s.buf /\ o.op = s.op /\ o.ip = s.ip
\* what is seen of a channel, and that only one of its positions moved
Kept_(st, e, c, k) == IF k = 2 /\ c.same = 1 THEN TRUE ELSE Same(Chan(st, k, c), IF k = 2 THEN e.Z ELSE e.A)
Seen(e, k, c) == IF k = 2 /\ c.same = 0 THEN e.Z ELSE e.A

Tup(ts) == [k |-> "tup", ts |-> ts]
Codes == <<"ok", "badmsg", "msgsize", "proto">>

\* the result of a write, judged where it happened
Wrote(c, s, ts, vs, er, o) ==
  IF ts = <<>> THEN Clause(o.b = s.buf /\ o.op = s.op, "writes-nothing")
  ELSE WriteBad(c, [buf |-> s.buf, op |-> s.op, ip |-> 0], ts, vs, [er |-> er, op |-> o.op, b |-> o.b])

---------------------------------------------------------------------------
\* a request: the id, unless it is carried elsewhere, then the arguments
RequestBad(c, st, e) ==
  LET f == c.fns[e.i + 1]
      body == "body" \in DOMAIN e
      ts == (IF body THEN <<>> ELSE <<c.idd>>) \o f.qs
      vs == (IF body THEN <<>> ELSE <<f.id>>) \o e.av
  IN Wrote(c, st.A, ts, vs, e.er, e.A)
     \cup Clause(ts = <<>> => e.er = "ok", "request-result")
     \cup Clause(e.A.ip = st.A.ip, "request-moves-input")
     \cup Clause(Kept_(st, e, c, 2), "request-touches-responses")
     \cup Clause(\A k \in 1..Len(f.qs) : VEq(f.qs[k], e.av[k], e.v[k]), "request-changes-arguments")
     \cup Clause(e.cnt = st.cnt, "request-calls")

RawBad(c, st, e) ==
  LET k == e.ch IN
  Wrote(c, Chan(st, k, c), <<[k |-> "seq", s |-> "0", t |-> [k |-> "b"], es |-> 1]>>, <<e.d>>, e.er, Seen(e, k, c))

---------------------------------------------------------------------------
\* what the decoding of the arguments gives: [e, vs, p]
Args(f, o, s, p) ==
  IF f.ts = <<>> THEN [e |-> "ok", vs |-> <<>>, p |-> p]
  ELSE LET r == Dec(Tup(f.ts), f.tdv, o, s.buf, p, Len(s.buf)) IN [e |-> r.e, vs |-> r.v, p |-> r.p]

\* calls: which call is logged; wts, wvs: what is written; er; ip: set of allowed positions
Ran(i, f, cnt, vs) == <<i - 1, f.mem, IF f.mem = 1 THEN cnt + 1 ELSE 0, vs>>
Outcome(c, st, e, i, p) ==
  LET f == c.fns[i]
      s == st.A
      L == Len(s.buf)
      o == ROpt(c)
      rd == Args(f, o, s, p)
      ret(ok) == IF f.ret = "val" THEN <<f.rt>> ELSE <<>>
      rv == IF f.ret = "val" THEN <<e.rv>> ELSE <<>>
      code == IF f.ret = "errc" THEN Codes[e.re + 1] ELSE "ok"
      Done(args, ip) == [calls |-> <<Ran(i, f, st.cnt, args)>>, wts |-> f.ws \o ret(TRUE),
                         wvs |-> (IF f.ws = <<>> THEN <<>> ELSE e.wv) \o rv, er |-> code, lo |-> ip, hi |-> ip]
  IN CASE f.opq = "" ->
            IF rd.e # "ok" THEN [calls |-> <<>>, wts |-> <<>>, wvs |-> <<>>, er |-> rd.e, lo |-> p, hi |-> L]
            ELSE Done(rd.vs, rd.p)
       [] f.opq = "span" -> Done(<<SubSeq(s.buf, p + 1, L)>>, L)
       [] f.opq = "spanref" -> Done(<<SubSeq(s.buf, p + 1, L)>>, Lo(L, p + e.tk))
       [] f.opq \in {"in", "inout"} ->
            IF rd.e = "ok" THEN Done(rd.vs, rd.p)
            ELSE [calls |-> <<Ran(i, f, st.cnt, <<>>)>>, lo |-> p, hi |-> L,
                  wts |-> ret(FALSE), wvs |-> rv,
                  er |-> IF f.ret = "errc" THEN rd.e ELSE IF rd.e = "any" THEN "any" ELSE "ok"]
       [] OTHER -> Done(<<>>, p)

CallEq(f, a, b) ==
  /\ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]
  /\ Len(a[4]) = Len(b[4])
  /\ \A k \in 1..Len(b[4]) : IF f.opq \in {"span", "spanref"} THEN a[4][k] = b[4][k] ELSE VEq(f.ts[k], a[4][k], b[4][k])

ServeBad(c, st, e) ==
  LET s == st.A
      L == Len(s.buf)
      id == IF "id" \in DOMAIN e THEN [e |-> "ok", v |-> e.id, p |-> s.ip]
            ELSE Dec(c.idd, c.fns[1].id, ROpt(c), s.buf, s.ip, L)
      m == IF id.e # "ok" THEN {} ELSE {i \in 1..Len(c.fns) : c.fns[i].id = id.v}
      i == CHOOSE i \in m : TRUE
      out == IF id.e # "ok" THEN [calls |-> <<>>, wts |-> <<>>, wvs |-> <<>>, er |-> id.e, lo |-> s.ip, hi |-> L]
             ELSE IF m = {} THEN [calls |-> <<>>, wts |-> <<>>, wvs |-> <<>>, er |-> "notsup", lo |-> id.p, hi |-> id.p]
             ELSE Outcome(c, st, e, i, id.p)
      Rs == Chan(st, 2, c)
      Ro == Seen(e, 2, c)
      wr == out.wts # <<>> /\ out.er = "ok"     \* the result is that of writing
  IN IF out.er = "any" THEN {}
     ELSE (IF Len(e.calls) # Len(out.calls) THEN {IF e.calls = <<>> THEN "serve-calls-nothing" ELSE "serve-calls"}
           ELSE IF e.calls = <<>> THEN {}
           ELSE Clause(e.calls[1][1] = out.calls[1][1], "serve-function")
                \cup Clause(CallEq(c.fns[i], e.calls[1], out.calls[1]), "serve-arguments"))
     \cup (IF wr THEN {} ELSE Clause(ErrOk(out.er, e.er), "serve-result"))
     \cup Wrote(c, Rs, out.wts, out.wvs, IF out.er = "ok" THEN e.er ELSE "ok", Ro)
     \cup Clause(e.A.ip >= out.lo /\ e.A.ip <= out.hi, "serve-position")
     \cup (IF c.same = 1 THEN {}
           ELSE Clause(e.A.b = s.buf /\ e.A.op = s.op, "serve-changes-requests")
                \cup Clause(e.Z.ip = st.Z.ip, "serve-moves-client"))
     \cup Clause(e.cnt = st.cnt + FoldLeft(LAMBDA n, x : n + (IF x[2] = 0 THEN 0 ELSE 1), 0, out.calls), "serve-object")
     \cup Clause(e.lk = 0 \/ c.kind = "fixed", "serve-leaks")

---------------------------------------------------------------------------
\* reading the answer
ResponseBad(c, st, e) ==
  LET f == c.fns[e.i + 1]
      s == Chan(st, 2, c)
      o == Seen(e, 2, c)
      r == IF f.ret # "val" THEN [e |-> "ok", v |-> <<>>, p |-> s.ip]
           ELSE Dec(f.rt, f.rdv, ROpt(c), s.buf, s.ip, Len(s.buf))
  IN IF r.e = "any" THEN {}
     ELSE Clause(ErrOk(r.e, e.er), "response-result")
     \cup Clause(o.b = s.buf /\ o.op = s.op, "response-writes")
     \cup Clause(r.e = "ok" => o.ip = r.p, "response-position")
     \cup Clause(r.e # "ok" => o.ip >= s.ip /\ o.ip <= Len(s.buf), "response-failed-position")
     \cup Clause(r.e = "ok" /\ f.ret = "val" => "nv" \in DOMAIN e /\ VEq(f.rt, e.nv, r.v), "response-value")
     \cup Clause(r.e # "ok" => "nv" \notin DOMAIN e, "response-no-value")
     \cup Clause(c.same = 1 \/ Same(st.A, e.A), "response-touches-requests")
     \cup Clause(e.cnt = st.cnt, "response-calls")
     \cup Clause(e.lk = 0, "response-leaks")

---------------------------------------------------------------------------
\* applying a function to the archive
ApplyBad(c, st, e) ==
  LET f == c.fns[e.i + 1]
      s == st.A
      r == Args(f, ROpt(c), s, s.ip)
      ok == r.e = "ok"
      code == IF ~ok THEN r.e ELSE IF f.ret = "errc" /\ f.ts = <<>> THEN Codes[e.re + 1] ELSE "ok"
  IN IF r.e = "any" THEN {}
     ELSE Clause(Len(e.calls) = (IF ok THEN 1 ELSE 0), "apply-calls")
     \cup (IF ok /\ Len(e.calls) = 1 THEN Clause(CallEq(f, e.calls[1], Ran(e.i + 1, f, st.cnt, r.vs)), "apply-arguments") ELSE {})
     \cup Clause(ErrOk(code, e.er), "apply-result")
     \cup Clause(e.A.b = s.buf /\ e.A.op = s.op, "apply-changes-data")
     \cup Clause(ok => e.A.ip = r.p, "apply-position")
     \cup Clause(~ok => e.A.ip >= s.ip /\ e.A.ip <= Len(s.buf), "apply-failed-position")
     \cup Clause(ok /\ f.ret = "val" => "nv" \in DOMAIN e /\ VEq(f.rt, e.nv, e.rv), "apply-value")
     \cup Clause(~ok => "nv" \notin DOMAIN e, "apply-no-value")
     \cup Clause("same" \in DOMAIN e /\ f.ts # <<>> => e.same = 1, "apply-reference")
     \cup Clause(e.cnt = st.cnt + (IF ok THEN f.mem ELSE 0), "apply-object")
     \cup Clause(e.lk = 0, "apply-leaks")

---------------------------------------------------------------------------
RSeekBad(c, st, e) ==
  LET s == Chan(st, e.ch, c)  o == Seen(e, e.ch, c) IN
  Clause(o.b = s.buf, "seek-buffer")
  \cup Clause(o.op = (IF e.a = "out" THEN Seek(s.op, e) ELSE s.op), "seek-out")
  \cup Clause(o.ip = (IF e.a = "in" THEN Seek(s.ip, e) ELSE s.ip), "seek-in")
===========================================================================
