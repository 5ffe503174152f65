------------------------------- MODULE Archive -------------------------------
(* One data buffer under an output and an input archive.                      *)
(* State: buf (the bytes), op and ip (the two positions).                     *)
(* Every public call is a step; a step is described by the set of clauses     *)
(* that an outcome (result, positions, buffer, values) violates: an outcome   *)
(* is allowed iff that set is empty.  The design models choose outcomes       *)
(* nondeterministically among the allowed ones, trace validation judges the   *)
(* observed one.                                                              *)
(*                                                                            *)
(* Configuration c:  be "big endian", sz default size kind, ilim/olim         *)
(* allocation limits (-1: none), kind "grow"/"fixed", fit (1: fit to size),   *)
(* M, D enlarge ratio, opts construction options (append, reserve, resize).   *)
EXTENDS Wire

WOpt(c) == [be |-> c.be = 1, sz |-> c.sz, lim |-> -1]
ROpt(c) == [be |-> c.be = 1, sz |-> c.sz, lim |-> c.ilim]

Clause(ok, name) == IF ok THEN {} ELSE {name}
Gen(s, n) == Len(s) >= n

---------------------------------------------------------------------------
(* Construction: options apply in the order given.                           *)
New0(c, b) == [buf |-> b, op |-> 0, ip |-> 0, sz |-> Len(b), rs |-> 0]
NewOpt(s, x) ==
  CASE x[1] = "append" -> [s EXCEPT !.op = s.sz]
    [] x[1] = "reserve" -> [s EXCEPT !.rs = Hi(@, x[2])]
    [] x[1] = "resize" -> [s EXCEPT !.sz = x[2], !.op = Lo(@, x[2])]
    [] OTHER -> s
AfterOpts(c, b) == FoldLeft(LAMBDA s, x : NewOpt(s, x), New0(c, b), c.opts)
\* the smallest size the buffer had while the options were applied
RECURSIVE Kept(_, _)
Kept(n, xs) == IF xs = <<>> THEN n
               ELSE Kept(IF Head(xs)[1] = "resize" THEN Lo(n, Head(xs)[2]) ELSE n, Tail(xs))

NewBad(c, b, ev) ==
  LET s == AfterOpts(c, b)  k == Kept(Len(b), c.opts)
  IN Clause("op" \in DOMAIN ev => ev.op = s.op, "new-out-position")
     \cup Clause("ip" \in DOMAIN ev => ev.ip = 0, "new-in-position")
     \cup Clause(Len(ev.b) = s.sz, "new-size")
     \cup Clause(Len(ev.b) >= k /\ SubSeq(ev.b, 1, k) = SubSeq(b, 1, k), "new-content")
     \cup Clause("rs" \in DOMAIN ev => ev.rs = s.rs, "new-reserve")

---------------------------------------------------------------------------
(* Writing the items vs of types ts in one call.                             *)

\* per item: the encodings, up to and including the first that cannot be written
Items(ts, vs, o) ==
  FoldLeft(LAMBDA acc, j : IF acc # <<>> /\ Last(acc).e # "ok" THEN acc
                           ELSE Append(acc, Enc(ts[j], vs[j], o)),
           <<>>, [j \in 1..Len(ts) |-> j])
Concat(rs) == FoldLeft(LAMBDA acc, r : acc \o r.b, <<>>, rs)
Total(rs, n) == FoldLeft(LAMBDA acc, r : acc + Len(r.b), 0, SubSeq(rs, 1, n))
Peak(rs) == FoldLeft(LAMBDA acc, r : [n |-> acc.n + Len(r.b), m |-> Hi(acc.m, acc.n + r.pk)],
                     [n |-> 0, m |-> 0], rs).m
\* first item that does not end within n bytes, or cannot be written
FirstBad(rs, n) ==
  LET S == {i \in 1..Len(rs) : Total(rs, i) > n \/ rs[i].e # "ok"}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE HasPb(_)
HasPb(t) ==
  CASE t.k = "pb" -> TRUE
    [] t.k \in {"arr", "seq", "spn", "set", "map", "opt", "ptr", "raw"} -> HasPb(t.t)
    [] t.k \in {"tup", "alt"} -> \E i \in 1..Len(t.ts) : HasPb(t.ts[i])
    [] OTHER -> FALSE
AnyPb(ts) == \E i \in 1..Len(ts) : HasPb(ts[i])

\* an item that is written in one piece
Primitive(t, o) ==
  \/ t.k \in {"b", "bool", "u", "bits"}
  \/ t.k = "arr" /\ t.t.k = "b"
  \/ t.k = "seq" /\ t.t.k = "b" /\ SizeKind(t.s, o) = "0" /\ "lst" \notin DOMAIN t

Grown(c, n) == (n * c.M) \div c.D

WriteBad(c, s, ts, vs, ev) ==
  LET rs == Items(ts, vs, WOpt(c))
      all == Concat(rs)
      p == s.op
      L == Len(s.buf)
      n == Len(all)
      last == Last(rs)
      inval == ts # <<>> /\ last.e = "inval"
      ok == ev.er = "ok"
      op2 == ev.op
      b2 == ev.b
      grow == c.kind = "grow"
      room == IF grow THEN n ELSE L - p
      fb == IF ts = <<>> THEN 0 ELSE FirstBad(rs, room)
      \* limit on growth: where success resp. failure is certain
      peak == Hi(n, Peak(rs))
      single == Len(ts) = 1 /\ Primitive(ts[1], WOpt(c))
      mustfail == grow /\ c.olim >= 0 /\ p + n > L /\ p + n > c.olim
      mayfail == grow /\ c.olim >= 0 /\ peak > L - p
                 /\ (IF single THEN Grown(c, L + n) > c.olim
                     ELSE Grown(c, Hi(L, p + peak) + peak + 16) > c.olim)
      expected == IF inval THEN "inval" ELSE "ok"
      plain == ~AnyPb(ts)
      done == op2 - p
      sizeOK == IF ~grow THEN Len(b2) = L
                ELSE IF c.fit = 1 THEN Len(b2) = Hi(L, op2) ELSE Len(b2) >= Hi(L, op2)
  IN \* the result
     (IF ~grow THEN
        Clause(IF fb = 0 THEN ok
               ELSE IF Total(rs, fb) > room THEN ev.er = "range" ELSE ev.er = expected,
               "write-result")
      ELSE IF c.olim < 0 THEN Clause(ev.er = expected, "write-result")
      ELSE Clause(ev.er \in {expected, "nospace"}, "write-result")
           \cup Clause(mustfail => ev.er = "nospace", "write-over-limit")
           \cup Clause(ev.er = "nospace" => mayfail, "write-under-limit"))
     \* positions
     \cup Clause(ok => op2 = p + n, "write-position")
     \cup Clause(~ok => op2 >= p /\ op2 <= p + (IF fb = 0 \/ grow THEN n ELSE Total(rs, fb))
                        /\ (~grow => op2 <= L), "write-failed-position")
     \* everything before the failing item is complete
     \cup Clause(~ok /\ fb > 0 /\ ~(grow /\ ev.er = "nospace")
                 => op2 >= p + Total(rs, fb - 1), "write-earlier-items")
     \cup Clause("ip" \in DOMAIN ev => ev.ip = s.ip, "write-moves-input")
     \* the buffer
     \cup Clause(op2 <= Len(b2), "write-position-beyond")
     \cup Clause(sizeOK, "write-size")
     \cup Clause(Len(b2) >= p /\ SubSeq(b2, 1, p) = SubSeq(s.buf, 1, p), "write-before")
     \cup Clause(ok => Len(b2) >= p + n /\ Slice(b2, p, n) = all, "write-bytes")
     \cup Clause(ok /\ L > p + n => Len(b2) >= L /\ SubSeq(b2, p + n + 1, L) = SubSeq(s.buf, p + n + 1, L),
                 "write-after")
     \cup Clause(~ok /\ plain /\ op2 >= p /\ op2 <= p + n
                 => Len(b2) >= op2 /\ Slice(b2, p, done) = SubSeq(all, 1, done), "write-failed-bytes")
     \cup Clause(~ok /\ L > p + peak => SubSeq(b2, p + peak + 1, L) = SubSeq(s.buf, p + peak + 1, L),
                 "write-failed-after")
     \* what is asked of the buffer
     \cup (IF "mx" \in DOMAIN ev THEN
             Clause(c.olim >= 0 => ev.mx <= Hi(c.olim, L), "growth-over-limit")
             \cup Clause(single /\ ok /\ n > L - p
                         => ev.mx >= Grown(c, p + n) /\ ev.mx <= Grown(c, L + n), "growth-ratio")
           ELSE {})
     \cup Clause("cn" \notin DOMAIN ev, "outside-the-view")

---------------------------------------------------------------------------
(* Reading items of types ts in one call into targets that hold ovs.         *)
RECURSIVE DecItems(_, _, _, _, _, _, _)
DecItems(ts, ovs, i, o, buf, p, acc) ==
  IF i > Len(ts) THEN [e |-> "ok", vs |-> acc, p |-> p, at |-> i]
  ELSE LET r == Dec(ts[i], ovs[i], o, buf, p, Len(buf))
       IN IF r.e # "ok" THEN [e |-> r.e, vs |-> Append(acc, r.v), p |-> p, at |-> i]
          ELSE DecItems(ts, ovs, i + 1, o, buf, r.p, Append(acc, r.v))

\* the very first count is already over the limit
LeftOver0(t, o, buf, p) ==
  SizeKind(t.s, o) # "0" /\
  LET c == DecSize(SizeKind(t.s, o), o, buf, p, Len(buf))
  IN c.e = "ok" /\ OverLimit(c.v, t.es, o)

\* what may be left in an item whose read failed
LeftOver(t, ov, nv, part, o, buf, p) ==
  CASE t.k = "seq" /\ SizeKind(t.s, o) # "0" ->
         LET c == DecSize(SizeKind(t.s, o), o, buf, p, Len(buf))
         IN (c.e = "ok" /\ OverLimit(c.v, t.es, o)) => VEq(t, nv, ov)
    [] t.k \in {"set", "map"} ->
         LET c == DecSize(SizeKind(t.s, o), o, buf, p, Len(buf))
         IN IF c.e # "ok" THEN VEq(t, nv, ov) \/ nv = <<>>
            ELSE LET got == Uniq(t, part)
                 IN /\ Len(nv) <= Len(got)
                    /\ \A i \in 1..Len(nv) :
                         Cardinality({j \in 1..Len(nv) : VEq(t.t, nv[j], nv[i])})
                         <= Cardinality({j \in 1..Len(got) : VEq(t.t, got[j], nv[i])})
    [] OTHER -> TRUE

ReadBad(c, s, ts, ovs, ev) ==
  LET o == ROpt(c)
      r == DecItems(ts, ovs, 1, o, s.buf, s.ip, <<>>)
      ok == r.e = "ok"
      nv == ev.nv
  IN Clause(ErrOk(r.e, ev.er), IF ok THEN "read-rejected"
                               ELSE IF ev.er = "ok" THEN "read-accepted" ELSE "read-error")
     \cup Clause(ok => ev.ip = r.p, "read-position")
     \cup Clause(~ok => ev.ip >= r.p /\ ev.ip <= Len(s.buf), "read-failed-position")
     \cup (IF r.e # "any" /\ (ev.er = "ok") # ok THEN {}
           ELSE Clause(\A i \in 1..(r.at - 1) : VEq(ts[i], nv[i], r.vs[i]), "read-value")
                \cup Clause(r.e \notin {"ok", "any"}
                            => LeftOver(ts[r.at], ovs[r.at], nv[r.at], r.vs[r.at], o, s.buf, r.p),
                            "read-left-over")
                \cup Clause(r.e \notin {"ok", "any"} =>
                            \A i \in (r.at + 1)..Len(ts) : VEq(ts[i], nv[i], ovs[i]),
                            "read-later-items"))
     \cup Clause(ev.b = s.buf, "read-changes-buffer")
     \cup Clause("op" \in DOMAIN ev => ev.op = s.op, "read-moves-output")
     \cup Clause(c.ilim >= 0 => ev.al <= 2 * c.ilim + 8192, "read-allocates")
     \cup Clause(ev.lk = 0, "read-leaks")
     \cup Clause((Len(ts) = 1 /\ r.e = "msgsize" /\ ts[1].k = "seq" /\ "threw" \notin DOMAIN ev
                  /\ LeftOver0(ts[1], o, s.buf, s.ip)) => ev.al = 0, "read-allocates-first")
     \cup Clause("keep" \in DOMAIN ev => VEq(ts[1], ev.keep, ovs[1]), "read-changes-other-owner")
     \cup Clause("cn" \notin DOMAIN ev, "outside-the-view")

---------------------------------------------------------------------------
(* Positions and direct access to the data.                                  *)
Seek(p, ev) ==
  CASE ev.m = "reset0" -> 0
    [] ev.m \in {"reset", "set"} -> ev.n
    [] ev.m = "add" -> p + ev.n
    [] ev.m = "sub" -> p - ev.n
    [] ev.m = "move" -> p
SeekBad(s, ev) ==
  LET o == ev.a = "out" IN
  Clause("op" \in DOMAIN ev => ev.op = IF o THEN Seek(s.op, ev) ELSE s.op, "seek-out")
  \cup Clause("ip" \in DOMAIN ev => ev.ip = IF o THEN s.ip ELSE Seek(s.ip, ev), "seek-in")
  \cup Clause(ev.b = s.buf, "seek-changes-buffer")

PokeBad(s, ev) ==
  Clause(ev.b = Splice(s.buf, ev.n, ev.d), "poke-buffer")
  \cup Clause("op" \in DOMAIN ev => ev.op = s.op, "poke-out")
  \cup Clause("ip" \in DOMAIN ev => ev.ip = s.ip, "poke-in")

View(q, pos, L, kind) ==
  /\ q.pos = pos /\ q.kind = kind
  /\ q.done[2] = pos /\ (pos > 0 => q.done[1] = 0)
  /\ q.rest[2] = L - pos /\ (L > pos => q.rest[1] = pos)
  /\ q.data = <<0, L>>
QueryBad(s, ev) ==
  Clause("qo" \in DOMAIN ev => View(ev.qo, s.op, Len(s.buf), "out"), "query-out")
  \cup Clause("qi" \in DOMAIN ev => View(ev.qi, s.ip, Len(s.buf), "in"), "query-in")
  \cup Clause(ev.b = s.buf, "query-changes-buffer")

===========================================================================
