------------------------------ MODULE RpcExplore ------------------------------
(* A client and a server exchanging messages: all interleavings of requests,  *)
(* of serving them and of reading the answers, over one channel or two, with   *)
(* ids inside or outside of the messages and with messages the server does     *)
(* not know.  TLC visits all of them up to `max' requests; every transition    *)
(* is printed and replayed on the library (C15, C16).                          *)
(*                                                                             *)
(* Checked while exploring, on the bytes that the channels hold:               *)
(*  Once       the calls made are exactly the requests accepted, in order      *)
(*  Answers    the answers read are those of the calls, in order               *)
(*  Head       what stands at the reading position of a channel decodes to     *)
(*             the message that is due there                                   *)
(*  Possible   trace validation accepts the outcomes the model takes           *)
EXTENDS Rpc, Json, IOUtils, TLC

X == JsonDeserialize(IOEnv.VF_TYPES)  \* [table, worlds |-> <<[cfg, ops, max]>>]
XTable == X.table

VARIABLES w, st,
          ma, mz,   \* the messages not read yet, of each channel
          sent, log, got,
          lost, hist
vars == <<w, st, ma, mz, sent, log, got, lost, hist>>
W == X.worlds[w]
C == W.cfg
None == [buf |-> <<>>, op |-> 0, ip |-> 0]

Init == /\ w \in 1..Len(X.worlds)
        /\ st = [A |-> None, Z |-> None, cnt |-> 0]
        /\ ma = <<>> /\ mz = <<>> /\ sent = <<>> /\ log = <<>> /\ got = <<>>
        /\ lost = 0 /\ hist = <<>>

Put(s, bs) == [buf |-> Splice(s.buf, s.op, bs), op |-> s.op + Len(bs), ip |-> s.ip]
Obs(s) == [b |-> s.buf, op |-> s.op, ip |-> s.ip]
Ev(e, s) == [A |-> Obs(s.A), Z |-> Obs(s.Z), cnt |-> s.cnt, er |-> "ok", lk |-> 0] @@ e
OneChannel == C.same = 1

Request(e) ==
  LET f == C.fns[e.i + 1]
      id == IF "body" \in DOMAIN e THEN <<>> ELSE Enc(C.idd, f.id, WOpt(C)).b
      r == Items(f.qs, e.v, WOpt(C))
      bs == id \o Concat(r)
      s2 == [st EXCEPT !.A = Put(@, bs)]
  IN /\ Len(sent) < W.max
     /\ st' = s2
     /\ ma' = Append(ma, [k |-> "q", i |-> e.i, v |-> e.v, body |-> "body" \in DOMAIN e])
     /\ sent' = Append(sent, <<e.i, e.v>>)
     /\ Assert(RequestBad(C, st, Ev(e @@ [av |-> e.v], s2)) = {}, <<"Possible", e>>)
     /\ UNCHANGED <<mz, log, got, lost>>

Serve(e) ==
  LET known == "id" \in DOMAIN e
      h == Head(ma)
      f == C.fns[e.i + 1]
      n == IF h.body THEN 0 ELSE Len(Enc(C.idd, f.id, WOpt(C)).b)
      m == Len(Concat(Items(f.qs, h.v, WOpt(C))))
      a == IF f.ret = "val" THEN Enc(f.rt, e.rv, WOpt(C)).b ELSE <<>>
      code == IF f.ret = "errc" THEN Codes[e.re + 1] ELSE "ok"
      c2 == st.cnt + f.mem
      s1 == [st EXCEPT !.A.ip = @ + n + m, !.cnt = c2]
      s2 == IF OneChannel THEN [s1 EXCEPT !.A = Put(@, a)] ELSE [s1 EXCEPT !.Z = Put(@, a)]
      ans == IF f.ret = "val" THEN <<[k |-> "a", i |-> e.i, v |-> e.rv]>> ELSE <<>>
      call == <<e.i, f.mem, IF f.mem = 1 THEN c2 ELSE 0, h.v>>
  IN IF ma = <<>> THEN /\ e.i = 0 /\ ~known /\ lost' = 1 /\ UNCHANGED <<st, ma, mz, sent, log, got>>
     ELSE IF h.k = "bad" THEN /\ e.i = 0 /\ ~known /\ lost' = 1 /\ UNCHANGED <<st, ma, mz, sent, log, got>>
     ELSE /\ h.k = "q" /\ h.i = e.i /\ h.body = known
          /\ st' = s2 /\ lost' = 0
          /\ ma' = Tail(ma) \o (IF OneChannel THEN ans ELSE <<>>)
          /\ mz' = mz \o (IF OneChannel THEN <<>> ELSE ans)
          /\ log' = Append(log, <<e.i, h.v, IF f.ret = "val" THEN <<e.rv>> ELSE <<>> >>)
          /\ Assert(ServeBad(C, st, [Ev(e, s2) EXCEPT !.er = code] @@ [calls |-> <<call>>]) = {}, <<"Possible", e>>)
          /\ UNCHANGED <<sent, got>>

Response(e) ==
  LET q == IF OneChannel THEN ma ELSE mz
      f == C.fns[e.i + 1]
      n == IF f.ret = "val" THEN Len(Enc(f.rt, Head(q).v, WOpt(C)).b) ELSE 0
      s2 == IF OneChannel THEN [st EXCEPT !.A.ip = @ + n] ELSE [st EXCEPT !.Z.ip = @ + n]
  IN IF f.ret # "val" THEN       \* the answer of a function that gives none
       /\ log # <<>> /\ st' = st /\ UNCHANGED <<ma, mz, sent, log, got, lost>>
     ELSE IF q = <<>> THEN /\ st' = st /\ lost' = 1 /\ UNCHANGED <<ma, mz, sent, log, got>>
     ELSE /\ Head(q).k = "a" /\ Head(q).i = e.i
          /\ st' = s2
          /\ ma' = IF OneChannel THEN Tail(ma) ELSE ma
          /\ mz' = IF OneChannel THEN mz ELSE Tail(mz)
          /\ got' = Append(got, <<e.i, Head(q).v>>)
          /\ Assert(ResponseBad(C, st, Ev(e, s2) @@ [nv |-> Head(q).v]) = {}, <<"Possible", e>>)
          /\ UNCHANGED <<sent, log, lost>>

Raw(e) ==
  /\ st' = [st EXCEPT !.A = Put(@, e.d)]
  /\ ma' = Append(ma, [k |-> "bad"]) /\ \A j \in 1..Len(ma) : ma[j].k # "bad"
  /\ UNCHANGED <<mz, sent, log, got, lost>>

Next == \E i \in 1..Len(W.ops) :
  LET e == W.ops[i] IN
  /\ lost = 0
  /\ CASE e.o = "req" -> Request(e) [] e.o = "serve" -> Serve(e) [] e.o = "resp" -> Response(e) [] e.o = "raw" -> Raw(e)
  /\ hist' = Append(hist, i)
  /\ PrintT(<<"PATH", w, hist', <<st, ma, mz, lost>> >>)
  /\ UNCHANGED w

Once == /\ Len(log) <= Len(sent)
        /\ \A j \in 1..Len(log) : log[j][1] = sent[j][1] /\ log[j][2] = sent[j][2]
Answers ==
  LET as == SelectSeq(log, LAMBDA x : x[3] # <<>>)
  IN Len(got) <= Len(as) /\ \A j \in 1..Len(got) : got[j] = <<as[j][1], as[j][3][1]>>
HeadAt(s, q) == lost = 0 /\ q # <<>> =>
  LET h == Head(q)  o == ROpt(C)  L == Len(s.buf)
  IN CASE h.k = "q" ->
            LET f == C.fns[h.i + 1]
                id == IF h.body THEN [e |-> "ok", v |-> f.id, p |-> s.ip] ELSE Dec(C.idd, f.id, o, s.buf, s.ip, L)
            IN id.e = "ok" /\ id.v = f.id /\
               (LET r == Dec(Tup(f.ts), f.tdv, o, s.buf, id.p, L)
                IN r.e = "ok" /\ VEq(Tup(f.ts), r.v, h.v))
       [] h.k = "a" ->
            LET f == C.fns[h.i + 1]  r == Dec(f.rt, f.rdv, o, s.buf, s.ip, L)
            IN r.e = "ok" /\ VEq(f.rt, r.v, h.v)
       [] h.k = "bad" -> Dec(C.idd, C.fns[1].id, o, s.buf, s.ip, L).v \notin {C.fns[j].id : j \in 1..Len(C.fns)}
MessageDue == HeadAt(st.A, ma) /\ HeadAt(st.Z, mz)
Spec == Init /\ [][Next]_vars
Shape == <<w, st, ma, mz, sent, log, got, lost>>
==============================================================================
