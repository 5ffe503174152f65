------------------------------- MODULE Fields -------------------------------
(* Protobuf messages as sequences of field occurrences.  What a message means *)
(* is defined here occurrence by occurrence (the last one of a singular field *)
(* counts, repeated fields collect, map entries replace those of their key,   *)
(* unknown fields mean nothing), independently of the byte-level decoder of   *)
(* Wire.  TLC visits every sequence of up to `max' of the given occurrences   *)
(* and checks that the decoder agrees (Meaning), and so that the order of     *)
(* occurrences of different fields does not matter; every sequence is printed *)
(* and replayed on the library (C19, C20).                                    *)
EXTENDS Wire, Json, IOUtils, TLC

X == JsonDeserialize(IOEnv.VF_TYPES)  \* [table, worlds |-> <<[d, old, toks, max]>>]
XTable == X.table

VARIABLES w, bytes, val, ok, hist
vars == <<w, bytes, val, ok, hist>>
W == X.worlds[w]

Containers == {"str", "rfix", "rvar", "renum", "rmsg", "map", "rsv"}
Init == /\ w \in 1..Len(X.worlds)
        /\ bytes = <<>> /\ ok = TRUE /\ hist = <<>>
        /\ val = [i \in 1..Len(X.worlds[w].d.fs) |->
                    IF X.worlds[w].d.fs[i].k \in Containers THEN <<>> ELSE X.worlds[w].old[i]]

Effect(x, t) ==
  CASE t.op = "none" -> x
    [] t.op = "set" -> [x EXCEPT ![t.f] = t.v]
    [] t.op = "app" -> [x EXCEPT ![t.f] = @ \o t.v]
    [] t.op = "put" -> [x EXCEPT ![t.f] =
         IF W.d.fs[t.f].u = 1 /\ \E j \in 1..Len(@) : @[j][1] = t.v[1]
         THEN SelectSeq(@, LAMBDA e : e[1] # t.v[1]) \o <<t.v>> ELSE Append(@, t.v)]

Next == \E i \in 1..Len(W.toks) :
  /\ Len(hist) < W.max /\ ok
  /\ bytes' = bytes \o W.toks[i].b
  /\ IF W.toks[i].op = "bad" THEN ok' = FALSE /\ val' = val
     ELSE ok' = TRUE /\ val' = Effect(val, W.toks[i])
  /\ hist' = Append(hist, i)
  /\ PrintT(<<"PATH", w, hist', <<>> >>)
  /\ UNCHANGED w

Meaning ==
  LET r == DecPb(W.d.fs, W.old, PbOpt(DefOpt), bytes, 0, Len(bytes))
  IN IF ok THEN /\ r.e = "ok" /\ r.p = Len(bytes)
                /\ \A i \in 1..Len(W.d.fs) : FieldEq(W.d.fs[i], r.v[i], val[i])
     ELSE r.e \notin {"ok", "any"}
\* a message means the same with its content wrapped as the only element of another, or with a length of its own
Wrapped ==
  LET t == [k |-> "pb", s |-> "v", fs |-> W.d.fs]
      b == LebEnc(NatLE(Len(bytes), 4)) \o bytes
      r == Dec(t, W.old, DefOpt, b \o <<0, 255>>, 0, Len(b) + 2)
  IN IF ok THEN r.e = "ok" /\ r.p = Len(b) /\ \A i \in 1..Len(W.d.fs) : FieldEq(W.d.fs[i], r.v[i], val[i])
     ELSE r.e \notin {"ok", "any"}

Spec == Init /\ [][Next]_vars
==============================================================================
