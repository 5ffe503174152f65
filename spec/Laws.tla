-------------------------------- MODULE Laws --------------------------------
(* What the format itself promises, checked on the specification:             *)
(*   decoding an encoding gives the value back and consumes exactly it,        *)
(*   wherever in a buffer it stands and whatever follows (C01, C02);           *)
(*   every strict prefix of an encoding is rejected (C03);                     *)
(*   decoding never looks beyond the end, nor decodes more than there is       *)
(*   (C03), and what it accepts encodes to something that decodes the same;    *)
(*   the encoding of a sequence of values is the sequence of encodings (C02);  *)
(*   a big-endian encoding is as long as the little-endian one (C09).          *)
(* States: a type, a value of it and options, for all of those given; then a   *)
(* type and every byte string over the alphabet up to MaxBytes bytes.          *)
EXTENDS Archive, Json, IOUtils, TLC

X == JsonDeserialize(IOEnv.VF_TYPES)  \* [table, opts, types |-> <<[d, vals, open]>>, alphabet, max]
XTable == X.table

VARIABLES i,     \* which type
          o,     \* which options
          m,     \* "value" or "bytes"
          v,     \* number of the value
          s      \* the byte string
vars == <<i, o, m, v, s>>

T == X.types[i].d
Opt == [be |-> X.opts[o].be = 1, sz |-> X.opts[o].sz, lim |-> X.opts[o].lim]
Init == /\ i \in 1..Len(X.types) /\ o \in 1..Len(X.opts)
        /\ m \in {"value", "bytes"} /\ v = 0 /\ s = <<>>
Next == \/ /\ m = "bytes" /\ Len(s) < X.types[i].max
           /\ \E b \in 1..Len(X.alphabet) : s' = Append(s, X.alphabet[b])
           /\ UNCHANGED <<i, o, m, v>>
        \/ /\ m = "value" /\ v < Len(X.types[i].vals) /\ v' = v + 1
           /\ UNCHANGED <<i, o, m, s>>

Val == X.types[i].vals[v]
IsVal == m = "value" /\ v > 0
E == Enc(T, Val, [Opt EXCEPT !.lim = -1])
\* unsized parts take their shape from the target
Target == IF X.types[i].open = 1 THEN Val ELSE Def(T)

RoundTrip == IsVal /\ E.e = "ok" =>
  \A pre \in {<<>>, <<7, 0, 200>>} : \A post \in {<<>>, <<0>>, <<255, 1>>} :
    (X.types[i].open = 2 => post = <<>>) =>
    LET r == Dec(T, Target, [Opt EXCEPT !.lim = -1], pre \o E.b \o post, Len(pre), Len(pre) + Len(E.b) + Len(post))
    IN r.e = "ok" /\ r.p = Len(pre) + Len(E.b) /\ VEq(T, r.v, Val)
\* pb: a message without a length of its own is any prefix that ends between fields
PrefixRejected == IsVal /\ E.e = "ok" /\ X.types[i].open # 2 =>
  \A n \in 0..(Len(E.b) - 1) :
    Dec(T, Target, [Opt EXCEPT !.lim = -1], SubSeq(E.b, 1, n), 0, n).e # "ok"
NoFurther == IsVal /\ E.e = "ok" /\ X.types[i].open # 2 =>      \* the end given is what counts
  \A n \in 0..(Len(E.b) - 1) :
    LET a == Dec(T, Target, [Opt EXCEPT !.lim = -1], E.b, 0, n)
        b == Dec(T, Target, [Opt EXCEPT !.lim = -1], SubSeq(E.b, 1, n), 0, n)
    IN a.e = b.e
SameLength == IsVal /\ E.e = "ok" =>
  Len(Enc(T, Val, [Opt EXCEPT !.lim = -1, !.be = ~@]).b) = Len(E.b)
Reserve == IsVal => E.pk >= Len(E.b)

Stable == m = "bytes" =>
  LET r == Dec(T, Def(T), Opt, s, 0, Len(s)) IN
  /\ r.e \in {"ok", "range", "msgsize", "badmsg", "proto", "varint", "err", "any"}
  /\ r.e = "ok" =>
       /\ r.p \in 0..Len(s)
       /\ LET e == Enc(T, r.v, Opt)
              q == Dec(T, IF X.types[i].open = 1 THEN r.v ELSE Def(T), [Opt EXCEPT !.lim = -1], e.b, 0, Len(e.b))
          IN e.e = "ok" /\ q.e = "ok" /\ q.p = Len(e.b) /\ VEq(T, q.v, r.v)
\* more data never makes an accepted item unreadable, nor changes it
Monotone == m = "bytes" /\ s # <<>> /\ X.types[i].open # 2 =>
  LET a == Dec(T, Def(T), Opt, SubSeq(s, 1, Len(s) - 1), 0, Len(s) - 1)
      b == Dec(T, Def(T), Opt, s, 0, Len(s))
  IN a.e = "ok" => b.e = "ok" /\ b.p = a.p /\ VEq(T, a.v, b.v)

Spec == Init /\ [][Next]_vars
==============================================================================
