-------------------------------- MODULE Growth --------------------------------
(* Growing a resizable buffer near the largest number of bytes a machine word *)
(* can count (C06). Sizes are little-endian byte sequences of one word.       *)
(*                                                                            *)
(* c = [M, D: the enlarger's factors, lim: the allocation limit (a word),     *)
(*      fit: 1 if a call leaves the buffer as long as what was written]       *)
EXTENDS Bytes

AddLE(a, b) ==
  FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc.c
                           IN [r |-> Append(acc.r, s % 256), c |-> s \div 256],
           [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i]).r
\* a * m and a / d for small m, d
MulLE(a, m) ==
  FoldLeft(LAMBDA acc, i : LET s == a[i] * m + acc.c
                           IN [r |-> Append(acc.r, s % 256), c |-> s \div 256],
           [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i]).r
DivLE(a, d) ==
  FoldLeft(LAMBDA acc, i : LET s == acc.c * 256 + a[i]
                           IN [r |-> <<s \div d>> \o acc.r, c |-> s % d],
           [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> Len(a) + 1 - i]).r
Le(a, b) == ~LtLE(b, a, Len(a))
Word(a, n) == SubSeq(a, 1, n)
Fits(a, n) == \A i \in (n + 1)..Len(a) : a[i] = 0
Longer(a, b) == IF Le(a, b) THEN b ELSE a

\* One item of n bytes at position p of a buffer of size s: what size may the
\* buffer have while it is written; "no" if it cannot be made that long.
\* The arithmetic is exact: w + 2 bytes.
Grown(c, s, p, n) ==
  LET w == Len(s)
      S == s \o <<0, 0>>  P == p \o <<0, 0>>  N == NatLE(n, w) \o <<0, 0>>
      need == AddLE(S, N)
      times == MulLE(need, c.M)
      new == DivLE(times, c.D)
  IN IF Le(AddLE(P, N), S) THEN s
     ELSE IF ~Fits(need, w) \/ ~Fits(times, w) THEN <<>>
     ELSE IF LtLE(c.lim, Word(new, w), w) THEN <<>>
     ELSE Word(new, w)

\* a call: items one after the other until one does not fit
Step(c, st, n) ==
  IF ~st.ok THEN st
  ELSE LET g == Grown(c, st.s, st.p, n)
       IN IF g = <<>> THEN [st EXCEPT !.ok = FALSE]
          ELSE [ok |-> TRUE, s |-> g, p |-> AddLE(st.p, NatLE(n, Len(st.p)))]
Calls(c, s, p, ns) ==
  LET st == FoldLeft(LAMBDA st, i : Step(c, st, ns[i]), [ok |-> TRUE, s |-> s, p |-> p], [i \in 1..Len(ns) |-> i])
  IN [st EXCEPT !.s = IF c.fit = 1 THEN Longer(s, st.p) ELSE st.s]
================================================================================
