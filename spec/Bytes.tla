------------------------------- MODULE Bytes -------------------------------
(* Byte sequences and the arithmetic on them.  TLC integers are 32 bit, so   *)
(* every scalar wider than one byte is a little-endian sequence of bytes.    *)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0..255

\* The largest natural that is represented exactly; anything above is "huge".
Huge == 2147483647

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b

Pow2[n \in 0..30] == IF n = 0 THEN 1 ELSE 2 * Pow2[n - 1]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Zeros(n) == [i \in 1..n |-> 0]
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0

\* n bytes of buf starting at 0-based offset p
Slice(buf, p, n) == SubSeq(buf, p + 1, p + n)

\* buf with b stored at 0-based offset p, growing it if b reaches past the end
Splice(buf, p, b) ==
  SubSeq(buf, 1, p) \o b \o SubSeq(buf, p + Len(b) + 1, Len(buf))

\* natural <-> little-endian bytes
NatLE(n, w) == [i \in 1..w |-> IF i > 4 THEN 0 ELSE (n \div Pow2[8 * (i - 1)]) % 256]
ToNat(bs) ==
  IF \E i \in 1..Len(bs) : i > 4 /\ bs[i] # 0 THEN Huge
  ELSE IF At(bs, 4) >= 128 THEN Huge
  ELSE At(bs, 1) + 256 * At(bs, 2) + 65536 * At(bs, 3) + 16777216 * At(bs, 4)

\* unsigned comparison of equally long little-endian numbers
RECURSIVE LtLE(_, _, _)
LtLE(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtLE(a, b, i - 1)

---------------------------------------------------------------------------
\* LEB128 (base-128 varint) of a little-endian byte sequence

\* 7-bit group number i (0-based) of bs
Group(bs, i) ==
  LET s == 7 * i  k == s \div 8  off == s % 8
  IN ((At(bs, k + 1) + 256 * At(bs, k + 2)) \div Pow2[off]) % 128

NGroups(bs) == (8 * Len(bs) + 6) \div 7

\* number of significant groups, at least one
SigGroups(bs) ==
  LET S == {i \in 0..(NGroups(bs) - 1) : Group(bs, i) # 0}
  IN IF S = {} THEN 1 ELSE 1 + (CHOOSE i \in S : \A j \in S : j <= i)

LebEnc(bs) ==
  LET n == SigGroups(bs)
  IN [i \in 1..n |-> Group(bs, i - 1) + (IF i < n THEN 128 ELSE 0)]

\* the most bytes a varint of a w-byte type may occupy
LebMax(w) == (w * 8) \div 7 + 1

\* w value bytes of a sequence of 7-bit groups
Ungroup(g, w) ==
  [k \in 1..w |->
     LET s == 8 * (k - 1)  i == s \div 7  off == s % 7
     IN ((At(g, i + 1) + 128 * At(g, i + 2) + 16384 * At(g, i + 3)) \div Pow2[off]) % 256]

\* do the groups hold a value that does not fit w bytes?
GroupsOverflow(g, w) ==
  \E i \in 1..Len(g) : \E b \in 0..6 :
     7 * (i - 1) + b >= 8 * w /\ (g[i] \div Pow2[b]) % 2 = 1

\* Decode a varint of a w-byte type from buf at p (0-based), not beyond end.
\* e: "ok", "varint" (truncated or too long), "any" (bits beyond the type)
LebDec(buf, p, end, w) ==
  LET m == Lo(end - p, LebMax(w))
      T == {i \in 1..m : buf[p + i] < 128}
  IN IF T = {} THEN [e |-> "varint", v |-> <<>>, p |-> p]
     ELSE LET n == CHOOSE i \in T : \A j \in T : i <= j
              g == [i \in 1..n |-> buf[p + i] % 128]
          IN [e |-> IF GroupsOverflow(g, w) THEN "any" ELSE "ok",
              v |-> Ungroup(g, w), p |-> p + n]

\* zig-zag on two's complement little-endian bytes
Shl1(bs) == [i \in 1..Len(bs) |->
               ((2 * bs[i]) % 256) + (IF i > 1 /\ bs[i - 1] >= 128 THEN 1 ELSE 0)]
Shr1(bs) == [i \in 1..Len(bs) |->
               bs[i] \div 2 + (IF i < Len(bs) /\ bs[i + 1] % 2 = 1 THEN 128 ELSE 0)]
Inv(bs) == [i \in 1..Len(bs) |-> 255 - bs[i]]
ZigZag(bs) == IF bs[Len(bs)] >= 128 THEN Inv(Shl1(bs)) ELSE Shl1(bs)
UnZigZag(bs) == IF bs[1] % 2 = 1 THEN Inv(Shr1(bs)) ELSE Shr1(bs)

===========================================================================
