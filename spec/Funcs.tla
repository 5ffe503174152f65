-------------------------------- MODULE Funcs --------------------------------
(* Results of the library's pure functions, recorded one per line, against    *)
(* what they must be. Numbers are little-endian byte sequences.               *)
EXTENDS Wire, Sha, Json, IOUtils, TLC

FnTable == <<>>
Lines == ndJsonDeserialize(IOEnv.VF_TRACE)

AddLE(a, b) ==
  FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc.c
                           IN [r |-> Append(acc.r, s % 256), c |-> s \div 256],
           [r |-> <<>>, c |-> 0], Iota(1, Len(a))).r
ShlLE(a, k) ==
  LET q == k \div 8  r == k % 8
  IN [i \in 1..Len(a) |-> ((At(a, i - q) * Pow2[r]) % 256) + (At(a, i - q - 1) \div Pow2[8 - r])]
ShrLE(a, k) ==
  LET q == k \div 8  r == k % 8
  IN [i \in 1..Len(a) |-> (At(a, i + q) \div Pow2[r]) + ((At(a, i + q + 1) * Pow2[8 - r]) % 256)]
CmpLE(a, b) == IF a = b THEN 0 ELSE IF LtLE(a, b, Len(a)) THEN -1 ELSE 1

BigEndianOp(op, a, b) ==
  CASE op = "add" -> AddLE(a, b)
    [] op = "and" -> [i \in 1..Len(a) |-> a[i] & b[i]]
    [] op = "or" -> [i \in 1..Len(a) |-> a[i] | b[i]]
    [] op = "xor" -> [i \in 1..Len(a) |-> a[i] ^^ b[i]]
    [] op = "not" -> [i \in 1..Len(a) |-> 255 - a[i]]
    [] op = "shl" -> ShlLE(a, b)
    [] op = "shr" -> ShrLE(a, b)
    [] op = "rotl" -> LET k == b % (8 * Len(a)) IN [i \in 1..Len(a) |-> ShlLE(a, k)[i] + (IF k = 0 THEN 0 ELSE ShrLE(a, 8 * Len(a) - k)[i])]

HexDigit(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48

\* the bytes of the first n of m, all if n is negative
Head_(m, n) == IF n < 0 THEN m ELSE SubSeq(m, 1, n)

EncAll(ds, vs, o) ==
  FoldLeft(LAMBDA acc, i : App(acc, Enc(ds[i], vs[i], o)), Nil, Iota(1, Len(ds))).b

FnBad(e) ==
  CASE e.f = "vsize" -> IF e.r = Len(LebEnc(IF e.z = 1 THEN ZigZag(e.a) ELSE e.a)) THEN {} ELSE {"varint-size"}
    [] e.f = "vmax" -> IF e.r >= NGroups(Zeros(e.n)) THEN {} ELSE {"varint-max-size"}
    [] e.f = "be" -> (IF e.mem = Rev(BigEndianOp(e.op, e.a, e.b)) THEN {} ELSE {"big-endian-" \o e.op})
    [] e.f = "bemake" -> (IF e.mem = Rev(e.a) /\ e.ser = Rev(e.a) THEN {} ELSE {"big-endian-order"})
                         \cup (IF e.back = Rev(e.a) THEN {} ELSE {"big-endian-read"})
    [] e.f = "becmp" -> IF e.r = CmpLE(e.a, e.b) /\ e.eq = (IF e.a = e.b THEN 1 ELSE 0) THEN {} ELSE {"big-endian-compare"}
    [] e.f = "sha1" -> IF e.r = Sha1(e.m) THEN {} ELSE {"sha1"}
    [] e.f = "sha256" -> IF e.r = Sha256(e.m) THEN {} ELSE {"sha256"}
    [] e.f = "sha1int" -> IF e.r = SubSeq(Sha1(e.m), 1, 4) /\ e.int = 1 THEN {} ELSE {"sha1-int"}
    [] e.f = "sha256int" -> IF e.r = SubSeq(Sha256(e.m), 1, 4) /\ e.int = 1 THEN {} ELSE {"sha256-int"}
    [] e.f = "id" -> LET x == Head_(e.m, e.n) IN
                     IF e.r = x /\ e.int = (IF Len(x) \in {1, 2, 4, 8} THEN 1 ELSE 0) THEN {} ELSE {"id"}
    [] e.f = "idsha" -> LET x == Head_(IF e.h = 1 THEN Sha1(e.m) ELSE Sha256(e.m), e.n) IN
                        IF e.r = x /\ e.int = (IF Len(x) \in {1, 2, 4, 8} THEN 1 ELSE 0) THEN {} ELSE {"id"}
    [] e.f = "hex" -> IF e.r = [i \in 1..(Len(e.s) \div 2) |-> 16 * HexDigit(e.s[2 * i - 1]) + HexDigit(e.s[2 * i])]
                      THEN {} ELSE {"hex"}
    [] e.f = "bytes" -> IF e.r = EncAll(e.ds, e.vs, DefOpt) THEN {} ELSE {"to-bytes"}
    [] e.f = "slice" -> IF e.r = SubSeq(e.m, e.a + 1, IF e.b < 0 THEN Len(e.m) ELSE e.b) THEN {} ELSE {"slice"}
    [] e.f = "same" -> IF e.r = e.m THEN {} ELSE {"differs"}
    [] OTHER -> {"unknown"}

VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Lines) /\ done = FALSE
Next == /\ ~done
        /\ LET e == Lines[id]  j == FnBad(e)
           IN IF j = {} THEN TRUE ELSE PrintT(<<"REJECT", e.id, 1, j>>)
        /\ done' = TRUE
        /\ UNCHANGED id
Spec == Init /\ [][Next]_vars
===========================================================================
