-------------------------------- MODULE Wire --------------------------------
(* The wire format: what each type's value encodes to, and what a read of a  *)
(* type from given bytes must yield.  A type is a descriptor record [k |->   *)
(* kind, ...] (the catalogue in harness/catalog.py writes them next to the   *)
(* C++ types); options o = [be |-> big endian?, sz |-> default size kind,    *)
(* lim |-> allocation limit in bytes or -1].                                 *)
(*                                                                           *)
(* Kinds                                          value                      *)
(*  b      one-byte scalar                        0..255                     *)
(*  bool                                          0 / 1                      *)
(*  u n    n-byte scalar                          n bytes, little endian     *)
(*  var n z  varint of an n-byte type (z: zig-zag)  n bytes, little endian   *)
(*  arr n t  fixed array                          <<elements>>               *)
(*  tup ts   tuple, pair, aggregate               <<members>>                *)
(*  seq s t es  resizable container               <<elements>>               *)
(*  spn s t  view of mutable elements             <<elements>>               *)
(*  set/map s t u  associative (u: unique keys)   <<elements>>               *)
(*  opt t    optional                             <<>> / <<x>>               *)
(*  ptr t    owning pointer                       <<>> (null) / <<x>>        *)
(*  alt ids ik ts kn  variant                     <<index, x>> / <<-1>>      *)
(*  bits n   bitset                               ceil(n/8) bytes            *)
(*  view s   const byte view                      [a |-> offset, d |-> bytes]*)
(*  fview n  const byte view, fixed extent        same                       *)
(*  empty                                         <<>>                       *)
(*  raw t    memory image                         as t                       *)
(*  pb s fs  protobuf message                     <<field values>>           *)
(*  ref i    type number i of the table                                      *)
(* Size kinds: "d" (archive default) "0" none "1" "2" "4" "8" bytes "v".     *)
EXTENDS Bytes, FiniteSets

CONSTANT TypeTable      \* sequence of descriptors, for recursive types

DefOpt == [be |-> FALSE, sz |-> "4", lim |-> -1]

SizeKind(s, o) == IF s = "d" THEN o.sz ELSE s
SizeWidth(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "4" -> 4 [] OTHER -> 8

---------------------------------------------------------------------------
(* Encoding: e |-> "ok" or the error, b |-> the bytes that precede the       *)
(* failing primitive (all, if ok), pk |-> the room a growing buffer may be   *)
(* asked for, relative to the start (varints reserve their maximal size).    *)

R(b) == [e |-> "ok", b |-> b, pk |-> Len(b)]
RR(b, r) == [e |-> "ok", b |-> b, pk |-> Hi(r, Len(b))]
Nil == R(<<>>)
Fail(e) == [e |-> e, b |-> <<>>, pk |-> 0]
App(r1, r2) == [e |-> r2.e, b |-> r1.b \o r2.b, pk |-> Hi(r1.pk, Len(r1.b) + r2.pk)]

Ord(bs, o) == IF o.be THEN Rev(bs) ELSE bs

VarBytes(t, v) == LebEnc(IF t.z = 1 THEN ZigZag(v) ELSE v)

SizeEnc(s, n, o) ==
  IF s = "0" THEN Nil
  ELSE IF s = "v" THEN RR(LebEnc(NatLE(n, 8)), LebMax(8))
  ELSE R(Ord(NatLE(n, SizeWidth(s)), o))

\* the count actually announced, and so written, for n elements
Announced(s, n) == IF s = "1" THEN n % 256 ELSE IF s = "2" THEN n % 65536 ELSE n

WtVarint == 0
WtFix64 == 1
WtLen == 2
WtFix32 == 5
FixWt(n) == IF n = 4 THEN WtFix32 ELSE WtFix64

PbTag(num, wt) == RR(LebEnc(<<8 * (num % 32) + wt>> \o NatLE(num \div 32, 3)), LebMax(8))
PbLen(n) == RR(LebEnc(NatLE(n, 8)), LebMax(8))
PbOpt(o) == [o EXCEPT !.be = FALSE, !.sz = "v"]

AsBytes(t, v) == IF t.k \in {"b", "bool"} THEN <<v>> ELSE v

RECURSIVE Enc(_, _, _), EncElems(_, _, _), EncTup(_, _, _, _), EncPb(_, _, _, _), EncField(_, _, _)

EncElems(t, vs, o) ==
  IF t.k \in {"b", "bool"} THEN R(vs)
  ELSE IF t.k = "u" THEN
    LET w == t.n IN
    R([j \in 1..(Len(vs) * w) |->
         LET i == (j - 1) \div w  c == (j - 1) % w
         IN vs[i + 1][IF o.be THEN w - c ELSE c + 1]])
  ELSE FoldLeft(LAMBDA acc, x : IF acc.e # "ok" THEN acc ELSE App(acc, Enc(t, x, o)), Nil, vs)

EncTup(ts, v, i, o) ==
  FoldLeft(LAMBDA acc, j : IF acc.e # "ok" THEN acc ELSE App(acc, Enc(ts[j], v[j], o)),
           Nil, [j \in 1..Len(ts) |-> j])

EncSized(s, t, vs, o) ==
  LET c == Announced(s, Len(vs))
  IN App(SizeEnc(s, c, o), EncElems(t, IF c < Len(vs) THEN SubSeq(vs, 1, c) ELSE vs, o))

AltId(t, i, o) == IF t.ik = "u" THEN Ord(t.ids[i], o) ELSE t.ids[i]

Enc(t, v, o) ==
  CASE t.k \in {"b", "bool"} -> R(<<v>>)
    [] t.k = "u" -> R(Ord(v, o))
    [] t.k = "var" -> RR(VarBytes(t, v), LebMax(t.n))
    [] t.k = "arr" -> EncElems(t.t, v, o)
    [] t.k = "tup" -> EncTup(t.ts, v, 1, o)
    [] t.k \in {"seq", "spn", "set", "map"} -> EncSized(SizeKind(t.s, o), t.t, v, o)
    [] t.k = "opt" -> IF v = <<>> THEN R(<<0>>) ELSE App(R(<<1>>), Enc(t.t, v[1], o))
    [] t.k = "ptr" -> IF v = <<>> THEN Fail("inval") ELSE Enc(t.t, v[1], o)
    [] t.k = "alt" ->
         IF v[1] < 0 THEN Fail("inval")
         ELSE IF t.kn = 1 THEN Enc(t.ts[v[1] + 1], v[2], o)
         ELSE App(R(AltId(t, v[1] + 1, o)), Enc(t.ts[v[1] + 1], v[2], o))
    [] t.k = "bits" -> R(v)
    [] t.k = "view" -> EncSized(SizeKind(t.s, o), [k |-> "b"], v.d, o)
    [] t.k = "fview" -> R(v.d)
    [] t.k = "empty" -> Nil
    [] t.k = "raw" -> Enc(t.t, v, [o EXCEPT !.be = FALSE])
    [] t.k = "ref" -> Enc(TypeTable[t.i], v, o)
    [] t.k = "pb" ->
         LET s == SizeKind(t.s, o)
             body == EncPb(t.fs, v, 1, PbOpt(o))
         IN IF s = "0" THEN body
            ELSE LET pre == SizeEnc(s, Announced(s, Len(body.b)), o)
                     all == App(pre, body)
                 IN IF s = "v" THEN [all EXCEPT !.pk = Hi(@, 1 + body.pk)] ELSE all

EncPb(fs, v, i, o) ==
  FoldLeft(LAMBDA acc, j : IF acc.e # "ok" THEN acc ELSE App(acc, EncField(fs[j], v[j], o)),
           Nil, [j \in 1..Len(fs) |-> j])

EncEntryMsg(f, kv, o) ==
  LET body == App(EncField(f.kf, kv[1], o), EncField(f.vf, kv[2], o))
      all == App(PbLen(Len(body.b)), body)
  IN [all EXCEPT !.pk = Hi(@, 1 + body.pk)]

EncField(f, x, o) ==
  CASE f.k = "rsv" -> Nil
    [] f.k = "var" -> App(PbTag(f.f, WtVarint), Enc(f.t, x, o))
    [] f.k = "enum" -> App(PbTag(f.f, WtVarint),
                           RR(LebEnc(AsBytes(f.t, x)), LebMax(Len(AsBytes(f.t, x)))))
    [] f.k = "bool" -> App(PbTag(f.f, WtVarint), R(<<x>>))
    [] f.k = "fix" -> App(PbTag(f.f, FixWt(f.t.n)), R(x))
    [] f.k = "msg" -> App(PbTag(f.f, WtLen), Enc(f.t, x, o))
    [] f.k \in {"str", "rfix"} ->
         IF x = <<>> THEN Nil
         ELSE LET b == EncElems(f.t, x, o) IN
              App(App(PbTag(f.f, WtLen), PbLen(Len(b.b))), b)
    [] f.k \in {"rvar", "renum"} ->
         IF x = <<>> THEN Nil
         ELSE LET b == IF f.k = "rvar" THEN EncElems(f.t, x, o)
                       ELSE FoldLeft(LAMBDA acc, y :
                              App(acc, RR(LebEnc(AsBytes(f.t, y)), LebMax(Len(AsBytes(f.t, y))))), Nil, x)
              IN App(App(PbTag(f.f, WtLen), PbLen(Len(b.b))), b)
    [] f.k = "rmsg" ->
         FoldLeft(LAMBDA acc, y : IF acc.e # "ok" THEN acc
                    ELSE App(acc, App(PbTag(f.f, WtLen), Enc(f.t, y, o))), Nil, x)
    [] f.k = "map" ->
         FoldLeft(LAMBDA acc, y : IF acc.e # "ok" THEN acc
                    ELSE App(acc, App(PbTag(f.f, WtLen), EncEntryMsg(f, y, o))), Nil, x)

---------------------------------------------------------------------------
(* Values a fresh object of a type has.                                      *)

RECURSIVE Def(_), FieldDef(_)
FieldDef(f) == IF "d" \in DOMAIN f THEN f.d
               ELSE IF f.k \in {"str", "rfix", "rvar", "renum", "rmsg", "map", "rsv"} THEN <<>>
               ELSE Def(f.t)
Def(t) ==
  IF "d" \in DOMAIN t THEN t.d
  ELSE CASE t.k \in {"b", "bool"} -> 0
    [] t.k \in {"u", "var"} -> Zeros(t.n)
    [] t.k = "arr" -> [i \in 1..t.n |-> Def(t.t)]
    [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> Def(t.ts[i])]
    [] t.k = "alt" -> <<0, Def(t.ts[1])>>
    [] t.k = "bits" -> Zeros((t.n + 7) \div 8)
    [] t.k \in {"view", "fview"} -> [a |-> -1, d |-> <<>>]
    [] t.k = "raw" -> Def(t.t)
    [] t.k = "ref" -> Def(TypeTable[t.i])
    [] t.k = "pb" -> [i \in 1..Len(t.fs) |-> FieldDef(t.fs[i])]
    [] OTHER -> <<>>

---------------------------------------------------------------------------
(* Decoding from buf at 0-based p, not beyond end, into a target holding ov. *)
(* e: "ok", an error class ("range" "msgsize" "badmsg" "proto" "varint"      *)
(* "err" = some error), or "any": the data is outside what the format        *)
(* defines (e.g. a varint with bits its type cannot hold), and only safety   *)
(* is required.                                                              *)

D(v, p) == [e |-> "ok", v |-> v, p |-> p]
DFail(e, p) == [e |-> e, v |-> <<>>, p |-> p]

DecSize(s, o, buf, p, end) ==
  IF s = "v" THEN LET r == LebDec(buf, p, end, 8)
                  IN [e |-> r.e, v |-> IF r.e = "ok" THEN ToNat(r.v) ELSE 0, p |-> r.p]
  ELSE LET w == SizeWidth(s)
       IN IF w > end - p THEN DFail("range", p)
          ELSE D(ToNat(Ord(Slice(buf, p, w), o)), p + w)

OldAt(ov, i, t) == IF i <= Len(ov) THEN ov[i] ELSE Def(t)

RECURSIVE Dec(_, _, _, _, _, _), DecElems(_, _, _, _, _, _, _),
          DecLoop(_, _, _, _, _, _, _, _, _), DecTup(_, _, _, _, _, _, _, _),
          DecPb(_, _, _, _, _, _), DecFields(_, _, _, _, _, _), DecField(_, _, _, _, _, _, _),
          DecPacked(_, _, _, _, _, _)

DecElems(t, ovs, n, o, buf, p, end) ==
  IF t.k \in {"b", "bool"} THEN
    IF n > end - p THEN DFail("range", p) ELSE D(Slice(buf, p, n), p + n)
  ELSE IF t.k = "u" THEN
    IF n > (end - p) \div t.n THEN DFail("range", p)
    ELSE D([i \in 1..n |-> Ord(Slice(buf, p + (i - 1) * t.n, t.n), o)], p + n * t.n)
  ELSE DecLoop(t, ovs, 1, n, o, buf, p, end, <<>>)

DecLoop(t, ovs, i, n, o, buf, p, end, acc) ==
  IF i > n THEN D(acc, p)
  ELSE LET r == Dec(t, OldAt(ovs, i, t), o, buf, p, end)
       IN IF r.e # "ok" THEN [r EXCEPT !.v = acc]
          ELSE DecLoop(t, ovs, i + 1, n, o, buf, r.p, end, Append(acc, r.v))

DecTup(ts, ov, i, o, buf, p, end, acc) ==
  IF i > Len(ts) THEN D(acc, p)
  ELSE LET r == Dec(ts[i], ov[i], o, buf, p, end)
       IN IF r.e # "ok" THEN r
          ELSE DecTup(ts, ov, i + 1, o, buf, r.p, end, Append(acc, r.v))

OverLimit(n, es, o) == o.lim >= 0 /\ n > o.lim \div es

\* keep the first occurrence of each key
KeyOf(t, x) == IF t.k = "map" THEN x[1] ELSE x
Uniq(t, vs) ==
  IF t.u = 0 THEN vs
  ELSE FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : KeyOf(t, acc[i]) = KeyOf(t, x)
                                THEN acc ELSE Append(acc, x), <<>>, vs)

AltIdWidth(t) == Len(t.ids[1])
AltIndex(t, id) == {i \in 1..Len(t.ids) : t.ids[i] = id}

DecAlt(t, i, ov, o, buf, p, end) ==
  LET r == Dec(t.ts[i], IF Len(ov) = 2 /\ ov[1] = i - 1 THEN ov[2] ELSE Def(t.ts[i]), o, buf, p, end)
  IN IF r.e # "ok" THEN r ELSE D(<<i - 1, r.v>>, r.p)

MaskBits(bs, n) ==
  [i \in 1..Len(bs) |-> IF 8 * i <= n THEN bs[i] ELSE bs[i] % Pow2[n - 8 * (i - 1)]]

Dec(t, ov, o, buf, p, end) ==
  CASE t.k = "b" -> IF end - p < 1 THEN DFail("range", p) ELSE D(buf[p + 1], p + 1)
    [] t.k = "bool" -> IF end - p < 1 THEN DFail("range", p)
                       ELSE IF buf[p + 1] > 1 THEN DFail("any", p) ELSE D(buf[p + 1], p + 1)
    [] t.k = "u" -> IF end - p < t.n THEN DFail("range", p)
                    ELSE D(Ord(Slice(buf, p, t.n), o), p + t.n)
    [] t.k = "var" -> LET r == LebDec(buf, p, end, t.n) IN
                      IF r.e # "ok" THEN DFail(r.e, p)
                      ELSE D(IF t.z = 1 THEN UnZigZag(r.v) ELSE r.v, r.p)
    [] t.k = "arr" -> DecElems(t.t, ov, t.n, o, buf, p, end)
    [] t.k = "tup" -> DecTup(t.ts, ov, 1, o, buf, p, end, <<>>)
    [] t.k = "seq" ->
         LET s == SizeKind(t.s, o) IN
         IF s = "0" THEN DecElems(t.t, ov, Len(ov), o, buf, p, end)
         ELSE LET c == DecSize(s, o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF OverLimit(c.v, t.es, o) THEN DFail("msgsize", p)
              ELSE DecElems(t.t, ov, c.v, o, buf, c.p, end)
    [] t.k = "spn" ->
         LET s == SizeKind(t.s, o) IN
         IF s = "0" THEN DecElems(t.t, ov, Len(ov), o, buf, p, end)
         ELSE LET c == DecSize(s, o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF c.v > Len(ov) THEN DFail("range", p)
              ELSE DecElems(t.t, ov, c.v, o, buf, c.p, end)
    [] t.k \in {"set", "map"} ->
         LET c == DecSize(SizeKind(t.s, o), o, buf, p, end) IN
         IF c.e # "ok" THEN c
         ELSE LET r == DecLoop(t.t, <<>>, 1, c.v, o, buf, c.p, end, <<>>)
              IN IF r.e # "ok" THEN r ELSE D(Uniq(t, r.v), r.p)
    [] t.k = "opt" ->
         IF end - p < 1 THEN DFail("range", p)
         ELSE IF buf[p + 1] > 1 THEN DFail("any", p)
         ELSE IF buf[p + 1] = 0 THEN D(<<>>, p + 1)
         ELSE LET r == Dec(t.t, IF ov = <<>> \/ t.fr = 1 THEN Def(t.t) ELSE ov[1], o, buf, p + 1, end)
              IN IF r.e # "ok" THEN r ELSE D(<<r.v>>, r.p)
    [] t.k = "ptr" ->
         LET r == Dec(t.t, Def(t.t), o, buf, p, end)
         IN IF r.e # "ok" THEN r ELSE D(<<r.v>>, r.p)
    [] t.k = "alt" ->
         IF t.kn = 1 THEN DecAlt(t, t.ki + 1, ov, o, buf, p, end)
         ELSE IF t.kn = 2 THEN DFail("badmsg", p)          \* known, but nobody's
         ELSE LET w == AltIdWidth(t) IN
              IF end - p < w THEN DFail("range", p)
              ELSE LET raw == Slice(buf, p, w)
                       S == AltIndex(t, IF t.ik = "u" THEN Ord(raw, o) ELSE raw)
                   IN IF S = {} THEN DFail("badmsg", p)
                      ELSE DecAlt(t, CHOOSE i \in S : TRUE, ov, o, buf, p + w, end)
    [] t.k = "bits" ->
         LET w == (t.n + 7) \div 8 IN
         IF end - p < w THEN DFail("range", p)
         ELSE D(MaskBits(Slice(buf, p, w), t.n), p + w)
    [] t.k = "view" ->
         LET s == SizeKind(t.s, o) IN
         IF s = "0" THEN D([a |-> p, d |-> Slice(buf, p, end - p)], end)
         ELSE LET c == DecSize(s, o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF c.v > end - c.p THEN DFail("range", p)
              ELSE D([a |-> c.p, d |-> Slice(buf, c.p, c.v)], c.p + c.v)
    [] t.k = "fview" ->
         IF t.n > end - p THEN DFail("range", p)
         ELSE D([a |-> p, d |-> Slice(buf, p, t.n)], p + t.n)
    [] t.k = "empty" -> D(<<>>, p)
    [] t.k = "raw" -> Dec(t.t, ov, [o EXCEPT !.be = FALSE], buf, p, end)
    [] t.k = "ref" -> Dec(TypeTable[t.i], ov, o, buf, p, end)
    [] t.k = "pb" ->
         LET s == SizeKind(t.s, o) IN
         IF s = "0" THEN DecPb(t.fs, ov, PbOpt(o), buf, p, end)
         ELSE LET c == DecSize(s, o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF c.v > end - c.p THEN DFail("range", p)
              ELSE DecPb(t.fs, ov, PbOpt(o), buf, c.p, c.p + c.v)

(* A protobuf message in buf[p, end). Containers are emptied first, other    *)
(* members keep their old value until their field is met.                    *)
DecPb(fs, ov, o, buf, p, end) ==
  DecFields(fs, [i \in 1..Len(fs) |->
                   IF fs[i].k \in {"str", "rfix", "rvar", "renum", "rmsg", "map", "rsv"}
                   THEN <<>> ELSE ov[i]], o, buf, p, end)

TagNum(bs) == bs[1] \div 8 + 32 * bs[2] + 8192 * bs[3] + 2097152 * bs[4]

PbSkip(wt, buf, p, end) ==
  CASE wt = WtVarint -> LebDec(buf, p, end, 8)
    [] wt = WtFix64 -> IF end - p < 8 THEN DFail("range", p) ELSE D(<<>>, p + 8)
    [] wt = WtFix32 -> IF end - p < 4 THEN DFail("range", p) ELSE D(<<>>, p + 4)
    [] wt = WtLen -> LET c == DecSize("v", DefOpt, buf, p, end) IN
                     IF c.e # "ok" THEN c
                     ELSE IF c.v > end - c.p THEN DFail("range", p)
                     ELSE D(<<>>, c.p + c.v)
    [] OTHER -> DFail("err", p)

\* the wire types a field may come with (repeated scalars: packed or not)
WtOk(f, wt) ==
  CASE f.k \in {"var", "enum", "bool"} -> wt = WtVarint
    [] f.k = "fix" -> wt = FixWt(f.t.n)
    [] f.k = "rfix" -> wt = WtLen \/ (f.t.n \in {4, 8} /\ wt = FixWt(f.t.n))
    [] f.k \in {"rvar", "renum"} -> wt \in {WtVarint, WtLen}
    [] OTHER -> wt = WtLen

DecFields(fs, vals, o, buf, p, end) ==
  IF p >= end THEN D(vals, p)
  ELSE LET tg == LebDec(buf, p, end, 4) IN
       IF tg.e # "ok" THEN DFail(tg.e, p)
       ELSE LET num == TagNum(tg.v)
                wt == tg.v[1] % 8
                \* a field of another wire type than the declared one is unknown
                S == {i \in 1..Len(fs) : fs[i].f = num /\ fs[i].k # "rsv" /\ WtOk(fs[i], wt)}
            IN IF num = 0 THEN DFail("err", p)
               ELSE IF S = {} THEN
                 LET r == PbSkip(wt, buf, tg.p, end)
                 IN IF r.e # "ok" THEN DFail(r.e, p)
                    ELSE DecFields(fs, vals, o, buf, r.p, end)
               ELSE LET i == CHOOSE i \in S : TRUE
                        r == DecField(fs[i], vals[i], wt, o, buf, tg.p, end)
                    IN IF r.e # "ok" THEN r
                       ELSE DecFields(fs, [vals EXCEPT ![i] = r.v], o, buf, r.p, end)

PbPayload(o, buf, p, end) ==
  LET c == DecSize("v", o, buf, p, end) IN
  IF c.e # "ok" THEN c
  ELSE IF o.lim >= 0 /\ c.v > o.lim THEN DFail("msgsize", p)
  ELSE IF c.v > end - c.p THEN DFail("range", p)
  ELSE c

\* one varint element (plain, zig-zag or enum) in [p, end)
DecVarElem(f, buf, p, end) ==
  LET w == IF f.t.k = "b" THEN 1 ELSE f.t.n
      r == LebDec(buf, p, end, w)
  IN IF r.e = "varint" /\ LebDec(buf, p, end, 8).e # "varint" THEN DFail("any", p)
     ELSE IF r.e # "ok" THEN DFail(r.e, p)
     ELSE D(IF f.t.k = "b" THEN r.v[1]
            ELSE IF f.t.k = "var" /\ f.t.z = 1 THEN UnZigZag(r.v) ELSE r.v, r.p)

DecPacked(f, acc, buf, p, pend, dummy) ==
  IF p = pend THEN D(acc, p)
  ELSE LET r == DecVarElem(f, buf, p, pend)
       IN IF r.e = "any" THEN r ELSE IF r.e # "ok" THEN DFail("err", p)
          ELSE DecPacked(f, Append(acc, r.v), buf, r.p, pend, dummy)

\* keep the last entry of each key, at the place of the first
PutEntry(f, acc, kv) ==
  IF f.u = 1 /\ \E i \in 1..Len(acc) : acc[i][1] = kv[1]
  THEN [i \in 1..Len(acc) |-> IF acc[i][1] = kv[1] THEN kv ELSE acc[i]]
  ELSE Append(acc, kv)

DecField(f, x, wt, o, buf, p, end) ==
  CASE f.k \in {"var", "enum"} ->
         DecVarElem(f, buf, p, end)
    [] f.k = "bool" ->
         IF end - p < 1 THEN DFail("err", p)
         ELSE IF buf[p + 1] > 1 THEN DFail("any", p) ELSE D(buf[p + 1], p + 1)
    [] f.k = "fix" ->
         Dec(f.t, x, o, buf, p, end)
    [] f.k = "msg" ->
         Dec(f.t, x, o, buf, p, end)
    [] f.k = "str" ->
         LET c == PbPayload(o, buf, p, end) IN
              IF c.e # "ok" THEN c ELSE D(Slice(buf, c.p, c.v), c.p + c.v)
    [] f.k = "rfix" ->
         IF wt = FixWt(f.t.n) /\ f.t.n \in {4, 8} THEN
           LET r == Dec(f.t, Def(f.t), o, buf, p, end)
           IN IF r.e # "ok" THEN r ELSE D(Append(x, r.v), r.p)
         ELSE LET c == PbPayload(o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF c.v % f.t.n # 0 THEN DFail("err", p)
              ELSE LET r == DecElems(f.t, <<>>, c.v \div f.t.n, o, buf, c.p, end)
                   IN D(x \o r.v, r.p)
    [] f.k \in {"rvar", "renum"} ->
         IF wt = WtVarint THEN
           LET r == DecVarElem(f, buf, p, end)
           IN IF r.e # "ok" THEN r ELSE D(Append(x, r.v), r.p)
         ELSE LET c == PbPayload(o, buf, p, end) IN
              IF c.e # "ok" THEN c ELSE DecPacked(f, x, buf, c.p, c.p + c.v, 0)
    [] f.k = "rmsg" ->
         LET r == Dec(f.t, Def(f.t), o, buf, p, end)
              IN IF r.e # "ok" THEN r ELSE D(Append(x, r.v), r.p)
    [] f.k = "map" ->
         LET c == DecSize("v", o, buf, p, end) IN
              IF c.e # "ok" THEN c
              ELSE IF c.v > end - c.p THEN DFail("range", p)
              ELSE LET r == DecFields(<<f.kf, f.vf>>, <<FieldDef(f.kf), FieldDef(f.vf)>>,
                                      o, buf, c.p, c.p + c.v)
                   IN IF r.e # "ok" THEN r ELSE D(PutEntry(f, x, r.v), r.p)

---------------------------------------------------------------------------
(* Equality of values: associative containers are compared as bags, with the *)
(* elements of one key in their order where the container is ordered.         *)
RECURSIVE VEq(_, _, _)
VEqSeq(t, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(t, a[i], b[i])
VBag(t, a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       Cardinality({j \in 1..Len(a) : VEq(t, a[j], a[i])})
       = Cardinality({j \in 1..Len(b) : VEq(t, b[j], a[i])})
FieldEq(f, a, b) ==
  CASE f.k = "rmsg" /\ f.bag = 0 -> VEqSeq(f.t, a, b)
    [] f.k = "map" -> /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
                      /\ \A i \in 1..Len(b) : \E j \in 1..Len(a) : a[j] = b[i]
                      /\ f.u = 0 /\ f.ord = 1 =>
                           \A i \in 1..Len(a) :
                             LET OfKey(x) == x[1] = a[i][1]
                             IN SelectSeq(a, OfKey) = SelectSeq(b, OfKey)
    [] f.k = "msg" -> VEq(f.t, a, b)
    [] f.bag = 1 -> /\ Len(a) = Len(b)    \* repeated field held in a multiset
                    /\ \A i \in 1..Len(a) :
                         Cardinality({j \in 1..Len(a) : a[j] = a[i]})
                         = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
    [] f.bag = 2 -> {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}   \* in a set
    [] OTHER -> a = b
VEq(t, a, b) ==
  CASE t.k \in {"set", "map"} ->
         /\ VBag(t.t, a, b)
         /\ t.k = "map" /\ t.u = 0 /\ t.ord = 1 =>    \* std::multimap: elements of one key keep their order
              \A i \in 1..Len(a) :
                LET OfKey(x) == VEq(t.t.ts[1], x[1], a[i][1])
                IN VEqSeq(t.t, SelectSeq(a, OfKey), SelectSeq(b, OfKey))
    [] t.k \in {"arr", "seq", "spn"} ->
         IF t.t.k \in {"b", "u", "bool", "var"} THEN a = b ELSE VEqSeq(t.t, a, b)
    [] t.k = "tup" -> Len(a) = Len(b) /\ \A i \in 1..Len(t.ts) : VEq(t.ts[i], a[i], b[i])
    [] t.k \in {"opt", "ptr"} -> VEqSeq(t.t, a, b)
    [] t.k = "alt" -> /\ a[1] = b[1] /\ Len(a) = Len(b)
                      /\ a[1] >= 0 => VEq(t.ts[a[1] + 1], a[2], b[2])
    [] t.k = "view" -> a.d = b.d /\ (a.d # <<>> => a.a = b.a)
    [] t.k = "fview" -> a.d = b.d /\ (a.d # <<>> => a.a = b.a)
    [] t.k = "raw" -> VEq(t.t, a, b)
    [] t.k = "ref" -> VEq(TypeTable[t.i], a, b)
    [] t.k = "pb" -> \A i \in 1..Len(t.fs) : FieldEq(t.fs[i], a[i], b[i])
    [] OTHER -> a = b

\* which observed error codes an error class stands for
ErrOk(cls, obs) ==
  CASE cls = "ok" -> obs = "ok"
    [] cls = "range" -> obs = "range"
    [] cls = "varint" -> obs \in {"range", "toolarge"}
    [] cls = "err" -> obs \in {"range", "toolarge", "proto", "badmsg", "msgsize", "inval"}
    [] cls = "any" -> obs \in {"ok", "range", "toolarge", "proto", "badmsg", "msgsize", "inval"}
    [] OTHER -> obs = cls

===========================================================================
