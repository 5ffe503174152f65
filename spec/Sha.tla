--------------------------------- MODULE Sha ---------------------------------
(* SHA-1 and SHA-256 (FIPS 180-4). A 32 bit word is <<high 16, low 16>>.     *)
EXTENDS Bytes, Bitwise

W(h, l) == <<h, l>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET l == a[2] + b[2]
              IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
WShr(a, n) ==
  IF n >= 16 THEN <<0, a[1] \div Pow2[n - 16]>>
  ELSE <<a[1] \div Pow2[n], (a[2] \div Pow2[n]) + ((a[1] % Pow2[n]) * Pow2[16 - n])>>
WRotr(a, n) ==
  LET x == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
      k == n % 16
  IN <<(x[1] \div Pow2[k]) + ((x[2] % Pow2[k]) * Pow2[16 - k]),
       (x[2] \div Pow2[k]) + ((x[1] % Pow2[k]) * Pow2[16 - k])>>
WRotl(a, n) == WRotr(a, 32 - n)

\* the message with a one bit, zeros and its length in bits, in blocks of 64
Padded(m) ==
  LET n == Len(m)
      k == (119 - (n % 64)) % 64
      len == NatLE(n * 8, 4)
  IN m \o <<128>> \o Zeros(k) \o <<0, 0, 0, 0>> \o Rev(len)

Word(b, i) == <<256 * b[i] + b[i + 1], 256 * b[i + 2] + b[i + 3]>>
Words(b) == [j \in 1..(Len(b) \div 4) |-> Word(b, 4 * j - 3)]
Blocks(m) == LET p == Padded(m) IN [j \in 1..(Len(p) \div 64) |-> Words(SubSeq(p, 64 * j - 63, 64 * j))]
Unwords(ws) ==
  [i \in 1..(4 * Len(ws)) |->
     LET w == ws[((i - 1) \div 4) + 1]  k == (i - 1) % 4
     IN CASE k = 0 -> w[1] \div 256 [] k = 1 -> w[1] % 256
          [] k = 2 -> w[2] \div 256 [] OTHER -> w[2] % 256]

Iota(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

---------------------------------------------------------------------------
H1 == <<W(26437, 8961), W(61389, 43913), W(39098, 56574), W(4146, 21622), W(50130, 57840)>>
Sched1(blk) ==
  FoldLeft(LAMBDA w, i : Append(w, WRotl(WXor(WXor(w[i - 3], w[i - 8]), WXor(w[i - 14], w[i - 16])), 1)),
           blk, Iota(17, 80))
K1(i) == IF i <= 20 THEN W(23170, 31129) ELSE IF i <= 40 THEN W(28377, 60321)
         ELSE IF i <= 60 THEN W(36635, 48348) ELSE W(51810, 49622)
F1(i, b, c, d) == IF i <= 20 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))
                  ELSE IF i <= 40 \/ i > 60 THEN WXor(b, WXor(c, d))
                  ELSE WOr(WAnd(b, c), WOr(WAnd(b, d), WAnd(c, d)))
Block1(h, blk) ==
  LET w == Sched1(blk)
      r == FoldLeft(LAMBDA s, i :
             <<WAdd(WRotl(s[1], 5), WAdd(F1(i, s[2], s[3], s[4]), WAdd(s[5], WAdd(K1(i), w[i])))),
               s[1], WRotl(s[2], 30), s[3], s[4]>>, h, Iota(1, 80))
  IN [i \in 1..5 |-> WAdd(h[i], r[i])]
Sha1(m) == Unwords(FoldLeft(Block1, H1, Blocks(m)))

---------------------------------------------------------------------------
\* fractional parts of square and cube roots of the first primes
H2 == <<W(27145, 58983), W(47975, 44677), W(15470, 62322), W(42319, 62778), W(20750, 21119), W(39685, 26764), W(8067, 55723), W(23520, 52505)>>
K2 == <<W(17034, 12184), W(28983, 17553), W(46528, 64463), W(59829, 56229), W(14678, 49755), W(23025, 4593), W(37439, 33444), W(43804, 24277),
        W(55303, 43672), W(4739, 23297), W(9265, 34238), W(21772, 32195), W(29374, 23924), W(32990, 45566), W(39900, 1703), W(49563, 61812),
        W(58523, 27073), W(61374, 18310), W(4033, 40390), W(9228, 41420), W(11753, 11375), W(19060, 33962), W(23728, 43484), W(30457, 35034),
        W(38974, 20818), W(43057, 50797), W(45059, 10184), W(48985, 32711), W(50912, 3059), W(54695, 37191), W(1738, 25425), W(5161, 10599),
        W(10167, 2693), W(11803, 8504), W(19756, 28156), W(21304, 3347), W(25866, 29524), W(30314, 2747), W(33218, 51502), W(37490, 11397),
        W(41663, 59553), W(43034, 26187), W(49739, 35696), W(51052, 20899), W(53650, 59417), W(54937, 1572), W(62478, 13701), W(4202, 41072),
        W(6564, 49430), W(7735, 27656), W(10056, 30540), W(13488, 48309), W(14620, 3251), W(20184, 43594), W(23452, 51791), W(26670, 28659),
        W(29839, 33518), W(30885, 25455), W(33992, 30740), W(36039, 520), W(37054, 65530), W(42064, 27883), W(48889, 41975), W(50801, 30962)>>
S0(x) == WXor(WRotr(x, 7), WXor(WRotr(x, 18), WShr(x, 3)))
S1(x) == WXor(WRotr(x, 17), WXor(WRotr(x, 19), WShr(x, 10)))
B0(x) == WXor(WRotr(x, 2), WXor(WRotr(x, 13), WRotr(x, 22)))
B1(x) == WXor(WRotr(x, 6), WXor(WRotr(x, 11), WRotr(x, 25)))
Ch(e, f, g) == WXor(WAnd(e, f), WAnd(WNot(e), g))
Maj(a, b, c) == WXor(WAnd(a, b), WXor(WAnd(a, c), WAnd(b, c)))
Sched2(blk) ==
  FoldLeft(LAMBDA w, i : Append(w, WAdd(WAdd(S1(w[i - 2]), w[i - 7]), WAdd(S0(w[i - 15]), w[i - 16]))),
           blk, Iota(17, 64))
Block2(h, blk) ==
  LET w == Sched2(blk)
      r == FoldLeft(LAMBDA s, i :
             LET t1 == WAdd(s[8], WAdd(B1(s[5]), WAdd(Ch(s[5], s[6], s[7]), WAdd(K2[i], w[i]))))
                 t2 == WAdd(B0(s[1]), Maj(s[1], s[2], s[3]))
             IN <<WAdd(t1, t2), s[1], s[2], s[3], WAdd(s[4], t1), s[5], s[6], s[7]>>, h, Iota(1, 64))
  IN [i \in 1..8 |-> WAdd(h[i], r[i])]
Sha256(m) == Unwords(FoldLeft(Block2, H2, Blocks(m)))
===========================================================================
