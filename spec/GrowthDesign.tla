----------------------------- MODULE GrowthDesign -----------------------------
(* Every size and position of a machine whose words are one byte, every       *)
(* enlarger, items of every length: growth never wraps around, and fails only *)
(* if what is asked for cannot be counted or is not allowed.                  *)
EXTENDS Growth, TLC
VARIABLES c, s, p, n, done
vars == <<c, s, p, n, done>>
Cs == {[M |-> m, D |-> d, lim |-> <<l>>, fit |-> f] :
        m \in {1, 2, 3}, d \in {1, 2}, l \in {100, 255}, f \in 0..1}
Init == /\ c \in {x \in Cs : x.M >= x.D} /\ s \in {<<i>> : i \in 0..255}
        /\ p \in {<<i>> : i \in Hi(0, s[1] - 2)..s[1]}
        /\ n \in {0, 1, 3, 60, 128, 255} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<c, s, p, n>>
R == Calls(c, s, p, <<n>>)
G == Grown(c, s, p, n)
NoWrap == R.ok => /\ R.p[1] = p[1] + n /\ R.p[1] <= R.s[1] /\ G[1] >= R.p[1]
                  /\ G # s => G[1] <= c.lim[1]
Unchanged == ~R.ok => R.p = p /\ R.s = s
Needed == ~R.ok => p[1] + n > s[1]
Reason == ~R.ok => (s[1] + n) * c.M > 255 \/ ((s[1] + n) * c.M) \div c.D > c.lim[1]
Spec == Init /\ [][Next]_vars
==============================================================================
