------------------------------ MODULE MegaForks ------------------------------
(***************************************************************************)
(* Hardfork schedules: which rules (spec, block limits) a block runs, and  *)
(* which block is the first of a hardfork.                                 *)
(* A schedule gives every fork its activation time; -1 means never, -2 an  *)
(* activation by block number, which does not count by timestamp.          *)
(***************************************************************************)
EXTENDS MegaTx

ForkNames == <<"MiniRex", "MiniRex1", "MiniRex2", "Rex", "Rex1", "Rex2", "Rex3", "Rex4">>
NFORK == 8
\* the rules of each fork: MiniRex1 rolls MiniRex back, MiniRex2 brings it back
ForkSpec == <<MINI, EQ, MINI, REX, REX1, REX2, REX3, REX4>>

MINIREX == 1   REX_2 == 6

Active(sch, f, ts) == sch[f] >= 0 /\ sch[f] <= ts

\* the newest active fork (0: none)
Newest(sch, ts) ==
  LET a == {f \in 1 .. NFORK : Active(sch, f, ts)}
  IN IF a = {} THEN 0 ELSE CHOOSE f \in a : \A g \in a : g <= f
SpecAt(sch, ts) == IF Newest(sch, ts) = 0 THEN EQ ELSE ForkSpec[Newest(sch, ts)]

FirstBlock(sch, f, pts, num, ts) == Active(sch, f, ts) /\ (num = 1 \/ ~Active(sch, f, pts))

\* block limits of a fork, for a block with gas limit gl
BlockLimits(f, gl) ==
  LET s == ForkSpec[f]
      l == DefaultLimits(s)
  IN [txgas |-> BIG, gas |-> gl, txsize |-> BIG, size |-> BIG, txda |-> BIG, da |-> BIG,
      txdata |-> l.d, data |-> IF s >= MINI THEN 13107200 ELSE BIG,
      txkv |-> l.k, kv |-> IF s >= MINI THEN 500000 ELSE BIG,
      txcompute |-> l.c, compute |-> BIG,
      txgrowth |-> l.g, growth |-> IF s >= REX THEN 1000 ELSE BIG,
      env |-> l.be, oracle |-> l.or]

\* A block executor accepts a block environment only when its rules are those of the schedule, its gas limit is the
\* one of the block limits, and the Optimism forks mega-evm builds on are active.
\* c : [spec, gas (of the block limits), gl (of the environment), missing (Optimism forks left out)]
Accepts(sch, ts, c) == c.spec = SpecAt(sch, ts) /\ c.gas = c.gl /\ c.missing = "-"

\* everything that can be asked about block number n (time ts) with a parent of time pts
ForkView(sch, n, pts, ts, gl) ==
  LET f == Newest(sch, ts) IN
  [hf |-> IF f = 0 THEN "-" ELSE ForkNames[f], spec |-> SpecAt(sch, ts),
   act |-> [g \in 1 .. NFORK |-> Active(sch, g, ts)],
   first |-> [g \in 1 .. NFORK |-> FirstBlock(sch, g, pts, n, ts)],
   lim |-> IF f = 0 THEN <<>> ELSE <<BlockLimits(f, gl)>>,
   rt |-> DefaultLimits(SpecAt(sch, ts))]
=============================================================================
