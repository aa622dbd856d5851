------------------------------- MODULE Forks --------------------------------
(***************************************************************************)
(* Chains of blocks under hardfork schedules.  Every entry of the scenario *)
(* file is a family: sets of activation times and block times; TLC builds  *)
(* every schedule and every chain of the family, and prints what must be   *)
(* observed for each.                                                      *)
(***************************************************************************)
EXTENDS MegaForks, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, sch, ts, seenFirst, out
vars == <<i, sch, ts, seenFirst, out>>

S == Scen[i]

\* a family lists, per fork, the activation times tried
Init ==
  /\ i \in 1 .. Len(Scen)
  /\ sch \in {s \in [1 .. NFORK -> UNION {ToSet(S.at[f]) : f \in 1 .. NFORK}] : \A f \in 1 .. NFORK : s[f] \in ToSet(S.at[f])}
  /\ ts \in {<<t>> : t \in ToSet(S.times)}
  /\ seenFirst = [f \in 1 .. NFORK |-> 0]
  /\ out = <<>>

Grow ==
  /\ Len(ts) <= S.len
  /\ \E t \in ToSet(S.times) :
       /\ t >= ts[Len(ts)]
       /\ LET n == Len(ts)
              v == ForkView(sch, n, ts[n], t, S.gl)
              c == [spec |-> IF S.bad = "spec" THEN (v.spec + 1) % 7 ELSE v.spec, gas |-> IF S.bad = "gas" THEN S.gl + 1 ELSE S.gl,
                    gl |-> S.gl, missing |-> IF S.bad \in {"regolith", "canyon", "isthmus"} THEN S.bad ELSE "-"]
              o == Append(out, v @@ [ok |-> Accepts(sch, t, c), given |-> c.spec])
          IN /\ ts' = Append(ts, t)
             /\ seenFirst' = [f \in 1 .. NFORK |-> seenFirst[f] + IF v.first[f] THEN 1 ELSE 0]
             /\ out' = o
             /\ IF n = S.len THEN PrintT("EXP " \o ToJson([id |-> S.id, sch |-> sch, ts |-> ts', out |-> o])) ELSE TRUE
  /\ UNCHANGED <<i, sch>>

Next == Grow
Spec == Init /\ [][Next]_vars

Cur == ts[Len(ts)]
\* each fork has exactly one first block on a chain, and it is the first block the fork is active in
FirstOnce == Len(ts) > 1 => \A f \in 1 .. NFORK : seenFirst[f] = IF Active(sch, f, Cur) THEN 1 ELSE 0
\* the rules are those of one of the active forks, and no newer fork is active
RulesOfNewest ==
  \/ SpecAt(sch, Cur) = EQ /\ \A f \in 1 .. NFORK : ~Active(sch, f, Cur)
  \/ \E f \in 1 .. NFORK : /\ Active(sch, f, Cur) /\ SpecAt(sch, Cur) = ForkSpec[f]
                           /\ \A g \in f + 1 .. NFORK : ~Active(sch, g, Cur)
\* along a chain rules change only in the first block of some fork
ChangeOnlyAtFork ==
  Len(out) > 1 => (out[Len(out)].spec = out[Len(out) - 1].spec \/ \E f \in 1 .. NFORK : out[Len(out)].first[f])
=============================================================================
