-------------------------------- MODULE Size --------------------------------
(***************************************************************************)
(* Deployment of code up to and beyond the largest size allowed.  It costs *)
(* 10,000 gas a byte, more than TLC's integers hold, so gas is kept in two *)
(* parts here, <<u, g>> standing for 10,000 u + g: the machine of MegaRun  *)
(* runs without this charge, which comes on top of what it spends.         *)
(* A scenario deploys n bytes with RETURN as the last thing it does, from  *)
(* the transaction itself (nested = FALSE) or by a CREATE with gas aplenty *)
(* (nested = TRUE); gp is the gas limit in two parts.                      *)
(***************************************************************************)
EXTENDS MegaProps, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, m
vars == <<i, m>>
S == Scen[i]

Pair(u, g) == <<u + g \div 10000, g % 10000>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

Init == i \in 1 .. Len(Scen) /\ m = Start(NewMachine(S), S.txs[1])
Exec == Live(m) /\ m' = Advance(m) /\ UNCHANGED i

New == CreatedName(IF S.nested THEN S.txs[1].to ELSE S.txs[1].from, Acc(m.w0, IF S.nested THEN S.txs[1].to ELSE S.txs[1].from).n)
Done1(s) ==
  LET here == Acc(s.m.w, New).c
      unit == IF S.sp >= MINI /\ here.t = "raw" THEN here.len ELSE 0
      need == Pair(unit, s.res.gas)
      ok   == s.res.kind = "Success" /\ ~Less(S.gp, need)
  IN [kind |-> IF ok THEN "Success" ELSE "Halt",
      why  |-> IF ok \/ s.res.kind # "Success" THEN s.res.why ELSE "OutOfGas(Basic)",
      \* what a failed creation by a contract takes depends on the gas passed on: left open
      gas  |-> IF ~ok THEN S.gp ELSE IF S.nested /\ here.t # "raw" THEN <<-1, 0>> ELSE need,
      len  |-> IF ok /\ here.t = "raw" THEN here.len ELSE 0]
Finish1 ==
  /\ ~Live(m) /\ m.fin.r # "done"
  /\ PrintT("EXP " \o ToJson([id |-> S.id, out |-> Done1(Settle(m))]))
  /\ m' = [m EXCEPT !.fin.r = "done"]
  /\ UNCHANGED i

Next == Exec \/ Finish1
Spec == Init /\ [][Next]_vars

\* C25: code is there exactly when it is not larger than the limit and its gas has been paid
Fits == (~Live(m) /\ m.fin.r # "done") =>
          LET d == Done1(Settle(m)) IN
          /\ (d.len > 0) => d.len = S.n /\ S.n <= MaxCode(m)
          /\ (S.n > MaxCode(m)) => d.len = 0
          /\ (S.n <= MaxCode(m) /\ S.gp[1] >= 11000 + (IF S.sp >= MINI THEN S.n + S.n \div 40 ELSE 0)) => (d.len = S.n /\ d.kind = "Success")
=============================================================================
