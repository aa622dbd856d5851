------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Drives MegaRun through the scenarios of a file (one JSON record per     *)
(* line): every scenario is one initial state, every operation one step.   *)
(* When a scenario ends its expected observations are printed; the harness *)
(* runs the same scenario on the real EVM and the two are compared.        *)
(* The promises of MegaProps are checked in every state on the way.        *)
(***************************************************************************)
EXTENDS MegaProps, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, t, m, out, marks
vars == <<i, t, m, out, marks>>

S == Scen[i]
Mark0(x) == <<x.cg, Pos(x.ds), Pos(x.kv), Pos(x.gr),
              IF x.fr = <<>> THEN 0 ELSE x.fr[1].gas, Len(x.fr),
              IF x.fr = <<>> THEN 0 ELSE x.fr[Len(x.fr)].gas>>
Note(ms, x) == IF S.marks THEN Append(ms, Mark0(x)) ELSE ms

Init ==
  /\ i \in 1 .. Len(Scen)
  /\ t = 1
  /\ m = Start(NewMachine(S), S.txs[1])
  /\ out = <<>>
  /\ marks = Note(<<>>, m)

\* A transaction marked `fault' meets a failing database or environment at some step; which one is left open.
Broken == "fault" \in DOMAIN S.txs[t] /\ S.txs[t].fault # 0

Break ==
  /\ t <= Len(S.txs)
  /\ Broken /\ m.err # "Fault"
  /\ m' = Reject(Outermost(m), "Fault")
  /\ UNCHANGED <<i, t, out, marks>>

Exec ==
  /\ t <= Len(S.txs)
  /\ Live(m)
  /\ m' = Advance(m)
  /\ Assert(Running(m) => StepOk(m, m'), <<"StepOk", S.id>>)
  /\ Assert(~Running(m) => KlPromise(m, m'), <<"KlPromise", S.id>>)
  /\ marks' = Note(marks, m')
  /\ UNCHANGED <<i, t, out>>

Finish1 ==
  /\ t <= Len(S.txs)
  /\ ~Live(m)
  /\ Broken => m.err = "Fault"
  /\ LET s == Settle(m)
         o == Append(out, Outcome(s) @@ [marks |-> marks])
     IN /\ out' = o
        /\ t' = t + 1
        /\ marks' = <<>>
        /\ IF t < Len(S.txs)
           THEN /\ Assert(Isolated(s.m, S.txs[t + 1]), <<"Isolated", S.id>>)
                /\ m' = Start(EnterBlock(s.m, S, t + 1), S.txs[t + 1])
           ELSE m' = s.m /\ PrintT("EXP " \o ToJson([id |-> S.id, out |-> o]))
  /\ UNCHANGED i

Next == Exec \/ Break \/ Finish1
Spec == Init /\ [][Next]_vars

Promises == t <= Len(S.txs) => StateOk(m)
=============================================================================
