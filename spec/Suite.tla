-------------------------------- MODULE Suite -------------------------------
(***************************************************************************)
(* Runs the files of the scenario file test by test and prints the verdict *)
(* on each.                                                                *)
(***************************************************************************)
EXTENDS MegaSuite, Json, IOUtils, TLC

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, u, f, t, v
vars == <<i, u, f, t, v>>

F == Scen[i]
Units == IF F.parse /\ ~SkippedFile(F.file) THEN F.units ELSE <<>>

Init ==
  /\ i \in 1 .. Len(Scen)
  /\ u = 1 /\ f = 1 /\ t = 1
  /\ v = <<IF F.parse \/ SkippedFile(F.file) THEN "pass" ELSE "parse", IF F.parse \/ SkippedFile(F.file) THEN "" ELSE "Unknown">>

Running == v[1] = "pass" /\ u # 0 /\ u <= Len(Units)
Fork == Units[u].forks[f]
Test == Fork.tests[t]

Judge ==
  /\ Running /\ f <= Len(Units[u].forks) /\ t <= Len(Fork.tests) /\ ~SkippedFork(Fork.fork)
  /\ Assert(Test.made = "bad" \/ TypeOf(Test.tx) = Test.typ, <<"TypeOf", F.id>>)
  /\ Assert(SpecOf(Fork.fork) = Test.sp, <<"SpecOf", F.id>>)
  /\ Assert(f > 1 => Rank(Units[u].forks[f - 1].fork) < Rank(Fork.fork), <<"Rank", F.id>>)
  /\ v' = IF Verdict(Test) = "pass" THEN v ELSE <<Verdict(Test), Units[u].name>>
  /\ t' = t + 1
  /\ UNCHANGED <<i, u, f>>
NextFork ==
  /\ Running /\ f <= Len(Units[u].forks) /\ (t > Len(Fork.tests) \/ SkippedFork(Fork.fork))
  /\ f' = f + 1 /\ t' = 1 /\ UNCHANGED <<i, u, v>>
NextUnit ==
  /\ Running /\ f > Len(Units[u].forks)
  /\ u' = u + 1 /\ f' = 1 /\ t' = 1 /\ UNCHANGED <<i, v>>
Done ==
  /\ ~Running /\ u # 0
  /\ PrintT("EXP " \o ToJson([id |-> F.id, out |-> v]))
  /\ u' = 0 /\ UNCHANGED <<i, f, t, v>>

Next == Judge \/ NextFork \/ NextUnit \/ Done
Spec == Init /\ [][Next]_vars

\* a file is accepted exactly when all its tests hold
Accepted == F.parse /\ (SkippedFile(F.file) \/
  \A a \in 1 .. Len(F.units) : \A b \in 1 .. Len(F.units[a].forks) :
    SkippedFork(F.units[a].forks[b].fork) \/ \A c \in 1 .. Len(F.units[a].forks[b].tests) : Holds(F.units[a].forks[b].tests[c]))
Promise == u = 0 => ((v[1] = "pass") = (Accepted \/ (SkippedFile(F.file) /\ ~F.parse)))
=============================================================================
