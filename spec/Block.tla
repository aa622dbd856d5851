------------------------------- MODULE Block --------------------------------
(***************************************************************************)
(* Histories of block building.  A scenario either lists its steps, or     *)
(* leaves them open ("free"): then TLC takes every sequence of steps.      *)
(***************************************************************************)
EXTENDS MegaBlock, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, h, done, obs
vars == <<i, h, done, obs>>

S == Scen[i]

Init ==
  /\ i \in 1 .. Len(Scen)
  /\ h = NewBuilder(S)
  /\ done = <<>>
  /\ obs = <<>>

St(o, t, s, c) == [o |-> o, t |-> t, s |-> s, c |-> c]

\* transactions already executed into some slot or committed are not offered again, except those listed as repeatable
Offered == {done[j].t : j \in {x \in DOMAIN done : done[x].o \in {"run", "exec"}}}

\* scripted: the listed steps in order.  free: any sequence of at most S.free steps between open and done.
StepChoices ==
  IF S.free = 0 THEN IF Len(done) < Len(S.steps) THEN {S.steps[Len(done) + 1]} ELSE {}
  ELSE IF done = <<>> THEN {St("open", 0, 0, FALSE)}
  ELSE IF done[Len(done)].o = "done" THEN {}
  ELSE {St("done", 0, 0, FALSE)} \union
       (IF Len(done) > S.free THEN {}
        ELSE {St("run", t, Len(done), FALSE) : t \in DOMAIN S.txs \ Offered}
             \union {St("exec", t, 0, c) : t \in DOMAIN S.txs \ Offered, c \in {TRUE, FALSE}}
             \union {St("commit", 0, q, TRUE) : q \in DOMAIN h.slot})

Ends(st) == IF S.free = 0 THEN Len(done) + 1 = Len(S.steps) ELSE st.o = "done"

Next ==
  \E st \in StepChoices :
    \* a commit whose outcome is not there (its execution was refused) is skipped
    LET x == IF st.o = "commit" /\ st.s \notin DOMAIN h.slot THEN Seen(h, <<"NoOutcome">>, <<>>) ELSE BStep(h, S, st)
        o == Append(obs, x.obs)
        d == Append(done, st)
    IN /\ h' = x.h
       /\ Assert(x.obs.r = <<"NoOutcome">> \/ BStepOk(h, st, x), <<"BStepOk", S.id, st>>)
       /\ Assert(st.o # "pre" \/ x.obs.r # No \/ ContractsOk(x.h, S), <<"ContractsOk", S.id, st>>)
       /\ done' = d
       /\ obs' = o
       /\ IF Ends(st) THEN PrintT("EXP " \o ToJson([id |-> S.id, steps |-> d, out |-> o])) ELSE TRUE
       /\ UNCHANGED i

Spec == Init /\ [][Next]_vars

Promises == BlockOk(h) /\ (h.k > 0 => RefusalMeaning(h, S))
=============================================================================
