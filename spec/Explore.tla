------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Exhaustive small scopes: TLC itself writes the programs.  A frame whose *)
(* program is used up goes on with every operation of a given alphabet, or *)
(* ends in every given way; calls and creations open fresh programs.  All  *)
(* histories up to the given number of operations, nesting depth and       *)
(* transactions are explored, the promises of MegaProps are checked in     *)
(* every state and every complete history is printed together with its     *)
(* expected observations, to be run on the real EVM.                       *)
(***************************************************************************)
EXTENDS MegaProps, Json, IOUtils

\* one configuration per line: a scenario (see Replay) whose programs are all empty, plus
\* alpha (operations), ends (ways to end a call frame), iends (ways to end an init frame),
\* max (operations in total), depth (nested frames)
Cfg == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, t, m, out, left, k
vars == <<i, t, m, out, left, k>>

S == Cfg[i]
Blk(n) == "y" \o ToString(n)

Init ==
  /\ i \in 1 .. Len(Cfg)
  /\ t = 1
  /\ m = Start(NewMachine(S), S.txs[1])
  /\ out = <<>>
  /\ left = S.max
  /\ k = 10

\* the innermost frame runs a program that is not written any further
Open ==
  /\ t <= Len(S.txs) /\ Running(m)
  /\ ~(Mega(m) /\ Exceeded(m))
  /\ Top(m).post = <<>>
  /\ Top(m).blk \in DOMAIN m.code
  /\ Top(m).pc > Len(m.code[Top(m).blk])

Opens(op) == op.o \in {"CALL", "CREATE"} /\ op.b = "?"

Write(op) ==
  LET b == Top(m).blk
      new == Opens(op)
      \* equal init codes at equal salts would share an address: every one written gets its own salt
      opx == IF ~new THEN op
             ELSE IF op.o = "CREATE" /\ op.salt # -1 THEN [op EXCEPT !.b = Blk(k), !.salt = k]
             ELSE [op EXCEPT !.b = Blk(k)]
      c1 == [m.code EXCEPT ![b] = Append(@, opx)]
      c2 == IF new THEN (Blk(k) :> <<>>) @@ c1 ELSE c1
  IN /\ m' = Step([m EXCEPT !.code = c2])
     /\ Assert(StepOk(m, m'), <<"StepOk", S.id>>)
     /\ k' = IF new THEN k + 1 ELSE k

Choose ==
  /\ Open
  /\ \/ \E j \in DOMAIN S.alpha :
          /\ left > 0
          /\ Opens(S.alpha[j]) => Len(m.fr) < S.depth
          \* (the harness's init code has room for one nested init code)
          /\ (S.alpha[j].o = "CREATE" /\ Top(m).kind = "create") =>
               \A x \in ToSet(m.code[Top(m).blk]) : x.o # "CREATE"
          /\ Write(S.alpha[j])
          /\ left' = left - 1
     \/ \E e \in ToSet(IF Top(m).kind = "create" THEN S.iends ELSE S.ends) :
          /\ Write(e)
          /\ UNCHANGED left
  /\ UNCHANGED <<i, t, out>>

Exec ==
  /\ t <= Len(S.txs) /\ Live(m) /\ ~Open
  /\ m' = Advance(m)
  /\ Assert(Running(m) => StepOk(m, m'), <<"StepOk", S.id>>)
  /\ Assert(~Running(m) => KlPromise(m, m'), <<"KlPromise", S.id>>)
  /\ UNCHANGED <<i, t, out, left, k>>

Finish1 ==
  /\ t <= Len(S.txs) /\ ~Live(m)
  /\ LET s == Settle(m)
         o == Append(out, Outcome(s))
     IN /\ out' = o
        /\ t' = t + 1
        /\ IF t < Len(S.txs)
           THEN /\ Assert(Isolated(s.m, S.txs[t + 1]), <<"Isolated", S.id>>)
                /\ m' = Start(EnterBlock(s.m, S, t + 1), S.txs[t + 1])
           ELSE m' = s.m /\ PrintT("EXP " \o ToJson([id |-> S.id, code |-> s.m.code, out |-> o]))
  /\ UNCHANGED <<i, left, k>>

Next == Choose \/ Exec \/ Finish1
Spec == Init /\ [][Next]_vars

Promises == t <= Len(S.txs) => StateOk(m)
=============================================================================
