-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A run of the state test runner: paths one after the other, the files of *)
(* a path shared by worker threads.  Every entry of the scenario file      *)
(* gives the paths (each a list of files: "good", "bad", or "odd" - one    *)
(* that cannot be judged - or missing), whether to keep going and how many *)
(* workers there may be; TLC explores every interleaving and prints every  *)
(* possible end: [ok, n] with n the errors counted on the last path.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, p, nw, pc, cur, nerr, nthr, ran, all, over
vars == <<i, p, nw, pc, cur, nerr, nthr, ran, all, over>>

S == Scen[i]
Path == S.paths[p]
Files == Path.files
W == 1 .. nw

\* odd files either count as errors or take the worker down
Begin(n) == [w \in 1 .. n |-> "check"]
Init ==
  /\ i \in 1 .. Len(Scen)
  /\ p = 1
  /\ nw \in 1 .. S.workers
  /\ pc = Begin(nw) /\ cur = [w \in 1 .. nw |-> 0]
  /\ nerr = 0 /\ nthr = 0 /\ ran = <<>> /\ all = <<>> /\ over = ""

Wrong == p <= Len(S.paths) /\ (Path.missing \/ Files = <<>>)

Check(w) ==
  /\ pc[w] = "check"
  /\ pc' = [pc EXCEPT ![w] = IF ~S.keep /\ nerr > 0 THEN "left" ELSE "take"]
  /\ UNCHANGED <<i, p, nw, cur, nerr, nthr, ran, all, over>>
\* (in which order the files of a folder are found is left open)
Left == {k \in 1 .. Len(Files) : \A j \in 1 .. Len(ran) : ran[j] # k}
Take(w) ==
  /\ pc[w] = "take"
  /\ IF Left = {} THEN pc' = [pc EXCEPT ![w] = "left"] /\ UNCHANGED <<cur, ran>>
     ELSE \E k \in Left : pc' = [pc EXCEPT ![w] = "run"] /\ cur' = [cur EXCEPT ![w] = k] /\ ran' = Append(ran, k)
  /\ UNCHANGED <<i, p, nw, nerr, nthr, all, over>>
Run(w) ==
  /\ pc[w] = "run"
  /\ LET k == Files[cur[w]]
         good == pc' = [pc EXCEPT ![w] = "check"] /\ UNCHANGED <<nerr, nthr>>
         fail == nerr' = nerr + 1 /\ IF S.keep THEN pc' = [pc EXCEPT ![w] = "check"] /\ UNCHANGED nthr ELSE pc' = [pc EXCEPT ![w] = "left"] /\ nthr' = nthr + 1
         down == pc' = [pc EXCEPT ![w] = "left"] /\ nthr' = nthr + 1 /\ UNCHANGED nerr
     IN CASE k = "good" -> good [] k = "bad" -> fail [] k = "odd" -> fail \/ down
  /\ UNCHANGED <<i, p, nw, cur, ran, all, over>>
Stop == \A w \in W : pc[w] = "left"
Join ==
  /\ Stop
  /\ IF nerr = 0 /\ nthr = 0
     THEN IF p = Len(S.paths) THEN over' = "ok" /\ UNCHANGED <<p, pc, cur, ran, all>>
          ELSE /\ p' = p + 1 /\ pc' = Begin(nw) /\ cur' = [w \in W |-> 0] /\ all' = Append(all, ran) /\ ran' = <<>> /\ UNCHANGED over
     ELSE over' = "failed" /\ UNCHANGED <<p, pc, cur, ran, all>>
  /\ UNCHANGED <<i, nw, nerr, nthr>>
Refuse == over' = "failed" /\ UNCHANGED <<i, p, nw, pc, cur, nerr, nthr, ran, all>>

Live == over = ""
Next ==
  \/ Live /\ Wrong /\ Refuse
  \/ Live /\ ~Wrong /\ Join
  \/ Live /\ ~Wrong /\ \E w \in W : Check(w) \/ Take(w) \/ Run(w)
  \/ ~Live /\ over # "said" /\ PrintT("EXP " \o ToJson([id |-> S.id, end |-> over, n |-> nerr])) /\ over' = "said" /\ UNCHANGED <<i, p, nw, pc, cur, nerr, nthr, ran, all>>
Spec == Init /\ [][Next]_vars

Bad(fs) == {k \in 1 .. Len(fs) : fs[k] # "good"}
Fine(q) == ~S.paths[q].missing /\ S.paths[q].files # <<>> /\ Bad(S.paths[q].files) = {}
Odd == \E q \in 1 .. Len(S.paths) : \E k \in 1 .. Len(S.paths[q].files) : S.paths[q].files[k] = "odd"
Once(r, n) == Len(r) = n /\ {r[k] : k \in 1 .. Len(r)} = 1 .. n

\* success is reported exactly when every path is there and every file good
Honest == over \in {"ok", "failed"} => ((over = "ok") = \A q \in 1 .. Len(S.paths) : Fine(q))
\* nothing is run twice
NoRepeat == Cardinality({ran[k] : k \in 1 .. Len(ran)}) = Len(ran)
\* success means that every file was run
Complete == over = "ok" => Once(ran, Len(Files)) /\ \A q \in 1 .. Len(all) : Once(all[q], Len(S.paths[q].files))
\* with keep going all files of a path are run and all errors counted
Counted == over = "failed" /\ S.keep /\ ~Odd /\ ~Wrong => Once(ran, Len(Files)) /\ nerr = Cardinality(Bad(Files))
\* every run ends
Ends == <>(over = "said")
Fair == Spec /\ WF_vars(Next)
=============================================================================
