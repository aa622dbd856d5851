----------------------------- MODULE MegaSuite ------------------------------
(***************************************************************************)
(* The state test runner's judgement of a test file.  A file is a list of  *)
(* units, a unit lists tests per fork; a test says which variant of the    *)
(* unit's transaction runs and what must come of it.                       *)
(*                                                                         *)
(*   test = [res, made, typ, tx, sp, exc, out, logs, hash]                 *)
(*     res   how the transaction ends by the specification of the EVM:     *)
(*           "ok", "revert", "halt" or "error" (refused)                   *)
(*     made  whether a transaction can be made of the file: "ok", or "bad" *)
(*     exc   whether the file expects the transaction to be refused        *)
(*     out   what the file says of the output: "none", "same", "other"     *)
(*     logs, hash   whether the file states the logs and state of the      *)
(*           specification                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* forks in the order a unit's tests are run
ForkNames == <<"Frontier", "FrontierToHomesteadAt5", "Homestead", "HomesteadToDaoAt5", "HomesteadToEIP150At5", "EIP150", "EIP158", "EIP158ToByzantiumAt5",
               "Byzantium", "ByzantiumToConstantinopleAt5", "ByzantiumToConstantinopleFixAt5", "Constantinople", "ConstantinopleFix", "Istanbul", "Berlin",
               "BerlinToLondonAt5", "London", "Paris", "Merge", "Shanghai", "Cancun", "Prague", "Osaka", "MiniRex">>
Rank(f) == CHOOSE n \in 1 .. Len(ForkNames) : ForkNames[n] = f
\* every Ethereum fork is run under the rules of EQUIVALENCE
SpecOf(f) == IF f = "MiniRex" THEN 1 ELSE 0
SkippedFork(f) == f = "Constantinople"
SkippedFile(n) == n \in {"CreateTransactionHighNonce.json", "RevertInCreateInInit_Paris.json", "RevertInCreateInInit.json", "dynamicAccountOverwriteEmpty.json",
  "dynamicAccountOverwriteEmpty_Paris.json", "RevertInCreateInInitCreate2Paris.json", "create2collisionStorage.json", "RevertInCreateInInitCreate2.json",
  "create2collisionStorageParis.json", "InitCollision.json", "InitCollisionParis.json", "ValueOverflow.json", "ValueOverflowParis.json",
  "Call50000_sha256.json", "static_Call50000_sha256.json", "loopMul.json", "CALLBlake2f_MaxRounds.json"}

\* the kind of transaction the fields of a file stand for: tx = [type, al, fee, auth, to] (type "-" when not given)
TypeOf(tx) ==
  IF tx.type # "-" THEN tx.type
  ELSE IF tx.auth THEN (IF tx.to THEN "7702" ELSE "bad")
  ELSE IF tx.fee THEN "1559"
  ELSE IF tx.al THEN "2930" ELSE "legacy"

HasOutput(t) == t.res \in {"ok", "revert"}

\* what is wrong with a test ("pass" when nothing is)
Verdict(t) ==
  IF t.made # "ok" THEN (IF t.exc THEN "pass" ELSE "key")
  ELSE IF t.exc # (t.res = "error") THEN "exception"
  ELSE IF t.exc THEN "pass"
  ELSE IF HasOutput(t) /\ t.out = "other" THEN "output"
  ELSE IF ~t.logs THEN "logs"
  ELSE IF ~t.hash THEN "state"
  ELSE "pass"

\* a test holds when everything the file states is so
Holds(t) ==
  IF t.exc THEN t.made # "ok" \/ t.res = "error"
  ELSE t.made = "ok" /\ t.res # "error" /\ t.logs /\ t.hash /\ (t.out = "other" => t.res = "halt")
=============================================================================
