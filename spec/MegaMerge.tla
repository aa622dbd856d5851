----------------------------- MODULE MegaMerge -----------------------------
(***************************************************************************)
(* Merging of execution results.  An execution leaves, for every account   *)
(* it loaded, an entry: the account's new contents, the slots it loaded    *)
(* with old and new value, and marks.  Entries of consecutive executions   *)
(* are merged; committing the merged entry must be the same as committing  *)
(* the entries one after the other.  Accounts do not interact, so one      *)
(* account with two slots is all there is.                                 *)
(*                                                                         *)
(*   world  w : [b, n, c, s]      balance, nonce, code, slot -> value      *)
(*   entry  e : [b, n, c, s, f]   s: slot -> [o, p, k] for loaded slots    *)
(*              (old, new value, cold), f: set of marks                    *)
(*              T touched, C created, S destroyed (LC, LS: by the current  *)
(*              transaction), K cold                                       *)
(*   NONE: the account was not loaded                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

SLOTS == {1, 2}
NONE == <<>>
EmptyStore == [x \in {} |-> 0]

Zero(w) == w.b = 0 /\ w.n = 0 /\ w.c = 0
NoStore(w) == \A k \in SLOTS : w.s[k] = 0

\* ------------------------------------------------ what an execution leaves
Acts == {"read", "touch", "pay", "drain", "use", "put", "del", "put2", "make", "makeput", "flash", "flashput", "flashpay"}
Flash == {"flash", "flashput", "flashpay"}   \* created and destroyed (flashpay: and paid after that)
Makes == {"make", "makeput"} \union Flash

Possible(w, a) ==
  CASE a \in {"put", "del", "put2"} -> w.c = 1
    [] a \in Makes -> w.n = 0 /\ w.c = 0 /\ NoStore(w)
    [] a = "use" -> w.c = 0
    [] a = "drain" -> w.b > 0
    [] OTHER -> TRUE

\* the world after
After(w, a) ==
  CASE a \in {"read", "touch"} -> w
    [] a = "pay" -> [w EXCEPT !.b = @ + 1]
    [] a = "drain" -> [w EXCEPT !.b = 0]
    [] a = "use" -> [w EXCEPT !.n = @ + 1]
    [] a = "put" -> [w EXCEPT !.s[1] = 5]
    [] a = "del" -> [w EXCEPT !.s[1] = 0]
    [] a = "put2" -> [w EXCEPT !.s[2] = 6]
    [] a = "make" -> [w EXCEPT !.n = 1, !.c = 1]
    [] a = "makeput" -> [w EXCEPT !.n = 1, !.c = 1, !.s[1] = 7]
    [] a \in Flash -> [b |-> 0, n |-> 0, c |-> 0, s |-> [k \in SLOTS |-> 0]]

\* slots an execution loads: those it writes, and those it reads (R)
Writes(a) == CASE a \in {"put", "del", "makeput", "flashput"} -> {1} [] a = "put2" -> {2} [] OTHER -> {}

\* kc: the entry is cold; R: slots read; sc: the slots are cold
Entry(w, a, kc, R, sc) ==
  LET v == After(w, a)
      dead == a \in Flash
      val(k) == IF a = "flashput" /\ k = 1 THEN 7 ELSE IF dead THEN 0 ELSE v.s[k]
  IN [b |-> IF a = "flashpay" THEN 3 ELSE v.b, n |-> IF dead THEN 1 ELSE v.n, c |-> IF dead THEN 1 ELSE v.c,
      s |-> [k \in R \union Writes(a) |-> [o |-> w.s[k], p |-> val(k), k |-> sc]],
      f |-> (IF a = "read" THEN {} ELSE {"T"}) \union (IF a \in Makes THEN {"C", "LC"} ELSE {})
            \union (IF dead THEN {"S", "LS"} ELSE {}) \union (IF kc THEN {"K"} ELSE {})]

\* ------------------------------------------------------------------ commit
Commit(w, e) ==
  IF e = NONE \/ "T" \notin e.f THEN w
  ELSE LET s0 == IF "C" \in e.f THEN [k \in SLOTS |-> 0] ELSE w.s
           gone == [b |-> 0, n |-> 0, c |-> 0, s |-> [k \in SLOTS |-> 0]]
       IN IF "S" \in e.f THEN gone
          ELSE [b |-> e.b, n |-> e.n, c |-> e.c, s |-> [k \in SLOTS |-> IF k \in DOMAIN e.s THEN e.s[k].p ELSE s0[k]]]

\* ------------------------------------------------------------------- merge
Dead(cold) == [b |-> 0, n |-> 0, c |-> 0, s |-> EmptyStore, f |-> {"T"} \union (IF cold THEN {"K"} ELSE {})]

MergeStore(s, t) ==
  [k \in DOMAIN s \union DOMAIN t |->
     IF k \notin DOMAIN t THEN s[k]
     ELSE IF k \in DOMAIN s THEN [s[k] EXCEPT !.p = t[k].p]
     ELSE [t[k] EXCEPT !.k = TRUE]]

\* with = whether marks are merged as well
Merge(x, y, with) ==
  IF y = NONE THEN x
  ELSE IF "S" \in y.f THEN Dead(x = NONE \/ "K" \in x.f)
  ELSE IF x = NONE THEN [y EXCEPT !.f = (@ \ {"LC", "LS"}) \union {"K"}, !.s = MergeStore(EmptyStore, y.s)]
  ELSE LET z == IF with /\ "S" \in x.f THEN Dead("K" \in x.f) ELSE x
       IN [b |-> y.b, n |-> y.n, c |-> y.c, s |-> MergeStore(z.s, y.s),
           f |-> IF with THEN z.f \union (y.f \ {"K", "LC", "LS"}) ELSE z.f \union (y.f \intersect {"T"})]
=============================================================================
