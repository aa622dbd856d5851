------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Histories of executions on one account and every way to merge what they *)
(* leave.  An entry of the scenario file bounds them:                      *)
(*   w: worlds [b, n, c, s1, s2]; len; cold, reads: alternatives tried     *)
(***************************************************************************)
EXTENDS MegaMerge, SequencesExt, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, w0, w, es
vars == <<i, w0, w, es>>
S == Scen[i]
World(x) == [b |-> x[1], n |-> x[2], c |-> x[3], s |-> <<x[4], x[5]>>]

Init == /\ i \in 1 .. Len(Scen)
        /\ w0 \in {World(S.w[j]) : j \in 1 .. Len(S.w)}
        /\ w = w0
        /\ es = <<>>

Row(e) == IF e = NONE THEN <<>>
          ELSE <<e.b, e.n, e.c, SetToSeq({<<k, e.s[k].o, e.s[k].p, IF e.s[k].k THEN 1 ELSE 0>> : k \in DOMAIN e.s}), SetToSeq(e.f)>>
WRow(v) == <<v.b, v.n, v.c, v.s[1], v.s[2]>>

RECURSIVE LeftFold(_, _, _)
LeftFold(x, q, n) == IF n > Len(q) THEN x ELSE LeftFold(Merge(x, q[n], TRUE), q, n + 1)
RECURSIVE RightFold(_, _)
RightFold(q, n) == IF n = Len(q) THEN q[n] ELSE Merge(q[n], RightFold(q, n + 1), TRUE)

FromNothing(q) == LeftFold(NONE, q, 1)
FromFirst(q) == LeftFold(q[1], q, 2)
Nested(q) == Merge(FromFirst(SubSeq(q, 1, Len(q) - 1)), q[Len(q)], FALSE)
\* a nested execution ends inside the surrounding one, in which nothing is destroyed yet
CanNest(q) == Len(q) > 1 /\ \A j \in 1 .. Len(q) - 1 : q[j] = NONE \/ "S" \notin q[j].f

Reads == {ToSet(S.reads[j]) : j \in 1 .. Len(S.reads)}
Colds == {S.cold[j] = 1 : j \in 1 .. Len(S.cold)}

Say(q, v) ==
  PrintT("EXP " \o ToJson([id |-> S.id, w0 |-> WRow(w0), w |-> WRow(v), es |-> [j \in 1 .. Len(q) |-> Row(q[j])],
           zero |-> Row(FromNothing(q)), first |-> Row(FromFirst(q)), right |-> Row(RightFold(q, 1)),
           nest |-> IF CanNest(q) THEN Row(Nested(q)) ELSE <<>>, cn |-> CanNest(q)]))

Run ==
  /\ Len(es) < S.len
  /\ \E a \in Acts \union {"-"} : \E kc \in Colds : \E R \in Reads : \E sc \in Colds :
       /\ a = "-" => kc = FALSE /\ R = {} /\ sc = FALSE
       /\ R \union Writes(a) = {} => sc = FALSE
       /\ IF a = "-" THEN TRUE ELSE Possible(w, a)
       /\ LET e == IF a = "-" THEN NONE ELSE Entry(w, a, kc, R, sc)
              v == IF a = "-" THEN w ELSE After(w, a)
          IN /\ es' = Append(es, e) /\ w' = v
             /\ IF Len(es) + 1 = S.len THEN Say(es', v) ELSE TRUE
  /\ UNCHANGED <<i, w0>>

Next == Run
Spec == Init /\ [][Next]_vars

\* the entries themselves are right
RECURSIVE Replayed(_, _)
Replayed(v, n) == IF n > Len(es) THEN v ELSE Replayed(Commit(v, es[n]), n + 1)
Sequential == Replayed(w0, 1) = w

Some == Len(es) > 0
\* committing the merged entry is committing one after the other
Faithful == Some => /\ Commit(w0, FromNothing(es)) = w
                    /\ Commit(w0, FromFirst(es)) = w
                    /\ Commit(w0, RightFold(es, 1)) = w
                    /\ CanNest(es) => Commit(w0, Nested(es)) = w
Written == \E j \in 1 .. Len(es) : es[j] # NONE /\ "T" \in es[j].f
Loaded  == \E j \in 1 .. Len(es) : es[j] # NONE
Has(e, f) == e # NONE /\ f \in e.f
\* nothing is persisted that no execution wrote; every account read or written is there
NothingInvented ==
  Some => \A e \in {FromNothing(es), FromFirst(es), RightFold(es, 1)} \union (IF CanNest(es) THEN {Nested(es)} ELSE {}) :
            /\ Has(e, "T") <=> Written
            /\ (e # NONE) <=> Loaded
\* a merged-in execution warms nothing
Coldness ==
  Some => LET e == FromNothing(es) IN e # NONE => "K" \in e.f /\ \A k \in DOMAIN e.s : e.s[k].k
ColdFirst ==
  (Some /\ es[1] # NONE) =>
     \A e \in {FromFirst(es)} \union (IF CanNest(es) THEN {Nested(es)} ELSE {}) :
        /\ ("K" \in e.f) = ("K" \in es[1].f)
        /\ \A k \in DOMAIN e.s : k \in DOMAIN es[1].s /\ "S" \notin es[1].f => e.s[k].k = es[1].s[k].k
=============================================================================
