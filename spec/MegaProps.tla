------------------------------ MODULE MegaProps ------------------------------
(***************************************************************************)
(* What the machine of MegaRun promises, stated over its states: these are *)
(* checked by TLC in every state it visits (Replay, Explore).              *)
(* `Pure' restricts a promise to the specification without the deviations  *)
(* that are listed as known findings of the implementation.                *)
(***************************************************************************)
EXTENDS MegaKeyless

Pure(m) == m.dev = {}
Done(m) == m.err = "" /\ m.fin.r # ""
Mega(m) == m.sp >= MINI

Total(w) == FoldSet(LAMBDA a, n : n + w.acc[a].b, 0, DOMAIN w.acc)
Recovered(tx) == Cardinality({j \in DOMAIN tx.auth : tx.auth[j].a # ""})
BaseData(tx) == BASETX + DataLen(tx) + 20 * AlAddrs(tx) + 32 * AlKeys(tx) + AUTHSIZE * Len(tx.auth)

Changed(w) == {k \in DOMAIN w.st : w.st[k] # Orig(w, k[1], k[2])}
Grown(w)   == {k \in Changed(w) : Orig(w, k[1], k[2]) = 0}
LogBytes(w)  == FoldLeft(LAMBDA n, l : n + 32 * l[2] + l[3], 0, w.logs)
CodeBytes(w) == FoldSet(LAMBDA a, n : n + Acc(w, a).c.len, 0, w.cr)

\* C02: nothing over a limit ends in success, at any point of the execution
NeverOver(m) ==
  (Done(m) /\ Mega(m) /\ IsOk(m.fin.r)) =>
     /\ ~Exceeded(m)
     /\ m.ds <= m.lim.d /\ m.kv <= m.lim.k /\ m.cg <= m.lim.c /\ m.gr <= m.lim.g

\* C03: a limit halt names the exceeded limit and the gas not spent is given back
LimitHalt(m) ==
  (Done(m) /\ Mega(m) /\ Exceeded(m) /\ ~m.dep) =>
     LET s == Settle(m) IN
     /\ s.res.kind = "Halt"
     /\ s.res.actual > s.res.limit
     /\ "latehalt" \notin m.dev => m.w.logs = <<>>
     /\ "latehalt" \notin m.dev => \A a \in DOMAIN s.m.w.acc : a \notin {m.tx.from, m.coin} \union Vaults /\ ToSet(m.tx.auth) = {} =>
          s.m.w.acc[a] = Acc(m.w0, a)

\* C04, C05, C06: the counters are what the surviving effects add up to
\* (what a keyless deployment does is not counted in the transaction that asks for it)
Counters(m) ==
  (Done(m) /\ Mega(m) /\ m.kl = <<>>) =>
     LET rec == Recovered(m.tx)
         kept == /\ m.kv = 1 + rec + m.au + Cardinality(Changed(m.w))
                 /\ m.gr = m.na + Cardinality(Grown(m.w))
                 /\ m.ds = BaseData(m.tx) + 40 * m.kv + LogBytes(m.w) + CodeBytes(m.w)
         undone == /\ m.kv = 1 + rec
                   /\ m.gr = 0
                   /\ m.ds = BaseData(m.tx) + 40 * m.kv
     IN IF IsOk(m.fin.r) THEN kept
        \* deviation "latehalt": the changes of a transaction that halts may survive, and then they count
        ELSE undone \/ ("latehalt" \in m.dev /\ m.fin.r = "OutOfGas" /\ Exceeded(m) /\ kept)

\* C07: compute gas includes the plain intrinsic gas and is never more than the gas spent
ComputeBounds(m) ==
  (Done(m) /\ Mega(m)) =>
     LET pi == IF IsCall(m.tx) THEN 0 ELSE PlainIntrinsic(m.tx) IN
     /\ m.cg >= pi
     /\ m.cg - pi <= m.tx.gas

\* C08: the compute limit is the configured one or a cap of something that was accessed
Detention(m) ==
  (m.err = "" /\ m.fin.r = "" /\ Mega(m)) =>
     /\ (m.vlim = -1) = (m.vol = {})
     /\ m.vol # {} => m.vlim = (IF m.vol = {"ORACLE"} THEN m.cap.or
                               ELSE IF "ORACLE" \in m.vol THEN Min2(m.cap.be, m.cap.or) ELSE m.cap.be)
     /\ m.sp >= REX1 => m.lim.c \in {m.lim0.c, Min2(m.lim0.c, m.cap.be), Min2(m.lim0.c, m.cap.or),
                                     Min2(m.lim0.c, Min2(m.cap.be, m.cap.or))}
     /\ (m.sp >= REX1 /\ m.vol = {}) => m.lim.c = m.lim0.c

\* C11 and general sanity of settlement: gas used is between the floor and the limit, value is conserved
Settled(m) ==
  (Done(m) /\ ~m.dep) =>
     LET s == Settle(m) IN
     /\ s.res.gas <= m.tx.gas
     /\ (Pure(m) /\ m.fin.r # "OutOfGasStart") => s.res.gas >= m.flr
     \* (what a destroyed account is paid after its destruction vanishes with it, and so do the fees)
     /\ (~m.cfg.bal /\ ~m.cfg.nobase /\ ~m.fee.none) =>
          Total(s.m.w) + m.w.burn + Lost(m.w) + (IF m.coin \in m.w.sd THEN (m.tx.price - m.fee.base) * s.res.gas ELSE 0) = Total(m.w0)
     /\ (Pure(m) /\ ~IsCall(m.tx)) => Acc(s.m.w, m.tx.from).n > Acc(m.w0, m.tx.from).n

\* C31: a transaction without effects costs its sender the price of its gas, the L1 fee and the operator fee, exactly
Paid(m) ==
  (Done(m) /\ ~m.dep /\ ~IsCall(m.tx) /\ ~m.cfg.bal /\ ~IsOk(m.fin.r) /\ "latehalt" \notin m.dev /\ m.tx.from \notin {m.coin} \union Vaults) =>
     LET s == Settle(m) IN
     Acc(s.m.w, m.tx.from).b = Acc(m.w0, m.tx.from).b - s.res.gas * Eff(m.fee, m.tx) - L1Fee(m.fee, m.size) - OpFee(m.fee, s.res.gas)

\* C35: a system call costs nobody anything, and one that does not succeed leaves no trace
Free(m) ==
  (Done(m) /\ IsCall(m.tx) /\ m.kl = <<>>) =>
     LET s == Settle(m) IN
     /\ (~IsOk(m.fin.r) /\ "latehalt" \notin m.dev) => Differs(m.w0, s.m.w) = {} /\ s.m.w.st = m.w0.st
     /\ Acc(m.w0, m.tx.from).c.t = "none" => Acc(s.m.w, m.tx.from).n = Acc(m.w0, m.tx.from).n /\ Acc(s.m.w, m.tx.from).b >= Acc(m.w0, m.tx.from).b

\* C13: from Rex1 on the start of a transaction does not depend on what earlier transactions left behind
Forget(m) == [m EXCEPT !.vol = {"NUMBER"}, !.vlim = 1, !.cg = 7, !.ds = 7, !.kv = 7, !.gr = 7, !.au = 7, !.na = 7,
                       !.exc = [kind |-> "Data", limit |-> 1, used |-> 2], !.resc = 9, !.lim.c = 1, !.hints = <<1>>]
Isolated(m, tx) ==
  m.sp >= REX1 =>
    LET a == Start(m, tx)
        b == Start(Forget(m), tx)
    IN IF a.err = "System" THEN b.err = "System" /\ a.w = b.w ELSE a = b

\* C22, C23: the usage of a transaction does not depend on the deployment it asked for
KlKept(m) ==
  (Done(m) /\ m.kl # <<>>) =>
     /\ m.kv = 1 + Recovered(m.tx) /\ m.gr = 0 /\ m.ds = BaseData(m.tx) + 40 * m.kv
     /\ m.up = <<>>
     /\ m.kl[1] \in KlRefusals => Differs(m.w0, m.w) \subseteq {m.tx.from} \union {x.a : x \in ToSet(m.tx.auth)}

\* C32: the observer's story is well nested, told of every log that lasts, and complete when the transaction is
Told(m) ==
  (m.watch /\ m.err = "") =>
     LET d(i) == FoldLeft(LAMBDA n, e : n + (IF Head(e) \in {"call", "create"} THEN 1 ELSE IF Head(e) = "end" THEN -1 ELSE 0), 0, SubSeq(m.tr, 1, i))
         told == SelectSeq(m.tr, LAMBDA e : Head(e) = "log")
     IN /\ d(Len(m.tr)) = Len(m.fr)
        /\ \A i \in DOMAIN m.tr : d(i) >= 0 /\ (i < Len(m.tr) => d(i) > 0)
        /\ (Done(m) /\ IsOk(m.fin.r)) => m.tr # <<>>
        /\ m.kl = <<>> => Len(told) >= Len(m.w.logs)

StateOk(m) ==
  /\ Assert(NeverOver(m), "NeverOver") /\ Assert(LimitHalt(m), "LimitHalt")
  /\ Assert(Counters(m), "Counters") /\ Assert(ComputeBounds(m), "ComputeBounds")
  /\ Assert(KlKept(m), "KlKept") /\ Assert(Detention(m), "Detention") /\ Assert(Settled(m), "Settled")
  /\ Assert(Paid(m), "Paid") /\ Assert(Free(m), "Free") /\ Assert(Told(m), "Told")

\* ------------------------------------------------- promises about one step
\* C12: a child frame gets at most 98/100 (63/64 before MiniRex) of what is left, plus the stipend
Forwarded(m, n) ==
  (Len(n.fr) = Len(m.fr) + 1 /\ Len(m.fr) > 0) =>
     LET p == n.fr[Len(m.fr)].gas
         c == n.fr[Len(n.fr)].gas
         v == IF n.fr[Len(n.fr)].kind = "call" /\ n.fr[Len(n.fr)].cv # 0 THEN 2300 ELSE 0
         all(x, y) == (p + c) - (p + c) \div x
     IN c - v <= (IF n.sp >= REX THEN all(50, 0) ELSE all(64, 0))
\* C07: compute gas only grows while a transaction runs; C08: the limit in force only shrinks
Monotone(m, n) == n.cg >= m.cg /\ n.lim.c <= m.lim.c /\ m.vol \subseteq n.vol
StepOk(m, n) == Forwarded(m, n) /\ Monotone(m, n)
=============================================================================
