------------------------------ MODULE MegaBlock ------------------------------
(***************************************************************************)
(* Building blocks: admission of transactions under per-transaction and    *)
(* block limits, execution without commitment, commitment (possibly of an  *)
(* outcome obtained some steps earlier), block totals, receipts, the       *)
(* pre-block system calls and the installation of system contracts.        *)
(*                                                                         *)
(* The state h of a builder is a record                                    *)
(*   m      the machine of MegaRun; between transactions m.w is the        *)
(*          committed world                                                *)
(*   k      number of the current block in the scenario (0 before)         *)
(*   lim    its limits, num its number, ts its time                        *)
(*   u      totals over the committed transactions of the block            *)
(*   last   what the last committed transaction added                      *)
(*   rec    receipts                                                       *)
(*   slot   executed outcomes that were not committed yet                  *)
(*   hook   state changes reported to the observer of the block            *)
(*   veil   contracts whose stored data this block cannot see (deviation)  *)
(***************************************************************************)
EXTENDS MegaKeyless, MegaForks

NUMBER0 == 1000

NoUse == [gas |-> 0, size |-> 0, da |-> 0, data |-> 0, kv |-> 0, compute |-> 0, growth |-> 0]
AddU(u, v) == [gas |-> u.gas + v.gas, size |-> u.size + v.size, da |-> u.da + v.da, data |-> u.data + v.data,
               kv |-> u.kv + v.kv, compute |-> u.compute + v.compute, growth |-> u.growth + v.growth]

NoLimits == [txgas |-> BIG, gas |-> BIG, txsize |-> BIG, size |-> BIG, txda |-> BIG, da |-> BIG, txdata |-> BIG,
             data |-> BIG, txkv |-> BIG, kv |-> BIG, txcompute |-> BIG, compute |-> BIG, txgrowth |-> BIG,
             growth |-> BIG, env |-> BIG, oracle |-> BIG]

NewBuilder(s) ==
  [m |-> NewMachine(s), k |-> 0, num |-> 0, ts |-> 0, lim |-> NoLimits, u |-> NoUse, last |-> NoUse, rec |-> <<>>,
   slot |-> <<>>, hook |-> <<>>, veil |-> {}, n0 |-> s.num0]

\* limits of block b under schedule sch: those of the fork, some of them replaced
LimitsAt(sch, b) ==
  LET f == Newest(sch, b.ts)
      d == IF f = 0 THEN [NoLimits EXCEPT !.gas = b.gl] ELSE BlockLimits(f, b.gl)
  IN [x \in DOMAIN d |-> IF x \in DOMAIN b.lim THEN b.lim[x] ELSE d[x]]

Open(h, s) ==
  LET k == h.k + 1
      b == s.blocks[k]
      l == LimitsAt(s.sch, b)
      rt == [d |-> l.txdata, k |-> l.txkv, c |-> l.txcompute, g |-> l.txgrowth]
  IN [h EXCEPT !.k = k, !.lim = l, !.u = NoUse, !.last = NoUse, !.rec = <<>>, !.slot = <<>>, !.hook = <<>>, !.veil = {},
               !.num = s.num0 + k - 1, !.ts = b.ts,
               !.m = [@ EXCEPT !.sp = SpecAt(s.sch, b.ts), !.lim = rt, !.lim0 = rt, !.cap = [be |-> l.env, or |-> l.oracle],
                               !.bkt = b.bkt, !.seen = {}, !.hashes = {}, !.vol = {}, !.vlim = -1, !.nblk = k - 1]]

\* ------------------------------------------------------------ admission
No == <<>>
\* <<>> if the transaction may go in; otherwise why not, with the numbers involved
Refusal(h, tx, sz) ==
  LET l == h.lim  u == h.u  left == Pos(l.gas - u.gas) IN
  IF tx.gas > l.txgas THEN <<"TxGas", tx.gas, l.txgas>>
  ELSE IF tx.gas > left THEN <<"BlockGas", tx.gas, left>>
  ELSE IF sz[1] > l.txsize THEN <<"TxSize", sz[1], l.txsize>>
  ELSE IF u.size > l.size - sz[1] THEN <<"BlockSize", u.size, sz[1], l.size>>
  ELSE IF tx.typ # "deposit" /\ sz[2] > l.txda THEN <<"TxDA", sz[2], l.txda>>
  ELSE IF tx.typ # "deposit" /\ u.da > l.da - sz[2] THEN <<"BlockDA", u.da, sz[2], l.da>>
  ELSE IF u.data >= l.data THEN <<"BlockData", u.data, l.data>>
  ELSE IF u.kv >= l.kv THEN <<"BlockKV", u.kv, l.kv>>
  ELSE IF u.compute >= l.compute THEN <<"BlockCompute", u.compute, l.compute>>
  ELSE IF u.growth >= l.growth THEN <<"BlockGrowth", u.growth, l.growth>>
  ELSE No
\* a refusal that no other block would lift / one that only this block causes
Never(r) == r # No /\ r[1] \in {"TxGas", "TxSize", "TxDA"}
NotNow(r) == r # No /\ r[1] \in {"BlockGas", "BlockSize", "BlockDA", "BlockData", "BlockKV", "BlockCompute", "BlockGrowth"}

Full(h) == h.u.gas >= h.lim.gas \/ h.u.size >= h.lim.size \/ h.u.da >= h.lim.da \/ h.u.data >= h.lim.data
           \/ h.u.kv >= h.lim.kv \/ h.u.compute >= h.lim.compute \/ h.u.growth >= h.lim.growth

\* ------------------------------------------------------------- execution
RECURSIVE RunAll(_)
RunAll(m) == IF Live(m) THEN RunAll(Advance(m)) ELSE m

\* [m (next machine; world unchanged), o (outcome)]
Execute(h, tx, sz, t) ==
  LET before == h.m.w
      \* the fee for L1 goes by the compressed size of the encoded transaction
      st == Settle(RunAll(Start([h.m EXCEPT !.size = IF Len(sz) < 3 THEN MINSIZE ELSE Max2(MINSIZE, 836500 * sz[3] - 42585600)], tx)))
      o  == Outcome(st)
  IN [m |-> [st.m EXCEPT !.w = before],
      o |-> [t |-> t, base |-> before, w |-> st.m.w, res |-> o.res, logs |-> o.logs,
             dn |-> IF tx.typ = "deposit" THEN Acc(before, tx.from).n ELSE -1,
             use |-> [gas |-> o.res.gas, size |-> sz[1], da |-> IF tx.typ = "deposit" THEN 0 ELSE sz[2], data |-> o.ds,
                      kv |-> o.kv, compute |-> o.cg, growth |-> o.gr]]]

\* the changes of an outcome, put onto the committed world
Differing(f, g, d) == {x \in DOMAIN f \union DOMAIN g : Get(f, x, d) # Get(g, x, d)}
Apply(w, o) ==
  LET da == Differing(o.base.acc, o.w.acc, NoAcc)
      ds == Differing(o.base.st, o.w.st, 0)
      acc == [a \in DOMAIN w.acc \union da |-> IF a \in da THEN Get(o.w.acc, a, NoAcc) ELSE w.acc[a]]
      st  == [q \in DOMAIN w.st \union ds |-> IF q \in ds THEN Get(o.w.st, q, 0) ELSE w.st[q]]
  IN Clean([w EXCEPT !.acc = acc, !.st = st, !.logs = <<>>])

CommitOutcome(h, s, o) ==
  LET tx == s.txs[o.t]
      u  == AddU(h.u, o.use)
  IN [h EXCEPT !.m.w = Apply(@, o), !.u = u, !.last = o.use,
               !.rec = Append(@, [typ |-> tx.typ, ok |-> o.res.kind = "Success", logs |-> o.logs, cum |-> u.gas, dn |-> o.dn]),
               !.hook = Append(@, <<"tx", Len(h.rec)>>)]

\* ------------------------------------------- pre-block system calls, contracts
HIST == "HIST"  BEAC == "BEAC"  TSO == "TSO"  KLDA == "KLD"
RING == 8191
SysCode(v, n) == [t |-> "sysc", len |-> n, to |-> v]
HasSys(w, a, v) == Acc(w, a).c.t = "sysc" /\ Acc(w, a).c.to = v

\* a system contract writes its slot: storage gas is looked up for a slot that was zero
SysStore(m, a, k, v) ==
  LET m1 == IF m.sp >= MINI /\ Slot(m.w, a, k) = 0 /\ v # 0 THEN Consult(m, SlotBucket(a, k)) ELSE m
  IN [m1 EXCEPT !.w.st = (<<a, k>> :> v) @@ @, !.w.orig = (<<a, k>> :> v) @@ @]

\* the contracts read block data: from MINI_REX on this detains compute gas, and before REX1 the cap stays
SysRead(m, bit) == Detain([MarkEnv([m EXCEPT !.vol = {}, !.vlim = -1, !.e = "",
                                             !.lim = IF m.sp >= REX1 THEN m.lim0 ELSE @], bit) EXCEPT !.e = ""])

\* which contracts the active forks prescribe, in the order they are installed
Prescribed(sch, ts) ==
  (IF Active(sch, MINIREX, ts) THEN <<<<ORC, IF Active(sch, REX_2, ts) THEN "orc2" ELSE "orc1">>, <<TSO, "tso">>>> ELSE <<>>)
  \o (IF Active(sch, REX_2, ts) THEN <<<<KLDA, "kld">>>> ELSE <<>>)

RECURSIVE Install(_, _, _)
Install(h, s, ps) ==
  IF ps = <<>> THEN h
  ELSE LET a == Head(ps)[1]  v == Head(ps)[2]
           there == HasSys(h.m.w, a, v)
           w1 == IF there THEN h.m.w ELSE SetAcc(h.m.w, a, [Acc(h.m.w, a) EXCEPT !.c = SysCode(v, s.syslen[v])])
       IN Install([h EXCEPT !.m.w = w1,
                            \* deviation "orcwipe": during the block that installs it, the contract's storage reads as empty
                            !.veil = IF there \/ "orcwipe" \notin h.m.dev THEN @ ELSE @ \union {a},
                            !.hook = Append(@, <<"sys", IF there THEN "-" ELSE a>>)], s, Tail(ps))

\* the block-hash history call comes first
History(h, s) ==
  IF h.num > 0 /\ HasSys(h.m.w, HIST, "hist")
  THEN SysStore(SysRead(h.m, "NUMBER"), HIST, (h.num - 1) % RING, s.blocks[h.k].ph) ELSE h.m

PreBlock(h, s) ==
  LET b == s.blocks[h.k]
      m1 == History(h, s)
      m2 == IF h.num > 0 /\ HasSys(h.m.w, BEAC, "beac")
            THEN SysStore(SysStore(SysRead(m1, "TIMESTAMP"), BEAC, h.ts % RING, h.ts), BEAC, (h.ts % RING) + RING, b.root) ELSE m1
      h2 == [h EXCEPT !.m = m2, !.hook = @ \o (IF h.num > 0 THEN <<<<"hist", 0>>, <<"beac", 0>>>> ELSE <<>>)]
  IN Install(h2, s, Prescribed(s.sch, h.ts))
\* stored data of the system contracts, as the block's transactions see it
SysData(h) == {<<q[1], q[2], h.m.w.st[q]>> : q \in {x \in DOMAIN h.m.w.st : /\ x[1] \in {ORC, TSO, KLDA} \ h.veil
                                                                          /\ h.m.w.st[x] # 0}}
\* why the pre-block changes are impossible
PreRefusal(h, s) ==
  LET b == s.blocks[h.k] IN
  IF b.root = -1 THEN <<"NoBeaconRoot">>
  ELSE IF h.num = 0 /\ b.root # 0 THEN <<"GenesisBeaconRoot">> ELSE No

\* ----------------------------------------------------------------- steps
\* a step: [o, t (transaction), s (slot), c (commit?)]; the result: the next builder and what is observed
Seen(h, r, d) == [h |-> h, obs |-> [r |-> r, u |-> h.u, full |-> Full(h), d |-> d]]
ResObs(o) == [res |-> o.res, use |-> o.use, dn |-> o.dn]

SlotPut(h, i, x) == [h EXCEPT !.slot = (i :> x) @@ @]
SlotDel(h, i) == [h EXCEPT !.slot = [j \in DOMAIN @ \ {i} |-> @[j]]]

\* The database or the environment fails during the step: it is as if the step had not been tried.
Faulty(st) == "f" \in DOMAIN st /\ st.f # 0

BStep(h, s, st) ==
  CASE Faulty(st) -> Seen(h, <<"Fault">>, <<>>)
    [] st.o = "open" -> LET h1 == Open(h, s) IN Seen(h1, No, <<>>)
    [] st.o = "pre"  -> LET r == PreRefusal(h, s) IN
                        \* (a refused block has already looked up what the history call needed)
                        IF r # No THEN Seen([h EXCEPT !.m = [History(h, s) EXCEPT !.w = h.m.w]], r, <<>>)
                        ELSE LET g == PreBlock(h, s) IN Seen(g, No, <<SysData(g)>>)
    [] st.o = "run"  -> LET tx == s.txs[st.t]
                            r  == Refusal(h, tx, s.sz[st.t])
                        IN IF r # No THEN Seen(h, r, <<>>)
                           ELSE LET x == Execute(h, tx, s.sz[st.t], st.t)
                                    h1 == [h EXCEPT !.m = x.m]
                                IN IF x.o.res.kind = "Error" THEN Seen(h1, <<"Invalid", x.o.res.why>>, <<>>)
                                   ELSE Seen(SlotPut(h1, st.s, x.o), No, <<ResObs(x.o)>>)
    [] st.o = "commit" -> LET o == h.slot[st.s]
                              r == Refusal(h, s.txs[o.t], s.sz[o.t])
                          IN IF r # No THEN Seen(SlotDel(h, st.s), r, <<>>)
                             ELSE LET h1 == CommitOutcome(SlotDel(h, st.s), s, o)
                                  IN Seen(h1, No, <<o.res.gas>>)
    [] st.o = "exec" -> LET tx == s.txs[st.t]
                            r  == Refusal(h, tx, s.sz[st.t])
                        IN IF r # No THEN Seen(h, r, <<>>)
                           ELSE LET x == Execute(h, tx, s.sz[st.t], st.t)
                                    h1 == [h EXCEPT !.m = x.m]
                                IN IF x.o.res.kind = "Error" THEN Seen(h1, <<"Invalid", x.o.res.why>>, <<>>)
                                   ELSE IF st.c THEN Seen(CommitOutcome(h1, s, x.o), No, <<x.o.res.gas>>)
                                   ELSE Seen(h1, No, <<-1>>)
    [] st.o = "done" ->
         \* the block is finished: receipts, gas used, reports, world
         Seen([h EXCEPT !.slot = <<>>], No,
              <<[rec |-> h.rec, gas |-> IF h.rec = <<>> THEN 0 ELSE h.rec[Len(h.rec)].cum, hook |-> h.hook,
                 seen |-> h.m.seen, hashes |-> h.m.hashes, world |-> Worldly(h.m.w)]>>)

\* ------------------------------------------------------------- promises
SumRec(h) == IF h.rec = <<>> THEN 0 ELSE h.rec[Len(h.rec)].cum
BlockOk(h) ==
  \* totals never pass a limit that is checked before execution
  /\ h.u.gas <= h.lim.gas /\ h.u.size <= h.lim.size /\ h.u.da <= h.lim.da
  \* the others are passed by the last transaction at most
  /\ h.u.data = 0 \/ h.u.data - h.last.data < h.lim.data
  /\ h.u.kv = 0 \/ h.u.kv - h.last.kv < h.lim.kv
  /\ h.u.compute = 0 \/ h.u.compute - h.last.compute < h.lim.compute
  /\ h.u.growth = 0 \/ h.u.growth - h.last.growth < h.lim.growth
  \* receipts: cumulative gas rises to the block's gas
  /\ SumRec(h) = h.u.gas
  /\ \A j \in 2 .. Len(h.rec) : h.rec[j].cum >= h.rec[j - 1].cum

\* what a step may change
BStepOk(h, st, x) ==
  LET g == x.h  r == x.obs.r IN
  /\ r # No => (g.u = h.u /\ g.rec = h.rec /\ g.m.w = h.m.w /\ g.hook = h.hook)   \* a refusal changes nothing
  /\ st.o = "run" => (g.u = h.u /\ g.rec = h.rec /\ g.m.w = h.m.w)                \* nor does execution alone
  /\ (st.o = "exec" /\ ~st.c) => (g.u = h.u /\ g.rec = h.rec /\ g.m.w = h.m.w)
  /\ (st.o = "commit" /\ r = No) => Len(g.rec) = Len(h.rec) + 1
  /\ st.o = "pre" => (g.u = h.u /\ g.rec = h.rec)
  /\ (st.o \in {"run", "exec", "commit"} /\ r # No /\ r[1] \notin {"Invalid", "Fault"}) => (Never(r) \/ NotNow(r))
\* what was refused for good is refused by an empty block with the same per-transaction limits, and what was refused
\* for this block only is not
RefusalMeaning(h, s) ==
  \A i \in DOMAIN s.txs :
    LET e == [h EXCEPT !.u = NoUse]
        r == Refusal(h, s.txs[i], s.sz[i])
    IN Never(r) => Refusal(e, s.txs[i], s.sz[i]) # No

\* installed contracts after the pre-block changes
ContractsOk(h, s) ==
  /\ \A p \in ToSet(Prescribed(s.sch, h.ts)) : HasSys(h.m.w, p[1], p[2])
=============================================================================
