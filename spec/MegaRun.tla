------------------------------- MODULE MegaRun -------------------------------
(***************************************************************************)
(* Whole transactions and histories of transactions on one EVM: validation *)
(* and intrinsic gas, the resource usage of the transaction itself, the    *)
(* start of the first frame, and settlement (gas given back after a limit  *)
(* halt, refund cap, calldata floor, fees, destruction of accounts).       *)
(***************************************************************************)
EXTENDS MegaTx

\* ----------------------------------------------------- fresh transaction
NoFin == [r |-> "", gas |-> 0, ref |-> 0, out |-> 0]

\* The state of an EVM between two transactions; scenario s gives the configuration.
\* s : [sp, coin, acc, st, code, lim, bkt, orc, dev]
LimitsOf(s) ==
  LET d == DefaultLimits(s.sp)
      v(x, y) == IF x = -1 THEN y ELSE x
  IN [d |-> v(s.lim.d, d.d), k |-> v(s.lim.k, d.k), c |-> v(s.lim.c, d.c), g |-> v(s.lim.g, d.g),
      be |-> v(s.lim.be, d.be), or |-> v(s.lim.or, d.or)]

PairFun(ps) == [k \in {p[1] : p \in ToSet(ps)} |-> (CHOOSE p \in ToSet(ps) : p[1] = k)[2]]
SlotFun(ts) == [k \in {<<t[1], t[2]>> : t \in ToSet(ts)} |->
                  (CHOOSE t \in ToSet(ts) : <<t[1], t[2]>> = k)[3]]

EmptyMap == [x \in {} |-> 0]

\* Fees: base fee per gas, L1 data fee of a transaction, operator fee (millionths per gas, constant); none: whether
\* nobody is rewarded.  Configuration: size limits, gas limit cap, block gas limit, checks that are switched off.
NoFees == [base |-> 0, l1 |-> 0, ops |-> 0, opc |-> 0, none |-> FALSE]
StdCfg == [code |-> -1, init |-> -1, cap |-> BIG, blk |-> BIG, nonce |-> FALSE, bal |-> FALSE, e3607 |-> FALSE,
           ef |-> FALSE, nobase |-> FALSE]
BASEV == "BASEV"  L1V == "L1V"  OPV == "OPV"      \* the accounts that collect these fees
OpFee(fee, gas) == (gas \div 1000000) * fee.ops + ((gas % 1000000) * fee.ops) \div 1000000 + fee.opc
\* the L1 fee goes by the estimated size of the compressed transaction in millionths of a byte; fee.l1 (a power of ten)
\* is what the smallest size, 100 bytes, costs
MINSIZE == 100000000
L1Fee(fee, size) == IF fee.l1 = 0 THEN 0 ELSE size \div (MINSIZE \div fee.l1)
Vaults == {BASEV, L1V, OPV}
\* the most a unit of gas may cost, the tip offered, and what it costs
Tip(tx) == IF "tip" \in DOMAIN tx THEN tx.tip ELSE tx.price
Dynamic(tx) == tx.typ \in {"1559", "7702"}
Eff(fee, tx) == IF Dynamic(tx) THEN Min2(tx.price, fee.base + Tip(tx)) ELSE tx.price

NewMachine(s) ==
  LET l == LimitsOf(s)
      lim == [d |-> l.d, k |-> l.k, c |-> l.c, g |-> l.g]
      st  == SlotFun(s.st)
  IN [sp |-> s.sp,
      w |-> [acc |-> s.acc, st |-> st, orig |-> st, wa |-> {}, ws |-> {}, pl |-> {}, ld |-> {}, cold |-> {}, cr |-> {}, sd |-> {}, burn |-> 0,
             logs |-> <<>>, ts |-> EmptyMap],
      fr |-> <<>>, tf |-> <<>>, cg |-> 0, ds |-> 0, kv |-> 0, gr |-> 0, au |-> 0, na |-> 0,
      lim |-> lim, lim0 |-> lim, cap |-> [be |-> l.be, or |-> l.or],
      exc |-> NoExc, resc |-> 0, vol |-> {}, vlim |-> -1, coin |-> s.coin,
      bkt |-> s.bkt, seen |-> {}, hashes |-> {}, hints |-> <<>>, reads |-> <<>>, seen0 |-> {}, orc |-> PairFun(s.orc),
      tx |-> [from |-> "-"], code |-> s.code, e |-> "", out |-> 0, ef |-> FALSE, fin |-> NoFin,
      w0 |-> [acc |-> EmptyMap], ini |-> 0, flr |-> 0, r77 |-> 0, err |-> "", dep |-> FALSE,
      peak |-> [d |-> 0, k |-> 0, c |-> 0, g |-> 0], dev |-> ToSet(s.dev), nblk |-> 0, pw |-> FALSE,
      fee |-> IF "fee" \in DOMAIN s THEN s.fee ELSE NoFees, cfg |-> IF "cfg" \in DOMAIN s THEN s.cfg ELSE StdCfg,
      size |-> MINSIZE, up |-> <<>>, kl |-> <<>>, dyn |-> "dyn" \in DOMAIN s /\ s.dyn,
      watch |-> "watch" \in DOMAIN s /\ s.watch, tr |-> <<>>, icpt |-> IF "icpt" \in DOMAIN s THEN s.icpt ELSE EmptyMap]

\* A new block begins before transaction t if the scenario says so: the bucket sizes are read afresh, whatever its number
\* (the next one; or the same or a lower one, when another block is built in place of the last).
EnterBlock(m, s, t) ==
  IF s.nbk[t] = 0 THEN m
  ELSE [m EXCEPT !.bkt = s.bkts[s.nbk[t]], !.seen = {}, !.nblk = @ + (IF "hop" \in DOMAIN s THEN s.hop[t] ELSE 1)]

\* ------------------------------------------------------------- tx start
Tokens(tx) == tx.z + 4 * tx.nz
DataLen(tx) == tx.z + tx.nz

AlAddrs(tx) == Len(tx.al)
AlKeys(tx)  == FoldLeft(LAMBDA n, x : n + Len(x[2]), 0, tx.al)

PlainIntrinsic(tx) ==
  21000 + 4 * Tokens(tx)
  + (IF tx.kind = "create" THEN 32000 + 2 * Words(DataLen(tx)) ELSE 0)
  + 2400 * AlAddrs(tx) + 1900 * AlKeys(tx)
  + 25000 * Len(tx.auth)
PlainFloor(tx) == 21000 + 10 * Tokens(tx)

\* A system call ("sc") is no transaction: nobody pays for it, nothing is validated, only the code is run.
IsCall(tx) == tx.typ = "sc"
IsDeposit(m, tx) == tx.typ = "deposit" \/ (m.sp >= MINI /\ tx.from = SYS /\ ~IsCall(tx))
SystemOk(tx) == tx.typ = "legacy" /\ tx.kind = "call" /\ tx.to = ORC

\* authorizations: [a (authority; "" = signature does not recover), to ("" clears), n, chain]
RECURSIVE Auths(_, _)
Auths(st, as) ==
  IF as = <<>> THEN st
  ELSE
  LET a == Head(as)
      x == Acc(st.w, a.a)
      w1 == WarmA(st.w, a.a)
      st1 == IF a.chain = "bad" \/ a.a = "" THEN st
             ELSE IF x.c.t \notin {"none", "deleg"} \/ x.n # a.n THEN [st EXCEPT !.w = w1]
             ELSE [w |-> SetAcc(w1, a.a, [b |-> x.b, n |-> x.n + 1,
                                          c |-> IF a.to = "" THEN NoCode ELSE Deleg(a.to)]),
                   r |-> st.r + (IF IsEmpty(x) THEN 0 ELSE 12500)]
  IN Auths(st1, Tail(as))

Reject(m, e) == [m EXCEPT !.err = e]

\* everything up to the entry of the first frame
TxBegin(mm, tx) ==
  LET dep  == IsDeposit(mm, tx)
      sys  == mm.sp >= MINI /\ tx.from = SYS /\ ~IsCall(tx)
      price == IF sys THEN 0 ELSE Eff(mm.fee, tx)
      extra == IF dep THEN 0 ELSE L1Fee(mm.fee, mm.size) + OpFee(mm.fee, tx.gas)
      m0   == [mm EXCEPT !.tx = [tx EXCEPT !.price = price], !.fr = <<>>, !.tf = <<>>, !.e = "", !.out = 0,
                         !.ef = FALSE, !.fin = NoFin, !.err = "", !.dep = dep, !.ini = 0, !.flr = 0,
                         !.r77 = 0, !.hints = <<>>, !.reads = <<>>, !.seen0 = mm.seen, !.kl = <<>>, !.tr = <<>>,
                         !.peak = [d |-> 0, k |-> 0, c |-> 0, g |-> 0],
                         !.w = [@ EXCEPT !.orig = @ , !.logs = <<>>]]
      mR   == [m0 EXCEPT !.vol = {}, !.vlim = -1, !.cg = 0, !.ds = 0, !.kv = 0, !.gr = 0, !.au = 0, !.na = 0,
                         !.exc = NoExc, !.resc = 0,
                         !.lim = IF m0.sp >= REX1 THEN m0.lim0 ELSE @]
      mB   == IF tx.from = mR.coin \/ (tx.kind = "call" /\ tx.to = mR.coin)
              THEN Mark(mR, "BENEFICIARY", mR.cap.be) ELSE mR
      rec  == Cardinality({i \in DOMAIN tx.auth : tx.auth[i].a # ""})
      mU   == IF mB.sp < MINI THEN mB
              ELSE CheckLimit([mB EXCEPT
                     !.ds = BASETX + DataLen(tx) + 20 * AlAddrs(tx) + 32 * AlKeys(tx)
                            + AUTHSIZE * Len(tx.auth) + ACCWRITE * (rec + 1),
                     !.kv = rec + 1])
      \* intrinsic gas
      pi   == PlainIntrinsic(tx)
      pf   == PlainFloor(tx)
      sg   == IF mU.sp < MINI THEN 0 ELSE 40 * Tokens(tx) + (IF mU.sp >= REX THEN 39000 ELSE 0)
      ini1 == pi + sg
      flr  == pf + (IF mU.sp < MINI THEN 0 ELSE 100 * Tokens(tx))
      mC   == IF mU.sp < MINI THEN mU ELSE [RecordCompute(mU, pi) EXCEPT !.e = ""]
      \* (deviation "depnonce": a deposit's own nonce field, always 0 on a chain, is used instead of the account's)
      created == CreatedName(tx.from, IF tx.typ = "deposit" /\ "depnonce" \notin mm.dev THEN Acc(mC.w, tx.from).n ELSE tx.nonce)
      newacc == tx.kind = "call" /\ tx.v # 0 /\ IsEmpty(Acc(mC.w, tx.to))
      bucket == IF tx.kind = "create" THEN created ELSE tx.to
      stor == IF mC.sp < MINI THEN 0
              ELSE IF tx.kind = "create"
                   THEN Scaled(mC.sp, BaseCreate(mC.sp), Mult(mC, bucket))
              ELSE IF newacc THEN Scaled(mC.sp, BaseAccount(mC.sp), Mult(mC, bucket)) ELSE 0
      mS   == IF mC.sp >= MINI /\ (tx.kind = "create" \/ newacc) THEN Consult(mC, bucket) ELSE mC
      ini  == ini1 + stor
      \* the sender pays
      snd  == Acc(mS.w, tx.from)
      mint == IF dep THEN tx.mint ELSE 0
      paid == Pos(snd.b + mint - price * tx.gas - extra)
      bal  == IF mm.cfg.bal THEN Max2(paid, tx.v) ELSE paid
      w1   == SetAcc(mS.w, tx.from, [snd EXCEPT !.b = bal, !.n = IF tx.kind = "call" THEN @ + 1 ELSE @])
      listed == {x[1] : x \in {y \in ToSet(tx.al) : y[2] # <<>>}}
      w2   == [w1 EXCEPT !.pl = {mS.coin} \union Precompiles \union (IF mS.dyn THEN {"DYN"} ELSE {}) \union {x[1] : x \in ToSet(tx.al)},
                         !.wa = {tx.from} \union listed, !.ld = {tx.from} \union listed, !.cold = {},
                         !.ws = {<<x[1], k>> : x \in ToSet(tx.al), k \in 0 .. 300}
                                \intersect UNION {{<<x[1], k>> : k \in ToSet(x[2])} : x \in ToSet(tx.al)}]
      au   == Auths([w |-> w2, r |-> 0], tx.auth)
      mW   == [mS EXCEPT !.w = au.w, !.w0 = mm.w, !.ini = ini, !.flr = flr, !.r77 = au.r, !.pw = TRUE]
      \* (the addresses of the precompiles are known to the journal once a transaction has been run)
      mX   == [mU EXCEPT !.w0 = mm.w, !.w.pl = IF mm.pw THEN Precompiles \union (IF mm.dyn THEN {"DYN"} ELSE {}) ELSE {},
                         !.w.wa = {}, !.w.ld = {}, !.w.cold = {}, !.w.ws = {}]
      g    == tx.gas - ini
  IN IF IsCall(tx) THEN mX
     ELSE IF sys /\ ~SystemOk(tx) THEN Reject([m0 EXCEPT !.w0 = mm.w, !.vol = mm.vol], "System")
     ELSE IF ~dep /\ tx.gas > mm.cfg.cap THEN Reject([mU EXCEPT !.w0 = mm.w], "TxGasLimitGreaterThanCap")
     ELSE IF ~dep /\ Dynamic(tx) /\ Tip(tx) > tx.price THEN Reject([mU EXCEPT !.w0 = mm.w], "PriorityFeeGreaterThanMaxFee")
     ELSE IF ~dep /\ ~mm.cfg.nobase /\ price < mm.fee.base THEN Reject([mU EXCEPT !.w0 = mm.w], "GasPriceLessThanBasefee")
     ELSE IF ~dep /\ tx.typ = "7702" /\ tx.auth = <<>> THEN Reject([mU EXCEPT !.w0 = mm.w], "EmptyAuthorizationList")
     ELSE IF ~dep /\ tx.gas > mm.cfg.blk THEN Reject([mU EXCEPT !.w0 = mm.w], "CallerGasLimitMoreThanBlock")
     ELSE IF ~dep /\ tx.kind = "create" /\ DataLen(tx) > MaxInit(mm)
          THEN Reject([mU EXCEPT !.w0 = mm.w], "CreateInitCodeSizeLimit")
     ELSE IF pi > tx.gas THEN Reject([mU EXCEPT !.w0 = mm.w], "CallGasCostMoreThanGasLimit")
     ELSE IF pf > tx.gas THEN Reject([mU EXCEPT !.w0 = mm.w], "GasFloorMoreThanGasLimit")
     ELSE IF ini1 > tx.gas THEN Reject([mC EXCEPT !.w0 = mm.w], "CallGasCostMoreThanGasLimit")
     ELSE IF flr > tx.gas /\ "floor" \notin mm.dev
          THEN Reject([mC EXCEPT !.w0 = mm.w], "GasFloorMoreThanGasLimit")
     ELSE IF ~dep /\ ~mm.cfg.e3607 /\ snd.c.t \notin {"none", "deleg"} THEN Reject([mS EXCEPT !.w0 = mm.w], "RejectCallerWithCode")
     ELSE IF ~dep /\ ~mm.cfg.nonce /\ tx.nonce > snd.n THEN Reject([mS EXCEPT !.w0 = mm.w], "NonceTooHigh")
     ELSE IF ~dep /\ ~mm.cfg.nonce /\ tx.nonce < snd.n THEN Reject([mS EXCEPT !.w0 = mm.w], "NonceTooLow")
     \* (the sender must be able to pay the highest price)
     ELSE IF ~dep /\ ~mm.cfg.bal /\ ((tx.price > 0 /\ tx.gas > (BIG - tx.v - extra) \div tx.price) \/ tx.price * tx.gas + tx.v + extra > snd.b)
          THEN Reject([mS EXCEPT !.w0 = mm.w], "LackOfFundForMaxFee")
     ELSE IF g < 0
          THEN [mW EXCEPT !.fin = [r |-> "OutOfGasStart", gas |-> 0, ref |-> 0, out |-> 0],
                          !.w = IF tx.kind = "create"
                                THEN SetAcc(@, tx.from, [Acc(@, tx.from) EXCEPT !.n = @ + 1]) ELSE @]
     ELSE mW

Running(m) == m.err = "" /\ m.fin.r = ""

\* the first frame is entered with the gas that is left after the intrinsic gas
TxEnter(m) ==
  LET tx == m.tx  g == tx.gas - m.ini IN
  IF ~Running(m) THEN m
  ELSE IF tx.kind = "call"
  THEN EnterCall(m, [scheme |-> "CALL", to |-> tx.to, self |-> tx.to, caller |-> tx.from, v |-> tx.v, moves |-> TRUE,
                     cv |-> tx.v, b |-> tx.b, gas |-> g, static |-> FALSE, n |-> DataLen(tx),
                     hint |-> IF "kl" \in DOMAIN tx THEN <<0, 0, "kl">> ELSE tx.hint])
  ELSE EnterCreate(m, [caller |-> tx.from, v |-> tx.v, b |-> tx.b, salt |-> -1, gas |-> g, lvl |-> 1])

\* ------------------------------------------------------------ settlement
HaltName(r) ==
  CASE r = "OutOfGas" -> "OutOfGas(Basic)"
    [] r = "OutOfGasStart" -> "OutOfGas(Basic)"
    [] r = "MemoryOOG" -> "OutOfGas(Memory)"
    [] r = "PrecompileOOG" -> "OutOfGas(Precompile)"
    [] r = "ReentrancySentry" -> "OutOfGas(ReentrancySentry)"
    [] r = "InvalidOperandOOG" -> "OutOfGas(InvalidOperand)"
    [] r = "InvalidFE" -> "InvalidFEOpcode"
    [] r = "CreateContractStartingWithEF" -> "CreateContractSizeLimit"
    [] OTHER -> r

Halted(r) == ~IsOk(r) /\ r # "Revert"

RECURSIVE DropAccs(_, _)
DropAccs(w, as) ==
  IF as = {} THEN w
  ELSE LET a == CHOOSE x \in as : TRUE
       IN DropAccs([w EXCEPT !.acc = (a :> NoAcc) @@ @,
                             !.st = [k \in {q \in DOMAIN @ : q[1] # a} |-> @[k]]], as \ {a})

\* what destroyed accounts own
Lost(w) == FoldSet(LAMBDA a, n : n + Acc(w, a).b, 0, w.sd)

Credit(w, a, x) == IF x = 0 THEN w ELSE SetAcc(w, a, [Acc(w, a) EXCEPT !.b = @ + x])

\* between transactions: destroyed accounts disappear, warmth and transient storage are forgotten
Clean(w) ==
  LET w1 == DropAccs(w, w.sd)
  IN [w1 EXCEPT !.orig = w1.st, !.wa = {}, !.ws = {}, !.pl = {}, !.ld = {}, !.cold = {}, !.cr = {}, !.sd = {}, !.burn = 0, !.ts = EmptyMap]

KindOf(r) == IF IsOk(r) THEN "Success" ELSE IF r = "Revert" THEN "Revert" ELSE "Halt"

\* result record shown to the user
NoRes == [kind |-> "", why |-> "", limit |-> 0, actual |-> 0, gas |-> 0, ref |-> 0, out |-> 0]
LimitName(k) == CASE k = "Data" -> "DataLimitExceeded" [] k = "KV" -> "KVUpdateLimitExceeded"
                  [] k = "Compute" -> "ComputeGasLimitExceeded" [] k = "Growth" -> "StateGrowthLimitExceeded"

Settle(m) ==
  IF m.err # "" /\ ~m.dep
  THEN [m |-> [m EXCEPT !.w = Clean(m.w0)],
        res |-> [NoRes EXCEPT !.kind = "Error", !.why = m.err]]
  ELSE IF m.dep /\ (m.err # "" \/ Halted(m.fin.r)) /\ m.err \notin {"System", "Fault"}
  THEN \* a failed deposit keeps the mint and bumps the nonce
       LET x == Acc(m.w0, m.tx.from)
           w == SetAcc(m.w0, m.tx.from, [x EXCEPT !.b = @ + m.tx.mint, !.n = @ + 1])
       IN [m |-> [m EXCEPT !.w = Clean([w EXCEPT !.logs = <<>>])],
           res |-> [NoRes EXCEPT !.kind = "Halt", !.why = "FailedDeposit", !.gas = m.tx.gas]]
  ELSE IF m.err # ""
  THEN [m |-> [m EXCEPT !.w = Clean(m.w0)],
        res |-> [NoRes EXCEPT !.kind = "Error", !.why = m.err]]
  ELSE
  LET r   == m.fin.r
      L   == m.tx.gas
      ok  == IsOk(r)
      rem == IF r = "OutOfGasStart" THEN 0
             ELSE (IF ok \/ IsRevert(r) THEN m.fin.gas ELSE 0) + (IF m.sp >= MINI THEN m.resc ELSE 0)
      spent == L - rem
      ref0 == (IF ok THEN m.fin.ref ELSE 0) + m.r77
      sc   == IsCall(m.tx)
      ref1 == IF sc THEN ref0 ELSE Min2(ref0, spent \div 5)
      low  == spent - ref1 < m.flr
      spent2 == IF low THEN Min2(m.flr, L) ELSE spent
      ref2 == IF low THEN 0 ELSE ref1
      used == spent2 - ref2
      p    == m.tx.price
      back == p * (L - used) + (IF m.dep \/ sc THEN 0 ELSE OpFee(m.fee, L) - OpFee(m.fee, used))
      w1   == Credit(m.w, m.tx.from, back)
      w2   == IF m.dep \/ sc \/ m.fee.none THEN w1
              ELSE Credit(Credit(Credit(Credit(w1, m.coin, Pos(p - m.fee.base) * used),
                   L1V, L1Fee(m.fee, m.size)), BASEV, m.fee.base * used), OPV, OpFee(m.fee, used))
      mc   == IF m.sp >= MINI THEN CheckLimit(m) ELSE m
      lim  == r \in {"OutOfGas", "OutOfGasStart"} /\ m.sp >= MINI /\ Exceeded(mc)
      res  == IF lim
              THEN IF m.vlim # -1 /\ m.cg > m.vlim
                   THEN [kind |-> "Halt", why |-> "VolatileDataAccessOutOfGas", limit |-> m.vlim,
                         actual |-> m.cg, gas |-> used, ref |-> 0, out |-> 0]
                   ELSE [kind |-> "Halt", why |-> LimitName(mc.exc.kind), limit |-> mc.exc.limit,
                         actual |-> mc.exc.used, gas |-> used, ref |-> 0, out |-> 0]
              ELSE [kind |-> KindOf(r), why |-> IF Halted(r) THEN HaltName(r) ELSE IF ok THEN r ELSE "",
                    limit |-> 0, actual |-> 0, gas |-> used, ref |-> IF ok THEN ref2 ELSE 0,
                    \* bytes of output (-1: not specified)
                    out |-> IF Halted(r) THEN 0 ELSE m.fin.out]
  IN [m |-> [m EXCEPT !.w = Clean(w2)], res |-> res]

\* ------------------------------------------------------- observable outcome
Worldly(w) ==
  [acc |-> {<<a, w.acc[a].b, w.acc[a].n, w.acc[a].c.t, IF w.acc[a].c.t \in {"raw", "ef"} THEN w.acc[a].c.len ELSE 0,
              w.acc[a].c.to>> :
              a \in {x \in DOMAIN w.acc : ~IsEmpty(w.acc[x])}},
   st |-> {<<k[1], k[2], w.st[k]>> : k \in {x \in DOMAIN w.st : w.st[x] # 0}}]

Outcome(s) ==
  LET m == s.m IN
  [res |-> s.res, cg |-> m.cg, ds |-> Pos(m.ds), kv |-> Pos(m.kv), gr |-> Pos(m.gr), vol |-> m.vol,
   vlim |-> m.vlim, limc |-> m.lim.c, exc |-> m.exc.kind,
   logs |-> IF s.res.kind = "Success" THEN m.w.logs ELSE <<>>, hints |-> m.hints, reads |-> m.reads,
   asked |-> m.seen \ m.seen0, seen |-> m.seen, hashes |-> m.hashes, kl |-> m.kl, tr |-> m.tr, world |-> Worldly(m.w)]

=============================================================================
