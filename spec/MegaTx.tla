------------------------------- MODULE MegaTx -------------------------------
(***************************************************************************)
(* Operational specification of one MegaETH transaction: the EVM gas and   *)
(* state semantics of Optimism Isthmus plus everything mega-evm adds:      *)
(* storage gas scaled by SALT bucket size, multidimensional resource       *)
(* limits with per-frame roll back, gas detention on volatile data, the    *)
(* 98/100 forwarding rule, oracle storage, oracle hints, SELFDESTRUCT      *)
(* rules, raised code size limits.                                         *)
(*                                                                         *)
(* The machine `m' is a record; Step(m) performs one program operation of  *)
(* the innermost frame (or one frame return).  Programs are straight line  *)
(* blocks of operations; every operation is a fixed sequence of EVM        *)
(* instructions whose exact costs are given here, and the harness          *)
(* assembles exactly that sequence.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, MegaOps, MegaPre

BIG == 2147483647            \* stands for "unlimited"

\* ------------------------------------------------------------- spec ids
EQ == 0  MINI == 1  REX == 2  REX1 == 3  REX2 == 4  REX3 == 5  REX4 == 6

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Pos(x)     == IF x < 0 THEN 0 ELSE x
Words(n)   == (n + 31) \div 32
\* product, cut off at BIG (no gas counter of a scenario comes near it)
Mul(a, b)  == IF a # 0 /\ b > BIG \div a THEN BIG ELSE a * b
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* quadratic memory price 3w + w*w/512, without overflowing 32 bits
MemGas(w) == 3 * w + (w \div 512) * w + ((w % 512) * w) \div 512

\* ------------------------------------------------------- system constants
ACCWRITE == 40      \* bytes per account write
SLOTWRITE == 40     \* bytes per slot write
TOPICSIZE == 32
BASETX == 110
AUTHSIZE == 101

BaseSstore(sp)  == IF sp >= REX THEN 20000 ELSE 2000000
BaseAccount(sp) == IF sp >= REX THEN 25000 ELSE 2000000
BaseCreate(sp)  == IF sp >= REX THEN 32000 ELSE 2000000
\* (an amount no transaction can pay stands for every larger one)
PRICELESS == 1900000000
Scaled(sp, base, mult) == LET k == IF sp >= REX THEN mult - 1 ELSE mult
                          IN IF k > PRICELESS \div base THEN PRICELESS ELSE base * k

\* the operator's configuration may replace both limits (-1: it does not)
MaxCode(m)      == IF m.cfg.code # -1 THEN m.cfg.code ELSE IF m.sp >= MINI THEN 524288 ELSE 24576
MaxInit(m)      == IF m.cfg.init # -1 THEN m.cfg.init
                   ELSE IF m.sp >= MINI THEN 548864 ELSE IF m.cfg.code # -1 THEN 2 * m.cfg.code ELSE 49152

DefaultLimits(sp) ==
  CASE sp = EQ   -> [d |-> BIG, k |-> BIG, c |-> BIG, g |-> BIG, be |-> BIG, or |-> BIG]
    [] sp = MINI -> [d |-> 3276800, k |-> 125000, c |-> 1000000000, g |-> BIG,
                     be |-> 20000000, or |-> 1000000]
    [] sp \in {REX, REX1, REX2} ->
                    [d |-> 13107200, k |-> 500000, c |-> 200000000, g |-> 1000,
                     be |-> 20000000, or |-> 1000000]
    [] OTHER     -> [d |-> 13107200, k |-> 500000, c |-> 200000000, g |-> 1000,
                     be |-> 20000000, or |-> 20000000]

\* ------------------------------------------------------------- addresses
ORC == "ORC"           \* the oracle system contract
SYS == "SYS"           \* the mega system address
Precompiles == {"P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "P10", "P11", "P12",
                "P13", "P14", "P15", "P16", "P17", "P256"}
\* m.dyn: the operator has added a precompile DYN and replaced P3 by it
IsPre(m, a) == a \in Precompiles \/ (m.dyn /\ a = "DYN")
PreName(m, a) == IF m.dyn /\ a \in {"DYN", "P3"} THEN "DYN" ELSE a
IsPreInput(h) == h # <<>> /\ h[3] = "pi"

\* ----------------------------------------------------------------- world
NoCode == [t |-> "none", len |-> 0, to |-> "-"]
Code   == [t |-> "code", len |-> 1, to |-> "-"]
Deleg(x) == [t |-> "deleg", len |-> 23, to |-> x]
Raw(n)   == IF n = 0 THEN NoCode ELSE [t |-> "raw", len |-> n, to |-> "-"]
EfCode(n) == [t |-> "ef", len |-> n, to |-> "-"]
NoAcc  == [b |-> 0, n |-> 0, c |-> NoCode]

Acc(w, a)    == Get(w.acc, a, NoAcc)
IsEmpty(x)   == x.b = 0 /\ x.n = 0 /\ x.c.t = "none"
SetAcc(w, a, x) == [w EXCEPT !.acc = (a :> x) @@ @]
Slot(w, a, k)   == Get(w.st, <<a, k>>, 0)
Orig(w, a, k)   == Get(w.orig, <<a, k>>, 0)
\* Loading an account makes it warm until the loading frame is rolled back.  The accounts in w.pl
\* (precompiles, beneficiary, access list) are warm from the beginning, whatever is rolled back.
WarmA(w, a)     == [w EXCEPT !.wa = @ \union {a}, !.ld = @ \union {a}]
IsWarm(w, a)    == a \in w.wa \/ (a \in w.pl /\ a \notin w.cold)
\* state restored when a frame is rolled back
Restore(snap, w) == [snap EXCEPT !.ld = w.ld, !.cold = w.cold]
WarmS(w, a, k)  == [w EXCEPT !.ws = @ \union {<<a, k>>}]

Transfer(w, a, b, v) ==
  LET w1 == SetAcc(w, a, [Acc(w, a) EXCEPT !.b = @ - v])
  IN  SetAcc(w1, b, [Acc(w1, b) EXCEPT !.b = @ + v])

\* new-account charges look at the account itself; one that delegates (EIP-7702) is not empty
EmptyForCharge(m, a) == IsEmpty(Acc(m.w, a))
\* looking at an account without touching it leaves its warmth alone;
\* deviation "coldpre": an account that is warm from the beginning and not loaded yet becomes cold
Inspect(m, a) ==
  IF "coldpre" \notin m.dev \/ m.sp < MINI THEN m
  ELSE [m EXCEPT !.w.cold = @ \union (({a} \intersect m.w.pl) \ m.w.ld),
                 !.w.ld = @ \union {a}]

\* --------------------------------------------------------------- limits
NoExc == [kind |-> "none", limit |-> 0, used |-> 0]
Exceeded(m) == m.exc.kind # "none"

CheckLimit(m) ==
  IF Exceeded(m) \/ m.sp < MINI THEN m
  ELSE IF Pos(m.ds) > m.lim.d THEN [m EXCEPT !.exc = [kind |-> "Data", limit |-> m.lim.d, used |-> Pos(m.ds)]]
  ELSE IF Pos(m.kv) > m.lim.k THEN [m EXCEPT !.exc = [kind |-> "KV", limit |-> m.lim.k, used |-> Pos(m.kv)]]
  ELSE IF m.cg > m.lim.c THEN [m EXCEPT !.exc = [kind |-> "Compute", limit |-> m.lim.c, used |-> m.cg]]
  ELSE IF Pos(m.gr) > m.lim.g THEN [m EXCEPT !.exc = [kind |-> "Growth", limit |-> m.lim.g, used |-> Pos(m.gr)]]
  ELSE m

\* usage deltas go into the totals and into the innermost tracker frame
AddUse(m, d, k, g) ==
  LET m1 == [m EXCEPT !.ds = @ + d, !.kv = @ + k, !.gr = @ + g]
      n  == Len(m.tf)
  IN  IF n = 0 THEN m1
      ELSE [m1 EXCEPT !.tf[n].d = @ + d, !.tf[n].k = @ + k, !.tf[n].g = @ + g]

\* x account writes (each one key-value update of ACCWRITE bytes), na of them of new accounts;
\* m.au and m.na only remember these numbers, for the invariants
AddAcc(m, x, na) ==
  LET m1 == AddUse(m, x * ACCWRITE, x, na)
      n  == Len(m.tf)
      m2 == [m1 EXCEPT !.au = @ + x, !.na = @ + na]
  IN  IF n = 0 THEN m2 ELSE [m2 EXCEPT !.tf[n].a = @ + x, !.tf[n].n = @ + na]

PushTF(m, tgt, upd) ==
  [m EXCEPT !.tf = Append(@, [d |-> 0, k |-> 0, g |-> 0, a |-> 0, n |-> 0, tgt |-> tgt, upd |-> upd])]

\* a tracker frame ends: kept into the parent on success, dropped otherwise
PopTF(m, ok) ==
  LET n == Len(m.tf) IN
  IF n = 0 THEN m
  ELSE LET t == m.tf[n]
           m1 == [m EXCEPT !.tf = SubSeq(@, 1, n - 1)]
       IN IF ok
          THEN IF n = 1 THEN m1
               ELSE [m1 EXCEPT !.tf[n-1].d = @ + t.d, !.tf[n-1].k = @ + t.k, !.tf[n-1].g = @ + t.g,
                               !.tf[n-1].a = @ + t.a, !.tf[n-1].n = @ + t.n]
          ELSE [m1 EXCEPT !.ds = @ - t.d, !.kv = @ - t.k, !.gr = @ - t.g, !.au = @ - t.a, !.na = @ - t.n]

\* --------------------------------------------------------- volatile data
Mark(m, bit, cap) ==
  [m EXCEPT !.vol = @ \union {bit},
            !.vlim = IF @ = -1 THEN cap ELSE Min2(@, cap)]
MarkEnv(m, bit) == Mark(m, bit, m.cap.be)
MarkBeneficiary(m, a) == IF a = m.coin THEN Mark(m, "BENEFICIARY", m.cap.be) ELSE m
MarkOracle(m) == Mark(m, "ORACLE", m.cap.or)
\* the detention wrapper around an opcode that succeeded
Detain(m) ==
  IF m.e # "" \/ m.sp < MINI \/ m.vlim = -1 THEN m
  ELSE [m EXCEPT !.lim.c = Min2(@, m.vlim)]

\* ------------------------------------------------------------ instructions
Top(m) == m.fr[Len(m.fr)]
Fail(m, r) == [m EXCEPT !.e = r]

RecordCompute(m, c) ==
  IF m.sp < MINI THEN m
  ELSE LET m1 == CheckLimit([m EXCEPT !.cg = @ + c])
       IN IF Exceeded(m1) THEN Fail(m1, "OutOfGas") ELSE m1

Spend(m, c) == [m EXCEPT !.fr[Len(m.fr)].gas = @ - c]

\* one plain instruction of price c; c < 0 means: price 3 plus -c of memory expansion
Plain(m, c) ==
  IF m.e # "" THEN m
  ELSE IF c >= 0
       THEN IF Top(m).gas < c THEN Fail(m, "OutOfGas") ELSE RecordCompute(Spend(m, c), c)
       ELSE IF Top(m).gas < 3 THEN Fail(m, "OutOfGas")
            ELSE IF Top(m).gas < 3 - c THEN Fail(Spend(m, 3), "MemoryOOG")
            ELSE RecordCompute(Spend(m, 3 - c), 3 - c)

Cost(c) == IF c < 0 THEN 3 - c ELSE c
PlainSeq(m, cs) ==
  IF m.e # "" THEN m
  ELSE LET s == FoldLeft(LAMBDA a, b : a + Cost(b), 0, cs)
       IN IF Top(m).gas >= s /\ ~Exceeded(m) /\ (m.sp < MINI \/ m.cg + s <= m.lim.c)
          THEN [Spend(m, s) EXCEPT !.cg = IF m.sp < MINI THEN @ ELSE @ + s]
          ELSE FoldLeft(Plain, m, cs)

\* storage gas: paid from the frame's gas, not compute gas
StorageGas(m, c) ==
  IF m.e # "" THEN m
  ELSE IF Top(m).gas < c THEN Fail(m, "OutOfGas") ELSE Spend(m, c)

\* bucket size multiplier, remembered in the report of consulted buckets
Mult(m, bucket) == Get(m.bkt, bucket, 256) \div 256
Consult(m, bucket) == [m EXCEPT !.seen = @ \union {bucket}]
AccBucket(a) == a
SlotBucket(a, k) == a \o "/" \o ToString(k)

ChargeBucket(m, base, bucket) ==
  IF m.e # "" THEN m
  ELSE StorageGas(Consult(m, bucket), Scaled(m.sp, base, Mult(m, bucket)))

\* ----------------------------------------------------------------- SSTORE
SstoreCost(o, p, n) ==
  IF n = p THEN 100
  ELSE IF o = p THEN (IF o = 0 THEN 20000 ELSE 2900)
  ELSE 100
SstoreRefund(o, p, n) ==
  IF n = p THEN 0
  ELSE IF o = p /\ n = 0 THEN 4800
  ELSE IF o = p THEN 0
  ELSE (IF o # 0 THEN (IF p = 0 THEN -4800 ELSE IF n = 0 THEN 4800 ELSE 0) ELSE 0)
       + (IF o = n THEN (IF o = 0 THEN 19900 ELSE 2800) ELSE 0)

DoSstore(m0, k, v) ==
  IF m0.e # "" THEN m0
  ELSE
  LET a == Top(m0).self
      o == Orig(m0.w, a, k)
      p == Slot(m0.w, a, k)
      fresh == o = 0 /\ p = 0 /\ v # 0
      m1 == IF m0.sp >= MINI /\ fresh THEN ChargeBucket(m0, BaseSstore(m0.sp), SlotBucket(a, k)) ELSE m0
      cold == <<a, k>> \notin m0.w.ws
      c  == SstoreCost(o, p, v) + (IF cold THEN 2100 ELSE 0)
      m2 == IF m1.e # "" THEN m1
            ELSE IF Top(m1).static THEN Fail(m1, "StateChangeDuringStaticCall")
            ELSE IF Top(m1).gas <= 2300 THEN Fail(m1, "ReentrancySentry")
            ELSE IF Top(m1).gas < c THEN Fail(m1, "OutOfGas")
            ELSE LET m3 == Spend(m1, c)
                     m4 == [m3 EXCEPT !.w = WarmS([@ EXCEPT !.st = (<<a, k>> :> v) @@ @], a, k),
                                      !.fr[Len(m3.fr)].ref = @ + SstoreRefund(o, p, v)]
                 IN RecordCompute(m4, c)
      g == IF fresh THEN 1 ELSE IF o = 0 /\ p # 0 /\ v = 0 THEN -1 ELSE 0
      u == IF o = p THEN (IF o = v THEN 0 ELSE 1) ELSE (IF o = v THEN -1 ELSE 0)
  IN IF m2.e # "" \/ m2.sp < MINI THEN m2
     ELSE LET m5 == CheckLimit(AddUse(m2, u * SLOTWRITE, u, g))
          IN IF Exceeded(m5) THEN Fail(m5, "OutOfGas") ELSE m5

\* ------------------------------------------------------------------ SLOAD
\* the value an SLOAD of slot k by account a returns
ReadVal(m, a, k) ==
  IF m.sp >= MINI /\ a = ORC /\ k \in DOMAIN m.orc THEN m.orc[k] ELSE Slot(m.w, a, k)

DoSload(m, k) ==
  IF m.e # "" THEN m
  ELSE
  LET a == Top(m).self
      orcl == m.sp >= MINI /\ a = ORC
      ext == orcl /\ k \in DOMAIN m.orc
      mA == IF orcl THEN [m EXCEPT !.reads = Append(@, <<"read", ToString(k), ext>>)] ELSE m
      m1 == IF orcl /\ m.sp >= REX3 /\ m.tx.from # SYS THEN MarkOracle(mA) ELSE mA
      c  == IF orcl \/ <<a, k>> \notin m.w.ws THEN 2100 ELSE 100
      m2 == IF Top(m1).gas < c THEN Fail(m1, "OutOfGas")
            ELSE RecordCompute(Spend(IF ext THEN m1 ELSE [m1 EXCEPT !.w = WarmS(@, a, k)], c), c)
  IN IF m.sp >= REX3 THEN Detain(m2) ELSE m2

\* What an observer is told (kept only where one is watching, m.watch): calls and creations with their ends, and logs
Ev(m, e) == IF m.watch THEN [m EXCEPT !.tr = Append(@, e)] ELSE m

\* -------------------------------------------------------------------- LOG
DoLog(m, n, len) ==
  IF m.e # "" THEN m
  ELSE
  LET m1 == IF m.sp >= MINI THEN StorageGas(m, 3750 * n + 80 * len) ELSE m
      c  == 375 + 375 * n + 8 * len
      m2 == IF m1.e # "" THEN m1
            ELSE IF Top(m1).static THEN Fail(m1, "StateChangeDuringStaticCall")
            ELSE IF Top(m1).gas < c THEN Fail(m1, "OutOfGas")
            ELSE RecordCompute(Ev([Spend(m1, c) EXCEPT !.w.logs = Append(@, <<Top(m1).self, n, len>>)],
                                  <<"log", Top(m1).self, n, len>>), c)
  IN IF m2.e # "" \/ m2.sp < MINI THEN m2
     ELSE LET m3 == CheckLimit(AddUse(m2, n * TOPICSIZE + len, 0, 0))
          IN IF Exceeded(m3) THEN Fail(m3, "OutOfGas") ELSE m3

\* ------------------------------------------------------- environment reads
EnvBit(e) ==
  CASE e = "NUMBER" -> "NUMBER" [] e = "TIMESTAMP" -> "TIMESTAMP" [] e = "COINBASE" -> "COINBASE"
    [] e = "PREVRANDAO" -> "PREVRANDAO" [] e = "GASLIMIT" -> "GASLIMIT" [] e = "BASEFEE" -> "BASEFEE"
    [] e = "BLOBBASEFEE" -> "BLOBBASEFEE"

DoEnv(m, e) ==
  \* gas is taken before the host is asked
  IF m.e # "" THEN m
  ELSE IF Top(m).gas < 2 THEN Fail(m, "OutOfGas")
  ELSE Detain(RecordCompute(MarkEnv(Spend(m, 2), EnvBit(e)), 2))

DoBlobhash(m) ==
  IF m.e # "" THEN m
  ELSE IF Top(m).gas < 3 THEN Fail(m, "OutOfGas")
  ELSE Detain(RecordCompute(MarkEnv(Spend(m, 3), "BLOBHASH"), 3))

\* d0 = distance back from the number of the history's first block
DoBlockhash(m, d0) ==
  IF m.e # "" THEN m
  ELSE IF Top(m).gas < 20 THEN Fail(m, "OutOfGas")
  ELSE LET d  == d0 + m.nblk
           m1 == MarkEnv(Spend(m, 20), "NUMBER")
           m2 == IF d >= 1 /\ d <= 256
                 THEN [MarkEnv(m1, "BLOCKHASH") EXCEPT !.hashes = @ \union {d0}] ELSE m1
       IN Detain(RecordCompute(m2, 20))

AccCost(m, a) == IF IsWarm(m.w, a) THEN 100 ELSE 2600
DoAccRead(m, a) ==
  IF m.e # "" THEN m
  ELSE LET c == AccCost(m, a)
           m1 == [MarkBeneficiary(m, a) EXCEPT !.w = WarmA(@, a)]
       IN IF Top(m).gas < c THEN Fail(m1, "OutOfGas")
          ELSE Detain(RecordCompute(Spend(m1, c), c))

DoSelfbalance(m) ==
  IF m.e # "" THEN m
  ELSE IF Top(m).gas < 5 THEN Fail(m, "OutOfGas")
  ELSE RecordCompute(MarkBeneficiary(Spend(m, 5), Top(m).self), 5)

\* ------------------------------------------------------- frames: entering
IsOk(r) == r \in {"Stop", "Return", "SelfDestruct"}
IsRevert(r) == r \in {"Revert", "CallTooDeep", "OutOfFunds"}

EvEnd(m, gas, r, outlen) ==
  Ev(m, IF IsOk(r) THEN <<"end", "ok", gas, outlen>> ELSE IF IsRevert(r) THEN <<"end", "revert", gas, outlen>> ELSE <<"end", "halt", 0, 0>>)

\* hand a result to the frame below (or finish the transaction)
DeliverTo(mm, gas, ref, r, outlen, nodata) ==
  LET m == EvEnd(mm, gas, r, outlen)
      nested == Len(m.fr) > 0
      m1 == IF m.sp < MINI THEN m
            ELSE CheckLimit(PopTF(m, IsOk(r)))
      hit == m.sp >= MINI /\ Exceeded(m1)
      m2 == IF hit THEN [m1 EXCEPT !.resc = @ + gas] ELSE m1
      r2 == IF hit THEN "OutOfGas" ELSE r
      n  == Len(m2.fr)
  IN IF nested
     THEN LET back == IF IsOk(r2) \/ IsRevert(r2) THEN gas ELSE 0
          IN [m2 EXCEPT !.fr[n].gas = @ + back,
                        !.fr[n].ref = @ + (IF IsOk(r2) THEN ref ELSE 0),
                        !.fr[n].ret = IF IsOk(r2) THEN 1 ELSE 0,
                        !.fr[n].rds = IF ~nodata /\ (IsOk(r2) \/ IsRevert(r2)) THEN outlen ELSE 0, !.e = ""]
     ELSE [m2 EXCEPT !.fin = [r |-> r2, gas |-> gas, ref |-> ref, out |-> outlen], !.e = ""]
Deliver(m, gas, ref, r, outlen) == DeliverTo(m, gas, ref, r, outlen, FALSE)

\* calldata that decodes as sendHint(topic, bytes): nothing for other calldata, else
\* <<topic, payload length, variant of the encoding>>; extra bytes behind the encoding are ignored
IsHint(h) == h # <<>> /\ h[3] \in {"ok", "trail"}

CallPrologue == <<2, 3, 8, 1, 3, 3, -416>>
InitPrologue == <<3, 3, -416>>
InitLen(lvl) == CASE lvl = 1 -> 2048 [] lvl = 2 -> 1024 [] OTHER -> 512

Frame(kind, self, caller, cv, blk, gas, static, lvl, pro, w) ==
  [kind |-> kind, self |-> self, caller |-> caller, cv |-> cv, blk |-> blk, pc |-> 1, gas |-> gas,
   ref |-> 0, static |-> static, lvl |-> lvl, mw |-> 128, post |-> pro, pst |-> -1, ret |-> 0, rds |-> 0, snap |-> w]

\* what runs when the code of account a is executed, block b requested
CodeOf(w, a) == LET c == Acc(w, a).c IN IF c.t = "deleg" THEN [Acc(w, c.to).c EXCEPT !.to = "via"] ELSE c

\* A limit that is exceeded by the very last charge of a frame undoes the frame like any other
\* (deviation "latehalt": the outermost frame keeps its changes although it halts)
LateHalt(m, w) ==
  IF m.sp >= MINI /\ Exceeded(m) /\ "latehalt" \notin m.dev THEN [m EXCEPT !.w = Restore(w, m.w)] ELSE m

\* An observer may answer a call itself (m.icpt: whose calls, and creations by whom, how, at what price): then nothing of
\* it is executed or counted
Answered(m, a) == m.watch /\ a \in DOMAIN m.icpt
Answer(m, gas) ==
  LET a == m.icpt[IF Head(m.tr[Len(m.tr)]) = "create" THEN m.tr[Len(m.tr)][3] \o "+" ELSE m.tr[Len(m.tr)][4]]
      m1 == IF m.sp < MINI THEN m ELSE PushTF(m, "-", FALSE)
      m2 == Deliver(m1, Pos(gas - a.gas), 0, a.r, 0)
  \* (an answered creation has no address to give)
  IN IF Head(m.tr[Len(m.tr)]) = "create" THEN [m2 EXCEPT !.fr[Len(m2.fr)].ret = 0] ELSE m2

\* in : [scheme, to, self, caller, v (value moved), cv (apparent), b, gas, static, n (input bytes), hint]
EnterCall(mm, in) ==
  LET m0 == Ev(mm, <<"call", in.scheme, in.caller, in.self, in.to, in.v, in.gas, in.static, in.n>>)
      m1 == IF m0.sp >= MINI /\ m0.sp < REX3 /\ in.caller # SYS /\ in.self = ORC
            THEN LET t == MarkOracle(m0) IN [t EXCEPT !.lim.c = Min2(@, t.vlim)] ELSE m0
      m2 == IF m1.sp >= REX2 /\ in.self = ORC /\ IsHint(in.hint)
            THEN [m1 EXCEPT !.hints = Append(@, <<in.caller, in.hint[1], in.hint[2]>>),
                            !.reads = Append(@, <<"hint">>)] ELSE m1
      tr == in.moves /\ in.v # 0
      n0 == Len(m2.tf)
      callerUpd == tr /\ n0 > 0 /\ ~m2.tf[n0].upd
      m3 == IF m2.sp < MINI THEN m2
            ELSE LET p == PushTF(m2, in.self, tr)
                     x == (IF callerUpd THEN 1 ELSE 0) + (IF tr THEN 1 ELSE 0)
                     g == IF tr /\ EmptyForCharge(m2, in.self) THEN 1 ELSE 0
                 IN CheckLimit(AddAcc(Inspect(p, in.self), x, g))
      w0 == m3.w
      w1 == WarmA(w0, in.to)
      w2 == IF Acc(w1, in.to).c.t = "deleg" THEN WarmA(w1, Acc(w1, in.to).c.to) ELSE w1
      can == ~tr \/ Acc(w2, in.caller).b >= in.v
      w3 == IF tr THEN Transfer(WarmA(w2, in.self), in.caller, in.self, in.v) ELSE w2
      c  == CodeOf(w3, in.to)
      pre == Precompiled(m3.sp >= MINI, PreName(m3, in.to), IF IsPreInput(in.hint) THEN in.hint[4] ELSE Ordinary(in.n), in.gas)
  IN IF Answered(mm, in.self) THEN Answer(m0, in.gas)
     ELSE IF m3.sp >= MINI /\ Exceeded(m3) THEN Deliver(m3, in.gas, 0, "OutOfGas", 0)
     ELSE IF Len(m3.fr) > 1024 THEN Deliver(m3, in.gas, 0, "CallTooDeep", 0)
     ELSE IF ~can THEN Deliver([m3 EXCEPT !.w = w2], in.gas, 0, "OutOfFunds", 0)
     ELSE IF IsPre(m3, in.to)
          THEN IF pre.r = "Return"
               THEN LET mp == IF m3.sp < MINI THEN [m3 EXCEPT !.w = w3]
                              ELSE [RecordCompute([m3 EXCEPT !.w = w3], pre.g) EXCEPT !.e = ""]
                        late == m3.sp >= MINI /\ Exceeded(mp) /\ "latehalt" \notin m3.dev
                    IN Deliver(LateHalt(mp, w2), in.gas - pre.g, 0, IF late THEN "OutOfGas" ELSE "Return", pre.out)
               ELSE Deliver(IF m3.sp < MINI THEN [m3 EXCEPT !.w = w2]
                            ELSE [RecordCompute([m3 EXCEPT !.w = w2], 0) EXCEPT !.e = ""],
                            in.gas, 0, pre.r, 0)
     ELSE IF c.t = "none" THEN Deliver([m3 EXCEPT !.w = w3], in.gas, 0, "Stop", 0)
     ELSE LET blk == IF c.t = "code" THEN (IF in.hint # <<>> THEN "-bad" ELSE in.b) ELSE IF c.t = "raw" THEN "-stop" ELSE "-ef"
              pro == IF c.t # "code" THEN <<>> ELSE IF in.hint # <<>> THEN <<2, 3>> ELSE CallPrologue
          IN [m3 EXCEPT !.w = w3,
                !.fr = Append(@, Frame("call", in.self, in.caller, in.cv, blk, in.gas, in.static, 0, pro, w2))]

CreatedName(caller, nonce) == caller \o "#" \o ToString(nonce)
Created2Name(caller, b, salt, lvl) ==
  caller \o "@" \o b \o ":" \o ToString(salt) \o ":" \o ToString(lvl)

\* in : [caller, v, b, salt (-1: CREATE), gas, lvl]
EnterCreate(mm, in) ==
  LET m0 == Ev(mm, <<"create", IF in.salt = -1 THEN "CREATE" ELSE "CREATE2", in.caller, in.v, in.gas>>)
      n0 == Len(m0.tf)
      m1 == IF m0.sp < MINI THEN m0
            ELSE LET p == PushTF(m0, "-", TRUE)
                     x == IF n0 > 0 /\ ~m0.tf[n0].upd THEN 1 ELSE 0
                 IN CheckLimit(AddAcc(p, x, 1))
      ca == Acc(m1.w, in.caller)
      na == IF in.salt = -1 THEN CreatedName(in.caller, ca.n)
            ELSE Created2Name(in.caller, in.b, in.salt, in.lvl)
      w1 == WarmA(SetAcc(m1.w, in.caller, [ca EXCEPT !.n = @ + 1]), na)
      old == Acc(w1, na)
      w2 == SetAcc(w1, na, [old EXCEPT !.n = 1])
      w3 == [Transfer(w2, in.caller, na, in.v) EXCEPT !.cr = @ \union {na}]
      \* a refused creation transaction still uses up its nonce
      wx == IF m1.fr = <<>> THEN SetAcc(m1.w, in.caller, [ca EXCEPT !.n = @ + 1]) ELSE m1.w
  IN IF mm.fr # <<>> /\ Answered(mm, in.caller \o "+") THEN Answer(m0, in.gas)
     ELSE IF m1.sp >= MINI /\ Exceeded(m1) THEN Deliver([m1 EXCEPT !.w = wx], in.gas, 0, "OutOfGas", 0)
     ELSE IF Len(m1.fr) > 1024 THEN Deliver(m1, in.gas, 0, "CallTooDeep", 0)
     ELSE IF ca.b < in.v THEN Deliver(m1, in.gas, 0, "OutOfFunds", 0)
     ELSE IF old.c.t # "none" \/ old.n # 0
          THEN Deliver([m1 EXCEPT !.w = w1], in.gas, 0, "CreateCollision", 0)
     ELSE LET m2 == [m1 EXCEPT !.w = w3,
                       !.fr = Append(@, Frame("create", na, in.caller, in.v, in.b, in.gas, FALSE,
                                              in.lvl, IF in.b = "-stop" THEN <<>> ELSE InitPrologue, w1))]
          IN IF m2.sp < MINI THEN m2
             ELSE CheckLimit(AddAcc([m2 EXCEPT !.tf[Len(m2.tf)].tgt = na], 1, 0))

\* ------------------------------------------------------- frames: leaving
EndFrame(m0, r0, outlen, ef) ==
  LET n == Len(m0.fr)
      f == m0.fr[n]
      mini == m0.sp >= MINI
      create == f.kind = "create"
      \* code deposit storage gas and deployed-code data size
      \* ("unitdep": this charge is kept apart, see module Size)
      dep == IF mini /\ create /\ IsOk(r0) /\ "unitdep" \notin m0.dev THEN Mul(10000, outlen) ELSE 0
      short == f.gas < dep
      g1 == IF short THEN f.gas ELSE f.gas - dep
      r1 == IF short THEN "OutOfGas" ELSE r0
      m1 == IF mini /\ create /\ ~Exceeded(m0) THEN CheckLimit(AddUse(m0, outlen, 0, 0)) ELSE m0
      r2 == IF mini /\ create /\ Exceeded(m1) THEN "OutOfGas" ELSE r1
      \* return_create / return_call
      dg == 200 * outlen
      r3 == IF ~create \/ ~IsOk(r2) THEN r2
            ELSE IF ef /\ outlen > 0 /\ ~m0.cfg.ef THEN "CreateContractStartingWithEF"
            ELSE IF outlen > MaxCode(m0) THEN "CreateContractSizeLimit"
            ELSE IF g1 < dg THEN "OutOfGas"
            ELSE "Return"
      keep == IsOk(r3)
      g3 == IF create /\ keep THEN g1 - dg ELSE g1
      w1 == IF ~keep THEN Restore(f.snap, m1.w)
            ELSE IF create THEN SetAcc(m1.w, f.self, [Acc(m1.w, f.self) EXCEPT !.c = IF ef /\ outlen > 0 THEN EfCode(outlen) ELSE Raw(outlen)])
            ELSE m1.w
      m2 == [m1 EXCEPT !.w = w1, !.fr = SubSeq(@, 1, n - 1), !.e = ""]
      m3 == IF mini THEN [RecordCompute(m2, g1 - g3) EXCEPT !.e = ""] ELSE m2
      r4 == IF mini /\ Exceeded(m3) THEN "OutOfGas" ELSE r3
  \* a creation that succeeds leaves its caller no return data
  IN DeliverTo(LateHalt(m3, f.snap), g3, f.ref, r4, outlen, create /\ IsOk(r4))

\* --------------------------------------------------------------- calls
CallSelf(kind, f, to) == IF kind \in {"CALL", "STATICCALL"} THEN to ELSE f.self

DoCall(m0, op) ==
  LET f    == Top(m0)
      kind == op.t
      v    == IF kind \in {"CALL", "CALLCODE"} THEN op.v ELSE 0
      to   == op.to
      sg   == m0.sp >= MINI /\ (kind = "CALL" \/ (kind = "CALLCODE" /\ m0.sp >= REX))
              /\ v # 0 /\ EmptyForCharge(m0, to)
      mi   == IF kind = "CALL" \/ m0.sp >= REX THEN Inspect(m0, to) ELSE m0
      m1   == IF m0.e # "" THEN m0
              ELSE IF sg THEN ChargeBucket(mi, BaseAccount(m0.sp), AccBucket(to)) ELSE mi
      tacc == Acc(m0.w, to)
      dlg  == tacc.c.t = "deleg"
      wA   == WarmA(mi.w, to)
      wB   == IF dlg THEN WarmA(wA, tacc.c.to) ELSE wA
      cost == (IF IsWarm(mi.w, to) THEN 100 ELSE 2600)
              + (IF dlg THEN (IF IsWarm(wA, tacc.c.to) THEN 100 ELSE 2600) ELSE 0)
              + (IF v # 0 THEN 9000 ELSE 0)
              + (IF v # 0 /\ kind = "CALL" /\ IsEmpty(tacc) THEN 25000 ELSE 0)
      m2   == IF m1.e # "" THEN m1
              ELSE IF kind = "CALL" /\ v # 0 /\ f.static THEN Fail(m1, "CallNotAllowedInsideStatic")
              ELSE LET mb == [MarkBeneficiary(m1, to) EXCEPT !.w = wB]
                   IN IF Top(mb).gas < cost THEN Fail(mb, "OutOfGas") ELSE Spend(mb, cost)
      left == Top(m2).gas
      want == IF op.g = -1 THEN op.gasop ELSE op.g
      fwd  == Min2(left - left \div 64, want)
      stip == IF v # 0 THEN 2300 ELSE 0
      m3   == IF m2.e # "" THEN m2
              ELSE RecordCompute(Spend(m2, fwd), Pos(cost - stip))
      capped == m0.sp >= MINI /\ (kind = "CALL" \/ m0.sp >= REX)
      fwd2 == IF capped THEN Min2(fwd, left - left \div 50) ELSE fwd
      m4   == Spend(m3, fwd2 - fwd)
      self == CallSelf(kind, f, to)
  IN IF m3.e # ""
     \* a limit exceeded by the call instruction itself: the gas set aside for the callee is
     \* still unspent and stays with the frame (deviation "callgas": it is lost)
     THEN IF m2.e = "" /\ "callgas" \notin m0.dev THEN Spend(m3, -fwd) ELSE m3
     ELSE EnterCall(m4,
            [scheme |-> kind, to |-> to, self |-> self,
             caller |-> IF kind = "DELEGATECALL" THEN f.caller ELSE f.self,
             v |-> IF kind = "DELEGATECALL" THEN f.cv ELSE v,
             moves |-> kind # "DELEGATECALL",
             cv |-> IF kind = "DELEGATECALL" THEN f.cv ELSE v,
             b |-> op.b, gas |-> fwd2 + stip,
             static |-> f.static \/ kind = "STATICCALL",
             n |-> op.n, hint |-> op.hint])

DoCreate(m0, op) ==
  LET f    == Top(m0)
      lvl  == f.lvl + 1
      len  == InitLen(lvl)
      is2  == op.salt # -1
      name == IF is2 THEN Created2Name(f.self, op.b, op.salt, lvl)
              ELSE CreatedName(f.self, Acc(m0.w, f.self).n)
      m1   == IF m0.e # "" \/ m0.sp < MINI THEN m0
              ELSE ChargeBucket(m0, BaseCreate(m0.sp), AccBucket(name))
      cost == 32000 + 2 * Words(len) + (IF is2 THEN 6 * Words(len) ELSE 0)
      m2   == IF m1.e # "" THEN m1
              ELSE IF f.static THEN Fail(m1, "StateChangeDuringStaticCall")
              ELSE IF len > MaxInit(m1) THEN Fail(m1, "CreateInitCodeSizeLimit")
              ELSE IF Top(m1).gas < 2 * Words(len) THEN Fail(m1, "OutOfGas")
              ELSE IF Top(m1).gas < cost THEN Fail(Spend(m1, 2 * Words(len)), "OutOfGas")
              ELSE Spend(m1, cost)
      left == Top(m2).gas
      fwd  == left - left \div 64
      m3   == IF m2.e # "" THEN m2 ELSE RecordCompute(Spend(m2, fwd), cost)
      fwd2 == IF m0.sp >= MINI THEN Min2(fwd, left - left \div 50) ELSE fwd
      m4   == Spend(m3, fwd2 - fwd)
  IN IF m3.e # "" THEN (IF m2.e = "" /\ "callgas" \notin m0.dev THEN Spend(m3, -fwd) ELSE m3)
     ELSE EnterCreate(m4, [caller |-> f.self, v |-> op.v, b |-> op.b, salt |-> op.salt,
                           gas |-> fwd2, lvl |-> lvl])

\* ---------------------------------------------------------- SELFDESTRUCT
DoSelfdestruct(m, to) ==
  IF m.e # "" THEN m
  ELSE IF m.sp >= MINI /\ m.sp < REX2 THEN Fail(m, "InvalidFE")
  ELSE IF Top(m).static THEN Fail(m, "StateChangeDuringStaticCall")
  ELSE LET a == Top(m).self
           x == Acc(m.w, a)
           y == Acc(m.w, to)
           cost == 5000 + (IF IsWarm(m.w, to) THEN 0 ELSE 2600)
                   + (IF x.b # 0 /\ IsEmpty(y) THEN 25000 ELSE 0)
           w1 == WarmA(m.w, to)
           new == a \in m.w.cr
           w2 == IF to # a THEN Transfer(w1, a, to, x.b)
                 ELSE IF new THEN [SetAcc(w1, a, [x EXCEPT !.b = 0]) EXCEPT !.burn = @ + x.b] ELSE w1
           w3 == IF new THEN [w2 EXCEPT !.sd = @ \union {a}] ELSE w2
       IN IF Top(m).gas < cost THEN Fail([m EXCEPT !.w = w1], "OutOfGas")
          ELSE LET m1 == RecordCompute(Spend([m EXCEPT !.w = w3], cost), cost)
               IN IF m1.e # "" THEN m1 ELSE [m1 EXCEPT !.e = "SelfDestruct"]

\* ------------------------------------------------------------------- Step
\* memory expansion to at least w words by an instruction of price 3
MemCost(f, w) == IF w > f.mw THEN MemGas(w) - MemGas(f.mw) ELSE 0

Finish(m, r, outlen, ef) == EndFrame(m, r, outlen, ef)

\* one plain instruction (MegaOps); its value is dropped (op.s = -1) or stored in slot op.s
DoPlainOp(m, op) ==
  LET x  == IF op.e \in DOMAIN HugeFine THEN HugeFine[op.e] ELSE Plain0(op.e, op.n)
      v  == IF x.val = -3 THEN Top(m).cv ELSE IF x.val = -4 THEN 32 * Top(m).mw
            ELSE IF x.val = -5 THEN Top(m).rds ELSE x.val
      m1 == PlainSeq(m, Append(x.pre, x.c))
      m2 == IF x.val = -2 THEN m1 ELSE IF op.s = -1 THEN Plain(m1, 2) ELSE DoSstore(Plain(m1, 3), op.s, v)
  IN PlainSeq(m2, x.post)

\* instructions that ask the environment, followed by a comparison of what they yield
ValRead(m, op) ==
  CASE op.e = "BLOBHASH" -> DoBlobhash(Plain(m, 3))
    [] op.e = "BLOCKHASH" -> DoBlockhash(Plain(m, 3), op.d)
    [] op.e \in {"EXTCODEHASH", "EXTCODESIZE"} -> DoAccRead(Plain(m, 3), op.to)
    [] op.e = "GASPRICE" -> Plain(m, 2)
    [] op.e = "SELFBALANCE" -> DoSelfbalance(m)
    [] OTHER -> DoEnv(m, op.e)
ValHolds(m, op) ==
  CASE op.e = "NUMBER" -> op.d = m.nblk          \* (counted from the first block)
    [] op.e = "COINBASE" -> op.to = m.coin
    [] op.e = "BASEFEE" -> op.d = m.fee.base
    [] op.e = "GASPRICE" -> op.d = m.tx.price
    [] op.e = "GASLIMIT" -> m.cfg.blk = BIG
    [] op.e = "BLOCKHASH" -> ~(op.d + m.nblk \in 1 .. 256)   \* zero
    [] op.e = "EXTCODEHASH" -> IsEmpty(Acc(m.w, op.to))       \* zero
    [] op.e = "EXTCODESIZE" -> LET c == Acc(m.w, op.to).c IN
                               CASE c.t = "none" -> op.d = 0 [] c.t \in {"raw", "ef"} -> op.d = c.len [] c.t = "deleg" -> op.d = 23 [] OTHER -> FALSE
    [] OTHER -> TRUE

\* what follows a call or creation: cs are plain instructions, then (k # -1) its success is stored in slot k
PostTo(m, cs, k) == [m EXCEPT !.fr[Len(m.fr)].post = cs, !.fr[Len(m.fr)].pst = k]
Post(m, cs) == PostTo(m, cs, -1)

ExecOp(m0, op) ==
  LET n == Len(m0.fr)
      m == [m0 EXCEPT !.fr[n].pc = @ + 1]
      f == m.fr[n]
  IN
  CASE op.o = "SSTORE" -> DoSstore(PlainSeq(m, <<3, 3>>), op.k, op.v)
    [] op.o = "SLOAD"  -> Plain(DoSload(Plain(m, 3), op.k), 2)
    [] op.o = "SCOPY"  -> LET v == ReadVal(m, f.self, op.k)
                          IN DoSstore(Plain(DoSload(Plain(m, 3), op.k), 3), op.d, v)
    [] op.o = "GASST"  -> LET m1 == Plain(m, 2) IN DoSstore(Plain(m1, 3), op.k, Top(m1).gas)
    [] op.o = "BALST"  -> LET v == Acc(m.w, op.to).b IN DoSstore(Plain(DoAccRead(Plain(m, 3), op.to), 3), op.k, v)
    [] op.o = "TSTORE" -> LET m1 == PlainSeq(m, <<3, 3>>) IN
                          IF m1.e # "" THEN m1
                          ELSE IF f.static THEN Fail(m1, "StateChangeDuringStaticCall")
                          ELSE LET m2 == Plain(m1, 100) IN
                               IF m2.e # "" THEN m2
                               ELSE [m2 EXCEPT !.w.ts = (<<f.self, op.k>> :> op.v) @@ @]
    [] op.o = "TCOPY"  -> LET v == Get(m.w.ts, <<f.self, op.k>>, 0)
                          IN DoSstore(PlainSeq(m, <<3, 100, 3>>), op.d, v)
    [] op.o = "LOG"    -> DoLog(PlainSeq(m, [i \in 1 .. op.n + 2 |-> 3]), op.n, op.len)
    [] op.o = "ENV"    -> Plain(DoEnv(m, op.e), 2)
    [] op.o = "BLOBHASH" -> Plain(DoBlobhash(Plain(m, 3)), 2)
    [] op.o = "BLOCKHASH" -> Plain(DoBlockhash(Plain(m, 3), op.d), 2)
    [] op.o = "ACC"    -> IF op.e = "EXTCODECOPY"
                          THEN DoAccRead(PlainSeq(m, <<3, 3, 3, 3>>), op.to)
                          ELSE Plain(DoAccRead(Plain(m, 3), op.to), 2)
    [] op.o = "SELFBALANCE" -> Plain(DoSelfbalance(m), 2)
    [] op.o = "PL"     -> DoPlainOp(m, op)
    [] op.o = "IS"     ->
         \* does ADDRESS / CALLER / ORIGIN give account op.to?  The answer goes to slot op.k
         LET a == CASE op.e = "ADDRESS" -> f.self [] op.e = "CALLER" -> f.caller [] OTHER -> m.tx.from
         IN DoSstore(PlainSeq(m, <<2, 3, 3, 3>>), op.k, IF a = op.to THEN 1 ELSE 0)
    [] op.o = "VAL"    ->
         \* is what the instruction yields the number op.d, the account op.to or (where that says nothing) what it should be?
         DoSstore(PlainSeq(ValRead(m, op), IF op.e = "SELFBALANCE" THEN <<3>> ELSE <<3, 3, 3>>), op.k,
                  IF op.e = "SELFBALANCE" THEN Acc(m.w, f.self).b ELSE IF ValHolds(m, op) THEN 1 ELSE 0)
    [] op.o = "CLZ"    -> LET m1 == Plain(m, 3) IN IF m1.e # "" THEN m1 ELSE Fail(m1, "NotActivated")
    [] op.o = "UNDEF"  -> Fail(m, "OpcodeNotFound")
    \* (these two only where gas is plentiful and outside static calls)
    [] op.o = "HUGE"   -> LET m1 == PlainSeq(m, [i \in 1 .. op.k |-> 3]) IN IF m1.e # "" THEN m1 ELSE Fail(m1, HugeHalt[op.e])
    [] op.o = "FEW"    -> LET m1 == PlainSeq(m, [i \in 1 .. op.k |-> 3]) IN IF m1.e # "" THEN m1 ELSE Fail(m1, IF op.n \in 128 .. 159 THEN "StackOverflow" ELSE "StackUnderflow")
    [] op.o = "BURN"   -> PlainSeq(m, [i \in 1 .. op.n |-> 1])
    [] op.o = "MEM"    -> LET c == MemCost(f, op.w)
                              m1 == PlainSeq(m, <<3, 3, IF c = 0 THEN 3 ELSE -c>>)
                          IN IF m1.e # "" THEN m1 ELSE [m1 EXCEPT !.fr[n].mw = Max2(@, op.w)]
    [] op.o = "CALL"   ->
         LET vals == op.t \in {"CALL", "CALLCODE"}
             pre == (IF op.hint # <<>> THEN <<3, 3, 3, 3 + 3 * Words(op.n)>> ELSE <<3, 3, 3>>)
                    \o <<3, 3, 3, 3>> \o (IF vals THEN <<3>> ELSE <<>>)
                    \o <<3, IF op.g = -1 THEN 2 ELSE 3>>
             m1 == PlainSeq(PostTo(m, IF op.s = -1 THEN <<2>> ELSE <<3>>, op.s), pre)
         IN IF m1.e # "" THEN m1
            ELSE DoCall(m1, [op EXCEPT !.gasop = Top(m1).gas])
    [] op.o = "CREATE" ->
         LET len == InitLen(f.lvl + 1)
             pre == <<3, 3, 3, 3 + 3 * Words(len)>> \o (IF op.salt # -1 THEN <<3>> ELSE <<>>) \o <<3, 3, 3>>
             m1 == PlainSeq(PostTo(m, IF op.s = -1 THEN <<2>> ELSE <<3, 3, 3>>, op.s), pre)
         IN IF m1.e # "" THEN m1 ELSE DoCreate(m1, op)
    [] op.o = "SELFDESTRUCT" -> DoSelfdestruct(Plain(m, 3), op.to)
    [] op.o = "STOP"   -> LET m1 == RecordCompute(m, 0) IN IF m1.e # "" THEN m1 ELSE Fail(m, "Stop")
    [] op.o = "BADJUMP" -> IF Top(m).gas < 8 THEN Fail(m, "OutOfGas") ELSE Fail(Spend(m, 8), "InvalidJump")
    [] op.o = "INVALID" -> Fail(m, "InvalidFE")
    [] op.o = "UNDERFLOW" -> IF Top(m).gas < 2 THEN Fail(m, "OutOfGas") ELSE Fail(Spend(m, 2), "StackUnderflow")
    [] op.o \in {"RETURN", "REVERT"} ->
         LET m1 == PlainSeq(m, <<3, 3>> \o (IF op.ef THEN <<3, 3, 3>> ELSE <<>>))
             c  == MemCost(f, Words(op.n))
         IN IF m1.e # "" THEN m1
            ELSE IF Top(m1).gas < c THEN Fail(m1, "MemoryOOG")
            ELSE LET m2 == RecordCompute(Spend(m1, c), c) IN
                 IF m2.e # "" THEN m2
                 ELSE [m2 EXCEPT !.e = IF op.o = "RETURN" THEN "Return" ELSE "Revert",
                                 !.out = op.n, !.ef = op.ef]

OpAt(m) ==
  LET f == Top(m) IN
  IF f.blk = "-stop" THEN [o |-> "STOP"]
  ELSE IF f.blk = "-ef" THEN [o |-> "EFOP"]
  ELSE IF f.blk = "-bad" THEN [o |-> "BADJUMP"]
  ELSE LET b == m.code[f.blk] IN
       IF f.pc > Len(b) THEN [o |-> "STOP"] ELSE b[f.pc]

\* One step of a running transaction (m.fin.r = "" and at least one frame).
Step(m) ==
  IF m.sp >= MINI /\ Exceeded(m) THEN EndFrame(m, "OutOfGas", 0, FALSE)
  ELSE
  LET f  == Top(m)
      op == OpAt(m)
      depth == Len(m.fr)
      m0 == [m EXCEPT !.out = 0, !.ef = FALSE]
      m1 == IF f.post # <<>>
            THEN LET p == PlainSeq(Post(m0, <<>>), f.post)
                 IN IF f.pst = -1 THEN p ELSE DoSstore(p, f.pst, f.ret)
            ELSE IF op.o = "EFOP" THEN Fail(m0, "OpcodeNotFound")
            ELSE ExecOp(m0, op)
  IN IF m1.e = "" THEN m1
     ELSE IF m1.e \in {"Return", "Revert"} THEN EndFrame(m1, m1.e, m1.out, m1.ef)
     ELSE EndFrame(m1, m1.e, 0, FALSE)
=============================================================================
