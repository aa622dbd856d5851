----------------------------- MODULE MegaKeyless -----------------------------
(***************************************************************************)
(* Keyless deployment: a top-level call of the deployer contract carries a *)
(* pre-EIP-155 contract creation signed by somebody else.  The request is  *)
(* validated; then the embedded transaction runs as a transaction of its   *)
(* own on the world the outer one has reached, and what it leaves behind   *)
(* becomes part of the outer transaction.                                  *)
(*                                                                         *)
(* A transaction with such calldata has a field                            *)
(*   kl : [bad, from, nonce, price, gl, ov, v, b, nz, z]                   *)
(*     bad    "" or what is wrong with the encoding                        *)
(*     from   the signer; nonce, price, gl (gas limit), v: the signed      *)
(*            transaction; b, nz, z: its init code; ov: the gas override   *)
(* While the embedded transaction runs, m is its machine and m.up holds    *)
(* the machine of the outer one.  m.kl is what the caller is told:         *)
(* <<error, gas used, address, error arguments>>.                          *)
(***************************************************************************)
EXTENDS MegaRun

KLD == "KLD"
KLOVERHEAD == 100000

KlRefusals == {"NoEtherTransfer", "MalformedEncoding", "NotContractCreation", "NotPreEIP155", "NonZeroTxNonce", "GasLimitTooLow",
               "InvalidSignature", "SignerNonceTooHigh", "ContractAlreadyExists", "InsufficientBalance", "InternalError"}

\* accounts that differ between two worlds, or whose storage does
Differs(v, w) ==
  {a \in DOMAIN v.acc \union DOMAIN w.acc : Acc(v, a) # Acc(w, a)}
  \union {q[1] : q \in {x \in DOMAIN v.st \union DOMAIN w.st : Slot(v, x[1], x[2]) # Slot(w, x[1], x[2])}}

Intercepted(m, tx) ==
  /\ m.sp >= REX2 /\ tx.kind = "call" /\ tx.to = KLD /\ "kl" \in DOMAIN tx /\ tx.kl.bad # "abi"
  /\ ~Exceeded(m)

KlTell(m, r, gas, kl) == [m EXCEPT !.fin = [r |-> r, gas |-> gas, ref |-> 0, out |-> -1], !.kl = kl]

KlTarget(k) == CreatedName(k.from, 0)
KlPoor(w, k) == (k.price > 0 /\ k.ov > (BIG - k.v) \div k.price) \/ k.ov * k.price + k.v > Acc(w, k.from).b

\* why a request is refused: <<>> or <<error, arguments>>
KlRefusal(m, tx) ==
  LET k == tx.kl IN
  IF tx.v # 0 THEN <<"NoEtherTransfer", <<>>>>
  ELSE IF k.bad = "rlp" THEN <<"MalformedEncoding", <<>>>>
  ELSE IF k.bad = "to" THEN <<"NotContractCreation", <<>>>>
  ELSE IF k.bad = "155" THEN <<"NotPreEIP155", <<>>>>
  ELSE IF k.nonce # 0 THEN <<"NonZeroTxNonce", <<k.nonce>>>>
  ELSE IF k.ov < k.gl THEN <<"GasLimitTooLow", <<k.gl, k.ov>>>>
  ELSE IF k.bad = "sig" THEN <<"InvalidSignature", <<>>>>
  ELSE IF Acc(m.w, k.from).n > 1 THEN <<"SignerNonceTooHigh", <<Acc(m.w, k.from).n>>>>
  ELSE IF Acc(m.w, KlTarget(k)).c.t # "none" THEN <<"ContractAlreadyExists", <<>>>>
  ELSE IF KlPoor(m.w, k) THEN <<"InsufficientBalance", <<>>>>
  ELSE <<>>

\* The machine of the embedded transaction: nonce zero, the usual limits.
\* (deviation "kldenv": it does not see the buckets' sizes, nor the oracle, and neither hints nor lookups leave it;
\* deviation "klddyn": nor does it have the precompiles the operator has added)
KlInner(m, k) ==
  LET d   == DefaultLimits(m.sp)
      lim == [d |-> d.d, k |-> d.k, c |-> d.c, g |-> d.g]
      w   == Clean(m.w)
      dv  == "kldenv" \in m.dev
  IN [m EXCEPT !.w = [w EXCEPT !.acc = IF k.from \in DOMAIN @ THEN [@ EXCEPT ![k.from].n = 0] ELSE @],
               !.lim = lim, !.lim0 = lim, !.cap = [be |-> d.be, or |-> d.or], !.up = <<m>>,
               !.bkt = IF dv THEN "-" :> 256 ELSE @, !.seen = IF dv THEN {} ELSE @,
               !.orc = IF dv THEN EmptyMap ELSE @,
               !.dyn = IF "klddyn" \in m.dev THEN FALSE ELSE @,
               !.size = IF "fz" \in DOMAIN k THEN Max2(MINSIZE, 836500 * k.fz - 42585600) ELSE MINSIZE]
KlTx(k) == [kind |-> "create", typ |-> "legacy", from |-> k.from, to |-> "-", b |-> k.b, v |-> k.v, gas |-> k.ov,
            price |-> k.price, nonce |-> 0, nz |-> k.nz, z |-> k.z, al |-> <<>>, auth |-> <<>>, hint |-> <<>>, mint |-> 0]

KlCall(m) ==
  LET tx == m.tx
      g0 == tx.gas - m.ini
      g  == g0 - KLOVERHEAD
      m1 == IF m.sp >= REX3 THEN [RecordCompute(m, KLOVERHEAD) EXCEPT !.e = ""] ELSE m
      r  == KlRefusal(m1, tx)
  IN IF g < 0 THEN KlTell(m, "OutOfGas", 0, <<>>)
     ELSE IF Exceeded(m1) THEN [KlTell(m1, "OutOfGas", g, <<>>) EXCEPT !.resc = @ + g]
     ELSE IF r # <<>> THEN KlTell(m1, "Revert", g, <<r[1], 0, "-", r[2]>>)
     \* (BIG stands for more than the block's gas limit)
     ELSE IF tx.kl.ov = BIG THEN KlTell(m1, "Revert", g, <<"InternalError", 0, "-", <<>>>>)
     ELSE TxEnter(TxBegin(KlInner(m1, tx.kl), KlTx(tx.kl)))

\* the embedded transaction has ended
KlReturn(m) ==
  LET o == m.up[1]
      s == Settle(m)
      n == s.m
      g == (o.tx.gas - o.ini) - KLOVERHEAD
      used == s.res.gas
      good == s.res.kind = "Success" /\ m.fin.out > 0
      kl == IF good THEN <<"", used, KlTarget(o.tx.kl), <<>>>>
            ELSE IF s.res.kind = "Success" THEN <<"EmptyCodeDeployed", used, "ZERO", <<used>>>>
            ELSE IF s.res.kind = "Revert" THEN <<"ExecutionReverted", used, "ZERO", <<used, s.res.out>>>>
            ELSE <<"ExecutionHalted", used, "ZERO", <<used>>>>
      o1 == IF "kldenv" \in o.dev THEN o
            ELSE [o EXCEPT !.seen = n.seen, !.hints = @ \o n.hints, !.reads = @ \o n.reads]
      o2 == [o1 EXCEPT !.hashes = n.hashes, !.w.acc = n.w.acc, !.w.st = n.w.st, !.w.burn = m.w.burn + Lost(m.w) + (IF m.coin \in m.w.sd THEN Pos(m.tx.price - m.fee.base) * used ELSE 0),
                       !.w.logs = IF good THEN n.w.logs ELSE @]
  IN IF s.res.kind = "Error" THEN KlTell(o, "Revert", g, <<"InternalError", 0, "-", <<>>>>)
     ELSE KlTell(o2, "Return", g, kl)

\* ------------------------------------------------- whole transactions, again
Start(mm, tx) ==
  LET m == TxBegin(mm, tx) IN
  IF Running(m) /\ Intercepted(m, tx) THEN KlCall(m) ELSE TxEnter(m)
Live(m) == Running(m) \/ m.up # <<>>
Advance(m) == IF Running(m) THEN Step(m) ELSE KlReturn(m)
\* the machine of the transaction offered, also while it executes an embedded one
Outermost(m) == IF m.up = <<>> THEN m ELSE m.up[1]

\* -------------------------------------------------------------- promises
\* What an ended embedded transaction leaves: m before, n after KlReturn
KlPromise(m, n) ==
  LET o == m.up[1]
      k == o.tx.kl
      signer == Acc(n.w, k.from)
      fee == n.kl[2] * k.price + L1Fee(m.fee, m.size) + OpFee(m.fee, n.kl[2])
      oldb == Acc(o.w, k.from).b
  IN /\ n.up = <<>>
     /\ n.fin.gas = (o.tx.gas - o.ini) - KLOVERHEAD        \* the outer gas does not depend on the embedded transaction
     /\ n.kl[1] \in KlRefusals => n.w = o.w
     /\ n.kl[1] \notin KlRefusals =>
          /\ signer.n >= 1
          /\ n.kl[2] <= k.ov
          /\ n.kl[1] \in {"ExecutionReverted", "ExecutionHalted"} =>
               /\ Differs(o.w, n.w) \subseteq {k.from, n.coin} \union Vaults
               /\ k.from # n.coin => signer.b = oldb - fee
               /\ n.w.logs = o.w.logs
          /\ n.kl[1] = "" => (Acc(n.w, KlTarget(k)).c.t # "none" \/ KlTarget(k) \in m.w.sd)
=============================================================================
