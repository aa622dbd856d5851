------------------------------- MODULE MegaOps -------------------------------
(***************************************************************************)
(* The plain instructions: what each of them costs and yields.             *)
(* pre: prices of the instructions that put its operands on the stack,     *)
(* c: its own price, val: the value it leaves (-1: not a value that        *)
(* programs store, -2: it leaves nothing), post: prices of what follows.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

PushCosts(n) == [i \in 1 .. n |-> 3]
Row(n, c, v) == [pre |-> PushCosts(n), c |-> c, val |-> v, post |-> <<>>]

Simple ==
  [ADD |-> Row(2, 3, 12), MUL |-> Row(2, 5, 35), SUB |-> Row(2, 3, 2), DIV |-> Row(2, 5, 7), SDIV |-> Row(2, 5, 7),
   MOD |-> Row(2, 5, 2), SMOD |-> Row(2, 5, 2), ADDMOD |-> Row(3, 8, 1), MULMOD |-> Row(3, 8, 3),
   EXP |-> Row(2, 60, 125), EXP2 |-> Row(2, 110, 1), EXP0 |-> Row(2, 10, 1), SIGNEXTEND |-> Row(2, 5, 127),
   LT |-> Row(2, 3, 1), GT |-> Row(2, 3, 0), SLT |-> Row(2, 3, 1), SGT |-> Row(2, 3, 0), EQ |-> Row(2, 3, 0),
   ISZERO |-> Row(1, 3, 1), AND |-> Row(2, 3, 8), OR |-> Row(2, 3, 14), XOR |-> Row(2, 3, 6), NOT |-> Row(1, 3, -1),
   BYTE |-> Row(2, 3, 171), SHL |-> Row(2, 3, 48), SHR |-> Row(2, 3, 3), SAR |-> Row(2, 3, 3),
   KECCAK256 |-> Row(2, 42, -1),
   ADDRESS |-> Row(0, 2, -1), ORIGIN |-> Row(0, 2, -1), CALLER |-> Row(0, 2, -1), CALLVALUE |-> Row(0, 2, -3),
   CALLDATALOAD |-> Row(1, 3, -1), CALLDATASIZE |-> Row(0, 2, -1), CALLDATACOPY |-> Row(3, 9, -2),
   CODESIZE |-> Row(0, 2, -1), CODECOPY |-> Row(3, 9, -2), GASPRICE |-> Row(0, 2, -1), RETURNDATASIZE |-> Row(0, 2, -5),
   RETURNDATACOPY |-> Row(3, 3, -2), CHAINID |-> Row(0, 2, 6342),
   MLOAD |-> Row(1, 3, -1), MSTORE |-> Row(2, 3, -2), MSTORE8 |-> Row(2, 3, -2), MCOPY |-> Row(3, 6, -2),
   JUMP |-> [pre |-> <<3>>, c |-> 8, val |-> -2, post |-> <<1>>],
   JUMPI |-> [pre |-> <<3, 3>>, c |-> 10, val |-> -2, post |-> <<1>>],
   JUMPN |-> [pre |-> <<3, 3>>, c |-> 10, val |-> -2, post |-> <<1>>],
   JUMPDEST |-> Row(0, 1, -2), PC |-> Row(0, 2, -1), MSIZE |-> Row(0, 2, -4), GAS |-> Row(0, 2, -1), PUSH0 |-> Row(0, 2, 0)]

\* families with a number
Numbered(e, n) ==
  CASE e = "PUSH" -> [pre |-> <<>>, c |-> 3, val |-> IF n = 1 THEN 1 ELSE -1, post |-> <<>>]
    [] e = "DUP"  -> [pre |-> PushCosts(n), c |-> 3, val |-> 1, post |-> [i \in 1 .. n |-> 2]]
    [] e = "SWAP" -> [pre |-> PushCosts(n + 1), c |-> 3, val |-> 1, post |-> [i \in 1 .. n |-> 2]]
Plain0(e, n) == IF e \in {"PUSH", "DUP", "SWAP"} THEN Numbered(e, n) ELSE Simple[e]

\* Instructions with operands far beyond anything that could be paid for: how they end.
HugeHalt ==
  [LOGLEN64 |-> "InvalidOperandOOG", LOGLEN40 |-> "OutOfGas", LOGOFF40 |-> "MemoryOOG", LOGOFF64 |-> "InvalidOperandOOG",
   MSTORE40 |-> "MemoryOOG", MSTORE64 |-> "InvalidOperandOOG", MLOAD64 |-> "InvalidOperandOOG", KECLEN40 |-> "OutOfGas",
   KECOFF40 |-> "MemoryOOG", RETOFF40 |-> "MemoryOOG", RETLEN64 |-> "InvalidOperandOOG", REVLEN64 |-> "InvalidOperandOOG",
   REVOFF40 |-> "MemoryOOG", CALLIN40 |-> "MemoryOOG", CALLIN64 |-> "InvalidOperandOOG", CALLOUT40 |-> "MemoryOOG",
   CALLOUT64 |-> "InvalidOperandOOG", SCALLIN40 |-> "MemoryOOG", DCALLIN64 |-> "InvalidOperandOOG", CCALLOUT40 |-> "MemoryOOG",
   CREATELEN40 |-> "CreateInitCodeSizeLimit", CREATELEN64 |-> "InvalidOperandOOG", CREATEOFF40 |-> "MemoryOOG", CREATEOFF64 |-> "InvalidOperandOOG",
   CREATE2LEN40 |-> "CreateInitCodeSizeLimit", CREATE2LEN64 |-> "InvalidOperandOOG", CREATE2OFF40 |-> "MemoryOOG", CREATE2OFF64 |-> "InvalidOperandOOG",
   CREATE2MAX |-> "CreateInitCodeSizeLimit", CREATE2OFFMAX |-> "MemoryOOG", LOGOFFMAX |-> "MemoryOOG",
   CDCOPY40 |-> "MemoryOOG", CDCOPYLEN40 |-> "OutOfGas", RDCOPY1 |-> "OutOfOffset", JUMPBIG |-> "InvalidJump",
   ECCOPYLEN40 |-> "OutOfGas", ECCOPYOFF40 |-> "MemoryOOG", ECCOPYLEN64 |-> "InvalidOperandOOG", MCOPY40 |-> "MemoryOOG"]
\* ... and those that are harmless: [pre, c, val, post] as above
HugeFine ==
  [EXPBIG |-> Row(2, 1610, 1), CDLOADBIG |-> Row(1, 3, 0), SHLBIG |-> Row(2, 3, 0), BYTEBIG |-> Row(2, 3, 0), CDCOPYSRC |-> Row(3, 6, -2)]
=============================================================================
