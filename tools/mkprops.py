#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
S="crates/mega-evm/src/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith("/") else f[1:] for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=S+b if not b.startswith("/") else b[1:]) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Under the EQUIVALENCE spec the EVM is exactly Optimism Isthmus",
 "Under the EQUIVALENCE spec every transaction yields exactly the result, gas used, refund, logs and state changes that the unmodified Optimism Isthmus EVM yields for the same transaction on the same state. No storage gas, resource limit, gas detention, gas-forwarding, oracle, system-transaction or keyless rule of later specs leaks into it.",
 ["programs","inputs"],"All call/create/storage/log/selfdestruct programs, all transaction kinds and all pre-states.",
 "Only 3 equivalence tests run a handful of programs; the dispatch on spec is spread over instruction tables, handler, host and precompiles.",
 ["evm/execution.rs","evm/instructions.rs","evm/host.rs","evm/precompiles.rs","evm/context.rs","evm/spec.rs"],
 [("spec-gated handler/instruction/precompile selection","evm/execution.rs")],["ResultAndState of transact"])
p("C02","A transaction over any resource limit never succeeds",
 "From MINI_REX on, a transaction whose own compute gas, data size, KV-update count or (from REX on) state-growth count exceeds its per-transaction limit at any point of its execution never ends as success or revert: it is halted, at exactly the step at which the first limit is exceeded, however deep in the call tree that is and however inner frames end. A transaction that stays at or below every limit is never halted by one.",
 ["programs","configurations"],"All call trees, all limit configurations (including usage exactly at, one below and one above a limit), all specs.",
 "The tests place limits far above or far below the usage of a few hand-written programs; off-by-one boundaries, limits hit in inner frames, and interactions of several limits are not sampled.",
 ["limit/mod.rs","limit/data_size.rs","limit/kv_update.rs","limit/compute_gas.rs","limit/state_growth.rs","evm/execution.rs","evm/instructions.rs","evm/limit.rs"],
 [("limit check after every tracked effect; sticky exceed result; frame results forced to halt","limit/mod.rs")],
 ["ExecutionResult of each transaction against the usage the specification computes"],
 [("per-tx usage","running totals of the four resources","limit/mod.rs")])
p("C03","A limit halt names the limit and charges only gas already consumed",
 "When a transaction is halted by a resource limit, the halt reason names the limit that was exceeded first together with the configured limit and the actual usage at that moment; gas not yet consumed at that moment, in every open frame, is given back to the sender; and no state change survives except the sender's nonce and fee. An ordinary out-of-gas or other failure is never reported as a resource-limit halt and still consumes all gas.",
 ["programs","configurations"],"All call trees and all combinations of limits and gas limits, all specs from MINI_REX on.",
 "Tests check gas give-back for single shallow frames only; the amount depends on the whole stack of open frames, forwarded gas and stipends.",
 ["limit/mod.rs","evm/execution.rs","evm/result.rs"],
 [("rescued gas accumulation and gas erase on last frame; halt reason mapping","evm/execution.rs")],
 ["halt reason, gas_used, post state"])
p("C04","Data size is counted exactly and follows frame outcomes",
 "The data size reported for a transaction is exactly the sum of its fixed base, calldata, access list, authorizations, log bytes, deployed code bytes and 40 bytes per account or storage slot write, where contributions of a frame that reverts or fails are dropped and those of a frame that succeeds are kept, recursively, and a slot set back to its original value in the same transaction is not counted.",
 ["programs","histories"],"All nestings of successful and failing frames, all orders of writes, logs, transfers and creations.",
 "Tests exercise at most two nesting levels and single outcomes.",
 ["limit/data_size.rs","limit/mod.rs","evm/instructions.rs","evm/host.rs"],
 [("frame stack of discardable usage merged or dropped at frame end","limit/data_size.rs")],["reported data size of the transaction outcome"])
p("C05","KV updates are counted exactly and follow frame outcomes",
 "The number of KV updates reported for a transaction is exactly the number of account and storage-slot writes it performs (sender, recoverable authorities, value-transfer parties, created accounts, net-changed storage slots), where contributions of a frame that reverts or fails are dropped and those of a frame that succeeds are kept, recursively, and a slot set back to its original value is not counted.",
 ["programs","histories"],"All nestings of successful and failing frames, all orders of writes, transfers and creations.",
 "Tests exercise at most two nesting levels and single outcomes.",
 ["limit/kv_update.rs","limit/mod.rs","evm/instructions.rs","evm/host.rs"],
 [("frame stack of discardable usage merged or dropped at frame end","limit/kv_update.rs")],["reported KV updates of the transaction outcome"])
p("C06","State growth is the net number of new accounts and slots that survive",
 "The state growth reported for a transaction is the net number of accounts and storage slots it newly brings into existence: creating a contract, first funding an empty account by a value call and writing a previously empty slot each count one, clearing such a slot again in the same transaction uncounts it, and whatever a failed frame created does not count; it is never negative and clearing pre-existing slots never earns credit.",
 ["programs","histories"],"All orders of set/clear/re-set of slots over nested frames, transfers to empty and existing accounts, creations that succeed and fail.",
 "No test of state growth runs in the offline suite beyond simple unit tests of the tracker.",
 ["limit/state_growth.rs","limit/mod.rs","evm/instructions.rs","evm/host.rs"],
 [("signed net growth per frame","limit/state_growth.rs")],["reported state growth of the transaction outcome"])
p("C07","Compute gas is the full plain-EVM cost of the work, never refunded",
 "The compute gas reported for a transaction is the plain EVM cost of everything it executed (intrinsic cost, every opcode, precompiles, code deposit), counting work in reverted and failed frames just as well, each unit once, and excluding all storage gas, forwarded gas and refunds.",
 ["programs"],"All call trees including reverting, out-of-gas, creating and precompile-calling frames.",
 "Tests compare a few straight-line programs; double or missing counting shows only in specific frame structures.",
 ["evm/instructions.rs","limit/compute_gas.rs","limit/mod.rs","evm/execution.rs"],
 [("per-opcode gas difference recording","evm/instructions.rs")],["reported compute gas of the transaction outcome"])
p("C08","Reading volatile data caps the rest of the transaction's compute gas",
 "From MINI_REX on, once a transaction has read block environment data, the block beneficiary's account or the oracle, its total compute gas may not pass the cap of that kind of data (20M for block environment and beneficiary; for the oracle 1M before REX3 and 20M from REX3), the cap being enforced from the reading opcode on (a beneficiary access as sender, recipient, call target or own balance: from the next volatile opcode on); the most restrictive cap of all kinds read applies whatever the order or call depth of the reads, even if the reading frame reverted, and caps never loosen. Exceeding it halts the transaction with a volatile-data halt that refunds the unspent gas; a transaction that read none is not capped.",
 ["programs","histories","configurations"],"All orders and depths of volatile reads and computation, all specs and caps.",
 "Order, depth, and combination of volatile reads form an unbounded space; the oracle and block-environment suites are not even run offline.",
 ["access/tracker.rs","access/volatile.rs","evm/instructions.rs","evm/host.rs","evm/execution.rs","limit/mod.rs"],
 [("volatile access tracker; detained compute limit","access/tracker.rs")],["halt reason, gas used, detained limit, outcome"])
p("C09","Volatile data accesses are reported completely and only when made",
 "For every transaction the reported set of volatile data accesses is exactly the set of kinds it accessed (each block-environment field, beneficiary account by balance/code query, call, or being sender or recipient, and oracle), regardless of the call depth or outcome of the accessing frame; what each access yields is the actual value; the set starts empty for each transaction; and the mega system address's own oracle access is exempt.",
 ["programs","histories"],"All opcodes reading volatile data at all depths, all specs, histories of transactions on one EVM.",
 "Each kind is a separate opcode/host path; tests sample several kinds singly.",
 ["access/tracker.rs","access/volatile.rs","evm/instructions.rs","evm/host.rs","evm/context.rs"],
 [("marking on host access","evm/host.rs")],["access report after each transaction"])
p("C10","State-creating operations cost storage gas scaled by bucket size",
 "From MINI_REX on, each storage slot turned from zero to nonzero, each value-carrying call that brings an empty account into existence and each contract creation is charged, on top of plain EVM gas, the spec's storage gas for that operation scaled by the size multiplier, in the block being executed, of the very bucket that holds the touched slot or account (before REX a base cost times the multiplier, from REX a base cost times multiplier minus one), and no other account or storage operation is charged storage gas for state creation.",
 ["programs","configurations"],"All specs, bucket capacities, slot histories, call kinds, value/no value, existing/empty targets, top-level and nested.",
 "Bucket multipliers other than the minimum are only used by suites that do not run offline.",
 ["external/gas.rs","external/salt.rs","evm/instructions.rs","evm/execution.rs","constants.rs"],
 [("dynamic storage gas","external/gas.rs")],["gas used vs specification"])
p("C11","Logs, calldata, deployed code and the transaction itself cost fixed storage gas",
 "From MINI_REX on each log topic and data byte, each calldata token (also in the floor price), each byte of deployed code, and from REX on each transaction, is charged its fixed storage gas on top of plain EVM gas, exactly once; a transaction whose gas limit cannot cover the resulting intrinsic or floor cost is rejected without effect, and the gas charged to a valid transaction is never below the floor.",
 ["inputs","programs"],"All calldata shapes, log shapes, code sizes and gas limits around the intrinsic and floor thresholds, all specs.",
 "Thresholds between intrinsic, floor and gas limit form a continuous space; tests sample few points.",
 ["evm/execution.rs","evm/instructions.rs","constants.rs"],
 [("intrinsic/floor extension; log & code deposit storage gas","evm/execution.rs")],["gas used, validation outcome"])
p("C12","A frame can pass on at most 98/100 of its remaining gas",
 "From MINI_REX on a frame's CALL or creation passes its child at most 98/100 of the gas the frame has left after all charges of the operation (from REX on the same for CALLCODE, DELEGATECALL and STATICCALL; before that those keep 63/64), plus the 2300 stipend for value transfers; a smaller requested amount is honoured exactly, what the child does not use returns to the parent, and no gas is created or lost.",
 ["programs","inputs"],"All requested gas amounts, remaining gas amounts, call kinds, value/no value, specs.",
 "Rounding, stipend and clamping interact with continuous gas values; tests sample few.",
 ["evm/instructions.rs","constants.rs"],
 [("forward-gas wrapper around CALL/CREATE family","evm/instructions.rs")],["gas available inside the child, gas used"])
p("C13","Transactions do not influence each other except through committed state",
 "Executing a transaction after any history of other transactions (successful, reverted, halted by limits or detention, or rejected) on the same EVM gives exactly the outcome, usage report and access report it has on a fresh EVM over the same state and block. (Before REX1 the one documented exception is that a lowered compute-gas cap persists to later transactions.)",
 ["histories"],"All sequences of transactions on one EVM instance, all specs.",
 "A reset that is forgotten shows only in particular orders of transactions; tests mostly run one transaction per EVM.",
 ["limit/mod.rs","access/tracker.rs","evm/context.rs","evm/mod.rs","external/gas.rs"],
 [("per-tx and per-block reset","evm/context.rs")],["outcome of each transaction in a history"])
p("C14","Inspectors observe execution without changing it",
 "Running any transaction with an inspector attached that only observes gives the same result, gas, logs, state changes, resource usage and access report as running it without an inspector, on every spec.",
 ["programs","configurations"],"All programs, specs and limit configurations.",
 "The inspected path is a separate copy of frame initialisation, run and completion; tests with inspectors are few.",
 ["evm/execution.rs","evm/mod.rs"],[("inspect_* frame functions mirror the plain ones","evm/execution.rs")],["pairs of executions"])
p("C15","A transaction is admitted to a block exactly when every limit allows it",
 "A transaction is rejected before execution exactly when its gas limit, encoded size or (non-deposit) data-availability size exceeds the per-transaction limit or what is left of the block limit, or when the block's data size, KV updates, compute gas or state growth is already used up; the rejection says whether the transaction can never fit or only no longer fits this block, and changes nothing, so that the block continues as if the transaction had not been offered. A transaction that starts below the block's post-execution limits is always included even if it carries the block over them. The limits given with the block, also those that bound a single transaction's execution, hold whichever way the executor was created (the factory's methods, alloy's factory trait, by hand) and in whichever form a transaction is offered (plain, or wrapped with its hash and sizes).",
 ["histories","configurations"],"All orders of offered transactions, all limit configurations including exact boundaries, deposit and non-deposit.",
 "No block-executor test runs offline; unit tests of the limiter sample few orders.",
 ["block/limit.rs","block/executor.rs","block/result.rs"],
 [("two-phase block limiter","block/limit.rs")],["executor results, block counters, final block"])
p("C16","Block totals and receipts equal the sum over committed transactions",
 "At every point of block building the block's gas, size, data-availability, data, KV, compute and state-growth totals are the sums over the transactions committed so far (data-availability counting non-deposits only), executed but uncommitted outcomes contribute nothing, committing re-checks the limits, and receipts appear in commit order with the right type, status, logs, cumulative gas and deposit nonce, the block's gas used being the last cumulative value. All of this is the same whichever of the executor's interfaces is used.",
 ["histories","schedules"],"All interleavings of executing and committing (or dropping) transactions.",
 "No block-executor test runs offline.",
 ["block/limit.rs","block/executor.rs","block/result.rs"],
 [("commit updates limiter, receipts, state","block/executor.rs")],["limiter counters, receipts, BlockExecutionResult"])
p("C17","Each block runs the rules of the newest hardfork active at its timestamp",
 "For every schedule of MegaETH hardforks and every block timestamp the rules applied (spec, block limits) are those of the newest activated hardfork, the rollback fork (MiniRex1) meaning plain EQUIVALENCE and its successor (MiniRex2) meaning MINI_REX again, and EQUIVALENCE when none is active; a block executor refuses a block environment whose rules do not match the schedule.",
 ["configurations"],"All activation schedules (subsets, equal times, missing forks) and timestamps around each activation.",
 "Tests query a few schedules.",
 ["block/hardfork.rs","block/limit.rs","block/executor.rs","block/factory.rs","evm/spec.rs"],
 [("spec_id / hardfork lookup","block/hardfork.rs")],["spec id, limits and construction outcome"])
p("C18","System contracts are installed exactly once, with their fork's code",
 "Before the first transaction of every block, each system contract introduced by an active hardfork (oracle and high-precision timestamp from MiniRex, keyless deployer from REX2) holds exactly the code of the version its active forks prescribe, contracts of inactive forks are absent; installation happens only when the code is absent or outdated, keeps the contract's balance and stored data, and is reported as a change in the block's state changes exactly when it happens (an up-to-date contract is reported as read only).",
 ["histories","configurations"],"All chains of blocks crossing fork activations, all pre-states of the system addresses.",
 "Block-executor tests do not run offline; upgrades over existing state are not tested.",
 ["system/oracle.rs","system/keyless_deploy.rs","block/executor.rs","block/eips.rs"],
 [("transact_deploy_*","system/oracle.rs")],["state after pre-execution changes over histories of blocks"])
p("C19","Only whitelisted legacy calls from the system address are free",
 "From MINI_REX on, a transaction from the mega system address is accepted only as a legacy call to a whitelisted system contract, then costs its sender nothing and runs as a deposit-like transaction; anything else from that address is rejected without effect, and no other sender ever gets this treatment. Before MINI_REX the address is ordinary.",
 ["inputs","configurations"],"All transaction types, targets, senders, fee fields and specs.",
 "Tests cover a few tx shapes.",
 ["system/tx.rs","evm/execution.rs","evm/context.rs"],
 [("system tx validation & deposit conversion","evm/execution.rs")],["validation outcome, balances, nonce, result"])
p("C20","Oracle reads prefer off-chain data, always cost cold, and fall back to state",
 "From MINI_REX on, a storage read of the oracle contract returns the external oracle's value whenever it has one for that slot and the on-chain value otherwise, and always costs the cold price however often repeated; reads of every other contract, and everything before MINI_REX, never consult the external oracle; writes go to on-chain state only.",
 ["programs","histories"],"All sequences of oracle reads and writes via calls from all frames, all off-chain contents.",
 "Oracle tests do not run offline.",
 ["evm/host.rs","external/oracle.rs","evm/instructions.rs"],
 [("oracle sload override","evm/host.rs")],["values read, gas, external oracle query log"])
p("C21","Oracle hints reach the oracle backend exactly when sent",
 "From REX2 on, every call of the oracle's hint function from any contract or transaction delivers one hint to the external oracle, with the immediate caller, topic and data given, in execution order and before later oracle reads; other calldata, other targets and earlier specs deliver none.",
 ["programs","inputs"],"All calldata (well-formed and malformed), call kinds, depths, specs.",
 "Hint tests do not run offline.",
 ["evm/execution.rs","external/oracle.rs","system/oracle.rs"],
 [("hint interception at frame init","evm/execution.rs")],["hint log of the external oracle"])
p("C22","Keyless deployment rejects invalid requests without any effect",
 "From REX2 on, a top-level call to the keyless deployer is rejected with the documented error, and with no state change beyond the relayer's own fee and nonce, whenever value is attached, the embedded transaction is malformed, is not a pre-EIP-155 contract creation, carries a nonzero nonce, its gas override is below its own gas limit, its signer cannot be recovered, its signer's nonce exceeds one, its address already has code, or its signer cannot pay gas limit times price plus value; it is intercepted only at top level.",
 ["inputs","histories"],"All embedded transactions, signer states, overrides, call contexts.",
 "Keyless tests do not run offline.",
 ["sandbox/execution.rs","sandbox/tx.rs","sandbox/error.rs","evm/execution.rs"],
 [("ordered validation before sandbox","sandbox/execution.rs")],["revert data, state"])
p("C23","Keyless deployment always charges the signer and deploys at the fixed address",
 "Once a keyless deployment request passes validation its signer pays for the gas of the embedded execution and its nonce is consumed, whether deployment succeeds or fails; on success the contract exists at the address determined by the signer and nonce zero, with its logs, storage and balance, exactly as if the embedded transaction had been mined; when it reverts or halts no contract and no other effect remains, and init code that returns no code is reported as a failure too; and the reported gas and address match. The relayer's own gas cost is independent of the sandboxed gas.",
 ["inputs","histories"],"All init codes (success, revert, halt, empty code), balances, prior touches of signer and address in the relayer's transaction, specs.",
 "Keyless tests do not run offline.",
 ["sandbox/execution.rs","sandbox/state.rs","evm/execution.rs"],
 [("sandboxed execution and state merge","sandbox/execution.rs")],["return data, state diff, receipts"])
p("C24","SELFDESTRUCT is disabled until REX2 and follows EIP-6780 from then on",
 "From MINI_REX up to REX1 executing SELFDESTRUCT fails its frame like an invalid opcode, with no balance or code effect; under EQUIVALENCE and from REX2 on it transfers the full balance and removes the account only if it was created in the same transaction.",
 ["programs","configurations"],"All specs, depths, beneficiaries, created-in-tx or not, called via all call kinds.",
 "One test module covers REX2 with a few cases.",
 ["evm/instructions.rs","evm/spec.rs"],[("instruction table per spec","evm/instructions.rs")],["result, balances, accounts destroyed"])
p("C25","Contract and init code up to the raised size limits deploy, above them fail",
 "From MINI_REX on contract code up to 512 KiB and init code up to 536 KiB (524288 and 548864 bytes) is accepted and anything larger is rejected exactly as the plain EVM rejects oversize code, at top level and from contracts alike; under EQUIVALENCE the standard limits apply; a deployment that cannot pay its per-byte charges fails and leaves no code.",
 ["inputs","configurations"],"All code sizes around the limits, all specs, transaction and nested creation.",
 "Tests sample a few sizes on one path.",
 ["constants.rs","evm/context.rs","evm/execution.rs","evm/instructions.rs"],[("cfg limits set per spec","evm/context.rs")],["creation result"])
p("C26","Precompiles charge the spec's gas and count as compute gas",
 "On every spec a precompile call returns the standard result; from MINI_REX on modular exponentiation follows the Osaka price and input bounds and the KZG point evaluation costs 100,000 gas, all others and EQUIVALENCE keep Isthmus prices; the gas a successful precompile call consumes is counted as compute gas, exactly once.",
 ["inputs","programs"],"All precompile addresses, inputs and gas amounts around the price, all specs.",
 "Tests call two precompiles with one input each.",
 ["evm/precompiles.rs","evm/execution.rs"],[("spec-selected precompile set","evm/precompiles.rs")],["call success, output, gas, compute gas"])
p("C27","Merging nested execution state loses and invents nothing",
 "After the state of a nested execution is merged into the surrounding transaction, every account and slot the nested execution changed has its new value in the transaction's final state, untouched ones keep theirs, accounts changed are persisted, and no account is lost, resurrected or persisted that neither execution changed.",
 ["histories","inputs"],"All combinations of prior (untouched, loaded, touched, created, destroyed) and nested account states, slots present on either side.",
 "Unit tests cover a few combinations.",
 ["evm/state.rs","sandbox/execution.rs"],[("merge of account status and storage","evm/state.rs")],["final state of the transaction"])
p("C28","The report of consulted buckets and block hashes is complete",
 "After executing transactions in a block the EVM's report of storage buckets whose size was consulted and of block hashes read contains every one that influenced pricing or results since the block began and nothing else, and the same bucket is consulted at the external environment at most once per block.",
 ["programs","histories"],"All programs and transaction histories.",
 "Witness completeness is not tested for combinations.",
 ["external/gas.rs","evm/context.rs","evm/host.rs","evm/mod.rs"],[("bucket cache","external/gas.rs"),("block hash tracking","evm/host.rs")],["reported buckets and block hashes, external query log"])
p("C29","EIP-7702 delegated accounts are metered and stored as themselves",
 "When code runs in the context of an account that delegates its code to another contract, storage writes, their gas and their resource accounting refer to the delegating account itself; the delegate's storage is neither read for pricing nor changed; and no delegation, however chained or cyclic, makes the EVM fail abnormally.",
 ["programs","configurations"],"All delegation graphs incl. self and cyclic, all storage histories in delegated context.",
 "No existing test executes storage writes in a delegated account's context.",
 ["evm/host.rs","evm/instructions.rs","limit/mod.rs","evm/execution.rs"],[("inspection of accounts/slots for metering","evm/host.rs")],["state diff, gas, usage"])
p("C30","Every transaction ends in a result or a clean rejection, never a crash",
 "For every program, transaction, limit and spec, executing a transaction ends in a result or an error value, never in a panic or abort; when the database or the external environment fails at any point, that failure is returned as an error of the transaction, which then leaves no trace: the state and the EVM behave afterwards as if the transaction had not been offered. The same holds inside a keyless deployment, and for the steps of building a block: a step that meets such a failure changes none of the block's totals, receipts and changes.",
 ["programs","faults"],"All programs; a fault at every single access of the database and the external environment.",
 "Tests do not inject faults; panics need unusual operands.",
 ["evm/instructions.rs","evm/host.rs","evm/execution.rs","limit/mod.rs","limit/state_growth.rs","external/gas.rs","sandbox/execution.rs","block/executor.rs"],
 [("error propagation from wrapped opcodes","evm/instructions.rs")],["outcome or error of the transaction, later transactions"])
p("C31","Every transaction pays exactly its fees and no value appears or vanishes",
 "The sender of an executed transaction pays its effective gas price times the gas it used, the L1 data fee of its own encoded bytes and the operator fee of the gas it used, and nothing else beyond the value it moves; the beneficiary receives the price above the base fee, the base fee, L1 fee and operator fee vaults receive their parts, exactly; a reverted or halted transaction pays the same way, deposits and Mega system transactions pay nothing, the signer of a keyless deployment pays for it in the same way as a sender, a rejected transaction pays nothing; apart from mints and destroyed contracts, the sum of all balances never changes. A transaction is rejected exactly when its prices are below the base fee or inconsistent, its gas limit is above the configured caps, or its sender cannot pay the highest possible cost.",
 ["inputs","programs","configurations"],"All transaction types, prices, tips, fee parameters (set or read from the L1 block contract), endings, beneficiaries, specs.",
 "Tests run with all fees zero.",
 ["evm/execution.rs","evm/context.rs","sandbox/execution.rs","evm/tx.rs"],[("handler delegating fee steps","evm/execution.rs"),("configuration conversion","evm/context.rs")],["balances after each transaction, rejection reason"])
p("C32","An inspector is told of every call, creation and log and may answer calls itself",
 "During an inspected transaction the inspector is told, in order and exactly once, of every call and creation (with its kind, caller, target, value, gas and input), of its end (with its outcome, gas left and output) and of every log, including those that execute nothing, that are refused by a resource limit, or that exceed one; call and end are always paired. When the inspector answers a call or a creation itself, at any depth including the transaction's own, nothing of it is executed or metered, exactly the gas it asked for is charged, and everything after it, in particular the metering and the limits of the surrounding frames, goes on as for a call with that outcome.",
 ["programs","limits","inspector answers"],"All programs, specs, limits and gas boundaries; answers at any call.",
 "Tests only count a few calls of one inspector, and answer one call.",
 ["evm/execution.rs","evm/mod.rs","limit/mod.rs","limit/kv_update.rs","limit/state_growth.rs"],[("inspected frame start and end","evm/execution.rs"),("dummy tracker frames for answered calls","limit/mod.rs")],["sequence of inspector callbacks, result, usage, state"])
p("C33","The state test runner accepts exactly the tests whose outcome is as stated",
 "The state test runner accepts a test file exactly when every test in it comes out as stated: the transaction chosen by the test's data, gas and value indexes (its type, access list, authorizations, fees and sender as the file gives them or implies them) is run on the stated accounts, block and chain id under the rules of the test's fork (MINI_REX for MiniRex, EQUIVALENCE for every Ethereum fork, Constantinople passed over), and the refusal of the transaction, its output, its logs and the resulting state (apart from the base fee vault) must all be the stated ones; otherwise it reports the first mismatch, and of which kind, for the test it belongs to. A run over files and folders succeeds exactly when every path exists and holds tests and every file is accepted: no file is left out or run twice, whatever the number of threads, and with keep-going all files are run and all errors counted.",
 ["inputs","schedules"],"All test files (accounts, programs, transaction types, forks, indexes, true and false statements), all sets of files, worker interleavings, flags.",
 "The runner's own tests only parse two snippets.",
 ["/crates/state-test/src/runner.rs","/crates/state-test/src/main.rs","/crates/state-test/src/utils.rs","/crates/state-test/src/types/test.rs","/crates/state-test/src/types/test_unit.rs","/crates/state-test/src/types/transaction.rs","/crates/state-test/src/types/spec.rs"],
 [("verdict of one test","/crates/state-test/src/runner.rs"),("worker pool","/crates/state-test/src/runner.rs"),("transaction of a test","/crates/state-test/src/types/test.rs")],["result of execute_test_suite; exit status and error count of the state-test program; printed outcomes"])
p("C34","A transaction comes out the same whichever way it is executed",
 "Whichever public way a transaction is executed - execute_transaction, inspect_transaction, alloy's transact_raw and transact_commit, revm's transact, transact_one with finalize, replay of a set transaction, transact_commit, inspect_tx, inspect_one_tx with finalize, inspect_tx_commit - and whichever way the EVM was put together - the order of the context's building steps, from an existing OP context, by the factory, with the inspector or the limits replaced between transactions, the inspector switched on or off, taken apart with finish and rebuilt for the next block - the same transaction on the same state gives the same result, the same resource usage and reports and the same resulting state; an inspector that is switched off is told nothing; a rejected transaction leaves nothing behind for the next.",
 ["inputs","histories"],"All sequences of ways of executing, all ways of building the EVM, all transactions and specs, between any transactions of a history.",
 "Tests use one entry point each, on one transaction.",
 ["evm/interfaces.rs","evm/mod.rs","evm/context.rs","evm/factory.rs"],[("entry points","evm/interfaces.rs"),("conversions of the EVM","evm/mod.rs"),("context builder","evm/context.rs")],["result or error, usage, reports and world after each transaction"])
p("C35","System calls run under the rules of transactions, are free and leave nothing",
 "A system call (transact_system_call and its relatives, as made before the transactions of a block) runs the callee's code with 30,000,000 gas on behalf of the stated caller under the rules of the spec in force - resource limits and usage counted from the start (base size, calldata, caller update), compute gas detention, storage gas, 98/100 forwarding, oracle reads and hints, keyless deployment, limit halts with gas preserved - and changes nothing but what that code does: the caller's nonce and balance stay, no intrinsic gas, floor or fee is charged to anybody, nobody is rewarded, an inspector is not told. A call that reverts or halts leaves the world as it was; one that fails because the database or environment does leaves nothing behind that a later call or transaction on the same EVM could notice; and neither does a successful one, beyond its committed state (limits, counters, volatile accesses, warm accounts, transient storage). On EQUIVALENCE it is the system call of the Optimism Isthmus EVM.",
 ["inputs","histories","faults"],"All callers, callees and programs, specs, limits, histories mixing calls and transactions, fault positions.",
 "Tests make system calls only to the block hash and beacon root contracts with default limits.",
 ["evm/interfaces.rs","evm/execution.rs","evm/context.rs"],[("system call entry points","evm/interfaces.rs"),("run_system_call","evm/execution.rs"),("start of a call","evm/context.rs")],["result, gas, usage, reports and world after each call or transaction"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
