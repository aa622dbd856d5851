"""Which machinery decides which property."""
from . import blockrun, faultrun, forkrun, kldrun, mergerun, prerun, sizerun, suiterun, txfam, txrun

CHECKS = {p: txrun.check for p in txfam.FAMS}
CHECKS["C30"] = faultrun.check
CHECKS["C17"] = forkrun.check
CHECKS["C27"] = mergerun.check
CHECKS["C26"] = prerun.check
CHECKS["C25"] = sizerun.check
CHECKS["C33"] = suiterun.check
for p in ("C15", "C16", "C18"): CHECKS[p] = blockrun.check
for p in ("C22", "C23"): CHECKS[p] = kldrun.check
NA = {}
DEFAULT = ("TLA+ operational specification of a transaction (MegaTx/MegaRun/MegaProps) checked with TLC; every TLC behaviour replayed on the real EVM and compared",
           "TLC checks the promises of the specification in every state of the explored behaviours (exhaustive over small alphabets of operations, random "
           "and boundary-derived beyond); each behaviour is executed by the real code and all observations the property owns are compared for equality. "
           "Bounded: straight-line programs, nesting up to 4, histories up to 4 transactions. Trusts revm's unmodified parts where the specification restates them.")
_B = ("TLA+ specification of block building (MegaBlock on top of MegaRun) checked with TLC; every TLC history replayed on the real MegaBlockExecutor and compared",
      "TLC checks the promises (totals, refusals change nothing, receipts) in every state: every order of executing/committing three transactions under boundary limits exhaustively, "
      "random and boundary-derived histories of up to 3 blocks and 5 transactions beyond; the real block executor runs each history, all answers, totals, receipts, hooks and the "
      "persisted world are compared. Trusts revm's State and alloy's receipt builder.")
TECHNIQUE = {
 "C35": ("TLA+ specification of system calls (MegaRun: calls nobody pays for, within histories of transactions) with the promise that they are free and leave no trace when they fail (Free), checked with TLC; every behaviour replayed on the real EVM and compared",
         "TLC checks in every behaviour that a system call touches neither balance nor nonce of its caller, and that one that fails leaves the world as it was; every caller x callee x spec x limit, small programs exhaustively, random and boundary-derived histories "
         "mixing system calls and transactions, and a fault at every database access of such histories run on the real code, plain, with an inspector and through the other entry points; all observations compared."),
 "C34": ("TLA+ specification of the transaction (MegaTx/MegaRun), in which the way of executing does not occur, checked with TLC; every behaviour replayed on the real EVM through changing entry points and ways of building it, and compared",
         "TLC produces for every history the outcome of each transaction; small histories exhaustively, random and boundary-derived ones beyond; on the real code each transaction of a history goes through another of eleven entry points, on an EVM built in one of six "
         "ways and converted between transactions; every observation (result, usage, reports, world) is compared with the specification."),
 "C33": ("TLA+ specifications of the runner's judgement of a test file (MegaSuite/Suite) and of its worker pool (Pool) checked with TLC; test files made from TLC histories of the transaction specification judged by the real runner, real runs of its program compared with TLC's set of possible ends",
         "TLC checks that the verdict is acceptance exactly when every statement holds, and for every interleaving of up to 3 workers on up to 3 files that success is honest, nothing runs twice and every run ends; hundreds of files (true and with false statements, "
         "all transaction types, forks, indexes) whose outcomes the transaction specification gives go through the real runner, the program itself runs over all small sets of files and larger ones. State roots computed with alloy-trie are trusted."),
 "C31": ("TLA+ specification of fees (MegaRun: purchase, refund, tip, base fee, L1 and operator fee, mint) with the promise that ether only moves as promised (Paid), checked with TLC; every behaviour replayed on the real EVM and compared",
         "TLC checks in every behaviour that the sum of all balances changes by mints and burnt ether only and that the sender pays exactly the fees; every ending x kind of transaction x fee combination, transfers to and from the fee "
         "recipients, keyless deployments, boundary balances and random histories run on the real code, all balances, gas and refusals compared. Bounded: amounts below 2^31."),
 "C32": ("TLA+ specification of the transaction (MegaTx/MegaRun) with the events an observer is told and the calls it answers itself, checked with TLC; every behaviour replayed on the real EVM with a recording/answering inspector and compared",
         "TLC produces for every behaviour the sequence of events (checked there to be well nested: Told); small programs exhaustively, every instruction, random and boundary-derived histories beyond, half of them with calls and creations answered by the "
         "inspector; the real run's callbacks are compared event by event, with gas, values, outcomes, and all other observations."),
 "C25": ("TLA+ specification of the code size limits (Size: deployment around the limits with real gas; MegaRun: configured limits) checked with TLC; every case replayed on the real EVM and compared",
         "TLC checks for every length around each spec's limits, by transaction, CREATE and CREATE2, that code is kept exactly up to the limit and what is charged; configured limits within random histories of the transaction "
         "specification, at every step's boundary. The real code runs each case; result, gas, usage, state compared."),
 "C26": ("TLA+ specification of the precompiled contracts (MegaPre within MegaTx/MegaRun) checked with TLC; every call replayed on the real EVM and compared, yielded bytes with the reference implementation",
         "Every precompile on every spec with good, malformed and over-long inputs, at the exact price, one below and one above, straight from a transaction and by every kind of call, with value, with the compute gas limit "
         "on the precompile's gas, with the operator's own precompiles; modular exponentiation over the edges of its price formulas and random shapes. The cryptography is trusted."),
 "C27": ("TLA+ specification of merging execution results (MegaMerge/Merge) model-checked with TLC; every enumerated merge, and merged results of whole TLC transaction histories, executed by the real code",
         "TLC enumerates all histories of 1-3 executions on an account (every combination of prior and nested state, slots on either side, marks, coldness) and checks that every way of merging commits as the "
         "executions one after the other, invents nothing and warms nothing; the real merge is compared entry by entry. Results of real transaction histories (creations, destructions, re-creations, "
         "keyless deployments) are merged, committed at once and compared with the specification's world."),
 "C22": ("TLA+ specification of keyless deployment (MegaKeyless on top of MegaRun) checked with TLC; every combination of defects of a request replayed on the real EVM and compared",
         "TLC checks that a refused request leaves the world as it was; the product of defects (encoding, signature, nonce, override, value, signer's nonce and balance, code at the address) "
         "on every spec, boundary numbers, other targets and nested calls, and random histories run on the real code: error with its arguments, gas, usage, state compared. The signature scheme itself is trusted."),
 "C23": ("TLA+ specification of keyless deployment (MegaKeyless: the embedded transaction as a transaction inside the outer one) checked with TLC; behaviours replayed on the real EVM and compared",
         "TLC checks in every behaviour that the signer is charged and its nonce consumed, failures leave nothing else, and the outer gas is independent of the sandbox; init codes of every ending, with the accounts "
         "involved used before by access lists, authorizations, fees and transfers, limits on the outer transaction and random histories run on the real code, every observation compared."),
 "C15": _B, "C16": _B,
 "C30": ("TLA+ specification in which a transaction may fail at any step (Replay on top of MegaRun), checked with TLC; replayed on the real EVM with a fault injected at every database and environment access",
         "TLC shows that wherever the fault strikes, the world and all later transactions are those without the failed one; the real code runs each history once per access with that access failing "
         "(once or for good), with and without an inspector, and is compared with the specification. Every instruction with too few operands, absurd offsets and lengths and dirty address words must "
         "end as specified; a panic anywhere is a violation."),
 "C17": ("TLA+ specification of hardfork schedules (MegaForks) model-checked with TLC; every enumerated schedule and chain asked of the real configuration and executor factory",
         "TLC enumerates all schedules of each family (all subsets, all combinations of activation times, by-block and never conditions) and all chains of block times, checks that rules are those of "
         "the newest fork, each fork has exactly one first block and rules change only there; the real code's answers are compared for each block."),
 "C18": ("TLA+ specification of system contract installation (MegaBlock) checked with TLC; chains of blocks over all pre-states replayed on the real block executor",
         "TLC checks that every prescribed contract holds its code after the pre-block changes; chains over pre-states of the three addresses crossing the forks in every order run on the real "
         "executor, state changes reported, stored data visible and the persisted world compared."),
}

def how(p):
    """one line for DESIGN.md"""
    if p in HOW: return HOW[p]
    if p in txfam.FAMS:
        f = txfam.FAMS[p]
        ex = "exhaustive small scopes, " if f.explore else ""
        pr = "; modes " + "/".join(f.modes) if len(f.modes) > 1 else ""
        return "MegaTx/MegaRun replay: %s%srandom + boundary histories; compares %s%s" % ("directed, " if f.directed else "", ex, ", ".join(f.fields), pr)
    return "not yet"
HOW = {
 "C33": "MegaSuite/Suite: verdicts on test files made from MegaRun histories (each with true or altered statements), outcomes printed; Pool: TLC enumerates the ends of a run over files x flags x interleavings, the real program must end in one of them",
 "C25": "Size: code/init code lengths around the limits of every spec x ways of deploying; MegaRun with configured limits: random histories; compares result, gas, usage, installed code",
 "C26": "MegaPre: all precompiles x specs x inputs (good, malformed, over-long) x gas around the price x call kinds, operator's own precompiles, compute limit on the call; compares success, bytes, return data size, gas, usage, state",
 "C27": "MegaMerge/Merge: TLC enumerates histories of executions on one account x ways of merging; real merge compared entry by entry; merged results of real transaction histories committed at once and compared with the world of MegaRun",
 "C22": "MegaKeyless: product of all defects of a request x specs, boundary gas and numbers, other targets, nested calls, random histories; compares error and arguments, gas, state, usage",
 "C23": "MegaKeyless: endings of the init code x prior use of the accounts (access list, authorization, fee recipient, sender), outer limits, random histories; compares answer, state, logs, gas, usage, with and without inspector",
 "C30": "Replay with Break at any step: fault injected at every access of histories of 1-2 transactions, retried afterwards; instructions with missing/absurd/dirty operands on every spec; compares outcome, state, later transactions",
 "C15": "MegaBlock/Block: every order of run/exec/commit of three transactions (TLC, exhaustive) with limits on the totals reached, random histories + boundary limits, fees and authorizations, plain, inspected, through the aliases with wrapped transactions, through alloy's traits; compares refusals (with their numbers), fullness, receipts, world",
 "C16": "MegaBlock/Block: as C15, incl. outcomes committed late and out of order; compares totals after every step, receipts, hooks, world, bucket report",
 "C17": "MegaForks/Forks: TLC enumerates schedules x chains; compares hardfork, spec, activation, first-block, limits and acceptance by the executor factory",
 "C18": "MegaBlock/Block: chains of blocks crossing MiniRex/REX2 over all pre-states of the system addresses; compares installed code, kept data, reported changes",
}
