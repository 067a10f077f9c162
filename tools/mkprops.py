#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = "programs/token-bonding-curve/src/"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": [P + f for f in files],
                        "state": [{"name": n, "meaning": m, "where": P + w} for n, m, w in (state or [])],
                        "mechanism": [{"name": n, "where": P + w} for n, w in mech],
                        "observe_at": observe or ["token account balances and pool-mint supply before and after each instruction"],
                        "hook_needed": hook}}
NOPROC = "The instruction processor has no running test at all (its test module is commented out); "
L = []
L.append(prop("C01", "Linear pool stays fully collateralised",
 "In a pool with the linear price curve, after any sequence of buys, sells, direct token donations and failed operations by any users, the collateral held by the pool covers the area under the published price line up to the number of bonded tokens the pool has net paid out, to within one base unit of collateral and the 18-decimal precision the program keeps for the slope and the start price. So no history of trades can leave the outstanding bonded tokens redeemable for more than the pool holds, and rounding errors never pile up across trades.",
 ["histories", "inputs", "schedules"], "all trade histories, interleavings of users, slopes/initial prices accepted at creation, reserve sizes up to u64",
 "Unit tests call the curve function for single trades at hand-picked points and one proptest checks one swap; whether rounding drifts in the users' favour over an arbitrary history with exhaustion, drain and re-entry cannot be sampled that way.",
 ["curve/linear_price.rs", "dfs_precise_number.rs", "curve/base.rs", "processor.rs"],
 [("start point rounded up, end point rounded down, output floored", "curve/linear_price.rs"), ("sqrt with explicit rounding direction", "dfs_precise_number.rs")],
 [("vault A balance", "collateral; its value alone places the pool on the price line", "processor.rs")]))
L.append(prop("C02", "Linear trades follow the price line",
 "Each trade with a linear-price pool pays out no more than the published price line gives for what was paid in (rounded down) and falls short of it only by the stated nine-digit working precision plus one base unit. A buyer who offers more than the remaining bonded tokens cost receives all of them and is charged just their price, and a seller who offers more than is outstanding receives all the collateral and gives up only the tokens needed to get it; nobody is ever charged more than the amount offered.",
 ["inputs", "histories"], "all pool states reachable by trading and donation, all curve parameters accepted at creation, all amounts",
 "The tests check a few dozen literal trades; the exhaustion and drain branches depend on the exact relation of amount, reserve and curve position, which only a history reaches.",
 ["curve/linear_price.rs", "dfs_precise_number.rs", "curve/base.rs"],
 [("buy and sell quadratic", "curve/linear_price.rs"), ("cap at remaining supply", "curve/linear_price.rs")]))
L.append(prop("C03", "Slippage limits are honoured exactly",
 "Whatever other transactions land between a user's quote and its execution, a swap, deposit or withdrawal succeeds if and only if the amounts it would exchange at execution time satisfy the limit(s) the user gave (minimum out, maximum in for each token, minimum or maximum pool tokens including withdrawal fees) and it would succeed without a limit. A limit never changes the amounts exchanged, and a swap never takes more than the amount offered.",
 ["schedules", "inputs", "histories"], "all interleavings (reordering, front-running, duplication, delay) between quote and execution; all limits including exact, off-by-one, zero and maximal",
 NOPROC + "a limit only matters when another transaction has moved the pool in between.",
 ["processor.rs"], [("ExceededSlippage checks in each handler", "processor.rs")],
 observe=["instruction result and token balances"]))
L.append(prop("C04", "Token accounting is exact",
 "A successful operation moves tokens only between the accounts it names, every amount leaving one account arrives in another (or is minted or burned against the pool-token supply), and nothing else on the ledger changes: no other balance, no other mint's supply, no authority, delegate, freeze state or lamport balance. Deposits credit the depositor exactly the pool tokens added to supply and withdrawals remove exactly the pool tokens burned.",
 ["histories", "inputs"], "all successful operations of every kind, curve, fee setting, direction and account aliasing reached by any history",
 NOPROC + "the curve tests never move a token.",
 ["processor.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs"],
 [("token transfer, mint and burn calls", "processor.rs")]))
L.append(prop("C05", "Operations are all-or-nothing",
 "If any token movement an operation needs cannot happen - insufficient balance or allowance, frozen, closed or wrong-mint account, a failing token-program call at any point - the operation reports failure and no account changes. An operation reports success only if every one of its token movements took place.",
 ["fault_sequences", "crash_points", "inputs"], "a failure at each token-program call of each operation, natural or injected, aborts at every system call, multi-instruction transactions",
 NOPROC + "no test makes a token-program call fail.",
 ["processor.rs"], [("error propagation from every token-program call", "processor.rs")],
 observe=["instruction result against the token-program calls made and the ledger"]))
L.append(prop("C06", "Forged accounts and unauthorised debits are refused",
 "An operation succeeds only when every pool-side account it names - pool record owned by this program, pool authority, both vaults in their proper roles, pool-token mint, fee account where fees are due, token program - is the one registered for that pool. No user's token balance ever falls unless its owner, or a delegate within its allowance, signed the transaction; a missing signature, a substituted, duplicated or swapped account, or a pool vault passed as the user's account is always rejected.",
 ["inputs", "histories"], "all single and double substitutions, duplications and signature removals on all instructions in any reachable state, by Byzantine clients",
 NOPROC + "the authorisation checks are spread over the handlers and not exercised by any running test.",
 ["processor.rs", "instructions/swap.rs", "instructions/withdraw_all_token_types.rs", "instructions/withdraw_single_token_type_exact_amount_out.rs"],
 [("account checks", "processor.rs"), ("signer constraints", "instructions/")]))
L.append(prop("C07", "Pools are isolated from each other",
 "An operation on one pool never lowers another pool's vault balances and never changes its pool-token supply or record, and its outcome is the same whatever has happened in other pools, even when pools share token mints, fee owners and users.",
 ["schedules", "histories", "inputs"], "all interleavings of operations on several pools sharing mints and users, including attempts to name one pool's accounts in another's operation",
 NOPROC + "no test has two pools.",
 ["processor.rs", "state.rs"], [("pool-specific authority address and per-pool account checks", "processor.rs")]))
L.append(prop("C08", "Pools are created exactly when valid",
 "Pool creation succeeds if and only if the record is a fresh account of the right size signed for by its key, both vaults belong to the pool authority and hold different mints with no delegate or close authority, the pool-token mint is unissued, controlled by the pool authority and unfreezable, the fee and initial-holder accounts hold the pool token and do not belong to the authority, the fee fractions are below one (or unset), and the curve parameters and starting balances suit the curve. On success the record holds exactly the requested accounts, fees and curve, the initial holder receives the fixed initial supply of 1,000,000,000 pool tokens, and nothing else changes.",
 ["configurations", "inputs"], "all combinations of one or two defects in an otherwise valid creation request, all fee and curve parameter values including boundaries",
 NOPROC + "curve parameter validation is tested on a few values, the account conditions not at all.",
 ["processor.rs", "lib.rs", "instructions/initialize.rs", "state.rs", "curve/fees.rs", "curve/linear_price.rs", "curve/constant_price.rs"],
 [("creation checks", "processor.rs"), ("fee and curve validation", "curve/fees.rs")]))
L.append(prop("C09", "Pool configuration and custody never change",
 "Once created, a pool's record (accounts, fees, curve, parameters) never changes and the pool can never be created again, whatever instructions anybody sends. The pool authority remains the owner of both vaults and the only mint authority of the pool token, with no delegate or close authority on a vault and no freeze authority on the pool token.",
 ["histories", "inputs"], "all histories of honest and Byzantine transactions, including repeated and re-parameterised creation",
 NOPROC + "immutability is a statement about every later transaction.",
 ["processor.rs", "state.rs"], [("already-in-use check", "processor.rs")]))
L.append(prop("C10", "Execution is a function of ledger state",
 "The outcome of every transaction depends only on the transaction and the ledger contents it reads: independent replicas agree after every transaction, a validator that crashes at any point and replays its log from any checkpoint rebuilds the identical ledger, and transactions re-executed after an abandoned fork behave as if that fork never happened.",
 ["crash_points", "schedules", "fault_sequences", "histories"], "all crash points, checkpoint positions, fork lengths and interleavings",
 "No test re-executes anything; hidden state or nondeterminism only shows across executions.",
 ["processor.rs", "state.rs", "lib.rs"], [("no state outside accounts", "processor.rs")], observe=["ledger hash, instruction result"]))
L.append(prop("C11", "Malformed records and instructions are refused",
 "An operation given a pool record that is uninitialised, truncated, oversized, of unknown version, initialised-flag or curve type, or owned by another program; a vault, mint or user account that is not an intact account of the pool's token program; too few accounts; or instruction data that is unknown or truncated, fails and moves no token.",
 ["fault_sequences", "inputs"], "all torn, zeroed, truncated, extended, mistyped records and truncated instruction encodings at any point of a history",
 "Tests cover pack/unpack of a record and one bad curve byte; no handler is exercised on a damaged account.",
 ["state.rs", "curve/base.rs", "processor.rs"], [("record decoding", "state.rs"), ("token account decoding", "processor.rs")]))
L.append(prop("C12", "Liquidity-share value never falls",
 "In constant-product, constant-price, stable and offset pools, no swap, deposit, withdrawal or fee payment by anyone lowers the value backing one pool token, as measured by the curve's own invariant divided by pool-token supply, by anything at all (stable: beyond the rounding of the invariant to whole units; constant-product and offset single-sided operations and owner fees: beyond the 12-decimal precision the program keeps for roots). In particular the pool tokens issued for the owner's trading fee are never worth more than the fee, and a single-sided withdrawal pays the trading fee rather than receiving it.",
 ["histories", "inputs", "schedules"], "all histories of all operations, all fees, pool-token supplies from one unit up, reserves up to u64",
 "The proptests check the bare curve formulas from random states with the fixed supply; fees, single-sided fee adjustment, fee minting and tiny or huge supplies only meet in the processor.",
 ["processor.rs", "curve/base.rs", "curve/constant_product.rs", "curve/constant_price.rs", "curve/stable.rs", "curve/offset.rs"],
 [("rounding directions", "curve/calculator.rs"), ("owner fee minting", "processor.rs"), ("half-amount trading fee on single-sided operations", "curve/base.rs")]))
L.append(prop("C13", "Fees are charged exactly as configured",
 "Every swap charges the trading fee and the owner fee on the offered amount, each the configured fraction rounded down but at least one unit when the fraction is non-zero, and only the remainder is traded on the curve; the owner fee's worth of new pool tokens, in whole pool tokens rounded up, goes to the pool's fee account, less the configured host share (minimum one) when a host account is given. Every withdrawal pays the configured withdrawal fee in pool tokens (minimum one) to the fee account, unless it is made from the fee account itself, and no operation charges any other fee.",
 ["inputs", "histories", "configurations"], "all fee fractions that creation accepts including unset and near-one, all amounts down to one unit, with and without host, from any account",
 NOPROC + "fee arithmetic has only a packing test.",
 ["curve/fees.rs", "curve/base.rs", "processor.rs"], [("fee arithmetic", "curve/fees.rs"), ("host split and withdrawal fee", "processor.rs")]))
L.append(prop("C14", "Constant-price trades are exact",
 "A swap in a constant-price pool exchanges at exactly the configured price: a buyer of token B receives the amount after fees divided by the price, rounded down, and pays only for the whole tokens received plus fees; a seller of n token B after fees receives exactly n times the price. A swap that cannot be filled in full from the pool's reserves, or would give nothing, is rejected, and any other affordable swap succeeds.",
 ["inputs", "histories"], "all prices, amounts, reserves and fees; all histories",
 "A few literal trades are tested; nothing at the level of pool balances.",
 ["curve/constant_price.rs", "curve/base.rs", "processor.rs"], [("remainder returned to the buyer", "curve/constant_price.rs")]))
L.append(prop("C15", "Locked pools stay locked",
 "Nobody can add liquidity to a linear-price or offset pool after creation, or remove liquidity from a linear-price pool, by any deposit or withdrawal instruction, in any state - including after all pool tokens have been burned. Collateral enters and leaves a linear-price pool through swaps (or plain donations) only.",
 ["histories", "inputs"], "all four liquidity instructions in all reachable states, including zero pool-token supply and emptied vaults",
 NOPROC + "the zero-supply path differs from the normal one and needs a history to reach.",
 ["processor.rs", "curve/linear_price.rs", "curve/offset.rs"], [("deposit permission check", "processor.rs")]))
L.append(prop("C16", "Holders can always get out once faults stop",
 "After any history of trades, failures, crashes, forks, hostile transactions and donations, once interference stops every holder can act in one ordinary transaction each: holders of the bonded token of a linear-price pool can sell back whatever is worth at least one unit of collateral until the collateral is returned, buyers can buy what remains, and holders of pool tokens of every other pool can withdraw their share (where it is worth at least one unit of each token the pool still has) until the last one leaves, and then nothing stays behind in a constant-product, stable or offset pool, and in a constant-price pool no more than the excess value of one side.",
 ["histories", "fault_sequences"], "all histories followed by a fault-free closing phase, within reserves and supplies whose products fit 128 bits",
 NOPROC + "liveness after an arbitrary history is outside unit tests.",
 ["processor.rs", "curve/linear_price.rs", "curve/calculator.rs"], [("floor rounding, cap at vault balance and drain branch", "processor.rs")], observe=["number of transactions until all positions are closed"]))
L.append(prop("C17", "Owner-constrained deployments enforce their terms",
 "In a deployment built with owner constraints a pool can be created only with an allowed curve type, with a fee account belonging to the configured owner, with each fee at least the configured minimum over the same denominator, and with exactly the configured host fee; every otherwise valid request meeting the terms succeeds. A deployment without constraints imposes none of this.",
 ["configurations", "inputs"], "all constraint sets, fee settings around each minimum, curve types and fee account owners",
 "The tests check the fee comparison helper on a handful of values with a non-production build; the production build is never run.",
 ["constraints.rs", "processor.rs", "instructions/initialize.rs"], [("constraint validation", "constraints.rs")]))
L.append(prop("C18", "Constant-product and offset trades are exact",
 "A swap in a constant-product pool (or an offset pool, counting the offset as extra token B) leaves the product of the reserves no smaller than before and pays out the largest amount for which that is true, given the amount traded after fees; the trader is charged only the smallest amount that buys that output, plus fees. Nothing is ever paid out of the imaginary offset: a trade the real vault cannot pay is rejected, as is one that would give nothing.",
 ["inputs", "histories"], "all reserves, offsets, amounts and fees with products below 128 bits; all histories",
 "The tests check the bare formula on samples; real vault payment with offsets and fees is never executed.",
 ["curve/constant_product.rs", "curve/offset.rs", "curve/base.rs", "processor.rs"], [("invariant with ceiling division", "curve/constant_product.rs")]))
L.append(prop("C19", "Stable-pool trades keep the stable invariant",
 "A swap in a stable pool takes exactly the offered amount and pays out the amount that keeps the pool's invariant for the configured amplification, to within the rounding of the invariant and of the new balance to whole units (a few base units), so repeated or round-trip trading gains at most that per trade.",
 ["inputs", "histories"], "all amplification factors from 1 up to the supported range, balanced and imbalanced reserves, all amounts and histories",
 "The tests compare single swaps against an external simulation on samples, not histories with vaults and fees.",
 ["curve/stable.rs", "curve/base.rs", "processor.rs"], [("Newton iterations for the invariant", "curve/stable.rs")]))
L.append(prop("C20", "Deposits and withdrawals are pro rata",
 "Depositing both tokens for a number of pool tokens costs the same fraction of each reserve rounded up (constant-price: half the pool's value in each token), withdrawing pays the same fraction rounded down and never more than a vault holds, and single-sided deposits and withdrawals exchange the curve's own worth of pool tokens after the trading fee on half the amount, rounded against the user. The first deposit into a pool whose pool tokens have all been redeemed issues exactly the initial supply; a request that rounds to nothing on a side that is not empty is rejected.",
 ["inputs", "histories"], "all states including zero supply, one-unit supplies and one empty vault; all amounts and fees",
 NOPROC + "the conversion formulas are tested alone on samples.",
 ["processor.rs", "curve/calculator.rs", "curve/constant_product.rs", "curve/constant_price.rs", "curve/base.rs"], [("pool-token conversion", "curve/calculator.rs")]))
L.append(prop("C21", "No free lunch from round trips",
 "While only one group of users acts on a constant-price, constant-product or offset pool and pool tokens remain outstanding, in any number of operations of any kind and order - trades, deposits, withdrawals, donations, burns, fee collection - that group never reaches holdings that are at least as large in every token, pool tokens included, as it held before, and larger in one (reserves and supplies within the 12-decimal precision of the program's roots).",
 ["histories", "schedules", "inputs"], "all sequences of operations by a coalition including liquidity providers and the fee owner; all curve and fee parameters",
 "Round trips in the tests are single pairs at fixed points.",
 ["processor.rs", "curve/base.rs", "curve/offset.rs", "curve/constant_price.rs", "curve/constant_product.rs"], [("rounding against the user everywhere", "curve/calculator.rs")]))
L.append(prop("C22", "Every operation fits the compute budget",
 "Every valid operation on every pool completes within the chain's per-transaction compute limit of 200,000 units.",
 ["inputs", "configurations"], "all operations, curve parameters and reserves",
 "Unit tests run natively, where nothing counts compute units.",
 ["dfs_precise_number.rs", "curve/linear_price.rs"], [("reduced-precision square root", "dfs_precise_number.rs")]))
L.append(prop("C23", "The published client builds the instructions the program expects",
 "The TypeScript client and scripts name every account of every instruction in the order, with the writability and signatures, that the program requires.",
 ["programs"], "all client entry points",
 "The TypeScript tests need a validator and are not part of the runnable suite.",
 ["lib.rs"], [("instruction account structs", "instructions/")]))
L.append(prop("C24", "Requests end in success or an orderly refusal, never an abort",
 "Whatever accounts, bytes, amounts, pool parameters and ledger state a request meets, the program returns: with success or with an error. It never panics (no failed assertion, index out of range, unwrap of nothing, overflowing or impossible conversion, division by zero, stack exhaustion) and never loops without end, also at the extremes of the 64-bit range (amounts, prices, offsets, slopes, amplifications, balances and supplies of 0, 1, 2^64-1 and powers of two).",
 ["inputs", "faults", "histories"], "all requests, honest and hostile, on all pools including extreme parameters and balances and damaged accounts",
 "Unit tests call formulas with a few large literals; none sends a hostile request or meets a damaged account.",
 ["lib.rs", "processor.rs", "state.rs", "curve/"], [("conversions and checked arithmetic", "curve/constant_price.rs"), ("big-number roots", "dfs_precise_number.rs")]))
L.append(prop("C25", "A refusal names its reason",
 "A request with exactly one thing wrong is refused with the published error for it. On an existing pool: limit not met - ExceededSlippage; wrong authority - InvalidProgramAddress; wrong vault - IncorrectSwapAccount; wrong pool mint - IncorrectPoolMint; wrong fee account - IncorrectFeeAccount; wrong token program - IncorrectTokenProgramId; a vault as the user's account or the same vault on both sides of a swap - InvalidInput; a one-sided request in a token the pool does not hold - IncorrectSwapAccount; a host account of another mint - IncorrectPoolMint; a deposit where the curve takes none - UnsupportedCurveOperation; a swap or two-sided request that comes to nothing - ZeroTradingTokens. On creation: record in use - AlreadyInUse; authority, vault owner, fee or holder account owned by the authority, mint authority, repeated token, delegates, close authorities, issued supply, freeze authority, fee account's mint, starting balances, curve parameters, fees, accounts that are no token accounts or mints, and each owner constraint - the error declared for each. With several things wrong, one of theirs.",
 ["inputs", "histories", "configurations"], "all single defects of all requests on all pools and creations, constrained deployments included",
 "The processor's own tests are commented out; no running test sends a wrong account or a missed limit to the program.",
 ["processor.rs", "error.rs", "constraints.rs", "curve/fees.rs", "curve/linear_price.rs"], [("account checks", "processor.rs"), ("error numbers", "error.rs")]))
L.append(prop("C26", "Deployed pools and clients keep working",
 "The formats the program shares with the outside stay as published, so that a pool an earlier deployment left on the ledger and a client built for it go on working. A 324-byte record (version 1, initialised flag, bump seed, seven addresses, eight fee numbers, curve type 0 to 4 and its parameters, little-endian) is understood with exactly that meaning whatever bytes lie behind the curve's parameters, whatever the pool's balances and pool-token supply have become; requests in the published encoding (hash of the instruction name, little-endian arguments in their order, accounts in their order with their signer and writable flags, authority derived from the record's address) are carried out with exactly that meaning, on old and new pools; pools created now are written in the same format.",
 ["histories", "inputs", "configurations"], "all old and new pools of every curve, parameters, fees, balances, supplies and stale bytes; all requests",
 "The unit tests pack and unpack one sample per structure with the same code on both sides; none sends an encoded request or opens a pool written elsewhere.",
 ["lib.rs", "instructions/", "state.rs", "curve/base.rs", "processor.rs"], [("record layout", "state.rs"), ("instruction entry points", "lib.rs"), ("authority derivation", "processor.rs")]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
for p in L: assert len(p["title"]) <= 80
