#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit here, run, commit both."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C22": "Compute units are counted only by the BPF virtual machine; no BPF toolchain or VM is installed here, and native execution under the simulator has no such clock, so nothing a simulated run observes could decide it.",
 "C23": "The TypeScript client talks to a validator over JSON-RPC and web3.js is not installed; there is no seam through which the simulator could run it (app/src moreover still encodes the predecessor's one-byte instruction tags, which this Anchor program does not have). The simulator's own client builds every instruction from the program's published account order instead.",
}
T = {
 "C01": "deterministic simulation: trade/donation/fault histories on linear pools, collateral invariant after every commit against an exact big-integer area",
 "C02": "deterministic simulation with an exact big-integer reference model of the price line, every trade compared",
 "C03": "deterministic simulation: front-run/delayed/reordered requests, each replayed without its limit on the pre-state as oracle",
 "C04": "deterministic simulation: independent token ledger replays every successful operation; whole touched ledger and per-mint conservation compared",
 "C05": "deterministic simulation with fault enumeration: every token-program call of every successful operation made to fail in turn, plus random cut-offs at system calls",
 "C06": "deterministic simulation with Byzantine clients; must-refuse oracle from the registered pool configuration and consent monitor on every debit",
 "C07": "deterministic simulation of several pools; isolation monitor and commutation of adjacent operations on different pools",
 "C08": "deterministic simulation: valid and defective creation requests, accept/reject and resulting ledger against a reference model",
 "C09": "deterministic simulation: configuration and custody invariants after every committed transaction of hostile histories",
 "C10": "deterministic simulation: replica re-execution, crash and log replay from checkpoints, fork rollback, and whole-run digests compared between processes",
 "C11": "deterministic simulation with storage faults (torn, lost, misdirected, short writes, flipped bytes) on records and token accounts, must-refuse oracle",
 "C12": "deterministic simulation: exact share-value comparison before/after every operation of every history",
 "C13": "deterministic simulation with an exact fee model; every charge, host share and withdrawal fee compared",
 "C14": "deterministic simulation with an exact reference model; accept/reject and amounts of every constant-price swap",
 "C15": "deterministic simulation: all liquidity instructions in all reached states of locked pools must be refused",
 "C16": "deterministic simulation: arbitrary faulty history, then a fault-free closing phase in which every holder must get out in one transaction each",
 "C17": "deterministic simulation of constrained deployments (processor API with generated constraints, and the production build) against a reference validator",
 "C18": "deterministic simulation with an exact reference model; accept/reject and amounts of every constant-product and offset swap",
 "C19": "deterministic simulation with an independent invariant solver; range of the payout of every stable swap",
 "C20": "deterministic simulation with an exact reference model of deposits and withdrawals; accept/reject and amounts",
 "C21": "deterministic simulation of a coalition; dominance search over the whole recorded history of pool states",
 "C24": "deterministic simulation with extreme pools and amounts, hostile requests and damaged accounts; every execution watched for a panic or endless loop",
 "C25": "deterministic simulation with defective requests; the error of every refusal that has one explicable reason compared with the published error for it",
 "C26": "deterministic simulation starting from ledgers an earlier deployment left (hand-encoded records, stale bytes, any supply) with clients speaking a hand-encoded wire format; outcome of every request compared with the reference model",
}
LEVEL = {"C05": "fault_enumeration"}
NOTE = "Seeded search over simulated histories of the real program (native build): no proof, a violation outside the explored histories can exist. Trusts the runtime stub's account rules and the reference model; the SPL token program, Anchor and spl-math run as real code. "
EXTRA = {
 "C05": "Call failures are enumerated exhaustively for every successful operation met; operations and states are sampled.",
 "C10": "Different machines and the BPF build are outside.",
 "C19": "Amplifications 1 to 2,000,000, reserves up to 2^66 with ratios up to 50,000:1.",
 "C21": "Linear and stable pools are excluded; states beyond the 12-decimal root precision are not compared.",
 "C24": "Native stack and heap limits, not the BPF machine's.",
 "C25": "Judged only where the repaired request would certainly succeed; refusals by the token program or runtime, and withdrawals from linear pools, are not judged.",
 "C26": "The published format is the one of the pinned commit, written out by hand in the simulator.",
 "C17": "The production build is compiled with a generated owner key.",
}
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./run.sh check {p['id']} quick {LEVEL.get(p['id'], 'exploration')}",
   "thorough_cmd": f"./run.sh check {p['id']} thorough {LEVEL.get(p['id'], 'exploration')}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]],
   "level": LEVEL.get(p["id"], "exploration"),
   "level_note": NOTE + EXTRA.get(p["id"], ""),
 } for p in props if p["id"] not in NA],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks were needed in /repo: the program is already a pure function of the accounts it is given, and the simulator supplies runtime, network, storage and clients around it. Replay any violation with ./run.sh replay FILE.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
