#!/usr/bin/env python3
"""writes MANIFEST.json (one check per property of properties.jsonl)"""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "model-based stateful property testing: generated instruction histories through the real program (and the real spl-token processor) against a reference exchange, with tape shrinking"
TECH = {
 "C01": MODEL + "; conservation invariant over every state",
 "C02": MODEL + "; locks recomputed from the raw book after every instruction",
 "C03": MODEL + "; matching differential",
 "C04": MODEL + "; direct bounds on logged trades and token movements",
 "C05": MODEL + "; fee recomputed in 128-bit arithmetic, running totals",
 "C06": MODEL + "; structural invariant over the raw book bytes",
 "C16": MODEL + "; log replay with an independent decoder (round trip log to book)",
 "C17": "structure-aware fault injection on account lists (substitution, look-alikes, dropped signatures) over generated states, judged by an ownership and conservation oracle",
 "C18": "grammar-based and mutational fuzzing of the packet decoder against an independent encoder/decoder (round trip, differential)",
 "C19": MODEL + "; metamorphic: the batch against the same orders placed singly",
 "C21": "generated creation parameters, accounts and mints against a reference validity predicate; resulting state compared byte for byte",
 "C22": "structure-aware fuzzing of instruction bytes over generated market states, judged by an independent decoder, the reference exchange and state invariants",
 "C23": "generated books and clocks, ladder views compared with an oracle over the raw orders; conversions compared with 128-bit arithmetic",
 "C25": "every builder with generated parameters: metas and bytes compared with an independent encoder and the built instruction executed against the reference exchange",
 "C26": MODEL + "; bystander and cross-market frame conditions explained from logged trades",
 "C29": "generated forgeries of log calls (replayed, altered and random payloads, every account and signature shape) and substituted log accounts inside generated histories; the oracle is refusal",
 "C30": "generated histories with liveness probes: on a copy of a reached state every trader leaves by a generated route and order, and the payouts are compared with what the market's bytes recorded before (exit invariant)",
 "C31": "generated histories whose instructions are built by an IDL-driven encoder and judged by the reference exchange; logs, headers and seats read by an IDL-driven decoder and compared with an independent one (differential, round trip)",
 "C32": "metamorphic testing: one generated history in two worlds that differ in keys, seating, idle traders, past, slot and time, compared after every instruction under the translation of keys, order ids and expiries",
 "C33": "metamorphic testing: one generated history in two worlds, one of whose market accounts is rewritten between instructions from its contents alone in a random valid arrangement; compared after every instruction, and with the reference exchange",
 "C28": "differential testing of one generated history on several market sizes; capacity fill tests",
}
NOTE = ("Exploration: random search with shrinking on the real code, no exhaustiveness. Trusted: the harness' stand-in for the Solana runtime "
        "(ownership, privilege, rollback, lamport and CPI rules, no compute limits), the reference model, spl-token as linked. "
        "Quick 25 s and thorough 20 min on all cores.")
EXTRA = {
 "C11": " Full-book behaviour is exercised on the 512-order sizes.",
 "C18": " The decoder is pure, so cases are cheap (hundreds of thousands per second).",
 "C25": " Account creation above 10 KiB is compared structurally because a CPI-free system instruction creates it on chain.",
 "C28": " Trader tables and sides are filled to capacity on every supported size.",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, MODEL), "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is reached through the public instruction interface and the market account's bytes."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
