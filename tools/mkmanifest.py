#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REC = "TLA+ specification, TLC; records of the real library judged by TLC against it"
BEH = "TLA+ specification, TLC; behaviours of the parser machine replayed on the library, and its records judged by TLC"
TRC = "TLA+ specification, TLC; recorded parses validated step by step as behaviours of the parser machine (trace validation), and its behaviours replayed"
T = {**{"C%02d" % k: REC for k in (1, 2, 3, 4, 5, 6)}, **{"C%02d" % k: BEH for k in (7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19)},
     "C20": REC, "C21": REC, "C22": REC, "C23": REC, "C24": REC, "C25": REC, "C16": TRC, "C17": TRC}
N = {
 "C01": "exhaustive on the construction machine for small production lists; on the library for the drawn lists only (offending productions at every place, three symbol types)",
 "C02": "as C01; every symbol and unknown ones are looked up",
 "C03": "fixpoint machine checked in every order, definitions checked against literal derivations (bounded); library: exhaustive for all grammars of up to 2 productions over 2+2 symbols (sampled in quick), and drawn grammars of up to about 30 symbols",
 "C04": "as C03",
 "C05": "termination is liveness of the analysis machine; library: repeated constructions with fresh hash seeds, three symbol types (one with constant hashes), reordered and repeated declarations; a hang is a violation after 10 s",
 "C06": "library: cells compared with the specification, from the FIRST/FOLLOW sets observed and from arbitrary supplied sets",
 "C07": "library: every accepted input of the replayed and drawn runs",
 "C08": "library: every accepted input of the replayed and drawn runs, distinct lexemes, absent lexemes too",
 "C09": "language oracle: span fixpoint (checked against literal derivations), pushdown machine for long inputs (checked against the span fixpoint)",
 "C10": "library: every truncation, junk and unknown tokens, solvers, thousands of tokens on a 1 GB stack; panics, aborts and hangs (10 s) are observed",
 "C11": "outcome compared with the big-step definition, which TLC checks against the parser machine",
 "C12": "reports compared with the machine's, entry by entry",
 "C13": "every report's parsed symbols and positions checked against the input",
 "C14": "viable prefixes computed from the grammar, pushdown machine for long inputs",
 "C15": "pairs of runs with and without solver; scripted solvers",
 "C16": "every recorded consultation must be the machine's next one",
 "C17": "every recorded result must be the machine's, given the recorded answers",
 "C19": "behaviours of the parser machine over drawn FIRST/FOLLOW sets replayed; random grammars with arbitrary and with slightly altered sets",
 "C20": "step counter on the parser machine; on the library the operations of a counting symbol type, against a linear bound whose factor depends on the grammar's size",
 "C21": "all interleavings of two parser machines on small grammars; on the library four threads and nested parses on shared parsers (the operating system chooses the interleavings); sharing is also a matter of compiling",
 "C22": "attempts counted by a definition that TLC checks against the parser machine's steps; on the library the operations of a counting symbol type, with and without a declining solver",
 "C23": "the number of rounds bounded on the analysis machine in every order; on the library the operations of a counting symbol type while grammar, sets and table are made, against a polynomial bound with a constant of 40",
 "C24": "library: every parse of the drawn sessions three times in a row with lexemes and symbols that count themselves and an allocator that counts bytes; compared with the lexemes in the recorded result",
 "C25": "token values explored exhaustively on a small heap machine; library: comparison and copy matrices for drawn tokens, productions and sets, four symbol types",
 "C18": "sessions of about 40 parses on shared and fresh parsers (some of 300, two of 70,000), some cut short by panics, repeated in reverse order in another process",
}
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 tools/check.py " + i,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                 "technique": T[i], "level": "model_checking",
                 "level_note": "Exhaustive on the specification within its bounds, sampled on the library: " + N[i] +
                 ". Trusts TLC, rustc, and the harness's transcription of the public API's values."} for i in sorted(T)],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. DESIGN.md describes the specification; KNOWN_FINDINGS.txt the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
