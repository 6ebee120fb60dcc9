#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "trace conformance: generated compilers built with ASan+UBSan, event log compared with an executable reference model"
T = {
 "C01": ("model-based runtime checking of palm under ASan/UBSan/LSan", "random and adversarial operation histories against a finite-map model; holds on the histories run"),
 "C02": ("differential runtime checking of palm against documented meanings under ASan/UBSan", "boundary-directed random inputs, each string in an exactly sized heap block"),
 "C03": ("message-log oracle over captured stderr under ASan/UBSan", "random message histories, each message checked word by word, counters and exit status compared with a model"),
 "C04": ("generated well-formed specifications: generate, compile, link and run with ASan/UBSan, compare trace with the reference model", "random specifications over the documented language"),
 "C05": ("mutation of well-formed specifications into ill-formed ones, exit status and stderr oracle under ASan/UBSan", "every mutation operator at random sites"),
 "C06": ("ASan+UBSan (and MSan where available) fuzzing of the generator with a status oracle", "mutated, truncated and random inputs and option combinations"),
 "C20": ("byte comparison of repeated runs under perturbed environments and of the self-generated generator", "several environments per specification"),
 "C21": ("metamorphic comparison of rewritten specifications, and trace comparison of the programs", "random compositions of semantics-preserving rewrites"),
 "C23": ("allocation fault injection and model checking of results under ASan/UBSan", "every single allocation of each scenario is failed once"),
 "C24": ("file-system snapshots before and after, with unwritable directories as an unprivileged user", "all path spellings generated"),
 "C25": ("trace monitor: driver messages of generated compilers interleaved with the log of actions, checked against a simulation, under ASan/UBSan", "random phase structures, gates, cycles and errors at all verbosities"),
 "C26": ("location oracle: printed locations checked against an independent tokenization, metamorphic over layouts, under ASan/UBSan", "every broken rule and random broken token sequences, several layouts"),
 "C27": ("runtime monitoring of every accessor on every node type, one process per access, under ASan/UBSan: status and message oracle", "random specifications with node sets and attribute grammars; with and without NDEBUG"),
 "C30": ("runtime monitoring of cocogen under ASan/UBSan as an unprivileged user in a scratch folder: metamorphic oracle (options against the run without them, breakpoints against the printed structure), status oracle for wrong usage", "random command lines over random well-formed and faulty specifications"),
 "C29": ("runtime monitoring of stdout, stderr, exit status, signals and the directory tree of processes under ASan/UBSan against a simulation of the program; directories as an unprivileged user in a scratch folder", "random programs with and without NDEBUG in which one assertion or one signal fires; random directory trees and request sequences"),
 "C28": ("runtime monitoring of the diagrams and printed trees cocogen writes under ASan/UBSan: independent oracle computed from the specification, and a symbolic run of the printed visit sequences", "random specifications in random order and letter case: plain, L-attributed, several visits, arbitrary dependencies"),
 "C16": ("runtime monitoring of set membership: TRAVcheck verdicts, traversal targets and child type checks of generated compilers under ASan/UBSan against set algebra, status oracle on empty and ill-typed sets", "random set expressions over random node universes"),
 "C17": ("runtime monitoring of accessor effects on every member of a set under ASan/UBSan, status oracle for conflicting attributes", "random sets of attributes and members"),
 "C18": ("order monitor: evaluation trace of generated attribute evaluators checked against the dependency relation and a reference evaluation, under ASan/UBSan", "random non-circular attribute grammars, trees and evaluation requests"),
 "C19": ("status oracle from an independent circularity analysis under ASan/UBSan", "random attribute grammars labelled by Knuth's circularity test"),
}
checks, na = [], []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    f = "checks/%s.py" % i.lower()
    if not os.path.exists(os.path.join(V, f)):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = T.get(i, (TRACE, "holds on all generated specifications and workload scripts that were run; trusts the reference model in lib/model.py, gcc and its sanitizers"))
    checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                   "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none: the monitors observe the library's and the generated programs' interfaces from outside", "enable": "not needed", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
