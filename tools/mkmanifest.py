#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded exhaustive exploration of programs x values/inputs on the compiled derive output, against an executable reference model"
NOTE = ("Exhaustive within the stated bounds (program grammar, value domains, input alphabets and lengths); "
        "the oracle is an independent reference model in /verif/engine/mc. Trusts rustc, std's integer/String parsing and the model. ")
ACC = "bounded exhaustive enumeration of programs (format strings, attributes), each decided by the real compiler and derive, against a reference grammar"
CLAIMED = {
    "C01": (TECH, NOTE),
    "C02": ("bounded exhaustive exploration of format specs x placeholder positions on the compiled derive output, against std::format! on a probe type that records everything a formatter carries", NOTE),
    "C03": (ACC, NOTE),
    "C04": (TECH, NOTE),
    "C05": (TECH, NOTE),
    "C06": (TECH, NOTE),
    "C07": (TECH, NOTE),
    "C08": (TECH, NOTE),
    "C09": (TECH, NOTE),
    "C10": (TECH, NOTE),
    "C11": (TECH, NOTE),
    "C12": (TECH, NOTE),
    "C13": (TECH, NOTE),
    "C15": (TECH, NOTE),
    "C16": ("bounded exhaustive enumeration of generic programs x marker instantiations; the implemented (type, trait) relation is read off the compiler for every instantiation and compared with the documented bounds", NOTE),
    "C17": ("bounded exhaustive enumeration of derive features x surroundings (shadowing, no prelude, renamings, macros, crate paths); every program compiled and every token sequence up to a depth explored, each surrounding compared with the plain one", NOTE.replace("the oracle is an independent reference model in /verif/engine/mc", "the oracle is the same type in a plain surrounding")),
    "C14": ("stateless model checking of the real code: the generated code and parse-display are compiled against a stand-in std whose synchronisation runs under a controlled scheduler; all histories to a depth and all thread interleavings to a preemption bound, a forked process each", "Exhaustive within the stated bounds (operations, threads, preemption bound, callback faults). Interleavings are switched at synchronisation operations, lazy initialisation and user callbacks; the results are compared with those of the operation alone in a fresh process. Trusts rustc, the shim's model of OnceLock/Mutex/atomics under sequential consistency and the regex crate."),
    "C18": ("bounded exhaustive exploration of programs x values/inputs, compiled without std (a stand-in keeps ::std unresolvable) and with it, both against the executable reference model", NOTE),
    "C19": ("bounded exhaustive exploration of delimiters x item sequences x input strings on the compiled formats, against a byte-level reference", NOTE),
    "C20": (ACC, NOTE),
    "C21": ("exhaustive fault injection: every write of the sink and every formatter failing, for every program x value of a bounded space, against the reference model's prefix", NOTE),
    "C23": ("bounded exhaustive enumeration of programs (display, parse, default, with and bound spaces; items x attributes x shapes x surroundings), each compiled with the derives and with no-op derives under the compiler's and clippy's lints; the reports are compared", NOTE.replace("an independent reference model in /verif/engine/mc", "the same program with derives that do nothing")),
    "C22": ("explicit-state exploration of the release script: every request on every tree of a bounded space, and every operation sequence to a depth, run for real on scratch repositories against a reference model", NOTE.replace("in /verif/engine/mc", "in driver/c22.py")),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 driver/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n.strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
