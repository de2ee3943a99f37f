#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the check table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
MODEL = "runtime monitoring: independent reference model compared with every result of the real code under structure-aware random workloads"
T = {
 "C14": "runtime monitoring: union-find oracle over random graphs and every small graph", "C15": "runtime monitoring: reachability oracle over random graphs and every small graph",
 "C16": "runtime monitoring: traversal-specification checker over random graphs and every small graph",
 "C12": "runtime monitoring: refusal and unchanged-operand monitor over misfitting requests",
 "C13": "runtime monitoring: recorded request histories against a map model",
 "C18": MODEL + ", at the limits of every index type, in overflow-checked and release builds",
 "C19": "sanitizers: AddressSanitizer and Miri over damaged and wild arguments to every public function",
 "C20": "runtime monitoring: residual and known-spectrum oracle, product requests watched at the native boundary",
 "C21": "runtime monitoring: ThreadSanitizer (native code included), overlap monitor at the native boundary, injected delays",
 "C22": "sanitizers: AddressSanitizer in the native code, valgrind memcheck, buffer-extent monitor at the native boundary",
 "C23": MODEL + ", over chains of operations",
 "C28": "runtime monitoring: other monitors' cases after failures and on several threads, known answers on shared matrices under injected delays, ThreadSanitizer",
 "C29": "runtime monitoring: counting allocator around every call (peak, held, left behind)",
 "C24": "runtime monitoring: operation counts from instrumented index and scalar types",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
           notes="No hooks in /repo: the crate is generic, so instrumented index and scalar types, link-time wrappers and sanitizer builds observe it from outside.")
for p in props:
    c = CHECKS[p["id"]]
    v = sorted({x for s in c["stages"] for x in s["variants"]})
    out["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
        technique=T.get(p["id"], MODEL), level="exploration",
        level_note="Held on every execution observed (builds: %s); inputs%s are sampled, not exhausted. Trusted: %s." % (", ".join(v), " and schedules" if p["id"] in ("C21", "C28") else "", "; ".join(a for a in c["assumptions"] if "sampled" not in a))))
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
