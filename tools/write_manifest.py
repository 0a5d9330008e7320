#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitoring: round-trip oracle over generated pictures and re-embedding histories",
 "C02": "runtime monitoring: acceptance compared with an independent size model at every capacity border",
 "C03": "runtime monitoring with fault injection: noise and carrier damage below the stated tolerance",
 "C04": "runtime monitoring: pixel-by-pixel distortion monitor",
 "C05": "runtime monitoring: invariants (inverse, energy, linearity) and reference transform",
 "C06": "runtime monitoring with fault injection: every 1- and 2-bit error, reference decoder",
 "C07": "runtime monitoring with fault injection: feature noise below one step",
 "C08": "runtime monitoring: reference model of quantization and restoration",
 "C09": "runtime monitoring: reference serializer, stale-state and trailing-data workloads",
 "C10": "runtime monitoring: differential oracle (ed25519-dalek), RFC vectors, tampering workload",
 "C11": "runtime monitoring: independent evaluation of the moments",
 "C12": "runtime monitoring: metamorphic relations between executions",
 "C13": "runtime monitoring: per-channel format oracle over ten pixel types",
 "C14": "runtime monitoring: verdict oracle conditioned on measured feature drift, noise injection",
 "C15": "runtime monitoring: tampering and forgery workload against an independent verifier",
 "C16": "runtime monitoring: malformed-data workload, crash monitor, independent verdict",
 "C17": "runtime monitoring: recorded multi-thread event logs checked offline against fresh processes",
 "C18": "runtime monitoring: process runs in a scratch folder, file-system snapshot oracle",
 "C19": "runtime monitoring: binding run natively under a host stand-in, compared with the library",
 "C20": "runtime monitoring: page helpers run under node with recording stand-ins",
 "C21": "runtime monitoring: reference codecs, malformed-text workload",
 "C22": "runtime monitoring: independent encoder/decoder and stored pictures",
 "C23": "runtime monitoring: reference functions and sequence replay",
 "C24": "sanitizers: AddressSanitizer, ThreadSanitizer, Miri, stack limits",
 "C25": "runtime monitoring: lattice oracle over windows of matrices, noise injection",
}
NOTE = ("Held on the executions of the run (counts in the evidence), not proved. Trusts the check's independent model, "
        "the workload generators and the libraries the repository itself trusts.")
EXTRA = {
 "C24": "Held on the executions of the run under the sanitizers; red-zone tools miss some errors by design, and paths not reached are not judged.",
 "C17": "Held on the recorded histories and interleavings (counts of overlapping operations in the evidence), not on all.",
}
PENDING = json.load(open(V + "/tools/pending.json")) if os.path.exists(V + "/tools/pending.json") else {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^monitor hooks"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "cfg(sia_monitor)",
           "enable": "RUSTFLAGS=\"--cfg sia_monitor\" cargo build of /verif/harness (path dependencies on /repo's crates); check.py does it",
           "source_commits": hook},
 "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
             "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": EXTRA.get(i, NOTE)}
            for i in ids if i not in PENDING],
 "not_applicable": [{"property": i, "reason": r} for i, r in PENDING.items()],
 "notes": "check.py exits 0 (held), 1 (VIOLATION) or 2 (no verdict: build failed, timed out, too little observed). known-findings.txt lists repaired defects; no open finding.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
