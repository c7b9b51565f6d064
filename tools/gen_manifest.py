#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios the simulator knows."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = subprocess.run(['/verif/target/debug/rcsim', 'list'], capture_output=True, text=True, check=True).stdout.split()
NA = {
 "N01": "Wall-clock time of an instruction sequence is exactly what a deterministic simulation abstracts away; it cannot observe it.",
 "N02": "The portable AES backend is not compiled on this host (the build selects AES-NI), so the two cannot meet in one execution, and agreement of two pure block functions has no schedule or fault to vary. The compiled backend is decided by B01.",
}
NOTE = "Seeded deterministic simulation of the real library code: every run is one generated schedule of calls with injected faults, executed against an executable reference model of the standard; quiet means no violation in the schedules explored, not a proof."
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif i in have:
        checks.append(dict(property=i, quick_cmd=f"bash /verif/run.sh {i}", thorough_cmd=f"bash /verif/run.sh {i}",
            evidence_file=f"/verif/evidence/{i}.json", technique="deterministic simulation with fault injection",
            level="exploration", level_note=NOTE))
    else:
        print("not claimed yet:", i)
json.dump(dict(version=1, setup_cmd="bash /verif/build.sh && /verif/target/debug/rcsim selftest",
    hooks=dict(guard="none", enable="No hooks were needed: the simulator plugs into the public traits (Cipher, Padding, InitialVec, Counter, Digest, Source, IterSource).", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Each check rebuilds the simulator against /repo (cargo, offline, into /verif/target), runs the seeded schedules of its property and prints VIOLATION with a replay file; `bash /verif/run.sh replay FILE` reproduces it."),
    open('/verif/MANIFEST.json', 'w'), indent=1)
