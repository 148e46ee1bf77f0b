"""Write MANIFEST.json from the registry (run by hand, result is committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import MODULES

TECH = {
    "C01": "TLA+ geometry spec checked by TLC; observed geometry of every box shape judged by TLC",
    "C02": "TLA+ heap-of-boards state machine; TLC-simulated behaviours replayed into the code, every step judged by TLC",
    "C03": "TLA+ heap-of-boards state machine with copies; TLC-simulated behaviours replayed, judged by TLC",
    "C04": "TLA+ text spec (Encode/Decode round trip model checked); observed encodings and decodings judged by TLC",
    "C05": "TLA+ text spec (Decode); observed readings of generated and mutated texts judged by TLC",
    "C06": "TLA+ text spec (ViewLines); observed printed boards judged character by character by TLC",
    "C07": "TLA+ rules spec; observed candidates judged by TLC",
    "C08": "TLA+ search machine explored by TLC for every puzzle and compared with the solutions the code yields",
    "C09": "TLA+ rules and search machine; verdicts of the code judged by TLC",
    "C10": "TLA+ technique machine model checked for soundness; traces of searches and steps validated by TLC",
    "C11": "TLA+ definitions of all pattern instances; steps found by the code judged by TLC",
    "C12": "TLA+ technique effects; observed effects of steps judged by TLC",
    "C13": "TLA+ solving loop model checked (safety and termination); traces of real solving runs validated by TLC",
    "C14": "TLA+ solving loop; traces of reported steps validated transition by transition by TLC",
    "C15": "TLA+ definitions of all pattern instances; observed hint lists judged by TLC",
    "C16": "TLA+ weights over validated solving traces; observed ratings and scores judged by TLC",
    "C17": "TLA+ digging machine model checked; generated puzzles explored by TLC's search machine",
    "C18": "TLA+ digging machine; shape, minimum and symmetry of generated puzzles judged by TLC",
    "C19": "TLA+ search machine; puzzles generated from templates explored and judged by TLC",
    "C20": "TLA+ notation spec (Write/Read round trip model checked); observed texts judged by TLC",
    "C21": "TLA+ notation spec (Read and the meaning of expression trees); observed readings judged by TLC",
    "C22": "TLA+ notation spec (moves); observed texts, readings and effects judged by TLC",
    "C23": "TLA+ shell machine; TLC-simulated command sequences replayed into the real shell, every step judged by TLC",
    "C24": "TLA+ shell machine with failing commands; replayed behaviours judged by TLC",
    "C25": "TLA+ shell machine with loops and script lines; scripts run by the real program, output judged by TLC",
    "C26": "TLA+ game machine (history); recorded games validated transition by transition by TLC",
    "C27": "TLA+ game machine (moves, automatic candidates, checks, hints); recorded games validated by TLC",
    "C28": "TLA+ shell machine with interrupts model checked; interrupted sessions of the real shell validated line by line by TLC",
    "C29": "TLA+ machine of interleaved searches model checked; TLC-simulated schedules replayed into the code, every event judged by TLC",
    "C30": "TLA+ spec of steps as values (total order model checked); comparisons, texts and changes of real steps judged by TLC",
    "C31": "TLA+ dialogue machine over the shell model checked; interactive sessions (also on a pseudo terminal) validated line by line by TLC",
    "C32": "TLA+ model of remembered answers checked (and shown to see forgetful ones); TLC-generated histories of changes and questions run in the code, every answer compared with that of a process asking nothing else, boards validated by TLC",
}
NOTE = ("Model checking of the specification itself within the bounds of its "
        "configuration, plus conformance: every recorded behaviour of the real "
        "code is accepted or rejected by TLC against the specification. "
        "Exhaustive over the spec bounds, sampled (seeded) over real inputs. "
        "Trusted: TLC, the specification, the recording harness.")
NOTES = {}

checks, missing = [], []
for pid, module in sorted(MODULES.items()):
    if not os.path.exists(os.path.join(HERE, module + ".py")):
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    cmd = "/opt/venv/bin/python harness/check.py " + pid
    checks.append({
        "property": pid, "quick_cmd": cmd + " quick",
        "thorough_cmd": cmd + " thorough",
        "technique": TECH[pid], "level": "model_checking",
        "level_note": NOTES.get(pid, NOTE)})
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python harness/setup.py",
    "checks": checks, "not_applicable": missing,
    "notes": "TLA+ with TLC. No hooks in the code under test. Checks run "
             "/opt/venv/bin/python on /repo's working tree directly."}
with open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "unclaimed")
