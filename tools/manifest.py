"""Writes MANIFEST.json from driver/config.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
import config
props = [json.loads(s) for s in open(os.path.join(ROOT, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [s.split()[0] for s in log.splitlines() if s.split(" ", 1)[1].startswith("hook:")]
DEFAULT_NOTE = (
    "Kani discharges every obligation generated from the current source, for all inputs: the specification "
    "asserted after a call of each function, and the contract attached to the function with its frame. Trusted: "
    "Kani, CBMC, the specification functions. Termination is covered by unwinding assertions only.")
checks = []
for p in props:
    c = config.PROPERTIES.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 driver/check.py {p['id']} quick",
        "thorough_cmd": f"python3 driver/check.py {p['id']} thorough",
        "technique": c.get("technique", "function contracts on the real code, discharged by Kani/CBMC (deductive verification)"),
        "level": c.get("level", "proof"),
        "level_note": c.get("note", DEFAULT_NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 driver/setup.py",
    "hooks": {
        "guard": "cfg(kani) and cfg(kani_contracts)",
        "enable": "cargo kani sets cfg(kani); driver/check.py adds RUSTFLAGS='--cfg kani_contracts' for the passes over attached contracts",
        "source_commits": hooks[::-1],
    },
    "checks": checks,
    "not_applicable": [
        {"property": p["id"], "reason": config.NOT_APPLICABLE.get(p["id"], "no check yet")}
        for p in props if p["id"] not in config.PROPERTIES],
    "notes": "See DESIGN.md. Known findings and repaired defects: known-findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
