#!/usr/bin/env python3
"""Checks one property: `check.py C01 [quick|thorough]`. See DESIGN.md."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import config  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
LIMIT = 840  # seconds for everything
START = time.time()
KANI = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options"]
GOOD = ("Success", "Satisfied", "Unreachable")
# Failures of the tool's own bounds: nothing is decided.
UNDECIDED = ("unwind", "unsupported_construct", "recursion")


def say(*a):
    print(*a, flush=True)


def left():
    return LIMIT - (time.time() - START)


def run(cmd, log, timeout, env=None, cwd=HARNESS):
    """Runs a command with its output in a file. Returns its exit status, or None if it was ended."""
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR")}
    e.update({"CARGO_NET_OFFLINE": "true"}, **(env or {}))
    with open(log, "w") as f:
        f.write("$ " + " ".join(f"{k}={v}" for k, v in (env or {}).items()) + " " + " ".join(cmd) + "\n")
        f.flush()
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=max(5, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


def tail(path, n=25):
    try:
        lines = open(path, errors="replace").read().splitlines()
    except OSError:
        return ""
    errors = [i for i, s in enumerate(lines) if s.startswith("error")]
    if errors:
        lines = lines[errors[0]:]
        return "\n".join(lines[:n])
    return "\n".join(lines[-n:])


class Pass:
    """One run of Kani over some harnesses."""

    def __init__(self, pid, kind, number, spec, work):
        self.pid, self.kind, self.spec = pid, kind, spec
        self.filters, self.flags, self.cbmc, self.limit = spec
        self.log = os.path.join(work, f"{kind}{number}.log")
        self.json = os.path.join(work, f"{kind}{number}.json")
        self.target = os.path.join(work, f"target-{kind}")
        self.env = {"RUSTFLAGS": "--cfg kani_contracts"} if kind == "contract" else {}
        self.results = []
        self.problem = None

    def command(self, extra=(), cbmc=True):
        cmd = ["cargo", "kani", "--features", self.pid.lower(), *KANI, "--target-dir", self.target]
        cmd += [x for f in self.filters for x in ("--harness", f)]
        cmd += list(self.flags) + list(extra)
        if self.kind == "contract":
            cmd += ["--no-assert-contracts"]
        if cbmc and self.cbmc:
            cmd += ["--cbmc-args", *self.cbmc]
        return cmd

    def run(self):
        t = time.time()
        rc = run(self.command(["-j", "8", "--output-format", "terse", "--export-json", self.json]),
                 self.log, min(self.limit, left()), self.env)
        self.wall = time.time() - t
        if rc is None:
            self.problem = f"ended after {self.wall:.0f} s"
            return self
        try:
            data = json.load(open(self.json))
        except (OSError, ValueError):
            self.problem = "no result from Kani:\n" + tail(self.log)
            return self
        self.results = data["verification_results"]["results"]
        self.stats = {c["harness_id"]: c for c in data.get("cbmc", [])}
        self.meta = {h["pretty_name"]: h for h in data.get("harness_metadata", [])}
        self.tools = data.get("tools", {})
        if not self.results:
            self.problem = "no harness was run:\n" + tail(self.log)
        return self


def judge(result):
    """(failed obligations, undecided ones, unsatisfied covers, number of obligations, discharged)"""
    failed, undecided, covers, total, good = [], [], [], 0, 0
    for c in result["checks"]:
        if c["category"] == "cover":
            if c["status"] not in ("Satisfied", "Undetermined"):
                covers.append(c)
            continue
        total += 1
        if c["status"] in GOOD:
            good += 1
        elif c["status"] == "Failure":
            if c["category"] in UNDECIDED or "unwinding assertion" in c["description"] or "LIMIT:" in c["description"]:
                undecided.append(c)
            else:
                failed.append(c)
        else:
            undecided.append(c)
    return failed, undecided, covers, total, good


def where(c):
    loc = c.get("location") or {}
    return f"{loc.get('file')}:{loc.get('line')}"


def describe(c):
    return f"[{c['category']}] {c['description']} at {where(c)} in {c.get('function')}"


def replay(pid, p, harness, failed, work):
    """Replays the verifier's counterexample natively, against the code in /repo.

    Returns (confirmed, text)."""
    if left() < 60:
        return False, "no time left for a replay\n"
    module = harness.split("::")[0]
    log = os.path.join(work, "counterexample.log")
    q = Pass(pid, p.kind, "x", ([harness],) + tuple(p.spec[1:]), work)
    rc = run(q.command(["--exact", "-Z", "concrete-playback", "--concrete-playback", "print"]),
             log, left() - 40, p.env)
    out = open(log, errors="replace").read()
    tests = re.findall(r"^Concrete playback unit test for `[^`\n]*`:\n```\n(.*?^#\[test\]\n.*?)^```", out, re.S | re.M)
    tests = [re.sub(r"\A.*?(?=^#\[test\]$)", lambda m: re.sub("(?m)^(?:/// ?)?", "// ", m[0].strip()) + "\n", t, flags=re.S | re.M)
             for t in tests if "Check for `cover`" not in t]
    if rc is None or not tests:
        return False, "The verifier gave no concrete values.\n"
    # The same values are often given for several failed checks.
    unique = {}
    for t in tests:
        name = re.search(r"fn (kani_concrete_playback_\w+)\(", t).group(1)
        unique.setdefault(name, t)
    crate = os.path.join(work, "replay")
    shutil.rmtree(crate, ignore_errors=True)
    shutil.copytree(HARNESS, crate, ignore=shutil.ignore_patterns("target"))
    path = os.path.join(crate, "src", *module.split("::")) + ".rs"
    inner = harness.split("::")[1:-1]
    source = open(path).read()
    text = "\n".join(list(unique.values())[:4])
    if inner:
        text = "use self::" + "::".join(inner) + "::*;\n" + text
    open(path, "w").write(source + "\n#[cfg(test)]\nmod replayed {\nuse super::*;\n" + text + "\n}\n")
    log = os.path.join(work, "replay.log")
    rc = run(["cargo", "kani", "playback", "--features", pid.lower(), "-Z", "concrete-playback", "--",
              "kani_concrete_playback"], log, left() - 10,
             {"CARGO_TARGET_DIR": os.path.join(work, "target-replay"), "RUST_BACKTRACE": "0"}, cwd=crate)
    native = open(log, errors="replace").read()
    # A test that fails because of the code, and not because the values are no valid input.
    blocks = re.findall(r"^---- (\S+) stdout ----\n(.*?)(?=^---- |^failures:|\Z)", native, re.S | re.M)
    real = [b for b in blocks if "kani::assume" not in b[1] and "panicked at" in b[1]]
    crashed = rc is not None and "signal:" in native
    confirmed = bool(real) or crashed
    return confirmed, (
        "Concrete values from the verifier:\n\n" + text
        + "\n\nRun natively, against the code in /repo"
        + " (append the test above to harness/src/" + module + ".rs and run"
        + f" `cargo kani playback --features {pid.lower()} -Z concrete-playback -- kani_concrete_playback`):\n\n"
        + native[-6000:]
    )


def functions(p):
    """Functions of /repo in which obligations were generated."""
    found = set()
    for r in p.results:
        for c in r["checks"]:
            if str((c.get("location") or {}).get("file", "")).startswith(REPO) and c.get("function") or "::no_std::" in str(c.get("function")):
                name = c["function"].split("::{closure")[0]
                if "::contracts::" not in name:
                    found.add(name)
    return found


def targets(pid):
    """Harness -> function under contract, from the text of the harness module."""
    source = open(os.path.join(HARNESS, "src", pid.lower() + ".rs")).read()
    return re.findall(r"fn_check!\((\w+), \[([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", source)


def scan(pid):
    """What a proof leaves out, from the text of the harness module."""
    source = open(os.path.join(HARNESS, "src", pid.lower() + ".rs")).read()
    out = []
    for m in re.finditer(r"kani::stub\(([^)]*)\)", source):
        out.append("stub: " + m.group(1))
    for m in re.finditer(r"kani::assume\((.*)\);", source):
        out.append("assumed of the input: " + m.group(1))
    for m in re.finditer(r"// Assumption: (.*)", source):
        out.append(m.group(1))
    return sorted(set(out))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if tier == "thorough":
        global LIMIT
        LIMIT = 3600 * 3
    spec = config.PROPERTIES[pid]
    work = os.path.join(VERIF, "build", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(VERIF, "replay")
    os.makedirs(replays, exist_ok=True)
    prepare = spec.get("prepare")
    if prepare:
        prepare(work)

    passes = []
    for kind in ("plain", "contract"):
        for i, s in enumerate(spec.get(kind, []) + (spec.get("thorough_" + kind, []) if tier == "thorough" else [])):
            if kind == "contract" and left() < 120:
                break
            p = Pass(pid, kind, i, s, work)
            say(f"# {pid} {kind} {' '.join(s[0])}")
            passes.append(p.run())
            say(f"# {len(p.results)} harnesses, {p.wall:.0f} s" + (f", {p.problem}" if p.problem else ""))
            if kind == "plain" and any(judge(r)[0] for r in p.results):
                break
        if any(judge(r)[0] for p in passes for r in p.results):
            break

    broken, undecided, warnings, bounded = [], [], [], []
    total = good = 0
    for p in passes:
        if p.problem:
            (undecided if p.kind == "plain" else warnings).append(f"{p.kind} {p.filters}: {p.problem}")
            continue
        for r in p.results:
            failed, open_, covers, n, d = judge(r)
            name = r["harness_id"]
            if name.split("::")[-1].startswith("bounded_"):
                bounded.append({"harness": name, "obligations": n, "discharged": d})
            else:
                total += n
                good += d
            if failed:
                broken.append((p, r, failed))
            elif open_ or (r["status"] != "Success"):
                text = "; ".join(map(describe, open_[:3])) or "the verifier gave no result"
                (undecided if p.kind == "plain" else warnings).append(f"{p.kind} {name}: {text}")
            elif covers or n == 0:
                undecided.append(f"{p.kind} {name}: vacuous, "
                                 + ("; ".join(map(describe, covers[:3])) or "no obligations"))

    contracts = sorted({t for h, t in targets(pid)})
    checked = sorted({
        (p.meta.get(r["harness_id"], {}).get("attributes", {}).get("kind") or "?").split('"')[1]
        for p in passes if p.kind == "contract" and not p.problem
        for r in p.results
        if r["status"] == "Success" and '"' in (p.meta.get(r["harness_id"], {}).get("attributes", {}).get("kind") or "")
    })
    contracts = sorted(set(contracts) | set(checked))
    reached = sorted(set().union(*[functions(p) for p in passes]) if passes else [])
    solver = sum(
        float((s.get("cbmc_stats") or {}).get("runtime_solver_s") or 0)
        for p in passes if not p.problem for s in p.stats.values())
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": spec.get("level", "proof"),
        "coverage": {
            "obligations": total,
            "discharged": good,
            "checker_cmd": " ; ".join(
                ("RUSTFLAGS='--cfg kani_contracts' " if p.kind == "contract" else "") + " ".join(p.command())
                for p in passes),
            "trusted_base": config.TRUSTED + spec.get("trusted", []),
            "back_end": "Kani 0.68.0, CBMC 6.11.0, SAT solver CaDiCaL (or as a harness states)",
            "solver_s": round(solver, 2),
            "functions_under_contract": contracts,
            "contracts_checked_with_frame_conditions": checked,
            "functions_with_obligations": reached,
            "harnesses": [
                {"harness": r["harness_id"], "mode": p.kind, "status": r["status"],
                 "s": round(r["duration_ms"] / 1000, 2), "obligations": judge(r)[3], "discharged": judge(r)[4]}
                for p in passes for r in p.results],
            "bounded_not_counted_as_proved": bounded,
            "assumptions": scan(pid) + spec.get("assumptions", []),
            "undecided": undecided + warnings,
        },
        "wall_s": 0,
    }

    status = 0
    if broken:
        status = 1
        broken.sort(key=lambda b: (b[0].kind != "plain", b[1]["duration_ms"]))
        confirmed, text = False, ""
        chosen = broken[0]
        for p, r, failed in broken[:3]:
            if p.kind != "plain":
                continue
            say(f"# replaying {r['harness_id']}")
            confirmed, t = replay(pid, p, r["harness_id"], failed, work)
            if confirmed or not text:
                text, chosen = t, (p, r, failed)
            if confirmed:
                break
        path = os.path.join(replays, f"{pid}.txt")
        with open(path, "w") as f:
            f.write(f"Property {pid} is broken.\n\nFailed obligations:\n")
            for p, r, failed in broken:
                f.write(f"  {r['harness_id']} ({p.kind}; {p.log})\n")
                for c in failed[:10]:
                    f.write(f"    {describe(c)}\n")
            f.write(f"\nVerifier: {' '.join(chosen[0].command())}\n\n")
            f.write(text or "No concrete input.\n")
            f.write("\nOutput of the verifier:\n" + open(chosen[0].log, errors="replace").read()[-20000:])
        for p, r, failed in broken:
            say(f"# failed: {r['harness_id']}: " + "; ".join(describe(c) for c in failed[:3]))
        say(f"VIOLATION property={pid} replay={path}" + ("" if confirmed else " no-failing-input-found"))
    elif undecided:
        status = 2
        say(f"UNDECIDED property={pid}")
    for u in undecided + warnings:
        say("# undecided: " + u)
    evidence["coverage"]["failed"] = [
        {"harness": r["harness_id"], "obligations": [describe(c) for c in failed[:10]]} for p, r, failed in broken]
    if "explanation" in spec:
        evidence["coverage"]["explanation"] = spec["explanation"]
    evidence["assumptions"] = evidence["coverage"]["assumptions"]
    evidence["violations"] = len(broken)
    evidence["wall_s"] = round(time.time() - START, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if not os.environ.get("KEEP_BUILD"):
        for d in os.listdir(work):
            if d.startswith("target-") or d == "replay":
                shutil.rmtree(os.path.join(work, d), ignore_errors=True)
    say(f"# {pid}: {good}/{total} obligations, {evidence['wall_s']} s")
    return status


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
