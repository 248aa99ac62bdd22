"""Writes MANIFEST.json from the properties that have a module in dst/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = {"C01", "C02", "C03", "C04", "C12"}
NOTE_N = ("Seeded search over schedules at the granularity of single memory accesses, heap contents and faults, on the extension compiled from /repo and run "
          "whole in one process under our scheduler. Samples; trusts the simulator runtime (native/simrt.cpp), sequentially consistent memory, CPython, numpy and pandas.")
NOTE_P = ("Seeded search over thread schedules, interrupts, save/restore points and faults of the seams (optimiser, random generators, files, imports) on the real frds "
          "code, run whole in one process under our scheduler. Samples; trusts the simulator (dst/pysim.py), CPython, numpy, scipy and pandas.")
NA = {
    "C17": "A pure, single-threaded computation on its arguments: no schedule, clock, randomness, I/O or fault takes part in it, so simulation could only generate inputs.",
    "C18": "A pure, single-threaded computation on its arguments: no schedule, clock, randomness, I/O or fault takes part in it, so simulation could only generate inputs.",
    "C19": "A pure, single-threaded computation on its arguments: no schedule, clock, randomness, I/O or fault takes part in it, so simulation could only generate inputs.",
    "C20": "A pure, single-threaded computation on its arguments: no schedule, clock, randomness, I/O or fault takes part in it, so simulation could only generate inputs.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py")):
            cmd = f"/opt/venv/bin/python -m dst.check {i}"
            checks.append({
                "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable)",
                "level": "exploration", "level_note": NOTE_N if i in NATIVE else NOTE_P})
        else:
            na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m dst.build", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every seam is at link level (-fsanitize=thread callbacks, --wrap) or at library level. Replay a violation with: "
                  "/opt/venv/bin/python -m dst.check replay FILE"}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
