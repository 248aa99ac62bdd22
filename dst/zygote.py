"""A process that has everything imported and executes scenarios, one per request line on stdin.

python -m dst.zygote <property module> <build dir>
"""
import gc
import importlib
import json
import os
import sys
import traceback

from dst import native


def main():
    native.die_with_parent()
    mod = importlib.import_module("dst.props." + sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # whatever the code under test prints goes to stderr
    mod.prepare(sys.argv[2])
    # what a garbage collection frees, it frees at a time that is not simulated
    gc.collect()
    gc.freeze()
    gc.disable()
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = {"id": req["id"], "result": mod.execute(req["scenario"])}
        except BaseException:
            res = {"id": req["id"], "error": traceback.format_exc()}
        out.write(json.dumps(res) + "\n")
        out.flush()
        gc.collect()


if __name__ == "__main__":
    main()
