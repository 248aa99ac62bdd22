"""python tools/places.py C06 [COUNT]: where the interrupts of a check's first scenarios fired, and how often."""
import collections
import concurrent.futures
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import check  # noqa: E402

prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
c = check.Check(prop, "quick", 1)
mod = importlib.import_module("dst.props." + prop.lower())
sc = []
for s in mod.scenarios(1, "quick"):
    sc.append(s)
    if len(sc) >= n:
        break
count = collections.Counter()


def work(part):
    w = check.Worker(prop.lower(), c.bdir, False)
    out = []
    for s in part:
        r = w.run(s, 60)
        out += [x[2] for x in (r or {}).get("summary", {}).get("interrupts", [])]
    w.stop()
    return out


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for o in ex.map(work, [sc[i::8] for i in range(8)]):
        count.update(o)
for k, v in count.most_common():
    print(v, k)
