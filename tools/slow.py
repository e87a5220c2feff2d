"""Development aid: which recorded traces take long to judge?  slow.py PROPERTY [seconds per group]"""
import json, os, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from driver import *


def main():
    prop = sys.argv[1]
    least = float(sys.argv[2]) if len(sys.argv) > 2 else 8
    cfg = SUITES[prop]
    work = os.path.join(BUILD, f"work-slow-{prop}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build(cfg.get("cli", False))
    gens = generated(cfg.get("gen", []), work)
    for h in cfg.get("histories", []):
        gens.append(histories(h, work, "quick"))
    lines, _ = record(prop, cfg, work, int(os.environ.get("VERIF_SEED", "1")), "quick", gens, 400)

    def timed(a):
        tag, ls = a
        w = os.path.join(work, tag)
        os.makedirs(w)
        t = time.time()
        validate(ls, w, "quick", "t")
        return tag, ls, time.time() - t

    todo = [(f"g{i}", lines[i:i + 60]) for i in range(0, len(lines), 60)]
    depth = 0
    while todo:
        with ThreadPoolExecutor(4) as ex:
            done = list(ex.map(timed, todo))
        todo = []
        for tag, ls, t in done:
            if t < least:
                continue
            if len(ls) == 1:
                print(f"{t:.1f} s", ls[0][:1500])
            else:
                k = max(1, len(ls) // 8)
                todo += [(f"{tag}-{j}", ls[j:j + k]) for j in range(0, len(ls), k)]
        depth += 1
    shutil.rmtree(work, ignore_errors=True)


main()
