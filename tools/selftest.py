"""Development aid: are recorded results that were tampered with rejected?  selftest.py PROPERTY [mutants]
Records traces as the check does, changes one leaf of one result in each of a sample, and has the trace specification
judge the trace up to that event. Prints every change that was accepted."""
import json, os, random, shutil, sys, copy
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from driver import *


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def change(r, rnd):
    """One change in a copy of r: (copy, description)"""
    ls = list(leaves(r))
    path, old = rnd.choice(ls)
    if not path:
        return None
    c = copy.deepcopy(r)
    p = c
    for k in path[:-1]:
        p = p[k]
    if isinstance(old, bool):
        new = not old
    elif isinstance(old, int):
        new = max(0, old + rnd.choice([-1, 1]))
    elif isinstance(old, str):
        new = rnd.choice([old + "x", "", "a", "ok", "none"])
    else:
        new = list(old)
        how = rnd.randrange(3)
        if how == 0 and new:
            new.pop(rnd.randrange(len(new)))
        elif how == 1 and new:
            new.insert(rnd.randrange(len(new)), new[rnd.randrange(len(new))])
        elif len(new) > 1:
            i = rnd.randrange(len(new) - 1)
            new[i], new[i + 1] = new[i + 1], new[i]
        else:
            return None
    if new == old:
        return None
    p[path[-1]] = new
    return c, f"{'.'.join(map(str, path))}: {json.dumps(old)[:120]} -> {json.dumps(new)[:120]}"


def main():
    prop, want = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60
    cfg = SUITES[prop]
    work = os.path.join(BUILD, f"work-self-{prop}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build(cfg.get("cli", False))
    gens = generated(cfg.get("gen", []), work) + [histories(h, work, "quick") for h in cfg.get("histories", [])]
    lines, _ = record(prop, cfg, work, 7, "quick", gens, 400)
    rnd = random.Random(5)
    traces = [json.loads(x) for x in lines if len(x) < 60000]
    byop = {}
    for t in traces:
        for i, e in enumerate(t["ev"]):
            if e["op"] not in ("load", "fs") and "r" in e:
                byop.setdefault((e["op"], e["r"].get("k")), []).append((t, i))
    jobs = []
    for _ in range(want * 30):
        if len(jobs) >= want:
            break
        t, i = rnd.choice(byop[rnd.choice(sorted(byop, key=str))])
        m = change(t["ev"][i]["r"], rnd)
        if m:
            e = dict(t["ev"][i], r=m[0])
            jobs.append((t, i, m[1], {"id": t["id"], "ev": t["ev"][:i] + [e]}))

    def one(j):
        n, (t, i, d, m) = j
        w = os.path.join(work, f"m{n}")
        os.makedirs(w)
        try:
            v = validate([json.dumps(m)], w, "quick")[2]
            r = "accepted" if v is None else "rejected" if v[2] == "rejected" else "ill-formed"
        except NoAnswer as e:
            r = "NO ANSWER " + str(e)[-300:]
        shutil.rmtree(w, ignore_errors=True)
        return r, t["id"], t["ev"][i]["op"], d
    count = {}
    with ThreadPoolExecutor(int(os.environ.get("P", "4"))) as ex:
        for r, tid, op, d in ex.map(one, enumerate(jobs)):
            count[r[:9]] = count.get(r[:9], 0) + 1
            if r not in ("rejected", "ill-formed"):
                print(f"  {prop} {r}: {tid} {op} {d}")
    print(prop, count)
    shutil.rmtree(work, ignore_errors=True)


main()
