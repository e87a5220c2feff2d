"""The check driver: build from /repo, run TLC on the design models, enumerate inputs with TLC, record
traces of the real code, and let TLC validate them against the specification."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FINDINGS = os.path.join(VERIF, "known-findings.txt")

from suites import SUITES  # noqa: E402


class NoAnswer(Exception):
    pass


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace")


def build(need_cli):
    os.makedirs(BUILD, exist_ok=True)
    jobs = [(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
             os.path.join(BUILD, "harness"))]
    if need_cli:
        jobs.append((["cargo", "build", "--offline", "--quiet", "-p", "dandy-cli", "--manifest-path",
                      os.path.join(REPO, "Cargo.toml")], os.path.join(BUILD, "cli")))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)

        def one(job):
            return run(job[0], 800, env={"CARGO_TARGET_DIR": job[1], "RUSTFLAGS": "-Awarnings"})

        with ThreadPoolExecutor(2) as ex:
            for rc, out in ex.map(one, jobs):
                if rc != 0:
                    raise NoAnswer("build failed\n" + out[-4000:])


def java(heap):
    return ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-Dfile.encoding=UTF-8", "-cp", CP, "tlc2.TLC",
            "-noGenerateSpecTE"]


def tlc(module, cfg, work, timeout, env=None, workers=8, heap="6g", extra=()):
    meta = os.path.join(work, "tlc-" + cfg.replace(".cfg", ""))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = java(heap) + ["-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    rc, out = run(cmd, timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return rc, out, gen, dist


def generated(shapes, work):
    """Inputs enumerated by TLC; a function of the specification only, so kept between runs."""
    if not shapes:
        return []
    h = hashlib.sha256(b"".join(open(os.path.join(SPEC, f), "rb").read() for f in ("Gen.tla", "Shapes.tla"))).hexdigest()[:12]
    d = os.path.join(BUILD, "gen-" + h)
    os.makedirs(d, exist_ok=True)
    need = [s for s in shapes if not os.path.exists(os.path.join(d, s + ".ndjson"))]
    if need:
        tmp = os.path.join(work, "gen-")
        env = {"GEN_" + s: "1" for s in need}
        env["OUT"] = tmp
        rc, out, _, _ = tlc("Gen", "Gen.cfg", work, 300, env=env, workers=1, heap="3g")
        if rc != 0:
            raise NoAnswer("input generation failed\n" + out[-3000:])
        for s in need:
            os.replace(tmp + s + ".ndjson", os.path.join(d, s + ".ndjson"))
    return [os.path.join(d, s + ".ndjson") for s in shapes]


def histories(h, work, tier):
    """Behaviours of a specification, emitted by TLC as JSON lines, for replay into the code."""
    name = h["cfg" if tier == "quick" else "cfg_thorough"] if tier != "quick" and "cfg_thorough" in h else h["cfg"]
    src = b"".join(open(os.path.join(SPEC, f), "rb").read() for f in sorted(os.listdir(SPEC)) if f.endswith((".tla", ".cfg")))
    d = os.path.join(BUILD, "hist-" + hashlib.sha256(src).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".ndjson")
    if not os.path.exists(f):
        rc, out, gen, dist = tlc(h["module"], name, work, 300, workers=1, heap="3g", extra=h.get("extra", ()))
        if rc != 0:
            raise NoAnswer("behaviour generation failed\n" + out[-3000:])
        lines = []
        for ln in out.splitlines():
            if ln.startswith('"HIST '):
                lines.append(json.loads(ln)[5:])
        if not lines:
            raise NoAnswer("behaviour generation produced nothing\n" + out[-3000:])
        lines = sorted(set(lines))
        with open(f + ".tmp", "w") as o:
            o.write("\n".join(lines) + "\n")
        os.replace(f + ".tmp", f)
    return f


def model(m, work, tier):
    name, cfg = m["module"], m["cfg"]
    if tier == "thorough":
        cfg = m.get("cfg_thorough", cfg)
    t = time.time()
    rc, out, gen, dist = tlc(name, cfg, work, 200 if tier == "quick" else 3000, heap="4g" if tier == "quick" else "12g",
                             extra=m.get("extra", ()))
    if rc != 0:
        raise NoAnswer(f"design model {name}/{cfg}: TLC exit {rc}\n" + out[-4000:])
    if "Model checking completed. No error" not in out:
        raise NoAnswer(f"design model {name}/{cfg} did not complete\n" + out[-4000:])
    if dist < m.get("min_states", 2):
        raise NoAnswer(f"design model {name}/{cfg} explored only {dist} states")
    return {"model": name, "config": cfg, "states": dist, "transitions": gen, "seconds": round(time.time() - t, 1)}


def complete_crashed(out_dir, kind):
    """The harness process died: the trace under way ends with the call it was making."""
    lines = open(os.path.join(out_dir, "progress"), encoding="utf-8", errors="replace").read().splitlines()
    if not lines:
        return None
    tid = json.loads(lines[0])["id"]
    ev, pend = [], None
    for ln in lines[1:]:
        try:
            if ln.startswith("PENDING "):
                pend = json.loads(ln[8:])
            else:
                ev.append(json.loads(ln))
                pend = None
        except ValueError:
            pass
    if pend is None:
        return None
    pend["r"] = {"k": kind}
    ev.append(pend)
    return {"id": tid, "ev": ev}


def record(prop, cfg, work, seed, tier, gens, budget):
    out = os.path.join(work, "traces")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [os.path.join(BUILD, "harness/debug/dh"), prop, "--seed", str(seed), "--tier", tier, "--out", out,
           "--cli", os.path.join(BUILD, "cli/debug/dandy-cli")]
    if gens:
        g = os.path.join(work, "gen.ndjson")
        with open(g, "w") as f:
            for p in gens:
                f.write(open(p).read())
        cmd += ["--gen", g]
    rc, txt = run(cmd, budget, env={"HOME": work, "TMPDIR": work})
    path = os.path.join(out, "traces.ndjson")
    lines = open(path).read().split("\n")
    whole = []
    for ln in lines:
        if ln:
            try:
                json.loads(ln)
                whole.append(ln)
            except ValueError:
                pass  # cut off by a crash
    stats = re.search(r"STATS (\d+) (\d+) (\d+)", txt)
    if rc == 7:
        pass  # watchdog: the hang is in the trace
    elif rc != 0:
        t = complete_crashed(out, "hang" if rc is None else "crash")
        if t is None:
            raise NoAnswer(f"harness exit {rc}\n" + txt[-3000:])
        # traces are buffered: the crash may have eaten complete ones, the crashed one is what matters
        whole.append(json.dumps(t))
    elif not stats:
        raise NoAnswer("harness gave no statistics\n" + txt[-3000:])
    dropped = int(stats.group(3)) if stats else 0
    if rc == 0 and dropped > max(20, len(whole) // 3):
        raise NoAnswer(f"{dropped} traces dropped because their set-up failed, {len(whole)} recorded")
    return whole, dropped


def violated_at(out):
    """The state a rejected trace stopped in."""
    tid = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    l = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not tid or not l:
        return None
    return int(tid[-1]), int(l[-1])


def validate(lines, work, tier, tag="t"):
    """Returns (states, transitions, None | (trace index, event index, kind))"""
    f = os.path.join(work, f"v-{tag}.ndjson")
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    rc, out, gen, dist = tlc("Trace", "Trace.cfg", work, 600 if tier == "quick" else 3000, env={"TRACES": f}, heap="10g")
    if rc == 0 and "No error has been found" in out:
        want = sum(len(json.loads(x)["ev"]) + 1 for x in lines)
        if dist != want:
            raise NoAnswer(f"trace validation visited {dist} states, {want} expected")
        return dist, gen, None
    at = violated_at(out)
    if rc == 11 and at:
        return dist, gen, (at[0] - 1, at[1] - 1, "rejected")
    if rc in (75, 76, 255, 12, 10) and at and "StackOverflow" not in out and "OutOfMemory" not in out:
        # what the code returned is outside the types of the specification
        return dist, gen, (at[0] - 1, at[1] - 1, "ill-formed: " + " ".join(
            x for x in out.splitlines() if "rror" in x or "ttempted" in x)[:300])
    raise NoAnswer(f"trace validation: TLC exit {rc}\n" + out[-4000:])


def findings(prop):
    r = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            if ln.startswith("{"):  # an open finding; repaired ones are lines of text
                v = json.loads(ln)
                if v.get("status") == "open" and v["property"] == prop:
                    r.append(v)
    return r


def matches(f, ev):
    """A known finding names the operation, and text that must occur in the event."""
    return ev["op"] == f["op"] and all(x in json.dumps(ev, ensure_ascii=True) for x in f["contains"])


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = SUITES[prop]
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(prop, cfg, tier, seed, work)
    except NoAnswer as e:
        print(f"NO ANSWER property={prop}: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def nontrivial(cfg, t):
    """Distinct non-trivial: the trace makes at least one judged call beyond loading its inputs."""
    return any(e["op"] != "load" for e in t["ev"])


def check(prop, cfg, tier, seed, work):
    t0 = time.time()
    notes = []
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, cfg.get("cli", False))
        mods = [model(m, work, tier) for m in cfg.get("models", [])]
        shapes = cfg.get("gen", []) + (cfg.get("gen_thorough", []) if tier == "thorough" else [])
        gens = generated(shapes, work)
        for h in cfg.get("histories", []):
            gens.append(histories(h, work, tier))
        fb.result()
    rounds = 1 if tier == "quick" else cfg.get("rounds", 6)
    limit = 3000 if tier == "thorough" else 600
    states = sum(m["states"] for m in mods)
    trans = sum(m["transitions"] for m in mods)
    ntraces = nevents = 0
    ops, seen, results = {}, set(), {}
    known = findings(prop)
    sample = []
    viol = None
    dropped = 0
    printed = set()
    for rnd in range(rounds):
        lines, d = record(prop, cfg, work, seed + 1000 * rnd, tier, gens if rnd == 0 else gens[:0] or gens, 400 if tier == "quick" else 1500)
        dropped += d
        if not lines:
            raise NoAnswer("no traces recorded")
        # the final trace of a run that crashed or hung goes first
        size = 40_000_000
        chunks, cur, n = [], [], 0
        for ln in lines:
            cur.append(ln)
            n += len(ln)
            if n > size:
                chunks.append(cur)
                cur, n = [], 0
        if cur:
            chunks.append(cur)
        for ch in chunks:
            while ch and viol is None:
                s, g, v = validate(ch, work, tier)
                states += s
                trans += g
                if v is None:
                    break
                t = json.loads(ch[v[0]])
                ev = t["ev"][min(v[1], len(t["ev"]) - 1)]
                k = next((f for f in known if matches(f, ev)), None)
                if k:
                    if k["what"] not in printed:
                        print(f"KNOWN-FINDING: property={prop} {k['what']}")
                        printed.add(k["what"])
                    ch = ch[:v[0]] + ch[v[0] + 1:]
                    continue
                viol = (t, v[1], v[2])
            if viol:
                break
            for ln in ch:
                t = json.loads(ln)
                ntraces += 1
                nevents += len(t["ev"])
                for e in t["ev"]:
                    ops[e["op"]] = ops.get(e["op"], 0) + 1
                    k = e["op"] + ":" + str(e.get("r", {}).get("k", "-")) + (
                        "/" + e["r"]["t"] if isinstance(e.get("r", {}).get("t"), str) else "") + (
                        "/" + e["name"] if isinstance(e.get("name"), str) else "")
                    results[k] = results.get(k, 0) + 1
                if nontrivial(cfg, t):
                    seen.add(hashlib.md5(json.dumps(t["ev"], sort_keys=True).encode()).digest())
                if len(sample) < 3 and len(ln) < 3000 and rnd == 0 and ntraces % 97 == 5:
                    sample.append(t)
        if viol or time.time() - t0 > limit:
            break
    missing = [o for o in cfg.get("ops", []) if not ops.get(o)]
    if not viol and missing:
        raise NoAnswer(f"no event of kind {missing} was recorded")
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": ntraces, "samples": sample,
           "events_validated": nevents, "events_by_operation": ops, "events_by_result": results, "design_models": mods,
           "evaluations": ntraces, "distinct_nontrivial": len(seen),
           "rule": "a trace is one automaton, expression, file set or call history with every judged call made on it; "
                   "distinct by full content, non-trivial if it makes a call beyond loading its inputs",
           "inputs_from_specification": {os.path.basename(g): sum(1 for _ in open(g)) for g in gens},
           "traces_dropped_in_setup": dropped, "rounds": rounds, "bounds": cfg.get("bounds", "")}
    rc = 0
    if viol:
        t, at, kind = viol
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        rp = os.path.join(BUILD, "replay", f"{prop}-seed{seed}.json")
        json.dump({"property": prop, "why": kind, "rejected_event": at, "event": t["ev"][min(at, len(t["ev"]) - 1)], "trace": t,
                   "replay": f"VERIF_SEED={seed} /verif/bin/check {prop} {tier}"}, open(rp, "w"), indent=1)
        print(f"trace {t['id']} {kind} at event {at + 1}: {json.dumps(t['ev'][min(at, len(t['ev']) - 1)])[:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"OK property={prop} {ntraces} traces, {nevents} events validated, {states} states, {ev['wall_s']} s")
    return rc
