"""Runs one property's seeded search: workers, gates, minimisation, evidence."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import time
import traceback

import scen
import zyg

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
WORKERS = min(8, os.cpu_count() or 4)


def seed_of(base, prop, i):
    h = hashlib.sha256(("%s/%s/%d" % (base, prop, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Stats(object):
    def __init__(self):
        self.c = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.runs = set()
        self.simtime = 0
        self.samples = []
        self.notes = collections.Counter()

    def merge(self, o):
        self.c.update(o.c)
        self.faults.update(o.faults)
        self.states |= o.states
        self.runs |= o.runs
        self.simtime += o.simtime
        self.notes.update(o.notes)
        if len(self.samples) < 4:
            self.samples += o.samples[:4 - len(self.samples)]


def worker(w, exe, root, prop, base, n, deadline, q, stop, tier):
    sys.setrecursionlimit(10000)
    st = Stats()
    z = zyg.Zygote(exe, root, w)
    found = None
    err = None
    try:
        i = w
        while i < n and time.time() < deadline and not stop.is_set():
            seed = seed_of(base, prop.id, i)
            rng = random.Random(seed)
            scn = prop.generate(rng, i, tier)
            if scn is None:
                st.c["skipped"] += 1
                i += WORKERS
                continue
            scn["seed"] = seed
            v = prop.evaluate(z, scn, st)
            st.c["evaluations"] += 1
            if len(st.samples) < 2 and i < 40:
                st.samples.append(prop.sample(scn))
            if v is not None:
                found = (i, scn, v)
                stop.set()
                break
            i += WORKERS
    except BaseException:
        err = traceback.format_exc()
        stop.set()
    finally:
        z.close()
    q.put((w, st, found, err))


def load_findings(pid):
    """known-findings.txt: lines 'known: property=<id> replay=<file> <what>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                a = l.split(" ", 3)
                out.append((a[2].split("=", 1)[1], a[3]))
    return out


def main(prop, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    limit = None
    for i, a in enumerate(argv):
        if a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        elif a == "--replay":
            replay = argv[i + 1]
        elif a == "--n":
            limit = int(argv[i + 1])
    base = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    sys.path.insert(0, os.path.dirname(HERE))
    import build
    exe = build.build()
    tb = time.time() - t0
    root = zyg.scratch_root()
    try:
        if replay:
            return do_replay(prop, exe, root, replay)
        return search(prop, exe, root, tier, base, t0, tb, limit)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def do_replay(prop, exe, root, path):
    scn = json.load(open(path))
    z = zyg.Zygote(exe, root, 90)
    v = prop.evaluate(z, scn["scenario"], Stats())
    z.close()
    if v is None:
        print("replay: no violation")
        return 0
    print("replay: %s" % v.text)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def search(prop, exe, root, tier, base, t0, tb, limit):
    n, cap = prop.budget(tier)
    if limit:
        n = limit
    # Recorded findings first.
    known = []
    z = zyg.Zygote(exe, root, 80)
    for rel, what in load_findings(prop.id):
        p = os.path.join(VERIF, rel)
        try:
            scn = json.load(open(p))["scenario"]
            v = prop.evaluate(z, scn, Stats())
        except Exception as e:
            v = scen.Violation("error", repr(e))
        if v is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, what))
            known.append((v.cls, what))
    z.close()
    gate = determinism(prop, exe, root, base, tier)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    deadline = time.time() + cap
    ts = time.time()
    ps = [ctx.Process(target=worker, args=(w, exe, root, prop, base, n,
                                           deadline, q, stop, tier))
          for w in range(WORKERS)]
    for p in ps:
        p.start()
    st = Stats()
    founds = []
    errs = []
    got = 0
    while got < len(ps):
        try:
            w, s, f, e = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        got += 1
        st.merge(s)
        if f:
            founds.append(f)
        if e:
            errs.append(e)
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    search_s = time.time() - ts
    if errs:
        sys.stderr.write(errs[0])
        return 2
    rc = 0
    nviol = 0
    if founds:
        founds.sort(key=lambda f: f[0])
        i, scn, v = founds[0]
        path, v2 = report(prop, exe, root, tier, base, i, scn, v)
        if path is None:
            sys.stderr.write("unreproducible result: %s\n" % v.text)
            return 2
        nviol = 1
        rc = 1
        print("violation (run %d, seed %d): %s" % (i, scn["seed"], v2.text))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
    evidence(prop, tier, base, st, time.time() - t0, tb, search_s, nviol,
             known, gate)
    print("property=%s tier=%s runs=%d distinct-states=%d distinct-runs=%d "
          "build=%.1fs search=%.1fs total=%.1fs%s" % (
              prop.id, tier, st.c["evaluations"], len(st.states),
              len(st.runs), tb, search_s, time.time() - t0,
              "".join(" %s=%d" % kv for kv in sorted(st.notes.items()))))
    return rc


def determinism(prop, exe, root, base, tier):
    """The same seeds twice, in different processes and slots; logs must be
    identical."""
    n = 12 if tier == "quick" else 60
    a = []
    for k in (0, 1):
        z = zyg.Zygote(exe, root, 60 + k)
        d = []
        for i in range(n):
            rng = random.Random(seed_of(base, prop.id, i))
            scn = prop.generate(rng, i, tier)
            if scn is None:
                continue
            scn["seed"] = 0
            d.append(prop.fingerprint(z, scn))
        z.close()
        a.append(d)
    return {"runs_compared": len(a[0]), "identical": a[0] == a[1]}


def report(prop, exe, root, tier, base, i, scn, v):
    """Minimises, gates and writes the replay file."""
    z = zyg.Zygote(exe, root, 70)
    cap = time.time() + (25 if tier == "quick" else 90)

    def test(c):
        try:
            r = prop.evaluate(z, c, Stats())
        except Exception:
            return False
        return r is not None and r.cls == v.cls
    try:
        small, tried = prop.shrink(scn, test, cap)
    except Exception:
        traceback.print_exc()
        small, tried = scn, 0
    z.close()
    # Gate: two fresh processes must agree, byte for byte, and still violate.
    out = []
    for k in (0, 1):
        for c in (small, scn):
            z = zyg.Zygote(exe, root, 71 + k)
            r = prop.evaluate(z, c, Stats())
            fp = prop.fingerprint(z, c)
            z.close()
            out.append((r, fp))
    rs = [out[0], out[2]]
    use = small
    if any(r is None for r, _ in rs) or rs[0][1] != rs[1][1]:
        rs = [out[1], out[3]]
        use = scn
        if any(r is None for r, _ in rs) or rs[0][1] != rs[1][1]:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "unreproducible-%s.json" % prop.id),
                      "w") as f:
                json.dump({"property": prop.id, "scenario": scn,
                           "violation": v.text}, f, indent=1)
            return None, v
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop.id, base, i))
    rec = {"property": prop.id, "verif_seed": base, "run": i,
           "seed": scn.get("seed"), "violation": rs[0][0].text,
           "class": rs[0][0].cls, "log_digest": rs[0][1],
           "minimisation_runs": tried, "scenario": use}
    if "doc" in use:
        rec["files"] = {
            k: v if isinstance(v, str) else v.decode("latin-1")
            for k, v in scen.files_of(use).items()}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, rs[0][0]


def evidence(prop, tier, base, st, wall, tb, search_s, nviol, known, gate):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = st.c["evaluations"]
    try:
        seed = int(base)
    except ValueError:
        seed = 0
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(st.runs),
        "rule": prop.rule,
        "samples": st.samples or ["none"],
        "simulated_runs": ev,
        "runs_per_hour": int(ev / max(search_s, 0.001) * 3600),
        "seeds": "run i uses seed sha256(VERIF_SEED/property/i); %d seeds, "
                 "VERIF_SEED=%s" % (ev, base),
        "simulated_seconds": round(st.simtime / 1e9, 3),
        "faults_injected": dict(st.faults),
        "distinct_states": len(st.states),
        "distinct_states_measure": prop.state_measure,
        "host_operations": st.c["ops"],
        "transitions_checked": st.c["transitions"],
        "inconclusive": {k: v for k, v in st.notes.items()},
        "skipped_seeds": st.c["skipped"],
        "determinism_gate": gate,
        "components": {"real": prop.real, "stub": prop.stubs},
        "build_s": round(tb, 1),
        "known_findings": [w for _c, w in known],
        "probes": {k: v for k, v in st.c.items()
                   if k not in ("evaluations", "skipped", "ops",
                                "transitions")},
    }
    rec = {"property": prop.id, "tier": tier, "seed": seed,
           "level": "exploration", "coverage": cov,
           "assumptions": prop.assumptions, "wall_s": round(wall, 2),
           "violations": nviol}
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
