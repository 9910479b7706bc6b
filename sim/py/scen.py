"""Scenarios: JSON-able descriptions of one simulated run.

A scenario holds everything a run depends on: the document (abstract or as
files), the rendering style seed, the host's operations and the faults among
them, and the seed of the memory layout.  Running a scenario is a pure
function of it and of the code under test.
"""
import copy
import hashlib
import random

import model as M
import ncl
from zyg import esc

WATCH = ["p1", "p2", "p3", "p4", "p5", "v1", "v2", "focusIndex",
         "explicitDur", "service.currentFocus"]
GEOMWATCH = WATCH + ["left", "top", "width", "height", "right", "bottom",
                     "zIndex", "zOrder", "transparency", "background",
                     "visible", "bounds", "location", "size"]


class Violation(object):
    """cls groups violations for minimisation; text is for people."""

    def __init__(self, cls, text, op=None):
        self.cls, self.text, self.op = cls, text, op

    def __repr__(self):
        return "Violation(%s: %s)" % (self.cls, self.text)


def op_line(op, st):
    k = op[0]
    if k == "start" and len(op) > 1 and "@DIR@" in op[1]:
        return "start " + esc(op[1]).replace("%40", "@")
    if k == "start":
        return "start @DIR@/%s" % (esc(op[1]) if len(op) > 1
                                   else "main.ncl")
    if k == "tick":
        st["total"] += op[1]
        st["frame"] += 1
        total, frame = st["total"], st["frame"]
        if len(op) > 2:         # a clock that jumps: only diff may matter
            total, frame = op[2], op[3]
        return "tick %d %d %d" % (total, op[1], frame)
    if k == "key":
        return "key %s %d" % (esc(op[1]), 1 if op[2] else 0)
    if k in ("action", "trans"):
        return " ".join([k] + [esc(str(x)) for x in op[1:]])
    if k in ("redraw", "img", "stop", "delete", "eos", "state", "mem", "netstat", "live",
             "iostat", "nofault", "gstpump", "cwd"):
        return k
    if k == "new":
        st["total"] = st["frame"] = 0
        return k
    if k == "raw":
        return op[1]
    if k == "optbg":
        return "optstr background " + esc(op[1])
    return " ".join([k] + [esc(str(x)) for x in op[1:]])


def plan_text(scn):
    st = {"total": 0, "frame": 0}
    out = ["alloc %d" % scn.get("alloc", 1), "dir @DIR@"]
    if scn.get("trace") == 0:
        out.append("trace 0")
    o = scn.get("opts", [80, 60, "", 0, 0])
    out.append("opts %d %d %s %d %d" % (o[0], o[1], esc(o[2]), o[3], o[4]))
    out.append("new")
    out.append("watch " + " ".join(esc(w) for w in scn.get("watch", WATCH)))
    n = 3
    for op in scn["ops"]:
        out.append(op_line(op, st))
    if scn.get("end", True):
        out.append("delete")
    return "\n".join(out) + "\n", n


def files_of(scn):
    if "files" in scn:
        return scn["files"]
    s = scn.get("style", 0)
    if s is None:
        st = ncl.Style(random.Random(0), custom=0, param=0, imports=0)
    else:
        st = ncl.Style(random.Random(s))
    fs = ncl.render(scn["doc"], st)
    fs.update(scn.get("extra", {}))
    if scn["doc"].get("content"):
        import content
        fs.update(content.files(scn["doc"]))
    if scn.get("spell"):
        import spell
        fs = spell.respell(fs, scn["spell"])
    return fs


def run(z, scn, fresh_files=True):
    """Runs the scenario; returns (result, segments matching scn['ops'])."""
    text, skip = plan_text(scn)
    res = z.run(text, files_of(scn))
    segs = res.segments()[skip:skip + len(scn["ops"])]
    return res, segs


def crash_violation(res):
    if not res.crashed():
        return None
    why = ""
    for l in res.stderr.splitlines():
        if "ERROR" in l or "runtime error" in l or "FATAL" in l \
                or "Assert" in l or "assertion" in l:
            why = l.strip()
            break
    if not why:
        ls = [l for l in res.stderr.splitlines() if l.strip()]
        why = ls[-1] if ls else ""
    kind = {99: "memory error", 98: "undefined behaviour", 96: "memory "
            "exhausted", 95: "hang", 92: "waits forever"}.get(res.exit)
    if kind is None:
        kind = "abort" if res.signal in (5, 6) else \
            "signal %d" % res.signal if res.signal > 0 else \
            "exit %d" % res.exit
    return Violation("crash", "the engine crashed (%s): %s" % (kind,
                                                               why[:300]))


def start_result(seg):
    for l in seg[1]:
        if l.startswith("R "):
            return l.split()
    return None


def h64(x):
    if not isinstance(x, bytes):
        x = str(x).encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


# ------------------------------------------------------------ minimisation
def prune(doc):
    """Drops whatever refers to something that is not in the document."""
    doc = copy.deepcopy(doc)
    for _ in range(6):
        byid = {}
        refs = {}

        def index(n):
            if n.get("id"):
                byid[n["id"]] = n
            for k in n.get("kids", ()):
                index(k)
        index(doc["body"])
        before = repr(doc)

        def ifaces(c):
            n = byid[c]
            out = set(x[0] for x in n.get("props", ()))
            out |= set(a["id"] for a in n.get("areas", ()))
            out |= set(p[0] for p in n.get("ports", ()))
            if n["k"] == "ref" and n["to"] in byid:
                out |= ifaces(n["to"])
            for x in byid.values():
                if x["k"] == "ref" and x.get("to") == c:
                    out |= set(y[0] for y in x.get("props", ()))
                    out |= set(a["id"] for a in x.get("areas", ()))
                    if n["k"] != "ref":
                        pass
            return out

        def ok(c, i):
            return c in byid and (not i or i in ifaces(c))

        def okp(p):
            if p is None:
                return True
            if "kids" in p:
                return all(okp(k) for k in p["kids"])
            return all(not isinstance(x, list) or ok(x[0], x[1])
                       for x in (p["l"], p["r"]))
        rids = set()
        for x in doc["rules"]:
            rids.add(x["id"])
            rids |= set(k["id"] for k in x.get("kids", ()))
        descs = set(d["id"] for d in doc["descs"])
        regs = set()

        def regids(r):
            regs.add(r["id"])
            for k in r.get("kids", ()):
                regids(k)
        for r in doc.get("regions", ()):
            regids(r)
        for d in doc["descs"]:
            if d.get("region") not in regs:
                d["region"] = None

        def clean(n):
            n["kids"] = [k for k in n["kids"]
                         if k["k"] != "ref" or k["to"] in byid]
            if "links" in n:
                for l in n["links"]:
                    l["conds"] = [c for c in l["conds"]
                                  if ok(c["c"], c.get("i"))
                                  and okp(c.get("pred"))]
                    l["acts"] = [a for a in l["acts"]
                                 if ok(a["c"], a.get("i"))
                                 and (not isinstance(a.get("value"), list)
                                      or ok(*a["value"]))
                                 and (not isinstance(a.get("delay"), list)
                                      or ok(*a["delay"]))]
                n["links"] = [l for l in n["links"]
                              if l["conds"] and l["acts"]]
            if n["k"] == "switch":
                ids = set(k["id"] for k in n["kids"])
                n["binds"] = [b for b in n["binds"]
                              if b[0] in ids and b[1] in rids]
                if n["default"] not in ids:
                    n["default"] = None
                for p in n["ports"]:
                    p[1] = [m for m in p[1] if m[0] in ids and ok(*m)]
                n["ports"] = [p for p in n["ports"] if p[1]]
            else:
                n["ports"] = [p for p in n["ports"] if ok(p[1], p[2])]
            for k in n["kids"]:
                if k.get("desc") and k["desc"] not in descs:
                    k["desc"] = None
                if k["k"] in ("ctx", "switch"):
                    clean(k)
        clean(doc["body"])
        if repr(doc) == before:
            break
    return doc


def doc_reductions(doc):
    """Yields functions that edit a copy of doc in place."""
    comps = []

    def walk(n, path):
        comps.append(path)
        for i, k in enumerate(n.get("kids", ())):
            if k["k"] in ("ctx", "switch"):
                walk(k, path + (i,))
    walk(doc["body"], ())

    def at(d, path):
        n = d["body"]
        for i in path:
            n = n["kids"][i]
        return n
    for path in comps:
        n = at(doc, path)
        for i in reversed(range(len(n["kids"]))):
            yield lambda d, p=path, i=i: at(d, p)["kids"].pop(i)
        for i in reversed(range(len(n.get("links", ())))):
            yield lambda d, p=path, i=i: at(d, p)["links"].pop(i)
        for i in reversed(range(len(n.get("ports", ())))):
            yield lambda d, p=path, i=i: at(d, p)["ports"].pop(i)
        for i in reversed(range(len(n.get("binds", ())))):
            yield lambda d, p=path, i=i: at(d, p)["binds"].pop(i)
    for path in comps:
        n = at(doc, path)
        for i in reversed(range(len(n.get("props", ())))):
            yield lambda d, p=path, i=i: at(d, p)["props"].pop(i)
        for i, k in enumerate(n["kids"]):
            if k.get("desc"):
                yield lambda d, p=path, i=i: \
                    at(d, p)["kids"][i].update(desc=None)
            for j in reversed(range(len(k.get("areas", ())))):
                yield lambda d, p=path, i=i, j=j: \
                    at(d, p)["kids"][i]["areas"].pop(j)
            if k["k"] not in ("ctx", "switch"):
                for j in reversed(range(len(k.get("props", ())))):
                    yield lambda d, p=path, i=i, j=j: \
                        at(d, p)["kids"][i]["props"].pop(j)
        for i, l in enumerate(n.get("links", ())):
            for j in range(len(l["conds"])):
                if len(l["conds"]) > 1:
                    yield lambda d, p=path, i=i, j=j: \
                        at(d, p)["links"][i]["conds"].pop(j)
                if l["conds"][j].get("pred"):
                    yield lambda d, p=path, i=i, j=j: \
                        at(d, p)["links"][i]["conds"][j].pop("pred")
            for j in range(len(l["acts"])):
                if len(l["acts"]) > 1:
                    yield lambda d, p=path, i=i, j=j: \
                        at(d, p)["links"][i]["acts"].pop(j)
                for f in ("delay", "dur"):
                    if l["acts"][j].get(f):
                        yield lambda d, p=path, i=i, j=j, f=f: \
                            at(d, p)["links"][i]["acts"][j].pop(f)
    for i in reversed(range(len(doc.get("regions", ())))):
        yield lambda d, i=i: d["regions"].pop(i)
    for i in reversed(range(len(doc["descs"]))):
        yield lambda d, i=i: d["descs"].pop(i)
    for i in reversed(range(len(doc["rules"]))):
        yield lambda d, i=i: d["rules"].pop(i)


def valid_doc(doc):
    try:
        m = M.Model(doc)
    except Exception:
        return False
    return not ncl.has_zero_cycle(m)


def shrink(scn, test, deadline, now):
    """Greedy minimisation.  test(scn) -> bool (same violation class)."""
    best = scn
    tried = [0]

    def attempt(c):
        tried[0] += 1
        return now() < deadline and test(c)

    def ops_pass(best):
        n = 2
        ops = best["ops"]
        keep = set(i for i, o in enumerate(ops)
                   if o[0] in best.get("keep_ops", ("new",)))
        size = max(1, len(ops) // 2)
        while size >= 1 and now() < deadline:
            i = len(best["ops"])
            changed = False
            while i > 0 and now() < deadline:
                j = max(0, i - size)
                cut = best["ops"][:j] + best["ops"][i:]
                if cut and len(cut) < len(best["ops"]):
                    c = dict(best)
                    c["ops"] = cut
                    if attempt(c):
                        best = c
                        changed = True
                        i = j
                        continue
                i = j
            if not changed or size == 1:
                size //= 2
        return best
    if attempt(best) is False:
        return best, tried[0]
    if best.get("style") is not None and "doc" in best \
            and "files" not in best:
        c = dict(best)
        c["style"] = None
        if attempt(c):
            best = c
    for k in ("nest", "junk", "xml"):
        if best.get("spell") and best["spell"][k]:
            c = dict(best)
            c["spell"] = dict(best["spell"])
            c["spell"][k] = 0
            if attempt(c):
                best = c
    best = ops_pass(best)
    if "doc" in best and "files" not in best:
        progress = True
        while progress and now() < deadline:
            progress = False
            for red in list(doc_reductions(best["doc"])):
                d = copy.deepcopy(best["doc"])
                try:
                    red(d)
                except (IndexError, KeyError):
                    continue
                d = prune(d)
                if d == best["doc"] or not valid_doc(d):
                    continue
                c = dict(best)
                c["doc"] = d
                if attempt(c):
                    best = c
                    progress = True
                    break
                if now() >= deadline:
                    break
        best = ops_pass(best)
    # Merge adjacent ticks.
    i = 0
    while i + 1 < len(best["ops"]) and now() < deadline:
        a, b = best["ops"][i], best["ops"][i + 1]
        if a[0] == "tick" and b[0] == "tick":
            c = dict(best)
            c["ops"] = best["ops"][:i] + [["tick", a[1] + b[1]]] \
                + best["ops"][i + 2:]
            if attempt(c):
                best = c
                continue
        i += 1
    return best, tried[0]
