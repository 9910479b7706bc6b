"""C17: the host interface, and instances that share a process."""
import copy
import random
import time

import core
import model as M
import ncl
import oracle
import scen
from scen import Violation
from zyg import esc, unesc

BAD = [
    "<ncl><head/><body>",
    "<ncl><head/><body><port id='p' component='nosuch'/></body></ncl>",
    "<ncl><head/><body><media/></body></ncl>",
    "",
    "<html/>",
    "<ncl><body><media id='a' refer='b'/></body></ncl>",
]

BGS = ["", "", "red", "#204060", "white"]
KINDS = ["state", "state", "optget", "restarted", "bad", "stop", "key",
         "emptykey", "width", "height", "debug", "experimental", "recreate",
         "recreate", "tostring", "missing", "tick0"]


def decorate(r, ops, p, parts):
    """Inserts host calls of every kind, at any time, into a history."""
    out = []
    rate = r.choice([0.05, 0.15, 0.4])
    for op in [None] + ops:
        if op is not None:
            out.append(op)
        while r.random() < rate:
            k = r.choice(KINDS)
            if k in ("state", "optget", "tostring", "stop"):
                out.append([k])
            elif k == "restarted":
                out.append(["start"])
            elif k == "bad":
                out.append(["startbad", "bad%d.ncl" % r.randrange(len(BAD))])
            elif k == "missing":
                out.append(["startbad", "nosuch.ncl"])
            elif k == "key":
                out.append(["key", r.choice(["NOSUCH", "red", "ENTER ",
                                             "CURSOR_RIGHT", "0"]),
                            r.randint(0, 1)])
            elif k == "emptykey":
                out.append(["key", "", r.randint(0, 1)])
            elif k == "width":
                out.append(["optint", "width", r.choice([40, 80, 100, 33])])
            elif k == "height":
                out.append(["optint", "height", r.choice([30, 60, 75, 17])])
            elif k in ("debug", "experimental"):
                out.append(["optbool", k, r.randint(0, 1)])
            elif k == "tick0":
                out.append(["tick", 0])
            elif k == "recreate":
                out.append(["delete"])
                out.append([r.choice(["new", "create"])])
                out.append(["optget"])
                if r.random() < 0.8:
                    out.append(["start"])
    return out


@core.register
class P17(core.CoreProp):
    id = "C17"
    rule = "A run is two or three instances in one process, each with its " \
        "own document, options and host history, interleaved; it counts as " \
        "distinct if the sequence of (instance, object, event, transition, " \
        "operation index) has not been seen before and has at least 5 " \
        "transitions."
    assumptions = ["documents are generated from a grammar of valid NCL "
                   "without cycles of immediate links",
                   "calls are made from one thread, as the interface asks"]
    swarm = dict(ctx=[0, 0.3], switch=[0, 0.3], settings=[0.2, 1.0],
                 focus=[0, 0.5], sel=[0.1, 0.4], attr=[0.2, 0.5],
                 geom=[0, 0.6], regions=[0, 0.3], delays=[0, 0.4],
                 pause=[0, 0.3], dur=[0.3, 0.8], ref=[0, 0.3],
                 desc=[0.2, 0.6])
    feat = dict(media=(1, 4), links=(0, 4), areas=0.3, ctxports=(1, 2))
    mixes = [{"tick": 5, "key": 2, "restart": 1, "img": 1},
             {"tick": 5, "action": 2, "restart": 0.5, "img": 1,
              "resize": 0.5, "optbg": 0.5},
             {"tick": 5, "key": 1, "eos": 0.3, "restart": 0.5, "img": 0.5}]
    nops = (4, 20)

    def generate(self, rng, i, tier):
        parts = []
        n = rng.choice([1, 2, 2, 2, 3])
        seqs = []
        for k in range(n):
            s = None
            for _ in range(4):
                s = core.CoreProp.generate(self, rng, i, tier)
                if s is not None:
                    break
            if s is None:
                return None
            d = s["doc"]
            if parts and rng.random() < 0.25:
                # The same document twice.
                d = copy.deepcopy(parts[0]["doc"])
                s["ops"] = copy.deepcopy(seqs0[0])
            if k == 0:
                seqs0 = [s["ops"]]
            size = [d.get("w", 80), d.get("h", 60)]
            parts.append({"doc": d, "style": s["style"],
                          "opts": size + [rng.choice(BGS), 0, 0]})
            seqs.append(decorate(rng, s["ops"], k, parts))
        ops = []
        run = rng.choice([1, 3, 8])
        live = [k for k in range(n) if seqs[k]]
        while live:
            k = rng.choice(live)
            for _ in range(rng.randint(1, run)):
                if seqs[k]:
                    ops.append([k] + seqs[k].pop(0))
            live = [k for k in range(n) if seqs[k]]
        return {"parts": parts, "ops": ops, "alloc": rng.randint(1, 1 << 30)}

    # ------------------------------------------------------------ running
    def run(self, z, scn):
        files = {}
        for k, p in enumerate(scn["parts"]):
            for n, t in scen.files_of(p).items():
                files["d%d/%s" % (k, n)] = t
            for j, b in enumerate(BAD):
                files["d%d/bad%d.ncl" % (k, j)] = b
        out = ["alloc %d" % scn.get("alloc", 1), "dir @DIR@"]
        skip = 0
        for k, p in enumerate(scn["parts"]):
            o = p["opts"]
            out += ["use %d" % k,
                    "opts %d %d %s %d %d" % (o[0], o[1], esc(o[2]), o[3],
                                             o[4]),
                    "new",
                    "watch " + " ".join(esc(w) for w in scen.WATCH)]
            skip += 4
        ops = self.normal(scn)
        sts = [{"total": 0, "frame": 0} for _ in scn["parts"]]
        for k, op in ops:
            out.append("use %d" % k)
            if op[0] == "start":
                l = "start @DIR@/d%d/main.ncl" % k
            elif op[0] == "startbad":
                l = "start @DIR@/d%d/%s" % (k, op[1])
            else:
                l = scen.op_line(op, sts[k])
            out.append(l)
        for k in range(len(scn["parts"])):
            out += ["use %d" % k, "delete"]
        res = z.run("\n".join(out) + "\n", files)
        segs = res.segments()[skip:]
        segs = segs[1:2 * len(ops):2]
        return res, ops, segs

    def normal(self, scn):
        """Calls on instances that exist only."""
        alive = [True] * len(scn["parts"])
        out = []
        for o in scn["ops"]:
            k, op = o[0], o[1:]
            if k >= len(alive):
                continue
            if op[0] == "delete":
                if not alive[k]:
                    continue
                alive[k] = False
            elif op[0] in ("new", "create"):
                if alive[k]:
                    continue
                alive[k] = True
            elif not alive[k]:
                continue
            out.append((k, op))
        return out

    def fingerprint(self, z, scn):
        return self.run(z, scn)[0].digest()

    def sample(self, scn):
        return {"ops": scn["ops"][:60], "instances": len(scn["parts"]),
                "main.ncl of the first":
                scen.files_of(scn["parts"][0])["main.ncl"][:800]}

    # ------------------------------------------------------------ deciding
    def evaluate(self, z, scn, st):
        res, ops, segs = self.run(z, scn)
        v = scen.crash_violation(res)
        if v:
            if res.exit in (95, 96):
                for k in range(len(scn["parts"])):
                    o, s = self.part(scn, ops, segs, k, None)[:2]
                    if self.explosive({"doc": scn["parts"][k]["doc"],
                                       "ops": o}, s):
                        st.notes["inconclusive: explosive document"] += 1
                        return None
            return v
        st.faults["instances in one process"] += len(scn["parts"])
        sig = []
        for k in range(len(scn["parts"])):
            o, s, v = self.part(scn, ops, segs, k, st)
            if v:
                return v
            sub = {"doc": scn["parts"][k]["doc"], "ops": o,
                   "opts": scn["parts"][k]["opts"], "watch": self.watch}
            o = [tuple(x) for x in o]
            for f in (lambda: self.started(o, s),
                      lambda: self.invariants(sub, o, s, st),
                      lambda: self.model(sub, o, s, st)):
                v = f()
                if v:
                    v.text = "instance %d: %s" % (k, v.text)
                    return v
            sig.append(tuple(x[0] for x in o))
        return None

    def part(self, scn, ops, segs, k, st):
        """The history of one instance, in the terms of the reference; with
        the host-level rules checked on the way."""
        p = scn["parts"][k]
        opt = {"w": p["opts"][0], "h": p["opts"][1], "bg": p["opts"][2],
               "debug": 0, "experimental": 0}
        init = dict(opt)
        playing = False
        o2 = []
        s2 = []
        fault = st.faults if st is not None else {}

        def bump(n):
            if st is not None:
                st.faults[n] += 1

        for n, ((kk, op), seg) in enumerate(zip(ops, segs)):
            lines = seg[1]
            if kk != k:
                continue
            r = [l.split() for l in lines if l.startswith("R ")]
            r = r[0][1:] if r else []

            def bad(what, want, got):
                return o2, s2, Violation(
                    "host:" + what.split(" ")[0],
                    "op %d (instance %d, %s): %s should be %s, is %s" % (
                        n, k, " ".join(map(str, op)), what, want, got), n)
            c = op[0]
            crit = [l for l in lines if l.startswith("G critical")]
            if crit:
                return o2, s2, Violation(
                    "critical", "op %d (%s): %s" % (n, c,
                                                    unesc(crit[0])[:200]), n)
            if c == "start":
                if playing:
                    bump("start while playing")
                    if r[0] != "0":
                        return bad("result of start while playing", 0, r[0])
                    c = "nop"
                else:
                    playing = r[0] == "1"
                    # A valid document that is refused is reported by
                    # started().
            elif c == "startbad":
                bump("unacceptable document offered")
                if r[0] != "0":
                    return bad("result of starting a bad document", 0, r[0])
                if not playing and r[1] == "%":
                    return bad("message", "not empty", "empty")
                c = "nop"
            elif c == "stop":
                if r[0] != str(int(playing)):
                    return bad("result of stop", int(playing), r[0])
                if not playing:
                    bump("stop while stopped")
                    c = "nop"
                playing = False
            elif c in ("tick", "key"):
                if not playing:
                    bump("event while stopped")
                    if r[0] != "0":
                        return bad("result while stopped", 0, r[0])
                    c = "nop"
                elif r[0] == "0":
                    playing = False     # judged by the reference
            elif c == "state":
                want = "0" if playing else "1"
                if r[0] != want:
                    return bad("state", want, r[0])
                c = "nop"
            elif c == "optget":
                want = [str(opt["w"]), str(opt["h"]), esc(opt["bg"]),
                        str(opt["debug"]), str(opt["experimental"]), "1",
                        "0"]
                if r != want:
                    return bad("options", want, r)
                c = "nop"
            elif c == "optint":
                opt["w" if op[1] == "width" else "h"] = op[2]
                if r[0] != str(op[2]):
                    return bad("option " + op[1], op[2], r[0])
                op = ["resize", opt["w"], opt["h"]]
                c = "resize"
            elif c == "resize":
                opt["w"], opt["h"] = op[1], op[2]
            elif c == "optbg":
                opt["bg"] = op[1]
                if r[0] != esc(op[1]):
                    return bad("option background", op[1], r[0])
            elif c == "optbool":
                opt[op[1]] = op[2]
                if r[0] != str(op[2]):
                    return bad("option " + op[1], op[2], r[0])
                c = "nop"
            elif c == "tostring":
                c = "nop"
            elif c == "delete":
                bump("instance destroyed")
                if playing:
                    bump("instance destroyed while playing")
                playing = False
                op = ["stop"]
                c = "stop"
            elif c in ("new", "create"):
                opt = dict(init)
                o2.append(["resize", opt["w"], opt["h"]])
                s2.append(("x", []))
                op = ["optbg", opt["bg"]]
                c = "optbg"
            elif c in ("action", "trans") and not playing:
                c = "nop"
            if c == "img" and opt["debug"] and playing:
                op = ["redraw"]     # there is an overlay
                c = "redraw"
                bump("frame with debug overlay")
            if c == "nop":
                # Nothing may change: what changes shows up in the next
                # comparison, and here.
                ch = [l for l in lines if l[:2] in ("S ", "T ")
                      or l == "GONE" or (l[:2] == "X "
                                         and l.split()[5] == "1")]
                ended = op[0] in ("tick", "key") and "GONE" in ch
                if ch and not ended:
                    return o2, s2, Violation(
                        "host:effect", "op %d (instance %d, %s) had an "
                        "effect: %s" % (n, k, " ".join(map(str, op)),
                                        ch[0]), n)
                op = ["nop"]
            o2.append(list(op))
            s2.append(seg)
        return o2, s2, None

    # -------------------------------------------------------- minimisation
    def shrink(self, scn, test, deadline):
        tried = [0]

        def attempt(c):
            tried[0] += 1
            return time.time() < deadline and test(c)

        def ops_pass(best):
            size = max(1, len(best["ops"]) // 2)
            while size >= 1 and time.time() < deadline:
                i = len(best["ops"])
                changed = False
                while i > 0 and time.time() < deadline:
                    j = max(0, i - size)
                    c = dict(best)
                    c["ops"] = best["ops"][:j] + best["ops"][i:]
                    if c["ops"] and attempt(c):
                        best = c
                        changed = True
                    i = j
                if not changed or size == 1:
                    size //= 2
            return best
        best = scn
        if attempt(best) is False:
            return best, tried[0]
        # Drop whole instances (the last ones first, so that numbers stay).
        for k in reversed(range(len(best["parts"]))):
            c = dict(best)
            c["ops"] = [o for o in best["ops"] if o[0] != k]
            if k == len(best["parts"]) - 1 and k > 0:
                c["parts"] = best["parts"][:k]
            if c["ops"] and attempt(c):
                best = c
        best = ops_pass(best)
        for k in range(len(best["parts"])):
            c = copy.deepcopy(best)
            c["parts"][k]["style"] = None
            if attempt(c):
                best = c
            progress = True
            while progress and time.time() < deadline:
                progress = False
                doc = best["parts"][k]["doc"]
                for red in list(scen.doc_reductions(doc)):
                    d = copy.deepcopy(doc)
                    try:
                        red(d)
                    except (IndexError, KeyError):
                        continue
                    d = scen.prune(d)
                    if d == doc or not scen.valid_doc(d):
                        continue
                    c = dict(best)
                    c["parts"] = list(best["parts"])
                    c["parts"][k] = dict(best["parts"][k], doc=d)
                    if attempt(c):
                        best = c
                        progress = True
                        break
                    if time.time() >= deadline:
                        break
        best = ops_pass(best)
        return best, tried[0]
