"""C18: NCLua scripts follow the presentation and act on it."""
import core
import ncl
import scen
from model import NCLUA
from scen import Violation

ACTIONS = ["start", "stop", "pause", "resume", "abort"]


@core.register
class P18(core.CoreProp):
    id = "C18"
    assumptions = core.ASSUME + [
        "the NCLua engine is a queue of events in each direction: what a "
        "script does with them is up to the script"]
    real = core.REAL + ["PlayerLua"]
    stubs = core.STUB[:3] + ["NCLua engine: simulated script that posts "
                             "what the simulator decides",
                             "libsoup server, GSSDP: simulated"]
    watch = scen.WATCH + ["type"]
    swarm = dict(labels=[0.2, 0.6], sel=[0.1, 0.5], ctx=[0, 0.3],
                 switch=[0, 0.3], settings=[0, 0.8], focus=[0.2, 0.8],
                 attr=[0.1, 0.5], delays=[0, 0.4], pause=[0.1, 0.5],
                 abort=[0, 0.3], dur=[0.2, 0.7], props=[0.3, 0.8],
                 anchorport=[0, 1], geom=[0, 0, 0.5], ref=[0, 0.2],
                 desc=[0, 0.4], valref=[0, 0.3])
    feat = dict(media=(1, 5), links=(1, 6), areas=0.5)
    mixes = [{"tick": 5, "key": 2, "redraw": 2},
             {"tick": 5, "action": 2, "redraw": 2, "key": 1},
             {"tick": 4, "action": 2, "redraw": 3, "restart": 0.5},
             {"tick": 4, "key": 1, "trans": 1, "redraw": 3, "restart": 0.3,
              "eos": 0.2, "resize": 0.2}]
    nops = (5, 30)

    def adjust(self, r, doc, gen):
        for m, _ in gen.medias:
            if r.random() < 0.6:
                m["src"] = "s%s/%s.lua" % (m["id"], m["id"])
                m["type"] = NCLUA if r.random() < 0.6 else ""

        # Which of two anchors a label names is open.
        seen = set()

        def walk(n):
            for a in n.get("areas", ()):
                if a.get("label"):
                    while a["label"] in seen:
                        a["label"] += "b"
                    seen.add(a["label"])
            for k in n.get("kids", ()):
                walk(k)
        walk(doc["body"])

    def more(self, r, scn, m):
        files = [o for o in m.objs.values() if m.script_of(o)]
        scn["extra"] = {o.props["uri"]: "-- script\n" for o in files}
        if not files:
            return
        ops = []
        rate = r.choice([0.2, 0.5])
        for op in scn["ops"]:
            ops.append(op)
            while r.random() < rate:
                ops.append(self.posted(r, r.choice(files), m))
        if r.random() < 0.5:
            ops.append(["cwd"])
        scn["ops"] = ops

    def posted(self, r, o, m):
        f = m.script_of(o)
        a = r.choice(["start", "stop"]) if r.random() < 0.5 \
            else r.choice(ACTIONS)
        k = r.random()
        labels = [e.label for e in o.evs.values() if e.label]
        props = [e.id for e in o.evs.values() if e.type == "A"]
        if k < 0.15:
            return ["lua", f, "presentation", a, "", ""]
        if k < 0.45 and labels:
            return ["lua", f, "presentation", a, r.choice(labels), ""]
        if k < 0.75 and props:
            n = r.choice(props)
            c = ncl.prop_class(n)
            v = {"time": ncl.t2s(r.randint(1, 30) * 100),
                 "index": str(r.randint(1, 4))}.get(c) or (
                ncl.geom_value(r, c) if n in ncl.GEOM
                else r.choice(["0", "1", "2", "x", "y"]))
            return ["lua", f, "attribution",
                    "start" if r.random() < 0.8 else a, n, v]
        # Nothing of the kind.
        return ["lua", f] + r.choice([
            ["presentation", a, "nosuch", ""],
            ["presentation", "begin", "", ""],
            ["presentation", "", "l1", ""],
            ["attribution", a, "nosuch", "1"],
            ["attribution", "set", (props or ["p1"])[0], "1"],
            ["attribution", "start", "", ""],
            ["selection", a, "", ""],
            ["", a, "", ""],
            ["user", a, "x", "y"]])

    def extra(self, z, scn, ops, res, segs, st):
        live = set()
        for n, (op, (_name, lines)) in enumerate(zip(ops, segs)):
            if op[0] == "lua":
                st.faults["event of a script: " + (op[2] or "unknown")] += 1
            for l in lines:
                if l.startswith("N open "):
                    live.add(l.split(" ")[2])
                elif l.startswith("N close "):
                    live.discard(l.split(" ")[2])
                elif l == "GONE":
                    # Closed while the document is taken down.
                    pass
                elif l.startswith("N evt") or l.startswith("N key"):
                    st.c["events told to scripts"] += 1
                elif l.startswith("R ") and op[0] == "cwd":
                    if any(l.endswith("/" + u.split("/")[0])
                           for u in scn.get("extra", ())):
                        return Violation("cwd", "the working directory is "
                                         "left at " + l[2:], n)
                elif l.startswith("G "):
                    return Violation("critical", "op %d (%s): internal "
                                     "failure reported: %s" % (
                                         n, " ".join(map(str, op)),
                                         l[2:].replace("%20", " ")[:160]), n)
            if any(l == "GONE" for l in lines) and live:
                return Violation("script", "op %d (%s): scripts %s are still "
                                 "running after the session ended" % (
                                     n, " ".join(map(str, op)),
                                     " ".join(sorted(live))), n)
        return None
