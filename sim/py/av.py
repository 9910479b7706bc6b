"""C21: videos, audios and tones play as the document says."""
import core
import scen
import zyg
from stream import NOFRAMES, NOQUERY, NOSEEK, SLOW, kind_of


@core.register
class P21(core.CoreProp):
    id = "C21"
    rule = core.CoreProp.rule
    assumptions = core.ASSUME + [
        "the elements of the media framework behave like those of the "
        "simulation: a stream has a position that advances at its rate "
        "while it is played, and tells of its states and its end by "
        "messages"]
    real = core.REAL + ["PlayerVideo", "PlayerSigGen", "GStreamer core "
                        "(objects, bins, states, buses, messages)"]
    stubs = core.STUB + ["GStreamer elements (playbin, appsink, filters, "
                         "sinks): simulated, without threads"]
    watch = scen.WATCH + ["type", "time", "speed", "volume"]
    swarm = dict(attr=[0.4, 0.9], pause=[0, 0.3, 0.6], abort=[0, 0.2],
                 ctx=[0, 0.3], switch=[0, 0.3], settings=[0, 0.3],
                 ref=[0, 0.3], valref=[0, 0.3], delays=[0, 0.4],
                 geom=[0, 0.7], dur=[0, 0.4], areas=[0.1, 0.6],
                 desc=[0, 0.3], sel=[0, 0.3], focus=[0, 0.2])
    feat = dict(media=(1, 5), links=(1, 6), streams=0.7)
    mixes = [{"tick": 6, "action": 3, "img": 1},
             {"tick": 6, "action": 2, "key": 1, "burst": 1},
             {"tick": 5, "img": 2, "action": 3, "restart": 0.4},
             {"tick": 5, "action": 3, "trans": 1, "redraw": 1,
              "restart": 0.3, "eos": 0.1}]
    nops = (6, 36)

    def more(self, r, scn, m):
        pre = []
        bases = {}
        tones = False
        for o in m.objs.values():
            k = kind_of(o)
            if k == "tone":
                tones = True
            elif k == "video":
                bases[o.props["uri"].split("/")[-1]] = o
        for b in sorted(bases):
            dur = r.choice([-1, r.randint(0, 40) * 100000000,
                            r.randint(0, 3000000000)])
            flags = 0
            for f, p in ((SLOW, 0.25), (NOQUERY, 0.12), (NOFRAMES, 0.15),
                         (NOSEEK, 0.12)):
                if r.random() < p:
                    flags |= f
            pre.append(["gstcfg", b, dur, flags])
        names = sorted(bases) + (["tone"] if tones else [])
        ops = []
        lazy = r.choice([0.15, 0.4, 0.9])
        for op in scn["ops"]:
            if op[0] == "start" and tones and r.random() < 0.3:
                ops.append(["gstcfg", "tone", 0, r.randint(0, 1)])
            ops.append(op)
            if names and r.random() < 0.12:
                ops.append(["gst", r.choice(names), r.choice(
                    ["ready", "ready", "warning", "info", "buffering",
                     "duration", "clock", "eos"])])
            if r.random() < lazy:
                ops.append(["gstpump"])
        scn["ops"] = pre + ops

    def extra(self, z, scn, ops, res, segs, st):
        for n, (op, (_name, lines)) in enumerate(zip(ops, segs)):
            for l in lines:
                if l.startswith("G "):
                    return scen.Violation(
                        "misuse", "op %d (%s): the media framework "
                        "complains: %s" % (n, " ".join(map(str, op)),
                                           zyg.unesc(l[2:])[:300]), n)
            if op[0] == "gst":
                st.faults["stream message: " + op[2]] += 1
            elif op[0] == "gstcfg" and op[1] == "tone":
                st.faults["tone device fails" if op[3]
                          else "tone device works"] += 1
            elif op[0] == "gstcfg":
                for f, t in ((SLOW, "stream prerolls in the background"),
                             (NOQUERY, "position of a stream unknown"),
                             (NOSEEK, "stream cannot seek")):
                    if op[3] & f:
                        st.faults[t] += 1
        st.c["streams seen"] += sum(
            l.startswith("V ") for _n, ls in segs for l in ls)
        return None
