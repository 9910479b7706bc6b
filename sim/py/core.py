"""Properties of the presentation engine, decided against the reference
model and the model-free invariants."""
import random

import inv
import model as M
import ncl
import oracle
import scen
from scen import Violation

REAL = ["Formatter", "Document", "Event", "Object", "Composition", "Context",
        "Switch", "Media", "MediaSettings", "Predicate", "Parser (libxml2 "
        "documents and imported bases)", "Player (base, timers)",
        "PlayerAnimator", "cairo drawing"]
STUB = ["clock: Formatter ticks are issued by the simulator",
        "keyboard and remote actions: issued by the simulator",
        "memory layout: seeded arena allocator",
        "NCLua, libsoup server, GSSDP: simulated"]
ASSUME = ["documents are generated from a grammar of valid NCL without "
          "cycles of immediate links",
          "one formatter per simulated process"]

MS = 1000000


class Prop(object):
    """Interface between the runner and a property."""
    id = "?"
    rule = ""
    state_measure = "hash of every object's event states (clocks excluded) " \
        "after each host operation"
    real = REAL
    stubs = STUB
    assumptions = ASSUME
    quick = (40000, 75)
    thorough = (2000000, 600)

    def budget(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def evaluate(self, z, scn, st):
        raise NotImplementedError

    def fingerprint(self, z, scn):
        res, _ = scen.run(z, scn)
        return res.digest()

    def shrink(self, scn, test, deadline):
        import time
        return scen.shrink(scn, test, deadline, time.time)

    def sample(self, scn):
        s = {k: v for k, v in scn.items() if k not in ("doc", "files")}
        if "doc" in scn:
            f = scen.files_of(scn)
            t = [f[n] for n in f if n.endswith("main.ncl")][0]
            s["main.ncl"] = (t if isinstance(t, str)
                             else t.decode("latin-1"))[:1500]
        return s


TICKS = {
    "regular": lambda r, s: 100 * MS,
    "fine": lambda r, s: r.choice([16, 17, 33, 40]) * MS,
    "grid": lambda r, s: r.choice([0, 50, 100, 100, 200, 300, 1000]) * MS,
    "odd": lambda r, s: r.choice([1, 7, 37, 99, 101, 333]) * MS
    + r.choice([0, 0, 1, 999999]),
    "coarse": lambda r, s: r.choice([500, 1000, 2500, 5000]) * MS,
}


def history(r, m, mix, n):
    """A host history: ticks on some clock, keys, remote actions, restarts."""
    kinds = r.sample(sorted(TICKS), r.randint(1, 3))
    ops = [["start"]]
    pool = None
    jump = r.random() < mix.get("clockjump", 0.0)
    w = [(k, v) for k, v in sorted(mix.items())
         if k in ("tick", "key", "action", "redraw", "restart", "trans",
                  "burst", "eos", "img", "resize", "optbg") and v > 0]
    tot = sum(v for _k, v in w)
    keys = r.sample(ncl.KEYS, r.randint(1, 4)) if r.random() < 0.6 \
        else ncl.KEYS
    while len(ops) < n:
        x = r.random() * tot
        for k, v in w:
            x -= v
            if x < 0:
                break
        if k == "tick":
            d = TICKS[r.choice(kinds)](r, None)
            op = ["tick", d]
            if jump and r.random() < 0.3:
                op += [r.randint(0, 10 ** 12), r.randint(0, 10 ** 6)]
            ops.append(op)
        elif k == "burst":
            for _ in range(r.randint(2, 6)):
                ops.append(["tick", TICKS[kinds[0]](r, None)])
        elif k == "key":
            key = r.choice(keys)
            if r.random() < 0.5:
                ops.append(["key", key, 1])
                if r.random() < 0.8:
                    ops.append(["key", key, 0])
            else:
                ops.append(["key", key, r.randint(0, 1)])
        elif k in ("action", "trans"):
            if pool is None:
                pool = event_pool(m)
            o, e = r.choice(pool)
            if k == "trans" and e.type == "A":
                e = o.lam
            tr = r.choice(mix.get("roles", ["start", "start", "stop", "stop",
                                            "pause", "resume", "abort"]))
            op = [k, o.id, e.key, tr]
            if e.type == "A":
                c = ncl.prop_class(e.id)
                v = {"time": ncl.t2s(r.randint(1, 30) * 100),
                     "index": str(r.randint(1, 4))}.get(
                         c) or (
                    ncl.geom_value(r, c) if e.id in ncl.GEOM
                    else r.choice(["0", "1", "2", "x", "y"]))
                op.append(v)
                if r.random() < 0.8:
                    op[3] = "start"
            ops.append(op)
        elif k == "redraw":
            ops.append(["redraw"])
        elif k == "eos":
            ops.append(["eos"])
        elif k == "img":
            ops.append(["img"])
        elif k == "resize":
            ops.append(["resize", r.choice([40, 64, 80, 100, 160, 33]),
                        r.choice([30, 48, 60, 75, 120, 17])])
        elif k == "optbg":
            ops.append(["optbg", r.choice(["", "", "red", "#204060",
                                           "white"])])
        elif k == "restart":
            if r.random() < mix.get("eos", 0) * 0.5:
                ops.append(["eos"])
            ops.append(["stop"])
            ops.append(["start"])
    return ops


def event_pool(m):
    out = []
    for o in m.objs.values():
        for e in o.evs.values():
            if e.id in ("transIn", "transOut"):
                continue
            if e is o.lam:
                out += [(o, e)] * (1 if o.parent is None
                                   or o.kind == "settings" else 6)
            else:
                out.append((o, e))
    return out


class CoreProp(Prop):
    """Generated document + host history against the reference model."""
    feat = {}                    # generator feature overrides
    swarm = {}                   # feature: list of alternatives
    mix = {"tick": 6, "key": 1.5, "burst": 0.7}
    mixes = None
    nops = (6, 40)
    watch = scen.WATCH
    rule = "A run is one generated document under one host history and one " \
        "memory layout; it counts as distinct and non-trivial if its " \
        "sequence of successful transitions (object, event, transition, " \
        "operation index) has not been seen before and has at least 5 " \
        "transitions."

    def features(self, r, tier):
        f = dict(self.feat)
        for k, alts in sorted(self.swarm.items()):
            f[k] = r.choice(alts)
        if tier == "thorough" and r.random() < 0.3:
            f["media"] = (3, 12)
            f["links"] = (2, 10)
        return f

    def generate(self, rng, i, tier):
        g = ncl.Gen(rng, **self.features(rng, tier))
        d = g.doc()
        self.adjust(rng, d, g)
        try:
            m = ncl.break_cycles(d, rng, M.Model)
        except M.Unsupported:
            return None
        if m is None:
            return None
        mix = rng.choice(self.mixes) if self.mixes else self.mix
        lo, hi = self.nops
        if tier == "thorough" and rng.random() < 0.3:
            hi *= 4
        scn = {"doc": d, "style": rng.randint(0, 1 << 30),
               "alloc": rng.randint(1, 1 << 30),
               "ops": history(rng, m, mix, rng.randint(lo, hi)),
               "watch": self.watch}
        self.more(rng, scn, m)
        return scn

    def adjust(self, rng, doc, gen):
        pass

    def more(self, rng, scn, m):
        pass

    # ------------------------------------------------------------ deciding
    def evaluate(self, z, scn, st):
        res, segs = scen.run(z, scn)
        v = scen.crash_violation(res)
        if v:
            if res.exit in (95, 96) and self.explosive(scn, segs):
                st.notes["inconclusive: explosive document"] += 1
                return None
            return v
        ops = [tuple(o) for o in scn["ops"]]
        v = self.started(ops, segs)
        if v:
            return v
        v = self.invariants(scn, ops, segs, st)
        if v:
            return v
        v = self.model(scn, ops, segs, st)
        if v:
            return v
        return self.extra(z, scn, ops, res, segs, st)

    def explosive(self, scn, segs=()):
        """Does the reference also do an unreasonable number of steps?"""
        m = None
        total = 0
        try:
            for n, op in enumerate(scn["ops"]):
                if op[0] == "start":
                    m = M.Model(scn["doc"])
                    if n < len(segs):
                        m.rank = oracle.parse_orders(segs[n][1])
                if m is None:
                    continue
                m.trace = []
                m.steps = 0
                oracle.apply_op(m, op)
                total += m.steps
                if sum(len(o.delayed) for o in m.objs.values()) > 300:
                    return True
        except (M.Runaway, M.Unsupported):
            return True
        return total > 3000

    def extra(self, z, scn, ops, res, segs, st):
        return None

    def started(self, ops, segs):
        for op, seg in zip(ops, segs):
            if op[0] == "start":
                r = scen.start_result(seg)
                if r is not None and r[1] == "0" and r[2] != "%":
                    from zyg import unesc
                    return Violation("start", "a valid document was "
                                     "rejected: %s" % unesc(r[2])[:200])
        return None

    def invariants(self, scn, ops, segs, st):
        static = M.Model(scn["doc"])
        I = inv.Inv(static)
        tracker = oracle.Tracker()
        sig = []
        for n, (op, (_name, lines)) in enumerate(zip(ops, segs)):
            before = dict(I.st)
            if op[0] == "start" and scen.start_result(
                    (_name, lines)) != ["R", "0", "%"]:
                I.begin()
                before = {}
            trans = tracker.feed(lines)
            I.feed(lines, tracker)
            st.c["ops"] += 1
            st.c["transitions"] += sum(1 for t in trans if t[4])
            for t in trans:
                if t[4]:
                    sig.append((n, t[1], t[2], t[3]))
            if op[0] == "tick":
                st.simtime += op[1]
                if op[1] == 0:
                    st.faults["zero-length tick"] += 1
                elif op[1] > 2000 * MS:
                    st.faults["stalled host (tick over 2 s)"] += 1
                if len(op) > 2:
                    st.faults["clock jump"] += 1
            elif op[0] == "stop":
                st.faults["session stopped mid-run"] += 1
            elif op[0] in ("action", "trans"):
                st.faults["remote action"] += 1
            elif op[0] == "key":
                st.faults["key event"] += 1
            v = I.machine(before, trans)
            if v is None:
                v = I.containment()
            if v is not None:
                v.op = n
                v.text = "after op %d (%s): %s" % (
                    n, " ".join(map(str, op)), v.text)
                return v
            if I.st:
                st.states.add(scen.h64(repr(sorted(I.st.items()))))
        if len(sig) >= 5:
            st.runs.add(scen.h64(repr(sig)))
        st.faults["seeded memory layout"] += 1
        return None

    def model(self, scn, ops, segs, st):
        c = oracle.Checker(scn["doc"], scn.get("watch", self.watch),
                           background=scn.get("opts", ["", "", ""])[2])
        mm = c.check(ops, segs)
        if c.images:
            st.c["frames compared"] += c.images
        if c.inconclusive:
            st.notes["inconclusive: " + c.inconclusive[:40]] += 1
        if c.variants_used:
            st.c["order variants tried"] += c.variants_used
        st.c["model steps"] += c.steps
        if mm is not None:
            k = mm.key.split(" ")[0]
            return Violation("model:" + k, mm.text(), mm.step)
        return None


PROPS = {}


def register(cls):
    PROPS[cls.id] = cls
    return cls


@register
class P01(CoreProp):
    id = "C01"
    swarm = dict(labels=[0, 0.2], lookat=[0, 0.2], abort=[0.1, 0.4],
                 pause=[0.1, 0.5], switch=[0.1, 0.5], anchorport=[0, 1],
                 sel=[0.1, 0.5], delays=[0.1, 0.6])
    mixes = [{"tick": 5, "key": 1, "action": 3},
             {"tick": 3, "key": 1, "trans": 4, "action": 2},
             {"tick": 6, "key": 2}]


@register
class P02(CoreProp):
    """Containment: objects are awake only inside awake compositions."""
    id = "C02"
    swarm = dict(ctx=[0.4, 0.7], depth=[2, 3, 4], switch=[0.1, 0.5],
                 pause=[0.1, 0.6], abort=[0.1, 0.3], ref=[0.1, 0.5],
                 selfctl=[0.2, 0.6], delays=[0.2, 0.6])
    feat = dict(media=(2, 4), areas=0.4)
    mixes = [{"tick": 6, "key": 1, "action": 2},
             {"tick": 6, "key": 1},
             {"tick": 4, "action": 4, "trans": 1}]


@register
class P03(CoreProp):
    """Everything ends by itself exactly when nothing is left to present."""
    id = "C03"
    swarm = dict(ctx=[0.2, 0.5, 0.7], switch=[0, 0.3], dur=[0.7, 1.0],
                 sel=[0, 0.2], settings=[0.2, 0.8], ref=[0, 0.3],
                 pause=[0, 0.2], delays=[0.1, 0.5], attr=[0.1, 0.4])
    feat = dict(startweight=2.0, links=(0, 4))
    mixes = [{"tick": 8, "burst": 2},
             {"tick": 6, "key": 1, "burst": 2},
             {"tick": 6, "action": 1, "burst": 1}]
    nops = (10, 50)


@register
class P04(CoreProp):
    """Media clocks, anchors and durations."""
    id = "C04"
    swarm = dict(areas=[0.6, 1.0], dur=[0.4, 0.9], anchorport=[0, 1],
                 pause=[0, 0.3, 0.6], attr=[0.1, 0.5], valref=[0.1, 0.4],
                 labels=[0, 0.2], grid=[100, 50, 37], ref=[0.1, 0.6],
                 swanchor=[0, 0.5])
    feat = dict(media=(2, 5), ctx=0.2)
    mixes = [{"tick": 8, "burst": 2, "clockjump": 0.3},
             {"tick": 6, "action": 2, "burst": 2},
             {"tick": 6, "key": 1}]

    def adjust(self, rng, doc, gen):
        # Durations that are set while the media is being presented.
        pass


@register
class P05(CoreProp):
    """Delayed link actions."""
    id = "C05"
    swarm = dict(delays=[0.5, 0.8, 1.0], ctx=[0.1, 0.5], pause=[0, 0.4],
                 sel=[0, 0.3], attr=[0.2, 0.5], abort=[0, 0.3],
                 selfctl=[0.2, 0.6], multi=[0.2, 0.6], grid=[100, 50, 33])
    feat = dict(links=(2, 7), areas=0.4)
    mixes = [{"tick": 8, "burst": 1, "clockjump": 0.2},
             {"tick": 6, "action": 2},
             {"tick": 6, "key": 2}]


@register
class P06(CoreProp):
    """Links: causes, predicates, order and number of effects."""
    id = "C06"
    swarm = dict(preds=[0.2, 0.6], neg=[0.2, 0.6], attr=[0.3, 0.6],
                 multi=[0.3, 0.7], ref=[0.2, 0.7], ctx=[0.2, 0.5],
                 reuse=[0.1], abort=[0.1, 0.4], delays=[0, 0.2],
                 anchorport=[0, 1], selfctl=[0.2, 0.5], lookat=[0, 0.2],
                 pause=[0.1, 0.4], switch=[0, 0.3])
    feat = dict(links=(3, 9), props=0.9, settings=0.7, ctxports=(1, 4))
    mixes = [{"tick": 5, "action": 3},
             {"tick": 5, "key": 2},
             {"tick": 5, "key": 1, "action": 4}]


@register
class P07(CoreProp):
    """Switches."""
    id = "C07"
    swarm = dict(swports=[0.3, 0.9], swanchor=[0, 0.5], pause=[0.1, 0.5],
                 abort=[0, 0.3], attr=[0.3, 0.6], ctx=[0.1, 0.4],
                 settleset=[0.4], delays=[0.1, 0.4], selfctl=[0.1, 0.3])
    feat = dict(switch=0.95, settings=1.0, rules=0.9)
    mixes = [{"tick": 5, "action": 2},
             {"tick": 5, "key": 1},
             {"tick": 4, "action": 4}]


@register
class P08(CoreProp):
    """Pause and resume freeze and continue."""
    id = "C08"
    swarm = dict(ctx=[0.2, 0.6], switch=[0, 0.4], areas=[0.3, 0.9],
                 delays=[0.3, 0.7], dur=[0.3, 0.8], selfctl=[0.2, 0.6],
                 sel=[0.1, 0.4], attr=[0.1, 0.4])
    feat = dict(pause=0.8, links=(2, 6))
    mixes = [{"tick": 6, "action": 3,
              "roles": ["pause", "pause", "resume", "resume", "start",
                        "stop"]},
             {"tick": 6, "key": 2},
             {"tick": 6, "action": 4, "trans": 1,
              "roles": ["pause", "resume"]}]


@register
class P09(CoreProp):
    """Attributions."""
    id = "C09"
    swarm = dict(attr=[0.6, 0.9], valref=[0.1, 0.6], ctxattr=[0.2, 0.8],
                 preds=[0.2, 0.5], delays=[0.1, 0.5], settings=[0.5, 1.0],
                 desc=[0.1, 0.6], ref=[0.1, 0.5], animdur=[0, 0.5],
                 dur=[0.2, 0.6], abort=[0, 0.3], pause=[0, 0.3])
    feat = dict(links=(3, 8), props=0.95)
    mixes = [{"tick": 5, "action": 3},
             {"tick": 5, "key": 2},
             {"tick": 5, "action": 4}]


@register
class P10(CoreProp):
    """Keys, selections and focus."""
    id = "C10"
    swarm = dict(focus=[0.5, 0.9], sel=[0.6, 0.9], attr=[0.2, 0.5],
                 ref=[0.1, 0.4], pause=[0, 0.4], settings=[0.5, 1.0],
                 switch=[0, 0.4], desc=[0.1, 0.5], delays=[0, 0.3])
    feat = dict(links=(3, 8))
    mixes = [{"tick": 4, "key": 6},
             {"tick": 2, "key": 8},
             {"tick": 4, "key": 5, "action": 2}]


@register
class P11(CoreProp):
    """Sessions: stop, end and restart."""
    id = "C11"
    watch = scen.GEOMWATCH
    swarm = dict(dur=[0.5, 0.9], settings=[0.4, 1.0], focus=[0.2, 0.6],
                 delays=[0.2, 0.6], pause=[0, 0.4], switch=[0, 0.5],
                 animdur=[0, 0.3], geom=[0, 0, 0.8], regions=[0, 0.6])
    mixes = [{"tick": 6, "key": 2, "restart": 1.5, "burst": 1},
             {"tick": 6, "action": 2, "restart": 2},
             {"tick": 4, "img": 2, "action": 2, "restart": 2, "resize": 0.3},
             {"tick": 5, "key": 1, "restart": 2, "eos": 0.5}]


@register
class P12(CoreProp):
    """What is drawn."""
    id = "C12"
    watch = scen.GEOMWATCH
    swarm = dict(geom=[0.8, 1.0], regions=[0, 0.4, 0.8], focus=[0, 0.5],
                 attr=[0.3, 0.8], pause=[0, 0.3], ctx=[0, 0.3],
                 switch=[0, 0.3], settings=[0, 0.4], ref=[0, 0.3],
                 valref=[0, 0.3])
    feat = dict(media=(2, 6), areas=0.1, links=(1, 5), dur=0.3)
    mixes = [{"tick": 4, "img": 4, "action": 4},
             {"tick": 4, "img": 4, "key": 3},
             {"tick": 3, "img": 4, "action": 3, "resize": 1, "optbg": 0.5},
             {"tick": 3, "img": 4, "action": 2, "resize": 2}]

    def adjust(self, rng, doc, gen):
        doc["w"], doc["h"] = rng.choice([(80, 60), (80, 60), (64, 48),
                                         (100, 100), (37, 53), (120, 40)])

    def more(self, rng, scn, m):
        d = scn["doc"]
        scn["opts"] = [d["w"], d["h"], rng.choice(["", "", "navy"]), 0, 0]
        scn["ops"].append(["img"])


@register
class P13(CoreProp):
    """Animations and entry transitions."""
    id = "C13"
    swarm = dict(geom=[0.9, 1.0], regions=[0, 0.3], focus=[0, 0.3],
                 attr=[0.7, 0.9], pause=[0.1, 0.4], animdur=[0.5, 0.9],
                 trans=[0, 0, 1], settings=[0, 0.3], ref=[0, 0.2],
                 valref=[0, 0.3], delays=[0.1, 0.4], grid=[100, 50])
    feat = dict(media=(2, 4), areas=0.1, links=(2, 6), dur=0.2, ctx=0.0,
                switch=0.0, rb=False)
    mixes = [{"tick": 5, "img": 5, "action": 2},
             {"tick": 5, "img": 5, "key": 2},
             {"tick": 5, "img": 3, "burst": 1, "action": 2,
              "roles": ["start", "start", "pause", "resume", "stop"]}]

    def adjust(self, rng, doc, gen):
        doc["w"], doc["h"] = rng.choice([(80, 60), (80, 60), (64, 48),
                                         (100, 100), (37, 53), (120, 40)])

    def more(self, rng, scn, m):
        d = scn["doc"]
        scn["opts"] = [d["w"], d["h"], rng.choice(["", "", "navy"]), 0, 0]
        scn["ops"].append(["img"])
