"""C16: what sessions, instances and frames use, they give back."""
import content
import core
import oracle
import scen
import stream
from core import MS
from scen import Violation

WHAT = ["bytes of C++ objects", "C++ objects", "bytes of heap memory",
        "open file descriptors"]
SESSIONS = 6
ROUNDS = 7


def delayed(x):
    if isinstance(x, dict):
        return x.get("delay", "0s") not in ("", "0s", None) \
            or any(delayed(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(delayed(y) for y in x)
    return False


@core.register
class P16(core.CoreProp):
    id = "C16"
    rule = "A run is one generated document whose session is repeated %d " \
        "times, and one round of host calls repeated %d times within the " \
        "last session, with the memory in use measured after each; it " \
        "counts as distinct if its sequence of transitions has not been " \
        "seen before and has at least 5 transitions." % (SESSIONS, ROUNDS)
    swarm = dict(ctx=[0.1, 0.5], switch=[0.1, 0.5], settings=[0.2, 1.0],
                 focus=[0, 0.4], sel=[0.1, 0.4], attr=[0.2, 0.8],
                 geom=[0.2, 0.9], regions=[0, 0.5], delays=[0, 0, 0.6],
                 pause=[0, 0.3], dur=[0.3, 0.8], ref=[0, 0.4],
                 desc=[0.2, 0.6], trans=[0, 0, 1], animdur=[0, 0.6],
                 preds=[0.1, 0.4], swports=[0.2, 0.8], lookat=[0, 0.2],
                 streams=[0, 0, 0.6])
    feat = dict(media=(1, 5), links=(1, 6), areas=0.3)
    mixes = [{"tick": 5, "key": 1, "redraw": 1},
             {"tick": 5, "action": 2, "redraw": 1},
             {"tick": 3, "action": 2, "redraw": 2, "resize": 0.5},
             {"tick": 5, "action": 2, "trans": 1, "burst": 1}]
    nops = (2, 12)

    def adjust(self, rng, doc, gen):
        if gen.f["streams"] == 0 and rng.random() < 0.4:
            content.fill(rng, doc, gen, 0.5)

    def more(self, rng, scn, m):
        scn["ops"] = [o for o in scn["ops"] if o[0] != "start"]
        scn["ending"] = rng.choice(["stop", "stop", "eos", "natural",
                                    "delete"])
        ops = core.history(rng, m, rng.choice(
            [{"tick": 3, "key": 2, "redraw": 1},
             {"tick": 2, "action": 3, "redraw": 1},
             {"tick": 2, "redraw": 2, "resize": 1}]), rng.randint(2, 7))
        scn["round"] = [o for o in ops if o[0] != "start"]
        if any(stream.kind_of(o) for o in m.objs.values()):
            # Messages of streams arrive now and then; pictures pile up to
            # some extent if they are not drawn.
            for k in ("ops", "round"):
                n = rng.randint(1, 3)
                scn[k] = sum(([o] + ([["redraw"]] if o[0] == "tick" else [])
                              + ([["gstpump"]] if i % n == 0 else [])
                              for i, o in enumerate(scn[k])), [])

    def expand(self, scn):
        h = scn["ops"]
        end = {"stop": [["stop"]], "eos": [["eos"], ["tick", 0]],
               "natural": [["tick", 20000 * MS]] * 3 + [["stop"]],
               "delete": [["delete"], ["new"]]}[scn["ending"]]
        out = []
        for _ in range(SESSIONS):
            out += [["start"]] + h + end + [["mem"]]
        # Actions that wait for their delay to elapse pile up by design.
        if scn.get("round") and not delayed(scn["doc"]):
            out += [["start"]] + h
            for _ in range(ROUNDS):
                out += scn["round"] + [["mem"]]
        c = dict(scn)
        c["ops"] = out
        return c

    def evaluate(self, z, scn, st):
        x = self.expand(scn)
        res, segs = scen.run(z, x)
        v = scen.crash_violation(res)
        if v:
            if res.exit in (95, 96) and self.explosive(x, segs):
                st.notes["inconclusive: explosive document"] += 1
                return None
            return v
        ops = [tuple(o) for o in x["ops"]]
        v = self.started(ops, segs)
        if v:
            return v
        mem = []
        state = []
        tr = oracle.Tracker()
        sig = []
        for n, (op, (_name, lines)) in enumerate(zip(ops, segs)):
            t = tr.feed(lines)
            st.c["transitions"] += sum(1 for y in t if y[4])
            st.c["ops"] += 1
            sig += [(n, y[1], y[2], y[3]) for y in t if y[4]]
            if op[0] == "mem":
                for l in lines:
                    if l.startswith("M "):
                        mem.append(tuple(map(int, l.split()[1:])))
                state.append(tuple(sorted(
                    (k, y) for k, y in tr.state.items()
                    if not k.startswith("T "))))
                st.states.add(scen.h64(repr(state[-1])))
            elif op[0] == "start":
                tr.state = {}
                tr.feed(lines)
            elif op[0] == "tick":
                st.simtime += op[1]
            elif op[0] in ("action", "trans", "key"):
                st.faults["event of the host"] += 1
        st.faults["session ended by " + scn["ending"]] += SESSIONS
        st.c["measurements"] += len(mem)
        if len(sig) >= 5:
            st.runs.add(scen.h64(repr(sig)))
        v = self.growth(mem[:SESSIONS], "session")
        if v is None and len(mem) == SESSIONS + ROUNDS:
            rounds = mem[SESSIONS:]
            ss = state[SESSIONS:]
            if len(set(ss)) == 1 and ss[0]:
                st.c["steady rounds"] += 1
                v = self.growth(rounds, "round of host calls")
        return v

    def growth(self, mem, what):
        # The first repetitions may fill caches.
        m = mem[1:]
        if len(m) < 5:
            return None
        for i, name in enumerate(WHAT):
            if len(m[0]) > i and all(b[i] > a[i] for a, b in zip(m, m[1:])):
                return Violation(
                    "leak:" + what.split(" ")[0],
                    "every repetition of the same %s leaves more %s "
                    "behind: %s" % (what, name,
                                    " ".join(str(x[i]) for x in m)))
        return None

    def fingerprint(self, z, scn):
        return scen.run(z, self.expand(scn))[0].digest()
