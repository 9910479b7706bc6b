"""Model-free invariants over a recorded run.

They use only the static structure of the document (who contains whom) and
what the engine itself reports: states, clocks and transitions.
"""
from scen import Violation

LEGAL = {"s": (("S", "P"), "O"), "p": (("O",), "P"), "r": (("P",), "O"),
         "e": (("O", "P"), "S"), "a": (("O", "P"), "S")}
NAME = {"s": "start", "p": "pause", "r": "resume", "e": "stop", "a": "abort"}
# Event::State as printed by the driver's trace.
STATE = {0: "O", 1: "P", 2: "S"}


class Inv(object):
    def __init__(self, model, num=None):
        self.par = {o.id: (o.parent.id if o.parent else None)
                    for o in model.objs.values()}
        self.kind = {o.id: o.kind for o in model.objs.values()}
        self.kids = {}
        for k, p in self.par.items():
            self.kids.setdefault(p, []).append(k)
        self.st = {}
        self.t = {}
        self.d = {}
        self.nstates = set()

    def begin(self):
        self.st = {}
        self.t = {}
        self.d = {}

    def feed(self, lines, tracker):
        """Returns [(o, key, code, ok)] and updates states."""
        for l in lines:
            c = l[0]
            if c == "S":
                a = l.split(" ")
                self.st[(a[1], a[2])] = a[3]
            elif c == "T":
                a = l.split(" ")
                self.t[a[1]] = a[2]
            elif c == "D":
                a = l.split(" ")
                self.d[a[1]] = int(a[2])
            elif l == "GONE":
                self.begin()

    def machine(self, before, trans):
        """The transitions of one op must be legal where they happened, a
        refused request must not change anything, and no state may change
        without a transition of its object."""
        touched = set(t[1] for t in trans if t[4])
        results = {}
        for (_depth, o, k, c, ok, b, a) in trans:
            sb, sa = STATE.get(b, "?"), STATE.get(a, "?")
            if not ok:
                if sb != sa and o not in touched:
                    return Violation(
                        "machine", "refused %s of %s %s changed its state "
                        "from %s to %s" % (NAME[c], o, k, sb, sa))
                continue
            legal, nxt = LEGAL[c]
            if sb not in legal:
                return Violation("machine", "%s of %s %s succeeded in state "
                                 "%s" % (NAME[c], o, k, sb))
            results.setdefault((o, k), set()).add(nxt)
        for key, v in self.st.items():
            b = before.get(key)
            if b is None or b == v:
                continue
            if key[0] not in touched:
                return Violation(
                    "machine", "state of %s %s went from %s to %s without "
                    "any transition" % (key[0], key[1], b, v))
            if v != "S" and v not in results.get(key, ()):
                return Violation(
                    "machine", "state of %s %s is %s, which none of its "
                    "transitions leads to" % (key[0], key[1], v))
        return None

    def containment(self):
        """At rest (between host operations)."""
        lam = "P:@lambda"
        for o, k in self.kind.items():
            s = self.st.get((o, lam))
            if s is None:
                continue
            if s == "S":
                if self.t.get(o, "-") != "-":
                    return Violation("contain", "%s is sleeping but its "
                                     "clock is %s" % (o, self.t[o]))
                if self.d.get(o, 0):
                    return Violation("contain", "%s is sleeping but has %d "
                                     "pending actions" % (o, self.d[o]))
                if k in ("ctx",):
                    for c in self.kids.get(o, ()):
                        if self.st.get((c, lam), "S") != "S":
                            return Violation(
                                "contain", "%s is sleeping but its child %s "
                                "is %s" % (o, c, self.st[(c, lam)]))
            elif self.t.get(o, "-") == "-":
                return Violation("contain", "%s is %s but has no clock"
                                 % (o, s))
            if k == "switch":
                labels = [v for (x, y), v in self.st.items()
                          if x == o and y[0] == "P" and y != lam]
                if s == "S" and any(v != "S" for v in labels):
                    return Violation("contain", "switch %s is sleeping but "
                                     "one of its ports is not" % o)
        for (o, key), v in self.st.items():
            if key[0] == "P" and key != lam and v != "S" \
                    and self.st.get((o, lam)) == "S":
                return Violation("contain", "%s is sleeping but its anchor "
                                 "%s is %s" % (o, key, v))
        return None
