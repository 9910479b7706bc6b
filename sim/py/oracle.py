"""Compares a recorded run with the reference model, op by op."""
import copy
import json
import random

import model as M
import pixels
from zyg import unesc

FACTOR_VARIANTS = 60


class Mismatch(Exception):
    def __init__(self, step, op, key, want, got):
        Exception.__init__(self)
        self.step, self.op, self.key = step, op, key
        self.want, self.got = want, got

    def text(self):
        return "op %d (%s): %s: reference says %s, engine says %s" % (
            self.step, self.op, self.key, self.want, self.got)


class Inconclusive(Exception):
    pass


def parse_orders(lines):
    objs = {}
    evs = {}
    for l in lines:
        if l.startswith("ORDER"):
            for i, x in enumerate(l.split()[1:]):
                objs[unesc(x)] = i
        elif l.startswith("EVORDER "):
            a = l.split()
            evs[unesc(a[1])] = {unesc(x): i for i, x in enumerate(a[2:])}
    return objs, evs


class Tracker(object):
    """Accumulates the driver's delta lines."""

    def __init__(self, watch=()):
        self.state = {}
        self.watch = watch

    def feed(self, lines):
        """Returns the successful transitions of this op, in order, and the
        refused ones."""
        trans = []
        for l in lines:
            c = l[0]
            if c == "T" or c == "S" or c == "P":
                k, v = l.rsplit(" ", 1)
                self.state[k] = v
            elif c == "X":
                a = l.split(" ")
                trans.append((int(a[1]), unesc(a[2]), unesc(a[3]), a[4],
                              a[5] == "1", int(a[6]), int(a[7])))
            elif c == "V":
                self.state.pop("V", None)
                if l[2:]:
                    self.state["V"] = l[2:]
            elif l == "GONE":
                v = self.state.get("V")
                self.state = {"V": v} if v else {}
        return trans


def sent(lines):
    """Requests to remote devices."""
    out = []
    for l in lines:
        if l.startswith("W send "):
            a = l.split(" ")
            try:
                b = json.loads(unesc(a[3]))
            except ValueError:
                b = {}
            # The order in which media are announced is open.
            out.append((unesc(a[2]).rstrip("/"),
                        "W " + b.get("sceneNode", ""),
                        b.get("action", "register") + ";"))
        elif l.startswith("N "):
            a = l.split(" ")
            if a[1] == "openfail":
                out.append((a[2], "N", "openfail;"))
                continue
            out.append((a[2], "N", " ".join([a[1]] + a[3:]) + ";"))
    return out


def seqs(trace):
    d = {}
    for o, k, c in trace:
        d.setdefault((o, k), []).append(c)
    return d


def want_state(m, watch):
    st = m.observe()
    if watch and st:
        for o in m.objs.values():
            for w in watch:
                st["P " + o.id + " " + w] = esc1(o.props.get(w, ""))
    return st


def esc1(v):
    from zyg import esc
    return esc(v)


def apply_op(m, op):
    """Applies host op (a tuple) to the model; returns the expected result."""
    k = op[0]
    if k == "start":
        m.start()
        return True
    if k == "tick":
        return m.tick(op[1])
    if k == "key":
        return m.key(op[1], op[2])
    if k in ("action", "trans", "setprop") and m.state != "PLAYING":
        return None             # the document is gone
    if k == "action":
        o = m.objs[op[1]]
        e = o.evs[op[2]]
        return m.eval(e, op[3], op[4] if len(op) > 4 else "")
    if k == "trans":
        return m.transition(m.objs[op[1]].evs[op[2]], op[3])
    if k in ("redraw", "img"):
        m.redraw()
        return None
    if k == "keys":             # a stroke
        m.key(op[1], True)
        m.key(op[1], False)
        return None
    if k == "all":
        for o in op[1]:
            apply_op(m, o)
        return None
    if k == "eos":
        m.eos = True
        return None
    if k in ("gst", "gstpump") and m.state == "PLAYING":
        import stream
        if k == "gst":
            stream.gst(m, op[1], op[2])
        else:
            stream.pump(m)
        return None
    if k == "gstcfg" and op[1] == "tone":
        m.tonefails = bool(op[3])
        return None
    if k == "resize":
        m.resize(op[1], op[2])
        return None
    if k == "optbg":
        m.background = op[1]
        return None
    if k == "stop":
        m.state = "STOPPED"
        return True
    if k == "lua":
        return m.post(*op[1:]) if m.state == "PLAYING" else False
    if k == "web":
        import remote
        return remote.effect(m, op)
    return None


def compare(m, watch, got_state, got_trace, check_trace):
    """First difference or None."""
    if check_trace and m.state != "PLAYING":
        # The session ended: what was still awake is stopped while the
        # document is taken down, which the reference does not go into.
        got_trace = cut_end(m, got_trace)
    want = want_state(m, watch)
    for k, v in want.items():
        g = got_state.get(k)
        if g != v:
            return (k, v, g)
    if not want and got_state:
        return ("document", "gone", "present")
    if check_trace:
        a = seqs(m.trace)
        b = seqs(got_trace)
        if a != b:
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    return ("transitions of %s %s" % k,
                            "".join(a.get(k, [])) or "-",
                            "".join(b.get(k, [])) or "-")
    return None


def cut_end(m, got_trace):
    """The transitions up to the end of the session: of each event, as many
    as the reference makes."""
    n = {k: len(v) for k, v in seqs(m.trace).items()}
    out = []
    for o, k, c in got_trace:
        if n.get((o, k), 0) > 0:
            n[(o, k)] -= 1
            out.append((o, k, c))
    return out


def diffs(m, watch, got_state, got_trace, check_trace):
    out = {}
    want = want_state(m, watch)
    for k in want:
        out[k] = want[k]
    if check_trace:
        for k, v in seqs(m.trace).items():
            out["X %s %s" % k] = "".join(v)
    return out


class Checker(object):
    """Feeds a run to the model.

    verdict: list of mismatches (at most one), plus counters.
    """

    def __init__(self, doc, watch=(), focus="", trace=True, size=None,
                 background=""):
        self.doc = doc
        self.size = size
        self.background = background
        self.watch = list(watch)
        self.focus = focus
        self.trace = trace
        self.m = None
        self.variants_used = 0
        self.inconclusive = None
        self.steps = 0

    def fresh(self, ops, i):
        """The model of the session that operation i starts."""
        size, bg = self.size, self.background
        for op in ops[:i]:
            if op[0] == "resize":
                size = (op[1], op[2])
            elif op[0] == "optbg":
                bg = op[1]
        m = M.Model(self.doc, self.focus, size)
        m.background = bg
        import stream
        m.streams = stream.config(ops[:i])
        for op in ops[:i]:
            if op[:2] == ("gstcfg", "tone"):
                m.tonefails = bool(op[3])
        return m

    def check(self, ops, segs):
        """ops: host ops in order; segs: matching [(name, lines)]."""
        tr = Tracker(self.watch)
        trace_seen = False
        for i, (op, (name, lines)) in enumerate(zip(ops, segs)):
            got = tr.feed(lines)
            if got:
                trace_seen = True
            if op is None:
                continue
            if op[0] == "start" and self.m is not None \
                    and self.m.state == "PLAYING":
                op = ("refused",)
            if op[0] == "start":
                self.m = self.fresh(ops, i)
                self.m.rank = parse_orders(lines)
                tr.state = {}
                tr.feed(lines)
            if self.m is None:
                continue        # nothing has been started yet
            gtr = [(o, k, c) for (_d, o, k, c, ok, _b, _a) in got if ok]
            gtr += sent(lines)
            self.m.trace = []
            self.m.steps = 0
            if self.trace and trace_seen and op[0] != "stop":
                ct = True
            else:
                ct = False
            # Deep copies are only needed when something differs; replaying
            # is cheaper than copying every step.
            try:
                want = apply_op(self.m, op)
            except M.Unsupported as e:
                self.inconclusive = "unsupported: %s" % e
                return None
            except M.Runaway:
                self.inconclusive = "runaway"
                return None
            self.steps += 1
            if self.m.eos or (self.m.state != "PLAYING"
                              and op[0] == "start"):
                ct = False      # deleted while still being presented
            if op[0] in ("tick", "key", "lua"):
                r = [x for x in lines if x.startswith("R ")]
                if r and r[0] != "R %d" % bool(want):
                    return Mismatch(i, " ".join(map(str, op)), "result",
                                    bool(want), r[0][2:])
            if op[0] == "web" and want is not None:
                r = [x for x in lines if x.startswith("R ")]
                if r and r[0] != "R 1 %d" % want:
                    return Mismatch(i, " ".join(map(str, op))[:200],
                                    "status", want, r[0][2:])
            d = compare(self.m, self.watch, tr.state, gtr, ct)
            if d is not None:
                r = self._variants(ops, segs, i, tr.state, gtr, ct, op)
                if r is not None:
                    return r
                if self.inconclusive:
                    return None
            if op[0] == "img":
                d = pixels.compare(self.m, lines)
                self.images += 1
                if self.on_image is not None:
                    self.on_image(i, self.m, lines)
                if d is not None:
                    return Mismatch(i, "img", "image " + d[0], d[1], d[2])
        return None

    images = 0
    on_image = None

    def _replay(self, ops, segs, upto, choices):
        m = None
        for i in range(upto):
            op = ops[i]
            if op is None:
                continue
            if op[0] == "start" and m is not None and m.state == "PLAYING":
                op = ("refused",)
            if op[0] == "start":
                m = self.fresh(ops, i)
                m.rank = parse_orders(segs[i][1])
            if m is None:
                continue
            m.trace = []
            m.steps = 0
            if i in choices:
                m.perm = random.Random(choices[i])
            apply_op(m, op)
            m.perm = None
        return m

    choices = None

    def _variants(self, ops, segs, i, gstate, gtr, ct, op):
        """The observed-order prediction failed.  Does any other visiting
        order explain the run?"""
        if self.choices is None:
            self.choices = {}
        common = None
        base = self._replay(ops, segs, i, self.choices)
        for v in range(FACTOR_VARIANTS + 1):
            if op[0] == "start":
                m = self.fresh(ops, i)
                m.rank = parse_orders(segs[i][1])
            else:
                m = copy.deepcopy(base)
            m.trace = []
            m.steps = 0
            m.perm = random.Random(v) if v else None
            try:
                apply_op(m, op)
            except (M.Unsupported, M.Runaway) as e:
                self.inconclusive = "variant: %r" % e
                return None
            m.perm = None
            if v and compare(m, self.watch, gstate, gtr, ct) is None:
                self.variants_used += 1
                self.choices[i] = v
                self.m = m
                return None
            d = diffs(m, self.watch, gstate, gtr, ct)
            if common is None:
                common = dict(d)
                keys = set(d)
            else:
                keys |= set(d)
                for k in list(common):
                    if d.get(k) != common[k]:
                        common.pop(k)
                for k in d:
                    if k not in common:
                        pass
        # Keys on which every order agrees.
        got = dict(gstate)
        if ct and m.state != "PLAYING":
            ct = False
        if ct:
            for k, s in seqs(gtr).items():
                got["X %s %s" % k] = "".join(s)
        gone = set()
        for k in sorted(common):
            if got.get(k) != common[k]:
                return Mismatch(i, " ".join(map(str, op)), k, common[k],
                                got.get(k))
        # Something happened that no order produces at all.
        for k in sorted(got):
            if k not in keys and (k[0] == "X"):
                return Mismatch(i, " ".join(map(str, op)), k, "nothing",
                                got[k])
        self.inconclusive = "order-dependent"
        return None
