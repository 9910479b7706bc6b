"""C22: the programs hand their user's input to the engine truthfully.

The player program runs, whole, under a simulated window system: the search
decides its command line, when frames come, which keys are pressed, how the
window is resized, redrawn and closed, when signals arrive, and whether
events that were already waiting are still delivered after it has been told
to leave its main loop.  What each document does is compared with the
reference model fed with what the user did.
"""
import copy
import random
import time

import core
import model as M
import ncl
import oracle
import scen
from scen import Violation
from zyg import esc, unesc

# Keys of a keyboard and the keys of NCL that they are.
KEYVALS = [
    (0xffbe, "RED"), (0xffbf, "GREEN"), (0xffc0, "YELLOW"), (0xffc1, "BLUE"),
    (0xffc2, "INFO"), (0xff0d, "ENTER"), (0xff51, "CURSOR_LEFT"),
    (0xff53, "CURSOR_RIGHT"), (0xff52, "CURSOR_UP"), (0xff54, "CURSOR_DOWN"),
    (0x31, "1"), (0x32, "2"), (0x2a, "*"), (0x23, "#"), (0x61, "a"),
    (0x66, "f"), (0x46, "F"), (0x72, "r"), (0x52, "R"), (0x62, "b"),
    (0x42, "B"), (0x64, "d"), (0x44, "D"), (0x71, "q"), (0x39, "9"),
    (0xff67, "MENU"), (0x20, "SPACE"), (0xff8d, "KP_ENTER"),
]
ODD = [0, 0xffffff, 0x1234567, 0x100263a, 0xfe50, 0xffe1, 0x7fffffff]
NAMES = dict(KEYVALS)
CODES = {n: k for k, n in KEYVALS}
ESC, F10, F11 = 0xff1b, 0xffc7, 0xffc8
MS = core.MS
BAD = ["missing", "garbage", "invalid", "directory", "empty"]


def doc_files(d, style, i):
    fs = scen.files_of({"doc": d, "style": style})
    return {"d%d/%s" % (i, n): v for n, v in fs.items()}


def opt_words(r, scn):
    """The command line of the scenario."""
    c = scn["cfg"]
    out = []
    if c["size"]:
        w = "%dx%d" % tuple(c["size"])
        out.append(r.choice([["-s", w], ["--size=" + w]]))
    if c["bg"]:
        out.append(r.choice([["-b", c["bg"]], ["--background", c["bg"]]]))
    if c["debug"]:
        out.append(["-d"])
    if c["full"]:
        out.append(["-f"])
    if c["exp"]:
        out.append(["-x"])
    return out


@core.register
class P22(core.CoreProp):
    id = "C22"
    rule = "A run is one command line with its documents, one sequence of " \
        "frames, key strokes, window events, signals and closings; " \
        "it counts as distinct and non-trivial if its states after each " \
        "event have not been seen before and there are at least 5."
    real = core.REAL + ["the player program src/ginga.cpp, from main() to "
                        "_exit()",
                        "GLib option parser", "names of GDK keys"]
    stubs = core.STUB + ["GTK: window, main loop, frame clock, delivery of "
                         "events and signals (simulated)"]
    assumptions = core.ASSUME + [
        "the window system calls the program's callbacks one at a time, "
        "from its main loop, with frame times that do not go backwards"]
    swarm = dict(sel=[0.3, 0.9], focus=[0, 0.6], attr=[0.2, 0.6],
                 dur=[0.3, 0.9], areas=[0, 0.6], delays=[0, 0.4],
                 settings=[0, 0.6], ctx=[0, 0.4], geom=[0, 0.8])
    feat = dict(media=(1, 4), links=(1, 5), ref=0.2)
    watch = scen.WATCH

    def gen_doc(self, rng, tier):
        for _ in range(20):
            g = ncl.Gen(rng, **self.features(rng, tier))
            d = g.doc()
            try:
                m = ncl.break_cycles(d, rng, M.Model)
            except M.Unsupported:
                continue
            if m is not None:
                self.rekey(d)
                return d
        return None

    def letters(self, rng):
        """Other keys for some of the keys of the documents."""
        m = {}
        if rng.random() < 0.5:
            for k in rng.sample(ncl.KEYS, rng.randint(1, 3)):
                m[k] = rng.choice([n for _, n in KEYVALS if len(n) == 1]
                                  + ["BLUE", "INFO", "YELLOW"])
        self.other = m
        return [CODES[m.get(k, k)] for k in ncl.KEYS]

    def rekey(self, x):
        if isinstance(x, dict):
            if x.get("key") in self.other and x.get("ev") == "selection":
                x["key"] = self.other[x["key"]]
            x = list(x.values())
        if isinstance(x, list):
            for y in x:
                self.rekey(y)

    def generate(self, rng, i, tier):
        keys = self.letters(rng)
        if i % 16 == 7:
            return self.gen_usage(rng)
        docs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            if rng.random() < 0.2:
                docs.append(["bad", rng.choice(BAD)])
            elif docs and rng.random() < 0.15 and docs[-1][0] == "doc":
                docs.append(copy.deepcopy(docs[-1]))
            else:
                d = self.gen_doc(rng, tier)
                if d is None:
                    return None
                docs.append(["doc", d, rng.randint(0, 1 << 30)])
        cfg = {"size": rng.choice([None, [80, 60], [64, 48], [100, 40],
                                   [33, 71]]),
               "bg": rng.choice(["", "", "navy", "#204060"]),
               "debug": int(rng.random() < 0.1),
               "full": int(rng.random() < 0.1),
               "exp": int(rng.random() < 0.1)}
        scn = {"kind": "player", "docs": docs, "cfg": cfg,
               "alloc": rng.randint(1, 1 << 30),
               "clock": [rng.choice([0, 1000, rng.randint(0, 10 ** 12)]),
                         rng.choice([0, 0, 3000, rng.randint(0, 5000000)]),
                         rng.choice([0, 0, 0, 1, rng.randint(2, 9000)])],
               "words": rng.randint(0, 1 << 30),
               "ops": self.events(rng, tier, keys)}
        return scn

    def events(self, rng, tier, keys):
        ops = []
        n = rng.randint(5, 45) * (3 if tier == "thorough"
                                  and rng.random() < 0.3 else 1)
        period = rng.choice([16667, 16667, 33333, 100000, 400000])
        jitter = rng.random() < 0.5
        leave = rng.choice([0.02, 0.06, 0.15])
        term = False
        while len(ops) < n:
            x = rng.random()
            s = int(rng.random() < 0.25)
            if x < 0.5:
                dt = period
                if jitter:
                    dt = rng.choice([period, period, 1, 0, period * 2,
                                     rng.randint(0, 3000000)])
                ops.append(["frame", s, dt])
            elif x < 0.75:
                k = rng.choice(keys)
                if rng.random() < 0.15:
                    k = rng.choice(KEYVALS)[0]
                elif rng.random() < 0.12:
                    k = rng.choice(ODD)
                elif rng.random() < 0.12:
                    k = rng.choice([F10, F11])
                ops.append(["kp", s, k, 1])
                if rng.random() < 0.8:
                    ops.append(["kp", int(rng.random() < 0.25), k, 0])
            elif x < 0.75 + leave:
                if rng.random() < 0.75:
                    ops.append(["kp", s, ESC, 1])
                    if rng.random() < 0.7:
                        ops.append(["kp", rng.randint(0, 1), ESC, 0])
                elif rng.random() < 0.8:
                    if term:    # once is enough to leave
                        continue
                    term = True
                    ops.append(["term", s, rng.choice([-1, 0, 1, 2, 5])])
                else:
                    ops.append(["close", s])
            elif x < 0.95:
                ops.append(["draw", s])
            else:
                ops.append(["conf", s, rng.choice([40, 64, 80, 100, 33, 1]),
                            rng.choice([30, 48, 60, 75, 17, 1])])
        return ops

    def gen_usage(self, rng):
        bad = rng.choice([["-s", "0x10"], ["-s", "x"], ["-s", "10"],
                          ["-s", "-5x6"], ["-s", "6x-5"], ["--size=5x"],
                          ["-s", "10x0"], ["-s"], ["--nosuch"], ["-q"],
                          ["-s", "-1x-1"], []])
        d = self.gen_doc(rng, "quick")
        if d is None:
            return None
        return {"kind": "usage", "args": bad,
                "docs": [["doc", d, rng.randint(0, 1 << 30)]],
                "alloc": rng.randint(1, 1 << 30),
                "ops": [["frame", 0, 16667], ["draw", 0],
                        ["frame", 0, 16667], ["kp", 0, ESC, 1]]}

    # -------------------------------------------------------------- running
    def plan(self, scn):
        r = random.Random(scn.get("words", 0))
        files = {}
        names = []
        for i, x in enumerate(scn["docs"]):
            name = "@DIR@/d%d/main.ncl" % i
            if x[0] == "doc":
                files.update(doc_files(x[1], x[2], i))
            elif x[1] == "garbage":
                files["d%d/main.ncl" % i] = "no <ncl at all"
            elif x[1] == "empty":
                files["d%d/main.ncl" % i] = ""
            elif x[1] == "invalid":
                files["d%d/main.ncl" % i] = \
                    '<ncl id="x"><body><port id="p" component="q"/>' \
                    '</body></ncl>'
            elif x[1] == "directory":
                files["d%d/main.ncl/x" % i] = ""
            names.append([name])
        if scn["kind"] == "usage":
            words = [scn["args"]] + (names if scn["args"] else [])
        else:
            opts = opt_words(r, scn)
            words = list(names)
            for o in opts:          # anywhere among the files
                words.insert(r.randint(0, len(words)), o)
        args = [w for ws in words for w in ws]
        c = scn.get("clock", [0, 0, 0])
        out = ["alloc %d" % scn["alloc"], "dir @DIR@", "trace 0",
               "watch " + " ".join(esc(w) for w in self.watch),
               "appcfg %d %d %d" % tuple(c),
               "app " + " ".join(esc(a).replace("%40", "@") for a in args)]
        for op in scn["ops"]:
            out.append(" ".join(str(x) for x in op))
        return "\n".join(out) + "\n", files

    def evaluate(self, z, scn, st):
        text, files = self.plan(scn)
        res = z.run(text, files)
        if any(l == "NOAPP" for l in res.log):
            raise RuntimeError("the player program could not be compiled")
        v = scen.crash_violation(res)
        if v and self.exploded(scn, res, scn["ops"], st):
            return None
        if v:
            v.text = v.text.replace("the engine crashed",
                                    "the player crashed")
            return v
        segs = res.segments()[2:]   # from "app" on
        if scn["kind"] == "usage":
            return self.usage(scn, segs, st)
        return self.player(scn, segs, st)

    def exploded(self, scn, res, ops, st):
        """It ran out of memory or time: would the reference, too?"""
        if res.exit not in (95, 96):
            return False
        mops = [("start",)]
        for op in ops:
            if op[0] in ("frame", "gf"):
                mops.append(("tick", op[2] * 1000))
            elif op[0] in ("kp", "gk"):
                mops.append(("key", NAMES.get(op[2], "?"), bool(op[3])))
            elif op[0] == "gt":
                import gui
                mops.append(("keys", gui.TV[op[1]]))
        for x in scn["docs"]:
            if x[0] == "doc" and self.explosive({"doc": x[1],
                                                 "ops": mops}):
                st.notes["inconclusive: explosive document"] += 1
                return True
        return False

    def fingerprint(self, z, scn):
        return z.run(*self.plan(scn)).digest()

    def usage(self, scn, segs, st):
        st.c["command lines refused"] += 1
        st.faults["command line that makes no sense"] += 1
        if any(n == "enter" for n, _l in segs):
            return Violation("usage", "a presentation was started in spite "
                             "of the arguments %r" % (scn["args"],))
        if not any(l.startswith("EXIT ") for _n, ls in segs for l in ls):
            return Violation("usage", "the program did not exit with the "
                             "arguments %r" % (scn["args"],))
        return None

    def player(self, scn, segs, st):
        good = [i for i, x in enumerate(scn["docs"]) if x[0] == "doc"]
        cfg = scn["cfg"]
        size = list(cfg["size"] or [800, 600])
        debug = bool(cfg["debug"])
        full = bool(cfg["full"])
        at = -1                  # index into good
        cur = None               # (ops, segs, diffs of the first frame)
        closed = False
        shown = False
        left = 0
        code = None
        ops = iter(scn["ops"])
        opn = -1
        now = {}
        trail = []
        if full != ("W fullscreen" in segs[0][1]):
            return Violation("window", "full screen was %s on the command "
                             "line" % ("asked for" if full
                                       else "not asked for"))

        def finish(c):
            if c is None:
                return None
            return self.compare(scn, c, st)

        for n, (name, lines) in enumerate(segs):
            shown = shown or "W show" in lines
            for l in lines:
                if l.startswith("EXIT "):
                    code = int(l[5:])
                elif l == "CLOSED":
                    return Violation("close", "the program goes on without "
                                     "its window")
            if name == "app":
                continue
            if name == "enter":
                at += 1
                now = {}
                if at >= len(good):
                    return Violation("files", "more presentations than "
                                     "files that can be presented")
                if not shown:
                    return Violation("window", "the window is not shown")
                cur = dict(doc=scn["docs"][good[at]][1], size=tuple(size),
                           ops=[("start",)], segs=[("start", ["R 1 %"]
                                                    + lines)],
                           opn=[None], sig=False, quit=False, first=None,
                           over=False, at=at)
                continue
            if name == "leave":
                v = finish(cur)
                if v:
                    return v
                if cur is not None and not cur["quit"]:
                    return Violation("leave", "the program left the "
                                     "presentation without a reason")
                cur = None
                left += 1
                continue
            if name == "close":
                closed = True
                continue
            op = next(ops)
            opn += 1
            if name != op[0]:
                raise RuntimeError("segments out of step: %s %s" % (name,
                                                                    op))
            if op[0] == "close":
                closed = True
                continue
            st.c["ops"] += 1
            q = "Q" in lines
            if "SIG" in lines:
                cur["sig"] = True
                st.faults["signal"] += 1
            if op[1] and cur["quit"]:
                st.faults["event delivered while leaving"] += 1
            mop = None
            if op[0] == "frame":
                st.simtime += op[2] * 1000
                st.faults["frame"] += 1
                if op[2] > 1000000:
                    st.faults["stalled window system"] += 1
                d = op[2] * 1000
                if cur["first"] is None:
                    cur["first"] = len(cur["ops"])
                mop = ("tick", d)
                if not q and not cur["quit"] and not cur["sig"] \
                        and "W draw" not in lines:
                    return Violation("draw", "op %d (%s): the window is not "
                                     "drawn again after a frame" % (opn, op),
                                     opn)
                if cur["sig"] and not cur["over"]:
                    if not q and "SIG" not in lines:
                        return Violation(
                            "signal", "op %d (%s): the presentation goes on "
                            "after the program was told to terminate"
                            % (opn, op), opn)
                    if q:
                        cur["over"] = True
            elif op[0] == "kp":
                k, press = op[2], bool(op[3])
                st.faults["key event"] += 1
                if k in (ESC, F10, F11):
                    mop = None
                    if k == ESC and press and not q:
                        return Violation("escape", "op %d (%s): Escape does "
                                         "not leave the presentation"
                                         % (opn, op), opn)
                    if q and not (k == ESC and press) and not cur["sig"]:
                        return Violation("escape", "op %d (%s): leaves the "
                                         "presentation" % (opn, op), opn)
                    if k == F10 and press:
                        debug = not debug
                    if k == F11:
                        want = "W window" if full else "W fullscreen"
                        if press:
                            full = not full
                        got = [l for l in lines if l in ("W window",
                                                         "W fullscreen")]
                        if got != ([want] if press else []):
                            return Violation(
                                "window", "op %d (%s): full screen: %r"
                                % (opn, op, got), opn)
                else:
                    nm = NAMES.get(k)
                    if nm is None:
                        st.faults["unknown key"] += 1
                        nm = "key %x" % k
                    mop = ("key", nm, press)
                    if k == 0:
                        mop = ("nokey",)
            elif op[0] == "conf":
                size = [op[2], op[3]]
                mop = ("resize", op[2], op[3])
                st.faults["window resized"] += 1
            elif op[0] == "draw":
                mop = ("redraw",) if debug or size[0] * size[1] > 20000 \
                    else ("img",)
            if mop is not None:
                ls = lines
                if mop[0] in ("tick", "key"):
                    ls = ["R %d" % (not q)] + lines
                cur["ops"].append(mop)
                cur["segs"].append((mop[0], ls))
                cur["opn"].append(opn)
                if cur["sig"]:
                    cur.setdefault("cut", len(cur["ops"]) - 1)
            if q:
                cur["quit"] = True
            for l in lines:
                if l.startswith("B "):
                    b = l.split(" ")
                    want = ["B", "%d" % debug, str(size[0]), str(size[1]),
                            esc(cfg["bg"])]
                    if b != want:
                        return Violation(
                            "options", "op %d (%s): options %s, should be "
                            "%s" % (opn, op, b[1:], want[1:]), opn)
                elif l[:2] in ("S ", "T "):
                    trail.append((opn, l))
                    if l.startswith("S "):
                        a = l.split(" ")
                        now[a[1] + a[2]] = a[3]
            if name != "draw":
                st.states.add(scen.h64(repr((at, sorted(now.items())))))
        if cur is not None:
            v = finish(cur)
            if v:
                return v
        st.c["presentations"] += at + 1
        if len(trail) >= 5:
            st.runs.add(scen.h64(repr(trail)))
        if closed:
            st.faults["window closed"] += 1
        if code is None:
            return Violation("exit", "the program ended without exiting")
        if not closed:
            if left != len(good):
                return Violation("files", "%d of %d files were presented"
                                 % (left, len(good)))
            bad = len(scn["docs"]) - len(good)
            st.c["files refused"] += bad
            if code != bad:
                return Violation("exit", "exit status %d, %d files could "
                                 "not be presented" % (code, bad))
        return None

    def compare(self, scn, c, st):
        n = c.get("cut", len(c["ops"]))
        ops, segs, opns = c["ops"][:n], c["segs"][:n], c["opn"][:n]
        first = None
        # The first frame may count from the beginning of the presentation
        # or be its beginning.
        f = c["first"]
        for d in (0, None) if f is not None and f < n else (None,):
            o = list(ops)
            if d is not None:
                o[f] = ("tick", d)
            ch = oracle.Checker(c["doc"], self.watch, trace=False,
                                size=c["size"],
                                background=scn.get("cfg", {"bg": ""})["bg"])
            mm = ch.check(o, segs)
            if mm is None:
                if ch.inconclusive:
                    st.notes["inconclusive: " + ch.inconclusive[:40]] += 1
                st.c["model steps"] += ch.steps
                st.c["frames compared"] += ch.images
                return None
            if first is None:
                first = mm
        w = mm if mm.step > first.step else first
        return Violation("model:" + w.key.split(" ")[0],
                         "presentation %d, event %s: %s" % (
                             c.get("at", 0), opns[w.step], w.text()),
                         opns[w.step])

    def shrink(self, scn, test, deadline):
        best = scn
        tried = [0]

        def attempt(c):
            tried[0] += 1
            return time.time() < deadline and test(c)
        if attempt(best) is False:
            return best, tried[0]
        i = len(best["docs"])
        while i > 0 and len(best["docs"]) > 1:
            i -= 1
            c = dict(best)
            c["docs"] = best["docs"][:i] + best["docs"][i + 1:]
            if attempt(c):
                best = c
        size = max(1, len(best["ops"]) // 2)
        while size >= 1 and time.time() < deadline:
            i = len(best["ops"])
            while i > 0:
                j = max(0, i - size)
                c = dict(best)
                c["ops"] = best["ops"][:j] + best["ops"][i:]
                if attempt(c):
                    best = c
                i = j
            size //= 2
        for i, x in enumerate(best["docs"]):
            if x[0] != "doc":
                continue
            progress = True
            while progress and time.time() < deadline:
                progress = False
                for red in list(scen.doc_reductions(best["docs"][i][1])):
                    d = copy.deepcopy(best["docs"][i][1])
                    try:
                        red(d)
                    except (IndexError, KeyError):
                        continue
                    d = scen.prune(d)
                    if d == best["docs"][i][1] or not scen.valid_doc(d):
                        continue
                    c = dict(best)
                    c["docs"] = list(best["docs"])
                    c["docs"][i] = ["doc", d, best["docs"][i][2]]
                    if attempt(c):
                        best = c
                        progress = True
                        break
                    if time.time() >= deadline:
                        break
        return best, tried[0]

    def sample(self, scn):
        s = {k: v for k, v in scn.items() if k not in ("doc", "docs")}
        s["docs"] = [x[0] if x[0] == "doc" else x[1] for x in scn["docs"]]
        return s
