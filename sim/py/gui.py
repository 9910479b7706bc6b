"""C24: the windows of the graphical program.

The whole graphical program (src/gingagui) runs under a simulated toolkit:
the search decides which buttons are clicked, what is typed, what dialogs
answer, which keys go to which window, when frames come to which window, how
windows change size and when they are closed.  What each presentation does
is compared with the reference model fed with what the user did, and the
program itself with a small model of its windows.
"""
import copy
import random
import time

import core
import ncl
import player
import scen
from player import BAD, NAMES, CODES, ODD
from scen import Violation
from zyg import esc, unesc

# The buttons of the remote control, by their pictures.
TV = {"number_one": "1", "number_two": "2", "number_three": "3",
      "number_four": "4", "number_five": "5", "number_six": "6",
      "number_seven": "7", "number_eight": "8", "number_nine": "9",
      "number_zero": "0", "uparrow-icon": "CURSOR_UP",
      "downarrow-icon": "CURSOR_DOWN", "leftarrow-icon": "CURSOR_LEFT",
      "rightarrow-icon": "CURSOR_RIGHT", "ok-icon": "ENTER",
      "red-icon": "RED", "green-icon": "GREEN", "yellow-icon": "YELLOW",
      "blue-icon": "BLUE", "info-icon": "INFO", "back_arrow": "RETURN",
      "menu-icon": "b_menu", "volup-icon": "b_vol_up"}
TVKEY = {v: k for k, v in TV.items()}
ESC, CTRL_L, CTRL_R, META = 0xff1b, 0xffe3, 0xffe4, 0xffe7
SHORT = {0x66: "full", 0x46: "full", 0x72: "remote", 0x52: "remote",
         0x62: None, 0x42: None, 0x64: "debug", 0x44: "debug"}
ACCEPT, CANCEL, DELETE = -3, -6, -4
SCREEN = (96, 54)
FIRST = (700, 525)
DOCNAMES = ["main.ncl", "main.ncl", "my doc.ncl", "a##b.ncl", "%c3%a9.ncl",
            "x.y.ncl", "50%25.ncl", "a&b.ncl"]
OTHER = ["@DIR@/d0/readme.txt", "@DIR@/noext", "", "@DIR@/a.ncl/b.txt",
         "@DIR@/x.ncl.bak", "@DIR@/a.b/noext", "@DIR@/x."]


def word(s):
    return esc(s).replace("%40", "@")


@core.register
class P24(player.P22):
    id = "C24"
    rule = "A run is one or two sessions of the graphical program: clicks, " \
        "texts, answers to dialogs, key strokes, frames, changes of windows " \
        "and closings, on documents that can be presented and files that " \
        "cannot; it counts as distinct and non-trivial if its states after " \
        "each event have not been seen before and there are at least 5."
    real = core.REAL + ["the graphical program src/gingagui, from main() to "
                        "exit()", "names of GDK keys"]
    stubs = core.STUB + ["GTK: widgets, windows, dialogs, main loop, frame "
                         "clock, delivery of events (simulated)"]
    assumptions = core.ASSUME + [
        "the toolkit calls the program's callbacks one at a time, from its "
        "main loop or from a dialog that runs, with frame times that do not "
        "go backwards, and only for widgets that can be used"]

    def generate(self, rng, i, tier):
        docs, names = [], []
        keys = self.letters(rng)
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            if rng.random() < 0.25:
                docs.append(["bad", rng.choice(BAD)])
            else:
                d = self.gen_doc(rng, tier)
                if d is None:
                    return None
                docs.append(["doc", d, rng.randint(0, 1 << 30)])
            names.append("@DIR@/d%d/%s" % (k, unesc(rng.choice(DOCNAMES))))
        pool = list(names) * 2
        for _ in range(rng.randint(0, 3)):
            pool.append(rng.choice(OTHER + ["@DIR@/none%d.ncl"
                                            % rng.randint(0, 6)]))
        ses = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            arg = rng.choice([None, None, None, rng.choice(pool)])
            if arg == "":
                arg = None
            ses.append({"arg": arg, "ops": self.events2(rng, pool, tier, keys)})
        old = []
        if rng.random() < 0.4:
            for n in pool + ["@DIR@/none%d.ncl" % k for k in range(8)]:
                if n and n not in old and rng.random() < 0.6 \
                        and len(old) < 6:
                    old.append(n)
        return {"kind": "gui", "docs": docs, "names": names, "ses": ses,
                "old": old, "alloc": rng.randint(1, 1 << 30)}

    def letters(self, rng):
        keys = super().letters(rng)
        if self.other and rng.random() < 0.6:
            # Those that are shortcuts too, if Ctrl is held.
            self.other = {k: rng.choice("fFrRbBdD") for k in self.other}
            keys = [CODES[self.other.get(k, k)] for k in ncl.KEYS]
        return keys

    def events2(self, rng, pool, tier, keys):
        ops = []
        n = rng.randint(6, 50) * (3 if tier == "thorough"
                                  and rng.random() < 0.3 else 1)
        period = rng.choice([16667, 16667, 33333, 100000, 400000])
        jitter = rng.random() < 0.5
        odd = rng.random() < 0.5    # windows and dialogs
        beat = 0 if rng.random() < 0.2 else 1

        def frame(win=None):
            dt = period
            if jitter:
                dt = rng.choice([period, period, 1, 0, period * 2,
                                 rng.randint(0, 2000000)])
            ops.append(["gf", win or rng.choice("mmmf"), dt])

        def begin():
            x = rng.random()
            if x < 0.5:
                ops.append(["gy", rng.choice(pool)])
                if beat:
                    frame()
                ops.append(["gc", "play"])
            elif x < 0.65:
                ops.append(["gc", "play"])
            elif x < 0.8:
                ops.append(["gh", rng.choice([0, 0, 1, 2, 5])])
            else:
                ops.append(["gc", "openfile-icon"])
                for _ in range(rng.choice([0, 0, 1, 3])):
                    frame()
                r = rng.choice([ACCEPT, ACCEPT, ACCEPT, ACCEPT, CANCEL,
                                DELETE])
                ops.append(["gr", r] + ([rng.choice(pool)]
                                        if rng.random() < 0.93 else []))
            if beat:
                frame()

        begin()
        mode = rng.choice([None, None, None, 0.65, 0.845, 0.88, 0.81, 0.903,
                           0.93, 0.955, 0.99])
        if mode in (0.65, 0.845):
            ops.append(["gc", "remote-icon"])
        while len(ops) < n:
            x = rng.random()
            if mode is not None and rng.random() < 0.25:
                x = mode        # more of one thing
            if x < 0.45:
                frame()
            elif x < 0.62:
                k = rng.choice(keys)
                y = rng.random()
                if y < 0.1:
                    k = rng.choice(list(NAMES))
                elif y < 0.2:
                    k = rng.choice(ODD)
                elif y < 0.35:
                    k = rng.choice([ESC, ESC, CTRL_L, CTRL_R, META]
                                   + list(SHORT))
                w = rng.choice("mmmf")
                if rng.random() < 0.1:
                    c = rng.choice([CTRL_L, CTRL_R])
                    k = rng.choice(list(SHORT))
                    ops += [["gk", w, c, 1], ["gk", w, k, 1]]
                    if rng.random() < 0.5:
                        frame()
                    fin = [["gk", w, k, 0], ["gk", w, c, 0]]
                    rng.shuffle(fin)
                    ops += fin
                else:
                    ops.append(["gk", w, k, 1])
                    if rng.random() < 0.8:
                        ops.append(["gk", rng.choice([w, w, w, "m"]), k, 0])
            elif x < 0.7:
                if rng.random() < 0.7:
                    k = rng.choice(ncl.KEYS)
                    ops.append(["gt", TVKEY.get(k, "number_one")])
                else:
                    ops.append(["gt", rng.choice(sorted(TV))])
            elif x < 0.75:
                ops.append(["gc", "stop-icon"])
                if beat:
                    frame()
            elif x < 0.83:
                begin()
            elif x < 0.86 or not odd:
                ops.append(["gc", "remote-icon"])
            elif x < 0.89:
                ops.append(["gc", rng.choice(["fullscreen-icon"] * 3
                                             + ["window-icon",
                                                "sidebar-icon",
                                                "rightride-icon"])])
                if rng.random() < 0.3:      # its window and back
                    ops += [["gc", "window-icon"], ["gt", "number_one"],
                            ["gc", "sidebar-icon"]]
            elif x < 0.92:
                ops.append(["gz", rng.choice([40, 64, 80, 100, 33, 1]),
                            rng.choice([30, 48, 60, 75, 17, 1])])
            elif x < 0.94:
                ops.append(["gc", rng.choice(
                    ["debug-icon", "settings-icon", "tools-icon",
                     "question-icon", "check", "history-icon",
                     "bottomhide-icon"])])
            elif x < 0.96:
                ops.append(["gm", rng.randint(0, 1), rng.randint(0, 3)])
                ops.append(["gd", rng.choice("mf")])
            elif x < 0.97:
                ops.append(["gi"])
            elif x < 0.98:
                ops.append(["gl", rng.choice(
                    ["ginga::x", "ginga::\u00e9\u00e9\u00e9", "x",
                     "ginga::\u65e5\u672c"])])
            elif x < 0.995:
                ops.append(rng.choice([["gd", "m"], ["gd", "f"],
                                       ["gx", "t"], ["gx", "f"]]))
            elif rng.random() < 0.5:
                break
        if rng.random() < 0.7:
            ops.append(["gx", "m"])
        return ops

    # -------------------------------------------------------------- running
    def disk(self, scn, where):
        files = {"d0/readme.txt": "x", "noext": "x"}
        for i, (x, name) in enumerate(zip(scn["docs"], scn["names"])):
            n = name.replace("@DIR@/", "")
            if x[0] == "doc":
                fs = player.doc_files(x[1], x[2], i)
                files.update({n if k.endswith("/main.ncl") else k: v
                              for k, v in fs.items()})
            elif x[1] == "garbage":
                files[n] = "no <ncl at all"
            elif x[1] == "empty":
                files[n] = ""
            elif x[1] == "invalid":
                files[n] = '<ncl id="x"><body><port id="p" ' \
                    'component="q"/></body></ncl>'
            elif x[1] == "directory":
                files[n + "/x"] = ""
        if scn["old"]:
            files["ginga222.settings"] = "[ginga-gui]\nginga-ID=7\n" \
                "aspect-ratio=3\nframe-rate=30\ngui-theme=0\nhistory=" \
                + "".join(h.replace("\\", "\\\\").replace(";", "\\;") + ";"
                          for h in scn["old"]) + "\n"
            files["ginga222.settings"] = files["ginga222.settings"].replace(
                "@DIR@", where)
        return files

    def text(self, scn, s):
        out = ["alloc %d" % scn["alloc"], "dir @DIR@", "trace 0",
               "watch " + " ".join(esc(w) for w in self.watch),
               "gui" + (" " + word(s["arg"]) if s["arg"] else "")]
        for op in s["ops"]:
            if op[0] in ("gy", "gl"):
                out.append("%s %s" % (op[0], word(op[1])))
            elif op[0] == "gr":
                out.append("gr %d%s" % (op[1], " " + word(op[2])
                                        if len(op) > 2 else ""))
            else:
                out.append(" ".join(str(x) for x in op))
        return "\n".join(out) + "\n"

    def sessions(self, z, scn):
        for i, s in enumerate(scn["ses"]):
            yield z.run(self.text(scn, s), self.disk(scn, z.dir) if i == 0
                        else None)

    def fingerprint(self, z, scn):
        return "/".join(r.digest() for r in self.sessions(z, scn))

    def evaluate(self, z, scn, st):
        saved = (list(scn["old"]), 3 if scn["old"] else 0)
        trail = []
        for i, res in enumerate(self.sessions(z, scn)):
            if any(l == "NOAPP" for l in res.log):
                raise RuntimeError("the graphical program could not be "
                                   "compiled")
            v = scen.crash_violation(res)
            if v and self.exploded(scn, res, scn["ses"][i]["ops"], st):
                return None
            if v:
                v.text = v.text.replace("the engine crashed",
                                        "the program crashed")
                return v
            w = Windows(self, scn, scn["ses"][i], saved, i, st, trail)
            v = w.run(res.segments()[2:])
            if v:
                return v
            saved = w.saved
        if len(trail) >= 5:
            st.runs.add(scen.h64(repr(trail)))
        return None

    def shrink(self, scn, test, deadline):
        best = scn
        tried = [0]

        def attempt(c):
            tried[0] += 1
            return time.time() < deadline and test(c)
        if attempt(best) is False:
            return best, tried[0]
        for k in range(len(best["ses"]) - 1, -1, -1):
            if len(best["ses"]) > 1:
                c = dict(best)
                c["ses"] = best["ses"][:k] + best["ses"][k + 1:]
                if attempt(c):
                    best = c
        for k in range(len(best["ses"])):
            def put(**kw):
                c = dict(best)
                c["ses"] = list(best["ses"])
                c["ses"][k] = dict(best["ses"][k], **kw)
                return c
            if best["ses"][k]["arg"]:
                c = put(arg=None)
                if attempt(c):
                    best = c
            size = max(1, len(best["ses"][k]["ops"]) // 2)
            while size >= 1 and time.time() < deadline:
                i = len(best["ses"][k]["ops"])
                while i > 0:
                    j = max(0, i - size)
                    o = best["ses"][k]["ops"]
                    c = put(ops=o[:j] + o[i:])
                    if attempt(c):
                        best = c
                    i = j
                size //= 2
        for i in range(len(best["old"]) - 1, -1, -1):
            c = dict(best, old=best["old"][:i] + best["old"][i + 1:])
            if attempt(c):
                best = c
        for i, x in enumerate(best["docs"]):
            if x[0] != "doc":
                continue
            progress = True
            while progress and time.time() < deadline:
                progress = False
                for red in list(scen.doc_reductions(best["docs"][i][1])):
                    d = copy.deepcopy(best["docs"][i][1])
                    try:
                        red(d)
                    except (IndexError, KeyError):
                        continue
                    d = scen.prune(d)
                    if d == best["docs"][i][1] or not scen.valid_doc(d):
                        continue
                    c = dict(best)
                    c["docs"] = list(best["docs"])
                    c["docs"][i] = ["doc", d, best["docs"][i][2]]
                    if attempt(c):
                        best = c
                        progress = True
                        break
                    if time.time() >= deadline:
                        break
        return best, tried[0]


class Windows(object):
    """What the windows of one session should look like."""

    def __init__(self, prop, scn, ses, hist, num, st, trail):
        self.p, self.scn, self.ses, self.st = prop, scn, ses, st
        self.trail, self.num = trail, num
        self.hist, self.aspect = list(hist[0]), hist[1]
        self.saved = hist
        self.entry = self.hist[0] if self.hist else ""
        if ses["arg"] and ses["arg"].endswith(".ncl"):
            self.insert(ses["arg"])
            self.save()
        self.size = FIRST           # of the main canvas
        self.full = False
        self.bar = 0
        self.ctrl = False
        self.debug = False
        self.side = False           # the control is shown in the window
        self.aside = True           # that is where it is shown
        self.tv = False             # its window
        self.dialog = False
        self.on = None              # the presentation
        self.loose = False          # it ended, until the next frame
        self.esize = FIRST
        self.late = 0               # since the last frame of a window
        self.runs = []
        self.now = {}

    def insert(self, name):
        self.entry = name
        self.hist = ([name] + [h for h in self.hist if h != name])[:6]

    def save(self):
        self.saved = (list(self.hist), self.aspect)

    def path(self, name):
        """What becomes of a file: a document, refused, not tried."""
        i = name.rfind(".")
        if i < 0 or name[i:] != ".ncl":
            return "other"
        for x, n in zip(self.scn["docs"], self.scn["names"]):
            if n == name and x[0] == "doc":
                return x[1]
        return "bad"

    def want_size(self):
        return SCREEN if self.full else self.size

    def play(self):
        """The user asks for the file in the entry to be presented."""
        d = self.path(self.entry)
        if d in ("other", "bad"):
            self.bar = 1
            self.st.c["files refused"] += 1
            return None
        return d

    def bad(self, cls, text):
        return Violation(cls, "session %d, op %d (%s): %s" % (
            self.num, self.opn, self.op, text), self.opn)

    def run(self, segs):
        code = None
        quit_ = False
        ops = iter(self.ses["ops"])
        self.opn, self.op = -1, ["begin"]
        st = self.st
        for name, lines in segs:
            for l in lines:
                if l.startswith("EXIT "):
                    code = int(l[5:])
                elif l.startswith("G critical"):
                    return self.bad("toolkit", "misuse of the toolkit: %s"
                                    % l)
            if name == "gui":
                continue
            if name == "enter":
                v = self.look(lines)
                if v:
                    return v
                continue
            if name == "leave":
                if quit_ != ("m" in [o[1] for o in self.ses["ops"]
                                     if o[0] == "gx"]):
                    return self.bad("close", "the program %s its main loop"
                                    % ("stays in" if not quit_
                                       else "leaves"))
                break
            self.op = next(ops)
            self.opn += 1
            if name != self.op[0]:
                raise RuntimeError("segments out of step: %s %s"
                                   % (name, self.op))
            st.c["ops"] += 1
            v = self.step(lines)
            if v:
                return v
            quit_ = quit_ or "Q" in lines
            for l in lines:
                if l[:2] in ("S ", "T "):
                    self.trail.append((self.opn, l))
                    if l.startswith("S "):
                        a = l.split(" ")
                        self.now[a[1] + a[2]] = a[3]
            st.states.add(scen.h64(repr((
                self.full, self.bar, self.aside, self.side, self.tv,
                len(self.hist), self.on is None,
                sorted(self.now.items())))))
        for c in self.runs:
            v = self.p.compare(self.scn, c, st)
            if v:
                v.text = "session %d, %s" % (self.num, v.text)
                return v
        st.c["presentations"] += len(self.runs)
        if code != 0:
            return self.bad("exit", "the program exits with %s" % code)
        return None

    def step(self, lines):
        op, st = self.op, self.st
        skip = "SKIP" in lines
        begin = None                # document that starts
        mops = []                   # what the engine should be told
        usable = self.on is None
        was = self.want_size()
        k = op[0]
        if self.dialog and k not in ("gf", "gr"):
            self.dialog = False     # cancelled
        if k == "gf":
            st.simtime += op[2] * 1000
            st.faults["frame"] += 1
            here = self.full if op[1] == "f" else True
            if skip != (not here):
                return self.bad("window", "the window is %sthere"
                                % ("not " if skip else ""))
            if here:
                if "W draw window" not in lines \
                        and "W draw canvas" not in lines:
                    return self.bad("draw", "not drawn again")
                self.loose = False
                mops.append(("tick", op[2] * 1000 + self.late))
                self.late = 0
            else:
                self.late += op[2] * 1000
        elif k == "gy":
            if skip != (not usable) and not self.loose:
                return self.bad("controls", "the entry can%s be used"
                                % ("not" if skip else ""))
            if not skip:
                self.entry = op[1]
        elif k == "gc":
            b = op[1]
            if b in ("play", "openfile-icon", "history-icon"):
                if skip != (not usable) and not self.loose:
                    return self.bad("controls", "the button can%s be used"
                                    % ("not" if skip else ""))
                if not skip and b == "play":
                    begin = self.play()
                elif not skip and b == "openfile-icon":
                    self.dialog = True
                    st.faults["dialog"] += 1
            elif b == "stop-icon":
                if skip:
                    return self.bad("controls", "no way to stop")
                mops.append(("stop",))
            elif b == "fullscreen-icon":
                self.full = True
            elif b == "remote-icon":
                self.remote()
            elif b == "window-icon":
                # In a bar that may be hidden.
                if not skip:
                    self.side, self.aside, self.tv = False, False, True
            elif b == "sidebar-icon":
                if skip != (not self.tv):
                    return self.bad("control", "its window is %sthere"
                                    % ("not " if skip else ""))
                if not skip:
                    self.side, self.aside, self.tv = True, True, False
            elif b == "rightride-icon":
                if not skip:
                    self.side = False
            elif b == "check" and not skip:
                self.debug = not self.debug
        elif k == "gt":
            here = self.tv or self.side
            if skip != (not here):
                return self.bad("control", "the remote control is %sthere"
                                % ("not " if skip else ""))
            if here:
                st.faults["button of the remote control"] += 1
                mops.append(("keys", TV[op[1]]))
        elif k == "gr":
            if skip != (not self.dialog):
                return self.bad("dialog", "the dialog is %sthere"
                                % ("not " if skip else ""))
            if self.dialog and op[1] == ACCEPT and len(op) > 2:
                if self.path(op[2]) == "other":
                    self.bar = 1
                else:
                    self.insert(op[2])
                    self.save()
                    begin = self.play()
            elif self.dialog and op[1] == ACCEPT:
                st.faults["dialog without a file"] += 1
            self.dialog = False
        elif k == "gh":
            there = op[1] < len(self.hist)
            if skip != (not (usable and there)) and not self.loose:
                return self.bad("history", "it can%s be chosen"
                                % ("not" if skip else ""))
            if not skip:
                self.insert(self.hist[op[1]])
                self.save()
                begin = self.play()
        elif k == "gi":
            if skip != (not self.bar):
                return self.bad("message", "there is %s message"
                                % ("no" if skip else "a"))
            self.bar = 0
        elif k == "gm":
            if not skip:
                st.faults["settings changed"] += 1
                if op[1] == 0:
                    self.aspect = op[2]
                self.save()
        elif k == "gz":
            self.size = (op[1], op[2])
            st.faults["window resized"] += 1
        elif k == "gx":
            here = {"m": True, "f": self.full, "t": self.tv}[op[1]]
            if skip != (not here):
                return self.bad("window", "the window is %sthere"
                                % ("not " if skip else ""))
            st.faults["window closed"] += 1
            if op[1] == "m":
                if "Q" not in lines:
                    return self.bad("close", "the program does not end")
                if self.on is not None and "GONE" not in lines:
                    return self.bad("close", "the presentation goes on")
                return None
            if op[1] == "f":
                self.full = False
            else:
                self.tv = False
        elif k == "gk":
            here = self.full if op[1] == "f" else True
            if skip != (not here):
                return self.bad("window", "the window is %sthere"
                                % ("not " if skip else ""))
            if here:
                mops += self.key(op[2], bool(op[3]))
        elif k == "gl":
            if "L 0" in lines and op[1].startswith("ginga::"):
                return self.bad("console", "it does not show the message")
        elif k == "gd":
            if not skip:
                like = [l for l in lines if l.startswith("A ")]
                if str(self.aspect) not in like[-1]:
                    return self.bad("aspect", "the picture is not fit into "
                                    "the window in way %d" % self.aspect)
                st.faults["picture drawn"] += 1
                w, h = self.want_size()
                img = (op[1] == "f") == self.full and self.aspect == 3 and not self.debug \
                    and self.on is not None and w * h <= 20000
                mops.append(("img",) if img else ("redraw",))
            else:
                mops.append(("redraw",))
        if self.want_size() != was:
            mops.append(("resize",) + self.want_size())
        return self.account(begin, mops, lines)

    def remote(self):
        if self.aside:
            self.side = not self.side
        else:
            self.tv = True

    def key(self, code, press):
        st = self.st
        st.faults["key event"] += 1
        if code == ESC:
            if press:
                self.full = False
            return [("nokey",)]
        if code in (CTRL_L, CTRL_R, 0xffe7, 0xffe8):
            self.ctrl = press
            return [("nokey",)]
        if code in SHORT and self.ctrl and press:
            st.faults["shortcut"] += 1
            if SHORT[code] == "full":
                self.full = True
            elif SHORT[code] == "remote":
                self.remote()
            return [("nokey",)]
        nm = NAMES.get(code)
        if code in SHORT:
            nm = chr(code)
        if nm is None:
            st.faults["unknown key"] += 1
            nm = "key %x" % code
        if code == 0:
            return [("nokey",)]
        return [("key", nm, press)]

    def account(self, begin, mops, lines):
        begun = any(l.startswith("ORDER") for l in lines)
        if begun != (begin is not None):
            return self.bad("start", "a presentation %s" % (
                "begins that nobody asked for" if begun
                else "does not begin"))
        gone = "GONE" in lines
        raw = lines
        lines = [l for l in lines if l[:2] not in ("U ", "A ") and l != "SKIP"]
        if begun:
            self.on = dict(doc=begin, size=self.want_size(),
                           ops=[("start",)], segs=[("start", ["R 1 %"]
                                                    + lines)],
                           opn=[self.opn], first=None,
                           at=len(self.runs))
            self.runs.append(self.on)
        elif self.on is not None:
            c = self.on
            mops = [m for m in mops if m != ("nokey",)] or [("none",)]
            if len(mops) > 1:
                mops = [("all", mops)]
            m = mops[0]
            if m[0] == "tick":
                if c["first"] is None:
                    c["first"] = len(c["ops"])
            c["ops"].append(m)
            c["segs"].append((m[0], lines))
            c["opn"].append(self.opn)
            if gone:
                self.on = None
                self.loose = self.op[0] in ("gk", "gt")
                if m == ("stop",):  # nothing more to see
                    for x in ("ops", "segs", "opn"):
                        c[x].pop()
            elif m == ("stop",):
                return self.bad("stop", "the presentation goes on")
        elif gone:
            return self.bad("stop", "a presentation ends that is not there")
        return self.look(raw)

    def look(self, lines):
        u = [l for l in lines if l.startswith("U ")]
        if not u:
            return None
        d = dict(x.split("=", 1) for x in u[-1][2:].split(" "))
        use = int(self.on is None)
        for x in ("play", "open", "hist", "entry"):
            if int(d[x]) != use and not self.loose:
                return self.bad("controls", "%s can%s be used while %s" % (
                    x, "" if int(d[x]) else "not",
                    "nothing is presented" if use
                    else "something is presented"))
        if int(d["bar"]) != self.bar:
            return self.bad("message", "there is %s message" % (
                "no" if self.bar else "a"))
        if int(d["full"]) != self.full:
            return self.bad("window", "full screen: %s" % d["full"])
        if int(d["tv"]) != self.tv:
            return self.bad("control", "window of the control: %s" % d["tv"])
        if unesc(d["text"]) != self.entry:
            return self.bad("entry", "it reads %r, should be %r"
                            % (unesc(d["text"]), self.entry))
        if int(d["debug"]) != self.debug:
            return self.bad("debug", "option is %s" % d["debug"])
        got = [unesc(x) for x in d["list"].split(",") if x]
        if got != self.hist:
            return self.bad("history", "it lists %r, should be %r"
                            % (got, self.hist))
        if d["size"] != "%dx%d" % self.want_size():
            return self.bad("size", "the presentation has the size %s, "
                            "should have %dx%d" % ((d["size"],)
                                                   + self.want_size()))
        return None
