"""C23: the settings of the graphical program survive.

Sessions of the graphical program (what it loads when it starts, what it
saves when something changes) run one after another on a simulated disk:
any operation on it may fail, be cut short, be the last one of a process
that dies, or be the last one before power is lost and everything that was
not synchronised is gone.  The reference model is the set of settings that
the disk may hold.
"""
import time

import core
import scen
from scen import Violation
from zyg import esc, unesc

NOTHING = (None, None, None, None, None)
FILE = "ginga222.settings"
EIO, ENOSPC, EACCES, EINTR, EROFS, EDQUOT, EMFILE = 5, 28, 13, 4, 30, 122, 24
PARTS = ["a", "b c", "/home/ana/", "main.ncl", "##", "#", ";", "\\", "\\n",
         "=", "[x]", "[ginga-gui]", "\n", "\t", "é", "日本", " ", "&amp;",
         "&", "%s", "%d", "ginga-ID=7", "\r", "'", '"', "<b>", "0", ",",
         "historic"]
PLAIN = ["/home/ana/main.ncl", "/tmp/x.ncl", "a.ncl", "/m/o/é.ncl",
         "http://x/y.ncl?a=1&b=2", "/home/ana/My Files/a.ncl"]
KEYS = ["ginga-ID", "aspect-ratio", "frame-rate", "gui-theme", "historic"]


def name_of(r, odd):
    if not odd or r.random() < 0.4:
        return r.choice(PLAIN)
    return "".join(r.choice(PARTS) for _ in range(r.randint(1, 5)))


def a_file(r, t, keys=KEYS):
    """A file of settings; half of them as earlier versions write it."""
    new = r.random() < 0.5
    out = ["[ginga-gui]"]
    vals = {"ginga-ID": t[0], "aspect-ratio": t[1], "frame-rate": t[2],
            "gui-theme": t[3],
            "historic": " " + "".join("##" + h for h in t[4])}
    for k in keys:
        if new and k == "historic":
            out.append("history=" + "".join(
                h.replace("\\", "\\\\").replace(";", "\\;") + ";"
                for h in t[4]))
        else:
            out.append("%s=%s" % (k, vals[k]))
    return "\n".join(out) + "\n"


def fill(d, fresh):
    """What is loaded from d by a program that has just started."""
    return tuple(f if x is None else tuple(x) if isinstance(x, list) else x
                 for x, f in zip(d, fresh))


def clean(t):
    """Settings that the program may have, whatever was on the disk."""
    try:
        for h in t[4]:
            h.encode("utf-8")
    except UnicodeError:
        return False
    return t[0].isdigit() and "\ufffd" not in "".join(t[4])


def show(t):
    return "(id %s, aspect %s, rate %s, theme %s, history %s)" % (
        t[:4] + (list(t[4]),))


@core.register
class P23(core.Prop):
    id = "C23"
    rule = "A run is one sequence of sessions with the changes made in " \
        "them, the faults of the disk and the way each session ends; it " \
        "counts as distinct and non-trivial if it has at least one save and " \
        "what its sessions read and wrote has not been seen before."
    state_measure = "settings that the disk may hold and settings loaded, " \
        "after each session"
    real = ["src/gingagui/SaveLoadSettings.cpp", "GLib key files"]
    stubs = ["disk: descriptors are real files in a scratch directory; "
             "failures, crashes and loss of unsynchronised data simulated",
             "GTK list box with the history", "directory of the user's "
             "settings"]
    assumptions = [
        "the disk keeps the order of renames, and a synchronised file",
        "the first file ever written need not survive a loss of power: "
        "there is nothing yet to lose",
        "one instance of the program at a time"]

    # ------------------------------------------------------------- scenarios
    def settings(self, r, odd):
        n = r.choice([0, 0, 1, 2, 3, 6]) if r.random() < 0.95 else 60
        hist = []
        for _ in range(n):
            h = name_of(r, odd)
            if h not in hist:
                hist.append(h)
        return [r.choice(["1", "7", "42", "2018", "0"]), r.randint(0, 3),
                r.choice([0, 24, 30, 60, 4294967295 // 2]),
                r.randint(0, 1), hist]

    def initial(self, r):
        """None, or [text, what it says or None if it says nothing clear]"""
        x = r.random()
        if x < 0.35:
            return None
        t = self.settings(r, False)
        if x < 0.6:
            return [a_file(r, t), t]
        if x < 0.8:
            keys = [k for k in KEYS if r.random() < 0.6]
            r.shuffle(keys)
            d = list(NOTHING)
            for k in keys:
                i = KEYS.index(k)
                d[i] = t[i]
            return [a_file(r, t, keys), d]
        text = a_file(r, t)
        y = r.random()
        if y < 0.4:     # cut off
            return [text[:r.randint(0, len(text))], None]
        if y < 0.7:     # changed
            b = bytearray(text.encode("latin-1", "replace"))
            for _ in range(r.randint(1, 4)):
                b[r.randrange(len(b))] = r.choice(
                    [0, 10, 61, 91, 255, 35, 92, r.randint(0, 255)])
            return [b.decode("latin-1"), None]
        return [r.choice(["", "\n", "[ginga-gui]\n", "[other]\na=b\n",
                          "garbage", "\0\0\0\0", "[ginga-gui",
                          "[ginga-gui]\nhistory=\n", "=\n",
                          "[ginga-gui]\nhistory=\\\n",
                          "[ginga-gui]\nhistory=a\\qb;c\n",
                          "[ginga-gui]\nhistoric=\n",
                          "[ginga-gui]\naspect-ratio=x\nframe-rate=\n",
                          "# only a comment\n"]), None]

    def generate(self, rng, i, tier):
        odd = rng.random() < 0.6
        calm = rng.random() < 0.2
        ss = []
        for _ in range(rng.randint(1, 8 if tier == "thorough" else 5)):
            ops = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                t = self.settings(rng, odd)
                f = None
                if not calm and rng.random() < 0.6:
                    k = rng.choice([1, 1, 2, 3, 3, 4, 4])
                    f = [rng.choice([0, 1, 2, 3, rng.randint(0, 8)]), k,
                         rng.choice([EIO, ENOSPC, EACCES, EINTR, EROFS,
                                     EDQUOT, EMFILE]) if k == 1
                         else rng.randint(0, 400)]
                which = rng.choice(["all", "id", "aspect", "rate", "theme",
                                    "hist", "none"])
                ops.append(["save", t, which, f])
            rf = None
            if not calm and rng.random() < 0.15:
                rf = rng.choice([[1, 0, EIO], [1, 0, EACCES], [3, 1, 0],
                                 [5, 0, 0], [2, 0, EIO],
                                 [2, rng.randint(0, 200), EIO]])
            ss.append({"ops": ops, "read": rf, "end": rng.choice(
                ["exit", "exit", "power"] if not calm else ["exit"])})
        return {"initial": self.initial(rng), "sessions": ss,
                "alloc": rng.randint(1, 1 << 30)}

    # --------------------------------------------------------------- running
    def session(self, z, scn, k, files):
        s = scn["sessions"][k]
        out = ["alloc %d" % scn["alloc"], "dir @DIR@", "trace 0",
               "disk -1 0 0", "gset id 90%d" % k]
        if s["read"]:
            out.append("fault %d %d %d settings" % tuple(s["read"]))
        out += ["gload", "nofault", "gshow"]
        for _k, t, which, f in s["ops"]:
            for i, n in enumerate(("id", "aspect", "rate", "theme")):
                if which in ("all", n):
                    out.append("gset %s %s" % (n, t[i]))
            if which in ("all", "hist"):
                out.append(" ".join(["ghist"] + [esc(h) for h in t[4]]))
            out.append("gshow")
            if f:
                out.append("disk %d %d %d" % tuple(f))
            out += ["gsave", "disk -1 0 0"]
        if s["end"] == "power":
            out.append("power")
        return z.run("\n".join(out) + "\n", files)

    def files(self, scn):
        ini = scn["initial"]
        if ini is None:
            return {}
        return {FILE: ini[0].encode("utf-8" if ini[1] is not None
                                    else "latin-1")}

    def fingerprint(self, z, scn):
        return "".join(self.session(z, scn, k, None if k else
                                    self.files(scn)).digest()
                       for k in range(len(scn["sessions"])))

    def parse(self, l):
        a = l.split(" ")
        return (unesc(a[1]), int(a[2]), int(a[3]), int(a[4]),
                tuple(unesc(h) for h in a[5:]))

    def evaluate(self, z, scn, st):
        ini = scn["initial"]
        disk = [NOTHING]        # what the disk may hold; None: who knows
        something = False       # the file is there and has been read
        if ini is not None and ini[1] is not None:
            disk = [tuple(ini[1])]
            something = True
            if None in ini[1]:
                st.faults["file of another version"] += 1
        elif ini is not None:
            disk = None
            something = len(ini[0]) > 0
            st.faults["damaged file"] += 1
        trail = []
        for k, s in enumerate(scn["sessions"]):
            res = self.session(z, scn, k, None if k else self.files(scn))
            if any(l == "NOAPP" for l in res.log):
                raise RuntimeError("the settings could not be compiled")
            v = scen.crash_violation(res)
            if v:
                v.text = "session %d: %s" % (k, v.text.replace(
                    "the engine", "the program"))
                return v
            st.c["sessions"] += 1
            fresh = ("90%d" % k, 0, 0, 0, ())
            want = None         # what the next save is to save
            first = True
            lost = False        # a save with nothing to replace
            for name, lines in res.segments():
                if name == "gshow":
                    for l in lines:
                        if l.startswith("O "):
                            want = self.parse(l)
                    if not first:
                        continue
                    first = False
                    trail.append(want)
                    rf = s["read"]
                    hard = bool(rf) and rf[0] in (1, 2)
                    if hard:
                        st.faults["failed read"] += 1
                    elif rf:
                        st.faults["short or interrupted reads"] += 1
                    if disk is None or hard and want == fresh:
                        continue
                    ok = [d for d in disk if want == fill(d, fresh)]
                    if not ok:
                        return Violation(
                            "lost", "session %d loads %s, should be %s" % (
                                k, show(want), " or ".join(
                                    show(fill(d, fresh)) for d in disk)))
                    disk = ok
                    if ok[0] != NOTHING:
                        something = True
                elif name == "gsave":
                    st.c["saves"] += 1
                    if "CRASH" in lines:
                        st.faults["crash while saving"] += 1
                    elif "POWER" in lines:
                        st.faults["loss of power while saving"] += 1
                    elif "DISKERR" in lines:
                        st.faults["failure of the disk"] += 1
                    if not clean(want):
                        disk = None
                    if "CRASH" in lines or "POWER" in lines \
                            or "DISKERR" in lines:
                        if disk is not None:
                            disk = disk + [want]
                    elif clean(want):
                        disk = [want]
                    lost = lost or not something
                    if "POWER" in lines and lost and disk is not None:
                        disk = disk + [NOTHING]
                    if not ("CRASH" in lines or "POWER" in lines
                            or "DISKERR" in lines):
                        something = True
                elif name == "power":
                    st.faults["loss of power"] += 1
                    if lost and disk is not None:
                        disk = disk + [NOTHING]
            if first:
                raise RuntimeError("no settings shown")
            if "POWER" in res.log and lost:
                something = False   # until it is read again
            st.states.add(scen.h64(repr((trail[-1], disk))))
        if any(s["ops"] for s in scn["sessions"]):
            st.runs.add(scen.h64(repr((trail, scn["sessions"]))))
        return None

    def shrink(self, scn, test, deadline):
        tried = [0]

        def attempt(c):
            tried[0] += 1
            return time.time() < deadline and test(c)

        best = scn
        progress = True
        while progress and time.time() < deadline:
            progress = False
            for c in list(self.smaller(best)):
                if attempt(c):
                    best, progress = c, True
                    break
        return best, tried[0]

    def smaller(self, scn):
        ss = scn["sessions"]
        if scn["initial"] is not None:
            yield dict(scn, initial=None)
        for i in range(len(ss)):
            if len(ss) > 1:
                yield dict(scn, sessions=ss[:i] + ss[i + 1:])
        for i, s in enumerate(ss):
            def put(**kw):
                return dict(scn, sessions=ss[:i] + [dict(s, **kw)]
                            + ss[i + 1:])
            if s["read"]:
                yield put(read=None)
            if s["end"] != "exit":
                yield put(end="exit")
            for j, op in enumerate(s["ops"]):
                def op_(o):
                    return put(ops=s["ops"][:j] + [o] + s["ops"][j + 1:])
                yield put(ops=s["ops"][:j] + s["ops"][j + 1:])
                if op[3]:
                    yield op_(op[:3] + [None])
                if op[2] not in ("hist", "none"):
                    yield op_([op[0], op[1], "none", op[3]])
                if op[2] == "all":
                    yield op_([op[0], op[1], "hist", op[3]])
                h = op[1][4]
                for n in range(len(h)):
                    yield op_([op[0], op[1][:4] + [h[:n] + h[n + 1:]],
                               op[2], op[3]])
                    if len(h[n]) > 1:
                        for x in (h[n][1:], h[n][:-1]):
                            yield op_([op[0], op[1][:4] + [
                                h[:n] + [x] + h[n + 1:]], op[2], op[3]])

    def sample(self, scn):
        return scn
