"""Seeded generator of abstract NCL documents and their XML rendering.

The abstract form (see model.py) is what the reference model interprets; the
XML is what the real parser reads.  The same abstract document can be written
in many concrete styles (reserved or custom roles, inline or parametrised
values, local or imported bases, shuffled element order where NCL gives the
order no meaning), so the parser is part of what every run exercises.
"""
import random
from xml.sax.saxutils import quoteattr

KEYS = ["RED", "GREEN", "ENTER", "CURSOR_LEFT", "CURSOR_RIGHT", "CURSOR_UP",
        "CURSOR_DOWN", "1"]
RESERVED = {
    ("presentation", "start"): ("onBegin", "start"),
    ("presentation", "stop"): ("onEnd", "stop"),
    ("presentation", "abort"): ("onAbort", "abort"),
    ("presentation", "pause"): ("onPause", "pause"),
    ("presentation", "resume"): ("onResume", "resume"),
    ("attribution", "start"): ("onBeginAttribution", "set"),
    ("attribution", "stop"): ("onEndAttribution", None),
    ("selection", "start"): ("onSelection", None),
    ("selection", "stop"): ("onEndSelection", None),
    ("lookat", "start"): ("onLookAt", None),
    ("lookat", "stop"): ("onLookAway", None),
}
TRNAME = {"start": ("starts", "start"), "stop": ("stops", "stop"),
          "abort": ("aborts", "abort"), "pause": ("pauses", "pause"),
          "resume": ("resumes", "resume")}

DEFAULT = dict(
    ctx=0.35, depth=3, switch=0.25, ref=0.25, fwdref=0.5, settings=0.4,
    media=(2, 6), areas=0.5, labels=0.0, links=(1, 5), delays=0.3,
    preds=0.25, neg=0.3, attr=0.3, sel=0.25, dur=0.5, focus=0.3, pause=0.2,
    abort=0.15, rules=0.7, swports=0.5, ctxports=(1, 3), props=0.6,
    reuse=0.1, multi=0.3, selfctl=0.25, desc=0.25, valref=0.2, lookat=0.0,
    ctxattr=0.4, grid=100, settleset=0.4, animdur=0.0, freeze=0.0,
    startweight=3.0, nodes=12, geom=0.0, regions=0.0,
    rb=True, trans=0.0, fonts=0.0, resizes=0.0, streams=0.0, timesp=0.1,
)


GEOM = {"left": "len", "top": "len", "right": "len", "bottom": "len",
        "width": "len", "height": "len", "background": "color",
        "backgroundColor": "color", "focusBorderColor": "color",
        "transparency": "alpha", "focusBorderTransparency": "alpha",
        "visible": "bool", "zIndex": "int", "zOrder": "int", "bounds": "bounds",
        "location": "pair", "size": "pair",
        "fontColor": "color", "fontBgColor": "color", "fontSize": "fsize",
        "fontStyle": "fstyle", "fontWeight": "fweight",
        "fontVariant": "fvariant",
        "fontFamily": "family", "horzAlign": "halign", "vertAlign": "valign",
        "volume": "level", "soundLevel": "level", "mute": "bool",
        "freeze": "bool", "balance": "pan", "balanceLevel": "pan",
        "bass": "db", "bassLevel": "db", "treble": "db", "trebleLevel": "db",
        "speed": "speed", "rate": "speed", "time": "seek",
        "currentTime": "seek", "freq": "freq", "wave": "wave"}
FONTS = {"fsize": ["6", "8", "8", "12", "16"],
         "fstyle": ["normal", "italic"], "fvariant": ["normal", "small-caps"],
         "fweight": ["normal", "bold"],
         "family": ["sans", "serif", "monospace"],
         "halign": ["left", "center", "right", "justified"],
         "valign": ["top", "middle", "bottom"],
         "level": ["0", "50%", "0.25", "1", "100%", "7.5%"],
         "pan": ["0", "-1", "1", "0.5", "-0.25", "50%"],
         "db": ["0", "6", "-12", "1.5"],
         "speed": ["1", "2", "0.5", "-1", "-2", "0", "1.5", "1"],
         "freq": ["440", "100", "1000.5", "8000"],
         "wave": ["sine", "square", "saw", "triangle", "silence",
                  "white-noise", "pink-noise", "sine-table", "ticks",
                  "gaussian-noise", "red-noise", "blue-noise",
                  "violet-noise"]}
VIDEO = ["volume", "soundLevel", "mute", "freeze", "balance", "balanceLevel",
         "bass", "bassLevel", "treble", "trebleLevel", "speed", "rate",
         "time", "currentTime", "speed", "time", "time"]
TONE = ["freq", "wave", "volume", "soundLevel", "freq", "wave"]
COLORS = ["red", "lime", "blue", "white", "navy", "#f80", "#204060",
          "#c0ffee", "rgb(10,20,30)", "cyan", "magenta", "yellow"]


def length(r, lo=0, hi=100):
    k = r.random()
    x = r.randint(lo, hi)
    if k < 0.5:
        return "%d%%" % x
    if k < 0.65:
        return r.choice(["12.5%", "33.3%", "0%", "50%", "66.67%", "7%"])
    return "%d" % (x * 6 // 10)


def geom_value(r, c):
    if c == "len":
        return length(r)
    if c in FONTS:
        return r.choice(FONTS[c])
    if c == "seek":
        t = r.randint(0, 40) * 100
        return r.choice(["", "", "+", "-", "+", "-"]) + r.choice(
            [t2s(t), t2s(t), "%g" % (t / 1000.0)])
    if c == "color":
        return r.choice(COLORS)
    if c == "alpha":
        return r.choice(["0%", "50%", "25%", "100%", "80%", "128", "10%"])
    if c == "bool":
        return r.choice(["true", "false", "true", "True", "FALSE"])
    if c == "int":
        return str(r.randint(-3, 12))
    if c == "bounds":
        s = r.choice([",", ",", ", "])
        return s.join([length(r, 0, 60), length(r, 0, 60),
                       length(r, 5, 80), length(r, 5, 80)])
    return ",".join([length(r, 0, 70), length(r, 5, 70)])


def visual(r, region=False, rb=True):
    """Properties that say where and how a media is drawn."""
    out = []
    k = r.random()
    if region:
        if k < 0.3:
            out.append([r.choice(["left", "top"]), length(r, 0, 70)])
        elif k < 0.5:
            out.append([r.choice(["width", "height"]), length(r, 5, 90)])
    elif k < 0.15:
        out.append(["bounds", geom_value(r, "bounds")])
    elif k < 0.3:
        out.append(["location", geom_value(r, "pair")])
        if r.random() < 0.7:
            out.append(["size", geom_value(r, "pair")])
    else:
        for a, b, c in (("left", "width", "right"),
                        ("top", "height", "bottom")):
            k = r.random()
            if k < 0.45:
                out.append([a, length(r, 0, 80)])
                out.append([b, length(r, 2, 90)])
            elif k < 0.55:
                out.append([a, length(r, 0, 80)])
            elif k < 0.65:
                out.append([b, length(r, 2, 90)])
            elif k < 0.95 and rb:
                out.append([b, length(r, 2, 90)])
                out.append([c, length(r, 0, 60)])
    if r.random() < 0.85:
        out.append([r.choice(["background", "background",
                              "backgroundColor"]), r.choice(COLORS)])
    for n, p in (("transparency", 0.3), ("visible", 0.25), ("zIndex", 0.7),
                 ("zOrder", 0.15), ("focusBorderColor", 0.15),
                 ("focusBorderTransparency", 0.1)):
        if r.random() < p:
            out.append([n, geom_value(r, GEOM[n])])
    r.shuffle(out)
    return out


def stream_type(x):
    import stream
    return stream.EXT[x]


def prop_class(n):
    """Values may be copied between properties of the same class."""
    if n in GEOM:
        return GEOM[n]
    if n in ("explicitDur", "duration"):
        return "time"
    if n == "focusIndex" or n.startswith("move") \
            or n == "service.currentFocus":
        return "index"
    return "free"


def t2s(ms):
    if ms % 1000 == 0:
        return "%ds" % (ms // 1000)
    return ("%.3f" % (ms / 1000.0)).rstrip("0") + "s"


class Gen(object):
    def __init__(self, rng, **feat):
        self.r = rng
        self.f = dict(DEFAULT)
        self.f.update(feat)
        self.n = {}
        self.medias = []      # abstract media nodes with their parent ctx
        self.refs = []

    def id(self, p):
        self.n[p] = self.n.get(p, 0) + 1
        return "%s%d" % (p, self.n[p])

    def p(self, name):
        return self.r.random() < self.f[name]

    def time(self, hi=30, lo=0):
        return self.t2s(self.r.randint(lo, hi) * self.f["grid"])

    def t2s(self, ms):
        """One of the ways to write a time."""
        r = self.r
        if not self.p("timesp"):
            return t2s(ms)
        x = ms / 1000.0
        k = r.randint(0, 5)
        if k == 0:
            return "%g" % x
        if k == 1:
            return "%.3fs" % x
        if k == 2:
            return "%05.1fs" % x if ms % 100 == 0 else t2s(ms)
        return ("%d:%d:%g" if k == 3 else "%02d:%02d:%06.3f") % (
            0, ms // 60000, ms % 60000 / 1000.0)

    # --------------------------------------------------------------- nodes
    def media(self, parent, kind=None):
        r = self.r
        m = {"k": "media", "id": self.id("m"), "type": "", "src": "",
             "desc": None, "props": [], "areas": []}
        if r.random() < 0.3:
            m["type"] = "application/x-ginga-timer"
        if self.p("areas"):
            for _ in range(r.randint(1, 3)):
                m["areas"].append(self.area())
        if self.p("dur"):
            m["props"].append([r.choice(["explicitDur", "duration"]),
                               self.time(30, 1)])
        if self.p("focus"):
            m["props"].append(["focusIndex", self.index()])
            for mv in ("moveLeft", "moveRight", "moveUp", "moveDown"):
                if r.random() < 0.4:
                    m["props"].append([mv, self.index()])
        if self.p("props"):
            for n in r.sample(["p1", "p2", "p3"], r.randint(1, 2)):
                m["props"].append([n, self.value(True)])
        if self.f["geom"]:
            if self.p("regions"):
                m["desc"] = "?"
            if self.p("geom"):
                m["props"] += visual(r, m["desc"] is not None,
                                    self.f["rb"])
        if self.p("streams"):
            names = VIDEO
            x = r.choice(["mp4", "mp4", "ogv", "avi", "mp3", "wav", "tone",
                          "tone"])
            if x == "tone":
                m["type"] = "application/x-ginga-siggen"
                names = TONE
            else:
                m["src"] = "%s/%s.%s" % (r.choice(["v", "a.b"]), m["id"], x)
                m["type"] = "" if r.random() < 0.5 else stream_type(x)
            for n in sorted(set(r.sample(names, r.randint(0, 4)))):
                m["props"].append([n, geom_value(r, GEOM[n])
                                   if r.random() < 0.9 else ""])
        if self.p("fonts"):
            for n in r.sample(["fontColor", "fontBgColor", "fontSize",
                               "fontStyle", "fontWeight", "fontFamily",
                               "fontVariant",
                               "horzAlign", "vertAlign"], r.randint(1, 4)):
                m["props"].append([n, geom_value(r, GEOM[n])])
        self.medias.append((m, parent))
        return m

    def area(self):
        r = self.r
        a = {"id": self.id("a")}
        if self.p("labels"):
            a["label"] = r.choice(["l1", "l2", "l3"])
            return a
        k = r.random()
        b = r.randint(0, 20)
        e = b + r.randint(0, 15)
        if k < 0.85:
            a["begin"] = self.t2s(b * self.f["grid"])
        if k < 0.6 or k >= 0.85:
            a["end"] = self.t2s((e if k < 0.85 else r.randint(1, 25))
                           * self.f["grid"])
        return a

    def value(self, empty=False):
        return self.r.choice(["0", "1", "2", "x", "y"]
                             + ([""] if empty else []))

    def ctx(self, parent, depth, root=False):
        r = self.r
        c = {"k": "ctx", "id": None if root else self.id("c"), "props": [],
             "ports": [], "kids": [], "links": []}
        if root and r.random() < 0.5:
            c["id"] = "body1"
        if self.p("ctxattr"):
            for n in r.sample(["p1", "p2"], r.randint(1, 2)):
                c["props"].append([n, self.value(True)])
        lo, hi = self.f["media"]
        if not root:
            lo, hi = 1, max(1, hi // 2)
        for _ in range(r.randint(lo, hi)):
            c["kids"].append(self.media(c))
        if depth > 0:
            while self.p("ctx") and len(c["kids"]) < 9 \
                    and len(self.medias) < self.f["nodes"]:
                c["kids"].append(self.ctx(c, depth - 1))
            if self.p("switch") and len(self.medias) < self.f["nodes"]:
                c["kids"].append(self.switch(c, depth - 1))
        r.shuffle(c["kids"])
        return c

    def switch(self, parent, depth):
        r = self.r
        s = {"k": "switch", "id": self.id("s"), "kids": [], "binds": [],
             "default": None, "ports": []}
        for _ in range(r.randint(1, 3)):
            if depth > 0 and r.random() < 0.3:
                s["kids"].append(self.ctx(s, depth - 1))
            else:
                s["kids"].append(self.media(s))
        for k in s["kids"]:
            if r.random() < 0.8:
                s["binds"].append([k["id"], None])
        r.shuffle(s["binds"])
        if r.random() < 0.6:
            s["default"] = r.choice(s["kids"])["id"]
        if self.p("swports"):
            for _ in range(r.randint(1, 2)):
                maps = []
                for k in r.sample(s["kids"], r.randint(1, len(s["kids"]))):
                    i = None
                    if k["k"] == "media" and k["areas"] \
                            and r.random() < self.f.get("swanchor", 0.0):
                        i = r.choice(k["areas"])["id"]
                    maps.append([k["id"], i])
                s["ports"].append([self.id("sp"), maps])
        return s

    def pred_rules(self):
        r = self.r
        rules = []

        def atom():
            return {"id": self.id("rl"), "var": r.choice(["v1", "v2"]),
                    "cmp": r.choice(["eq", "ne", "lt", "lte", "gt", "gte"]),
                    "value": r.choice(["0", "1", "2", "x"])}
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.3:
                rules.append({"id": self.id("rl"),
                              "op": r.choice(["and", "or"]),
                              "kids": [atom() for _ in
                                       range(r.randint(1, 3))]})
            else:
                rules.append(atom())
        return rules

    # --------------------------------------------------------------- links
    def walk(self, c, fn):
        fn(c)
        for k in c["kids"]:
            if k["k"] == "ctx":
                self.walk(k, fn)
            elif k["k"] == "switch":
                for x in k["kids"]:
                    if x["k"] == "ctx":
                        self.walk(x, fn)

    def endpoints(self, c):
        """Things links of context c can bind to: (comp, iface, type, node)."""
        out = []
        for k in c["kids"]:
            node = k
            if k["k"] == "ref":
                node = self.byid[k["to"]]
            if node["k"] != "settings" or k is node:
                out.append((k["id"], None, "P", k))
            if k["k"] == "ref":
                for a in k.get("areas", ()):
                    out.append((k["id"], a["id"], "P", k))
                for n, _ in k.get("props", ()):
                    out.append((k["id"], n, "A", k))
            for a in node.get("areas", ()) or ():
                out.append((k["id"], a["id"], "P", k))
            if node["k"] in ("media", "settings", "ctx"):
                for n, _ in node.get("props", ()):
                    out.append((k["id"], n, "A", k))
            if node["k"] == "ctx":
                for pt in node["ports"]:
                    out.append((k["id"], pt[0], pt[3], k))
            if node["k"] == "switch":
                for pt in node["ports"]:
                    out.append((k["id"], pt[0], "P", k))
        if c["id"]:
            if self.p("selfctl"):
                out.append((c["id"], None, "P", c))
            for n, _ in c["props"]:
                out.append((c["id"], n, "A", c))
        return out

    def links(self, c):
        r = self.r
        lo, hi = self.f["links"]
        for _ in range(r.randint(lo, hi)):
            eps = self.endpoints(c)
            l = {"conds": [], "acts": []}
            for _ in range(2 if self.p("multi") else 1):
                x = self.cond(c, eps)
                if x:
                    l["conds"].append(x)
            for _ in range(r.randint(1, 3)):
                x = self.act(c, eps)
                if x:
                    l["acts"].append(x)
            if l["conds"] and l["acts"]:
                c["links"].append(l)

    def cond(self, c, eps):
        r = self.r
        if self.p("sel"):
            m = [e for e in eps if e[2] == "P" and e[1] is None
                 and e[3]["k"] in ("media", "ref")]
            if m:
                e = r.choice(m)
                x = {"ev": "selection",
                     "tr": r.choice(["start", "start", "stop"]),
                     "c": e[0], "i": None,
                     "key": r.choice(KEYS + ["", "", "$nowhere"])}
                return self.with_pred(c, eps, x)
        if self.p("lookat"):
            m = [e for e in eps if e[2] == "P"
                 and e[3]["k"] in ("media", "ref")]
            if m:
                e = r.choice(m)
                return self.with_pred(c, eps, {
                    "ev": "lookat", "tr": r.choice(["start", "stop"]),
                    "c": e[0], "i": e[1]})
        if self.p("attr"):
            m = [e for e in eps if e[2] == "A"]
            if m:
                e = r.choice(m)
                return self.with_pred(c, eps, {
                    "ev": "attribution", "tr": r.choice(["start", "stop"]),
                    "c": e[0], "i": e[1]})
        m = [e for e in eps if e[2] == "P" and e[3]["k"] != "settings"]
        if not m:
            return None
        e = r.choice(m)
        w = ["start"] * 3 + ["stop"] * 3
        if self.p("abort"):
            w += ["abort"] * 3
        if self.p("pause"):
            w += ["pause", "resume"] * 2
        return self.with_pred(c, eps, {"ev": "presentation",
                                       "tr": r.choice(w), "c": e[0],
                                       "i": e[1]})

    def with_pred(self, c, eps, x):
        if self.p("preds"):
            p = self.pred(eps, 2)
            if p:
                x["pred"] = p
        return x

    def pred(self, eps, depth):
        r = self.r
        m = [e for e in eps if e[2] == "A"]
        if not m:
            return None
        if depth and r.random() < 0.35:
            kids = [self.pred(eps, depth - 1) for _ in range(2)]
            if r.random() < 0.3:
                kids.append(self.pred(eps, depth - 1))
            return {"op": r.choice(["and", "or"]), "kids": kids,
                    "neg": self.p("neg")}
        e = r.choice(m)
        rt = r.choice(m)[:2] if r.random() < 0.3 else self.value()
        return {"l": [e[0], e[1]],
                "cmp": r.choice(["eq", "ne", "lt", "lte", "gt", "gte"]),
                "r": list(rt) if isinstance(rt, tuple) else rt}

    def pname(self, e):
        """The property an endpoint stands for, through any ports."""
        node, i = e[3], e[1]
        while node["k"] == "ctx" and i:
            for pt in node["ports"]:
                if pt[0] == i:
                    node, i = self.byid[pt[1]], pt[2]
                    break
            else:
                break
        return i

    def act(self, c, eps):
        r = self.r
        x = None
        if self.p("attr"):
            m = [e for e in eps if e[2] == "A"]
            if self.f["resizes"] and self.p("resizes"):
                m = [e for e in m if self.pname(e) in (
                    "width", "height", "size", "bounds")] or m
            if m:
                e = e0 = r.choice(m)
                x = {"ev": "attribution", "tr": "start", "c": e[0],
                     "i": e[1], "value": self.attr_value(e)}
                if r.random() < self.f["animdur"]:
                    x["dur"] = self.time(15, 1)
        if x is None:
            m = [e for e in eps if e[2] == "P" and e[3]["k"] != "settings"]
            if not m:
                return None
            e = r.choice(m)
            w = ["start"] * int(5 * self.f["startweight"] / 3) + ["stop"] * 3
            if self.p("abort"):
                w += ["abort"] * 3
            if self.p("pause"):
                w += ["pause", "resume"] * 2
            x = {"ev": "presentation", "tr": r.choice(w), "c": e[0],
                 "i": e[1]}
        if self.p("delays"):
            x["delay"] = self.time(15, 1)
        elif r.random() < 0.05:
            x["delay"] = "0s"
        if x["ev"] == "attribution" and self.p("valref"):
            cl = prop_class(self.pname(e0))
            m = [e for e in eps if e[2] == "A"
                 and prop_class(self.pname(e)) == cl]
            e = r.choice(m)
            x["value"] = [e[0], e[1]]
        return x

    def index(self):
        """A focus index: numbers, as the schema of NCL says."""
        if self.r.random() < 0.15:
            return self.r.choice(["9", "10", "12", "100", "02"])
        return str(self.r.randint(1, 4))

    def attr_value(self, e):
        n = self.pname(e)
        r = self.r
        if n in ("explicitDur", "duration"):
            return self.time(30, 1)
        if n.startswith("focusIndex") or n.startswith("move") \
                or n == "service.currentFocus":
            return self.index()
        if n in GEOM:
            return geom_value(r, GEOM[n])
        return self.value()

    def region(self, depth):
        r = self.r
        x = {"id": self.id("rg")}
        for a, b, c in (("left", "width", "right"),
                        ("top", "height", "bottom")):
            k = r.random()
            if k < 0.5:
                x[a] = length(r, 0, 60)
                x[b] = length(r, 10, 90)
            elif k < 0.6:
                x[b] = length(r, 10, 100)
            elif k < 0.9:
                x[b] = length(r, 10, 90)
                x[c] = length(r, 0, 50)
        if r.random() < 0.5:
            x["zIndex"] = str(r.randint(-2, 9))
        if depth:
            x["kids"] = [self.region(depth - 1)
                         for _ in range(r.randint(0, 2))]
        return x

    # ----------------------------------------------------------- document
    def doc(self):
        r = self.r
        f = self.f
        d = {"w": 80, "h": 60, "nclid": "doc1" if r.random() < 0.3 else None,
             "rules": [], "regions": [], "descs": [], "body": None}
        body = self.ctx(None, f["depth"], True)
        d["body"] = body
        self.byid = {}

        def index(n):
            if n.get("id"):
                self.byid[n["id"]] = n
            for k in n.get("kids", ()):
                index(k)
        # settings
        two = False
        if self.p("settings") or self.n.get("s"):
            props = []
            for n in ("v1", "v2"):
                if r.random() < 0.8:
                    props.append([n, self.value(True)])
            if r.random() < f["focus"]:
                props.append(["service.currentFocus",
                              r.choice(["", self.index()])])
            body["kids"].insert(
                r.randint(0, len(body["kids"])),
                {"k": "settings", "id": "set1", "props": props, "areas": []})
            if r.random() < 0.1:
                two = True
                cs = []
                self.walk(body, cs.append)
                c = r.choice(cs)
                c["kids"].insert(r.randint(0, len(c["kids"])), {
                    "k": "settings", "id": "set2", "areas": [],
                    "props": [["v2", self.value(True)]]})
        index(body)
        # references
        if self.p("ref") and self.medias:
            ctxs = []
            self.walk(body, ctxs.append)
            for _ in range(r.randint(1, 2)):
                m, _p = r.choice(self.medias)
                c = r.choice(ctxs)
                if "set1" in self.byid and r.random() < 0.2:
                    # Which of two settings objects wins over a reference
                    # between them is open: they share no name then.
                    vs = ["v1"] if two else ["v1", "v2", "v3"]
                    c["kids"].insert(r.randint(0, len(c["kids"])), {
                        "k": "ref", "id": self.id("r"), "to": "set1",
                        "props": [[r.choice(vs),
                                   self.value(True)]], "areas": []})
                    continue
                ref = {"k": "ref", "id": self.id("r"), "to": m["id"],
                       "props": [], "areas": []}
                if r.random() < 0.4:
                    ref["areas"].append(self.area())
                if r.random() < 0.4:
                    ref["props"].append(["p4", self.value(True)])
                # After its target, in document order.
                order = doc_order(body)
                pos = order.index(m["id"])
                at = None
                for i in range(len(c["kids"]), -1, -1):
                    before = c["kids"][i - 1]["id"] if i else c["id"]
                    last = last_id(c["kids"][i - 1]) if i else None
                    if i and order.index(last) >= pos:
                        at = i
                        if r.random() < 0.5:
                            break
                if at is None:
                    if not self.p("fwdref"):
                        continue
                    at = r.randint(0, len(c["kids"]))
                c["kids"].insert(at, ref)
                self.refs.append(ref)
            index(body)
        # rules
        if self.n.get("s"):
            d["rules"] = self.pred_rules()
            rids = [x["id"] for x in d["rules"]]
            for x in d["rules"]:
                rids += [k["id"] for k in x.get("kids", ())]

            def fill(n):
                if n["k"] == "switch":
                    for b in n["binds"]:
                        b[1] = r.choice(rids)
                for k in n.get("kids", ()):
                    fill(k)
            fill(body)
        # descriptors
        if self.p("desc"):
            for _ in range(r.randint(1, 2)):
                at = {}
                if r.random() < 0.6:
                    at["explicitDur"] = self.time(30, 1)
                if r.random() < f["focus"]:
                    at["focusIndex"] = self.index()
                    at[r.choice(["moveLeft", "moveRight"])] = \
                        self.index()
                dd = {"id": self.id("d"), "region": None, "attrs": at,
                      "params": [["p5", self.value()]]
                      if r.random() < 0.5 else []}
                d["descs"].append(dd)
            for m, _p in self.medias:
                if not m["desc"] and r.random() < 0.4:
                    m["desc"] = r.choice(d["descs"])["id"]
        if self.p("trans"):
            d["trans"] = []
            for _ in range(r.randint(1, 2)):
                t = {"id": self.id("tr"), "type": r.choice(
                    ["fade", "fade", "barWipe", "diagonalWipe"])}
                if t["type"] != "fade" and r.random() < 0.5:
                    t["subtype"] = "topToBottom" if t["type"] == "barWipe" \
                        else "topLeft"
                if r.random() < 0.9:
                    t["dur"] = self.time(20, 1)
                d["trans"].append(t)
            for _ in range(r.randint(1, 2)):
                tt = {"transIn": r.choice(d["trans"])["id"]}
                if r.random() < 0.3:
                    tt["transOut"] = r.choice(d["trans"])["id"]
                d["descs"].append({"id": self.id("d"), "region": None,
                                   "attrs": {}, "params": [], "trans": tt})
                for m, _p in self.medias:
                    if not m["desc"] and r.random() < 0.5:
                        m["desc"] = d["descs"][-1]["id"]
        wants = [m for m, _p in self.medias if m["desc"] == "?"]
        if wants:
            d["regions"] = [self.region(2) for _ in range(r.randint(1, 3))]
            flat = []

            def flatten(x):
                flat.append(x["id"])
                for k in x.get("kids", ()):
                    flatten(k)
            for x in d["regions"]:
                flatten(x)
            ds = []
            for _ in range(r.randint(1, max(1, len(wants)))):
                at = {}
                if r.random() < 0.2:
                    at["explicitDur"] = self.time(30, 1)
                dd = {"id": self.id("d"), "region": r.choice(flat),
                      "attrs": at,
                      "params": [["background", r.choice(COLORS)]]
                      if r.random() < 0.5 else []}
                ds.append(dd["id"])
                d["descs"].append(dd)
            for m in wants:
                m["desc"] = r.choice(ds)
        # ports, innermost first so that contexts can export ports of ports
        ctxs = []
        self.walk(body, ctxs.append)
        for c in reversed(ctxs):
            lo, hi = f["ctxports"]
            for _ in range(r.randint(lo, hi)):
                eps = [e for e in self.endpoints(c)
                       if e[3] is not c and e[3]["k"] != "settings"]
                pe = [e for e in eps if e[2] == "P"]
                lam = [e for e in pe if e[1] is None]
                if r.random() < 0.1:
                    pe2 = [e for e in eps if e[2] == "A"]
                    pe = pe2 or pe
                elif lam and r.random() < 0.8:
                    pe = lam
                if pe and not f.get("anchorport", False):
                    pe = [e for e in pe if e[2] == "A" or
                          e[3]["k"] not in ("media", "ref")
                          or e[1] is None] or lam
                if not pe:
                    continue
                e = r.choice(pe)
                c["ports"].append([self.id("pt"), e[0], e[1], e[2]])
        for c in ctxs:
            self.links(c)
        return d


def doc_order(n):
    out = []

    def go(x):
        out.append(x["id"])
        for k in x.get("kids", ()):
            go(k)
    go(n)
    return out


def last_id(n):
    return doc_order(n)[-1]


# ------------------------------------------------------------------ XML
class Style(object):
    def __init__(self, rng=None, **kw):
        self.r = rng or random.Random(0)
        self.custom = kw.get("custom", 0.2)
        self.param = kw.get("param", 0.4)
        self.imports = kw.get("imports", 0.3)
        self.share = kw.get("share", 0.6)
        self.multi = kw.get("multi", 0.6)


def A(**kw):
    s = ""
    for k, v in kw.items():
        if v is not None:
            s += " %s=%s" % (k, quoteattr(v))
    return s


def render(doc, style):
    """Returns {file name: XML text}; the main file is main.ncl."""
    r = style.r
    conns = []           # XML of connectors
    imp = {b: r.random() < style.imports
           for b in ("connector", "rule", "descriptor", "region")}
    if imp["descriptor"] or imp["region"]:
        # A descriptor base drags its region base along.
        imp["region"] = imp["descriptor"] = bool(doc["regions"]) and \
            imp["descriptor"] or (imp["descriptor"] and not doc["regions"])
    al = {b: ("i%s" % b[0]) if imp[b] else "" for b in imp}

    def ref(base, id_):
        return al[base] + "#" + id_ if imp[base] else id_
    nlink = [0]
    bodies = {}
    bindps = []

    def pred_xml(p, tests, bindparams):
        if "kids" in p:
            s = "<compoundStatement" + A(operator=p["op"])
            if p.get("neg"):
                s += ' isNegated="true"'
            elif r.random() < 0.1:
                s += ' isNegated="false"'
            s += ">" + "".join(pred_xml(k, tests, bindparams)
                               for k in p["kids"])
            return s + "</compoundStatement>"
        s = "<assessmentStatement" + A(comparator=p["cmp"]) + ">"
        for side in ("l", "r"):
            x = p[side]
            if isinstance(x, list):
                role = "t%d" % (len(tests) + 1)
                tests.append((role, x))
                s += "<attributeAssessment" + A(
                    role=role, eventType="attribution",
                    attributeType="nodeProperty") + "/>"
            else:
                s += "<valueAssessment" + A(value=x) + "/>"
        return s + "</assessmentStatement>"

    def link_xml(l):
        nlink[0] += 1
        n = nlink[0]
        cid = "k%d" % n
        tests = []
        binds = []
        linkparams = []
        ghosts = []
        roles = {}
        condx = []
        actx = []
        npar = [0]
        del bindps[:]

        def param(value, bp):
            """Writes a value inline or through a parameter."""
            if isinstance(value, list):
                g = "g%d" % (len(ghosts) + 1)
                ghosts.append((g, value))
                value = "$" + g
            elif r.random() >= style.param:
                return value
            npar[0] += 1
            nm = "v%d" % npar[0]
            if r.random() < 0.6:
                bp.append((nm, value))
            else:
                linkparams.append((nm, value))
            return "$" + nm
        used = set()
        shared = []          # (kind, ev, tr, pred, role, at, bp, lp)

        def reuse(kind, x, attrs):
            """A second bind to a role that is already there, if its
            attributes can be given the values needed here."""
            for sk, ev, tr, pred, role, at, bp in shared:
                if sk != kind or ev != x["ev"] or tr != x["tr"] \
                        or pred != x.get("pred") \
                        or set(at) - {"eventType", "transition",
                                      "actionType"} != set(attrs):
                    continue
                if r.random() >= style.multi:
                    continue
                mine = []
                for n, v in attrs.items():
                    w = at[n]
                    if w.startswith("$"):
                        lp = dict(linkparams)
                        if isinstance(v, list):
                            g = "g%d" % (len(ghosts) + 1)
                            ghosts.append((g, v))
                            v = "$" + g
                        if lp.get(w[1:]) != v or r.random() < 0.5:
                            mine.append((w[1:], v))
                    elif isinstance(v, list) or w != v:
                        break
                else:
                    return role, mine
            return None
        for i, c in enumerate(l["conds"]):
            bp = []
            res = RESERVED[(c["ev"], c["tr"])][0] \
                if (c["ev"], c["tr"]) in RESERVED else None
            if c["ev"] == "selection" and c["tr"] == "start" \
                    and r.random() < 0.3:
                res = "onBeginSelection"
            at = {}
            undef = False
            attrs = {}
            if c["ev"] == "selection" and c.get("key") is not None:
                k = c["key"]
                undef = k.startswith("$")
                if not undef and (k != "" or r.random() < 0.3):
                    attrs["key"] = k
            if not undef:
                u = reuse("c", c, attrs)
                if u:
                    binds.append(bind(u[0], c["c"], c.get("i"), u[1]))
                    continue
            if undef:
                # a parameter that is given but itself unresolvable
                bp.append(("uk", "$nowhere"))
                at["key"] = "$uk"
            elif attrs:
                at["key"] = param(attrs["key"], bp)
            if res and res not in used and r.random() >= style.custom:
                role = res
                if r.random() < 0.15:
                    at["eventType"] = c["ev"]
            else:
                role = "cr%d" % (i + 1)
                at["eventType"] = c["ev"]
                at["transition"] = TRNAME[c["tr"]][0]
            used.add(role)
            if not undef:
                shared.append(("c", c["ev"], c["tr"], c.get("pred"), role,
                               at, bp))
            x = "<simpleCondition" + A(role=role, **at) + "/>"
            if c.get("pred"):
                P = c["pred"]
                if P.get("op") == "and" and not P.get("neg") \
                        and len(P["kids"]) > 1 and r.random() < 0.5:
                    # The conjuncts may sit at different levels.
                    n = r.randint(1, len(P["kids"]) - 1)
                    inner = "".join(pred_xml(k, tests, None)
                                    for k in P["kids"][n:])
                    outer = "".join(pred_xml(k, tests, None)
                                    for k in P["kids"][:n])
                    cc = ["<compoundCondition operator=\"and\">" + x + inner
                          + "</compoundCondition>", outer]
                    r.shuffle(cc)
                    x = "".join(cc)
                else:
                    cc = [x, pred_xml(P, tests, None)]
                    r.shuffle(cc)
                    x = "".join(cc)
                x = '<compoundCondition operator="and">' + x \
                    + '</compoundCondition>'
            elif r.random() < 0.1:
                x = '<compoundCondition operator="%s">' % r.choice(
                    ["and", "or"]) + x + "</compoundCondition>"
            condx.append(x)
            binds.append(bind(role, c["c"], c.get("i"), bp))
        for i, a in enumerate(l["acts"]):
            bp = []
            at = {}
            res = RESERVED.get((a["ev"], a["tr"]), (None, None))[1]
            attrs = {}
            if a["ev"] == "attribution":
                attrs["value"] = a["value"]
            if a.get("delay"):
                attrs["delay"] = a["delay"]
            if a.get("dur"):
                attrs["duration"] = a["dur"]
            u = reuse("a", a, attrs)
            if u:
                binds.append(bind(u[0], a["c"], a.get("i"), u[1]))
                continue
            for n, v in attrs.items():
                at[n] = param(v, bp)
            if res and res not in used and r.random() >= style.custom:
                role = res
            else:
                role = "ar%d" % (i + 1)
                at["eventType"] = a["ev"]
                at["actionType"] = TRNAME[a["tr"]][r.randint(0, 1)]
            used.add(role)
            shared.append(("a", a["ev"], a["tr"], None, role, at, bp))
            actx.append("<simpleAction" + A(role=role, **at) + "/>")
            binds.append(bind(role, a["c"], a.get("i"), bp))
        # Parameters given by a bind take precedence over the link's.
        for role_, bs in list(bindps):
            if bs and r.random() < 0.15:
                n = r.choice(bs)[0]
                if n not in dict(linkparams):
                    shadow = True
                    for role2, bs2 in bindps:
                        if role2 == role_ and n not in dict(bs2):
                            shadow = False
                    if shadow:
                        linkparams.append((n, "77s"))
        r.shuffle(linkparams)
        k = "<causalConnector" + A(id=cid) + ">"
        if r.random() < 0.3:
            k += '<connectorParam name="v1"/>'
        if len(condx) == 1 and r.random() < 0.7:
            k += condx[0]
        else:
            k += '<compoundCondition operator="or">' + "".join(condx) \
                + "</compoundCondition>"
        if len(actx) == 1 and r.random() < 0.5:
            k += actx[0]
        elif len(actx) > 2 and r.random() < 0.3:
            k += '<compoundAction operator="seq">' + actx[0] \
                + '<compoundAction operator="par">' + "".join(actx[1:]) \
                + "</compoundAction></compoundAction>"
        else:
            k += '<compoundAction operator="%s">' % r.choice(
                ["seq", "par"]) + "".join(actx) + "</compoundAction>"
        k = k.split(">", 1)[1]
        if k in bodies and r.random() < style.share:
            cid = bodies[k]
        else:
            bodies[k] = cid
            conns.append("<causalConnector" + A(id=cid) + ">" + k
                         + "</causalConnector>")
        extra = [bind(role, x[0], x[1], []) for role, x in tests + ghosts]
        # Order among the binds of conditions and among those of actions
        # matters; that of test and ghost binds does not.
        for b in extra:
            binds.insert(r.randint(0, len(binds)), b)
        s = "<link" + A(id=("lk%d" % nlink[0]) if r.random() < 0.5 else None,
                        xconnector=ref("connector", cid)) + ">"
        lp = "".join("<linkParam" + A(name=a, value=b) + "/>"
                     for a, b in linkparams)
        return s + lp + "".join(binds) + "</link>"

    def bind(role, c, i, bp):
        bindps.append((role, bp))
        s = "<bind" + A(role=role, component=c, interface=i)
        if not bp:
            return s + "/>"
        return s + ">" + "".join("<bindParam" + A(name=a, value=b) + "/>"
                                 for a, b in bp) + "</bind>"

    def media_body(n):
        s = "".join("<property" + A(name=a, value=b if b != "" or
                                    r.random() < 0.5 else None) + "/>"
                    for a, b in n.get("props", ()))
        for a in n.get("areas", ()):
            s += "<area" + A(id=a["id"], begin=a.get("begin"),
                             end=a.get("end"), label=a.get("label")) + "/>"
        return s

    def node(n):
        k = n["k"]
        if k in ("media", "ref", "settings"):
            at = {"id": n["id"]}
            if k == "media":
                if n.get("src") or r.random() < 0.1:
                    at["src"] = n.get("src", "")
                if n.get("type"):
                    at["type"] = n["type"]
            elif k == "ref":
                at["refer"] = n["to"]
            else:
                at["type"] = r.choice(["application/x-ginga-settings",
                                       "application/x-ncl-settings"])
            if n.get("desc"):
                at["descriptor"] = ref("descriptor", n["desc"])
            return "<media" + A(**at) + ">" + media_body(n) + "</media>"
        if k == "switch":
            s = "<switch" + A(id=n["id"]) + ">"
            parts = ["".join(node(x) for x in n["kids"])]
            b = ["<bindRule" + A(constituent=c, rule=ref("rule", ru)) + "/>"
                 for c, ru in n["binds"]]
            d = ["<defaultComponent" + A(component=n["default"]) + "/>"] \
                if n["default"] else []
            # The default may come anywhere: it is always tried last.
            if d:
                b.insert(r.randint(0, len(b)), d[0])
            parts.append("".join(b))
            parts.append("".join(
                "<switchPort" + A(id=pid) + ">"
                + "".join("<mapping" + A(component=c, interface=i) + "/>"
                          for c, i in maps) + "</switchPort>"
                for pid, maps in n["ports"]))
            r.shuffle(parts)
            return s + "".join(parts) + "</switch>"
        tag = "context" if n is not doc["body"] else "body"
        s = "<%s" % tag + A(id=n["id"]) + ">"
        parts = [
            "".join("<property" + A(name=a, value=b) + "/>"
                    for a, b in n["props"]),
            "".join("<port" + A(id=p[0], component=p[1], interface=p[2])
                    + "/>" for p in n["ports"]),
            "".join(node(x) for x in n["kids"]),
            "".join(link_xml(l) for l in n["links"])]
        r.shuffle(parts)
        return s + "".join(parts) + "</%s>" % tag

    body = node(doc["body"])

    def rule_xml(x):
        if "var" in x:
            return "<rule" + A(id=x["id"], var=x["var"],
                               comparator=x["cmp"], value=x["value"]) + "/>"
        return "<compositeRule" + A(id=x["id"], operator=x["op"]) + ">" \
            + "".join(rule_xml(k) for k in x["kids"]) + "</compositeRule>"

    def region_xml(x):
        at = {k: v for k, v in x.items() if k != "kids"}
        return "<region" + A(**at) + ">" \
            + "".join(region_xml(k) for k in x.get("kids", ())) \
            + "</region>"

    def desc_xml(x):
        at = dict(x["attrs"])
        at.update(x.get("trans", {}))
        return "<descriptor" + A(id=x["id"], region=x.get("region"),
                                 **at) + ">" \
            + "".join("<descriptorParam" + A(name=a, value=b) + "/>"
                      for a, b in x.get("params", ())) + "</descriptor>"
    bases = {
        "rule": "".join(rule_xml(x) for x in doc["rules"]),
        "region": "".join(region_xml(x) for x in doc["regions"]),
        "descriptor": "".join(desc_xml(x) for x in doc["descs"]),
        "connector": "".join(conns),
        "transition": "".join("<transition" + A(**t) + "/>"
                              for t in doc.get("trans", ())),
    }
    files = {}
    head = ""
    for b in ("region", "rule", "transition", "descriptor", "connector"):
        if not bases[b] or (b == "transition" and imp["descriptor"]):
            continue
        tag = b + "Base"
        full = "<%s>%s</%s>" % (tag, bases[b], tag)
        if imp.get(b):
            if b == "region":
                continue
            fn = "imp_%s.ncl" % b
            inner = full
            if b == "descriptor" and bases["region"]:
                inner = "<regionBase>%s</regionBase>" % bases["region"] \
                    + full
            if b == "descriptor" and bases["transition"]:
                inner = "<transitionBase>%s</transitionBase>" \
                    % bases["transition"] + inner
            files[fn] = '<?xml version="1.0"?>\n<ncl><head>%s</head></ncl>' \
                % inner
            head += "<%s><importBase" % tag + A(alias=al[b],
                                                documentURI=fn) \
                + "/></%s>" % tag
        else:
            head += full
    files["main.ncl"] = (
        '<?xml version="1.0" encoding="UTF-8"?>\n<ncl%s>%s%s</ncl>\n' % (
            A(id=doc.get("nclid"))
            + (' xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"'
               if r.random() < 0.5 else ""),
            "<head>%s</head>" % head if head or r.random() < 0.5 else "",
            body))
    return files


# --------------------------------------------------- zero-delay link cycles
def break_cycles(doc, rng, model_cls):
    """Delays link actions until no cycle of immediate links is left.
    Returns the model, or None if the document has to be dropped."""
    for _ in range(200):
        m = model_cls(doc)
        if not has_zero_cycle(m):
            return m
        acts = []

        def walk(n):
            for l in n.get("links", ()):
                for a in l["acts"]:
                    if not a.get("delay") or a["delay"] == "0s":
                        acts.append(a)
            for k in n.get("kids", ()):
                walk(k)
        walk(doc["body"])
        if not acts:
            return None
        for a in rng.sample(acts, max(1, len(acts) // 4)):
            a["delay"] = t2s(rng.randint(1, 10) * 100)
    return None


def has_zero_cycle(model):
    """True if links without delay could trigger each other for ever."""
    g = {}

    def add(a, b):
        g.setdefault(a, set()).add(b)
    for o in model.objs.values():
        for conds, acts in o.links:
            for ce, ctr, _p in conds:
                for ae, atr, _v, _u, d in acts:
                    if d in ("", "0s") or d.startswith("$"):
                        add((ce, ctr), (ae, atr))
        if o.kind in ("media", "settings"):
            for e in o.evs.values():
                if e.type == "P" and e is not o.lam:
                    for tr in ("pause", "resume"):
                        add((o.lam, tr), (e, tr))
        if o.kind == "switch":
            for pid, evs in o.swports.items():
                for me in evs:
                    for e in me.obj.evs.values():
                        for tr in ("start", "stop", "abort", "pause",
                                   "resume"):
                            add((e, tr), (o.evs["P:" + pid], tr))
    state = {}
    for s in list(g):
        if state.get(s):
            continue
        st = [(s, iter(g.get(s, ())))]
        state[s] = 1
        while st:
            n, it = st[-1]
            for x in it:
                if state.get(x) == 1:
                    return True
                if not state.get(x):
                    state[x] = 1
                    st.append((x, iter(g.get(x, ()))))
                    break
            else:
                state[n] = 2
                st.pop()
    return False
