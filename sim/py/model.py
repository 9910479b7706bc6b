"""Executable reference model of the presentation engine.

The model interprets the abstract document (see ncl.py), not the XML and not
the implementation's data structures.  It is sequential and tiny: objects,
events with three states, a list of pending timed actions per object, and a
stack machine for links.

Where the engine visits an unordered set, the model asks `self.perm` for the
order.  With the order observed in a run the model predicts that run; with
many random orders it says which outcomes are order-independent.
"""
import random
import re

from zyg import esc

SEC = 1000000000
NONE = None
SLEEP, OCC, PAUSED = "S", "O", "P"
TR = {"start": "s", "stop": "e", "abort": "a", "pause": "p", "resume": "r"}


def parse_time(s):
    s = s.strip()
    if s == "":
        return 0
    if s.endswith("s"):
        s = s[:-1]
    if ":" in s:
        h, m, x = s.split(":")
        return int((3600 * float(h) + 60 * float(m) + float(x)) * SEC)
    return int(float(s) * SEC)


def index_order(x):
    """Focus indices are numbers; what is none comes last."""
    m = re.match(r"\s*[-+]?\d+", x)
    return (0, int(m.group()), x) if m else (1, 0, x)


class Ev(object):
    __slots__ = ("obj", "type", "id", "key", "state", "begin", "end",
                 "label", "value", "dur", "selkey", "fromport")

    def __init__(self, obj, typ, id_):
        self.obj = obj
        self.type = typ
        self.id = id_
        self.key = typ + ":" + id_
        self.state = SLEEP
        self.begin = 0
        self.end = NONE
        self.label = ""
        self.value = ""
        self.dur = ""
        self.selkey = ""
        self.fromport = ""

    def full(self):
        o = self.obj.id
        if self.type == "P":
            return o + self.id if self.id == "@lambda" else o + "@" + self.id
        if self.type == "A":
            return o + "." + self.id
        return o + "<" + self.id + ">"


class Obj(object):
    __slots__ = ("id", "kind", "parent", "kids", "props", "aliases", "time",
                 "evs", "lam", "delayed", "due", "ports", "links", "awake",
                 "rules", "swports", "selected", "player", "m", "status")

    def __init__(self, m, id_, kind):
        self.m = m
        self.id = id_
        self.kind = kind
        self.parent = None
        self.kids = []
        self.props = {}
        self.aliases = []
        self.time = NONE
        self.evs = {}
        self.lam = self.addev("P", "@lambda")
        self.delayed = []
        self.due = []
        self.ports = []
        self.links = []
        self.awake = 0
        self.rules = []
        self.swports = {}
        self.selected = None
        self.player = None
        self.status = True

    def addev(self, typ, id_):
        k = typ + ":" + id_
        e = self.evs.get(k)
        if e is None:
            e = self.evs[k] = Ev(self, typ, id_)
        return e

    def occ(self):
        return self.lam.state == OCC

    def sleeping(self):
        return self.lam.state == SLEEP


NCLUA = "application/x-ginga-NCLua"
# What scripts are told when a property is set to nothing.
DEFAULTS = {"duration": "indefinite", "explicitDur": "indefinite",
            "left": "0", "top": "0", "width": "100%", "height": "100%",
            "right": "0%", "bottom": "0%", "transparency": "0%",
            "visible": "true", "zIndex": "0", "zOrder": "0",
            "time": "indefinite", "focusBorderColor": "yellow",
            "focusBorderTransparency": "0%", "bounds": "0%,0%,100%,100%",
            "location": "0,0", "size": "100%,100%",
            "focusBorderWidth": "4", "remotePlayerBaseURL": ""}
REMOTE = "application/x-ncl360"
MIMES = {"ncl360": REMOTE, "lua": NCLUA, "png": "image/png",
         "bmp": "image/bmp", "svg": "image/svg+xml", "txt": "text/plain"}


class Pl(object):
    """What matters of a player."""
    __slots__ = ("state", "duration", "focusIndex", "eos", "time", "props",
                 "rect", "bg", "alpha", "visible", "z", "fcolor", "falpha",
                 "anims", "wipe", "remote", "lua", "queue", "stream")

    def __init__(self, w=0, h=0):
        self.state = SLEEP
        self.duration = NONE
        self.focusIndex = ""
        self.eos = False
        self.time = 0
        self.props = {}
        self.rect = [0, 0, w, h]
        self.bg = None
        self.alpha = 255
        self.visible = True
        self.z = [0, 0]
        self.fcolor = COLORS["yellow"]
        self.falpha = 255
        self.anims = []
        self.wipe = None
        self.remote = False
        self.lua = ""           # script
        self.queue = []         # events posted by the script
        self.stream = None

    def cancel(self, comp):
        self.anims = [a for a in self.anims if a.comp != comp]

    def fuzzy(self):
        """Components being animated."""
        return set(a.comp for a in self.anims)

    def reach(self):
        """Where a wipe may have got: it goes along with a media that is
        moved while it is being uncovered."""
        if self.wipe is not None:
            h = self.wipe[2]
            x, y, w, b = self.rect
            for v, i, j in ((x, 0, 2), (x + w, 0, 2), (y, 1, 3),
                            (y + b, 1, 3)):
                h[i] = min(h[i], v, max(0, v))
                h[j] = max(h[j], v, max(0, v))

    def advance(self):
        """A frame is drawn."""
        self.reach()
        left = []
        for a in self.anims:
            v = a.at(self)
            if a.comp in RECT:
                self.rect[RECT[a.comp]] = lround(v)
            elif a.comp == "transparency":
                self.alpha = min(255, max(0, lround(v)))
            else:
                self.bg = v
            if not a.done:
                left.append(a)
        self.anims = left
        self.reach()
        w = self.wipe
        if w is None:
            return
        if w[0] == "barWipe":
            if self.time >= w[1] + 1000:
                self.wipe = None
        elif w[4] == 0:                     # first half
            if self.time >= w[1] // 2 + 1000:
                w[4] = 1
        elif w[4] == 1:
            w[3] = self.time
            w[4] = 2
        elif self.time >= w[3] + w[1] // 2 + 1000:
            self.wipe = None


RECT = {"left": 0, "top": 1, "width": 2, "height": 3}
COMPOUND = {"bounds": ("left", "top", "width", "height"),
            "location": ("left", "top"), "size": ("width", "height")}
ANIMATED = set(RECT) | set(COMPOUND) | {"background", "transparency"}


class Anim(object):
    """Linear change from one value to another on the player's clock."""
    __slots__ = ("comp", "fr", "to", "dur", "t0", "done")

    def __init__(self, comp, fr, to, dur, t0):
        self.comp, self.fr, self.to, self.dur = comp, fr, to, dur
        self.t0 = t0
        self.done = False

    def at(self, p):
        if self.fr is None and self.comp != "background":
            # From whatever the first frame shows.
            self.fr = p.alpha if self.comp == "transparency" \
                else p.rect[RECT[self.comp]]
            self.t0 = p.time
        t = p.time - self.t0
        if t >= self.dur or self.fr == self.to:
            self.done = True
            return self.to
        x = t / float(self.dur)
        if self.comp == "background":
            if self.to is None:
                return self.fr
            return tuple(a + (b - a) * x for a, b in zip(self.fr, self.to))
        return self.fr + (self.to - self.fr) * x


COLORS = {
    "yellow": (255, 255, 0), "red": (255, 0, 0), "lime": (0, 255, 0),
    "blue": (0, 0, 255), "white": (255, 255, 255), "black": (0, 0, 0),
    "navy": (0, 0, 128), "#f80": (255, 136, 0),
    "#204060": (32, 64, 96), "#c0ffee": (192, 255, 238),
    "rgb(10,20,30)": (10, 20, 30), "cyan": (0, 255, 255),
    "magenta": (255, 0, 255),
}


def lround(x):
    return int(x + 0.5) if x >= 0 else -int(-x + 0.5)


def length(s, base):
    s = s.strip()
    x = lround(float(s[:-1]) / 100.0 * base) if s.endswith("%") \
        else lround(float(s))
    return max(0, x)


class Unsupported(Exception):
    """The run reached behaviour the model does not define."""


class Runaway(Exception):
    pass


class Model(object):
    def __init__(self, doc, focus="", size=None):
        self.w, self.h = size or (doc.get("w", 80), doc.get("h", 60))
        self.objs = {}
        self.focus = focus
        self.trace = []
        self.perm = None       # None: insertion order
        self.rank = None       # observed ranks: (objects, events)
        self.steps = 0
        self.next_focus = None
        self.background = ""
        self.streams = {}      # what is known of streams: (length, flags)
        self.tonefails = False
        self.state = "STOPPED"
        self.root = self._obj("__root__", "ctx", None)
        self.settings = self._obj("__settings__", "settings", self.root)
        self.settings.props["type"] = "application/x-ginga-settings"
        self.settings.addev("A", "service.currentFocus")
        self.build(doc)

    # ------------------------------------------------------------ build
    def _obj(self, id_, kind, parent):
        o = Obj(self, id_, kind)
        self.objs[id_] = o
        if parent is not None:
            o.parent = parent
            parent.kids.append(o)
        return o

    def build(self, doc):
        self.portmap = {}
        self.rules = {}
        self.referd = {}
        self.fwd = {}
        self.setids = set()

        def setids(n):
            if n["k"] == "settings":
                self.setids.add(n["id"])
            for k in n.get("kids", ()):
                setids(k)
        for k in doc["body"].get("kids", ()):
            setids(k)
        self.doc = doc
        self.zorder = 0
        self.regs = {}
        for r in doc.get("regions", ()):
            self._region(r, (0, 0, self.w, self.h))
        for r in doc.get("rules", ()):
            self._rule(r)
        b = doc["body"]
        if doc.get("nclid"):
            self.root.aliases.append((doc["nclid"], None))
        if b.get("id"):
            self.root.aliases.append((b["id"], None))
        self._fill(self.root, b)
        self._descs(b)
        self._finish(self.root, b)

    def _region(self, r, p, nested=False):
        """Absolute position of a region, relative to its parent p."""
        z = self.zorder
        self.zorder += 1
        w = length(r["width"], p[2]) if "width" in r else p[2]
        h = length(r["height"], p[3]) if "height" in r else p[3]
        x, y = p[0], p[1]
        if "left" in r:
            x += length(r["left"], p[2])
        elif "right" in r:
            x += p[2] - w - length(r["right"], p[2])
        if "top" in r:
            y += length(r["top"], p[3])
        elif "bottom" in r:
            y += p[3] - h - length(r["bottom"], p[3])
        at = {"left": "%g%%" % (100.0 * x / self.w),
              "top": "%g%%" % (100.0 * y / self.h),
              "width": "%g%%" % (100.0 * w / self.w),
              "height": "%g%%" % (100.0 * h / self.h), "zOrder": str(z)}
        if "zIndex" in r:
            at["zIndex"] = r["zIndex"]
        if not nested:
            for n in ("right", "bottom"):
                if n in r:
                    at[n] = r[n]
        self.regs[r["id"]] = at
        for k in r.get("kids", ()):
            self._region(k, (x, y, w, h), True)

    def _rule(self, r):
        if "var" in r:
            p = ("t", "$__settings__." + r["var"], r["cmp"], r["value"])
        else:
            p = (r["op"], [self._rule(k) for k in r["kids"]])
        self.rules[r["id"]] = p
        return p

    def _fill(self, o, n):
        for name, v in n.get("props", ()):
            o.addev("A", name)
            if v != "":
                o.props[name] = v
        for k in n.get("kids", ()):
            kind = k["k"]
            if kind == "ref":
                t = self.objs.get(k["to"])
                if t is None:
                    t = self.find(k["to"])
                if t is None and k["to"] in self.setids:
                    t = self.settings
                if t is None:
                    # Declared later: what the reference says comes first.
                    t = self.fwd.setdefault(k["to"],
                                            Obj(self, k["to"], "media"))
                t.aliases.append((k["id"], o))
                self.referd[k["id"]] = t
                self._media(t, k)
            elif kind == "settings":
                self.settings.aliases.append((k["id"], o))
                self.referd[k["id"]] = self.settings
                self._media(self.settings, k)
            elif kind == "media":
                c = self.fwd.pop(k["id"], None)
                if c is None:
                    c = self._obj(k["id"], "media", o)
                else:
                    self.objs[c.id] = c
                    c.parent = o
                    o.kids.append(c)
                c.props["uri"] = k.get("src", "")
                c.props["type"] = k.get("type", "")
                self._media(c, k)
            elif kind == "ctx":
                c = self._obj(k["id"], "ctx", o)
                self._fill(c, k)
            elif kind == "switch":
                c = self._obj(k["id"], "switch", o)
                self._fill(c, k)
            else:
                raise Unsupported(kind)

    def _media(self, c, k):
        for name, v in k.get("props", ()):
            c.addev("A", name)
            if c is self.settings and name == "service.currentFocus":
                self.focus = v
            if v != "":
                c.props[name] = v
        for a in k.get("areas", ()):
            e = c.addev("P", a["id"])
            if a.get("label"):
                e.label = a["label"]
            else:
                e.begin = parse_time(a["begin"]) if a.get("begin") else 0
                e.end = parse_time(a["end"]) if a.get("end") else NONE

    def _descs(self, n):
        descs = {d["id"]: d for d in self.doc.get("descs", ())}
        for k in n.get("kids", ()):
            if k["k"] in ("ctx", "switch"):
                self._descs(k)
            elif k.get("desc"):
                m = self.find(k["id"])
                for name, v in self.desc_attrs(descs[k["desc"]]):
                    if ("A:" + name) in m.evs:
                        continue
                    m.addev("A", name)
                    m.props[name] = v

    def desc_attrs(self, d):
        at = dict(d.get("attrs", {}))
        for n, v in d.get("params", ()):
            at[n] = v
        if d.get("region"):
            at.update(self.regs[d["region"]])
        for n, tid in d.get("trans", {}).items():
            t = [x for x in self.doc["trans"] if x["id"] == tid][0]
            at[n] = "\0".join((t["type"], t.get("dur", "0")))
        return sorted(at.items())

    def find(self, id_):
        o = self.objs.get(id_)
        if o is not None:
            return o
        for o in self.objs.values():
            for a in o.aliases:
                if a[0] == id_:
                    return o
        return None

    def comp(self, scope, c):
        if c == scope.id or any(a[0] == c for a in scope.aliases):
            return scope
        for k in scope.kids:
            if k.id == c:
                return k
        for k in scope.kids:
            if any(a[0] == c for a in k.aliases):
                return k
        if c in self.referd:
            return self.referd[c]
        raise Unsupported("no component %s in %s" % (c, scope.id))

    def iface(self, scope, c, i):
        o = self.comp(scope, c)
        if not i:
            return o.lam
        if o.kind in ("media", "settings"):
            e = o.evs.get("P:" + i) or o.evs.get("A:" + i)
        elif o.kind == "ctx":
            e = None
            if o is not scope and i in self.portmap:
                ctx, pc, pi = self.portmap[i]
                if ctx is o:
                    return self.iface(ctx, pc, pi)
            if e is None:
                e = o.evs.get("A:" + i)
        else:
            e = o.evs.get("P:" + i)
        if e is None:
            raise Unsupported("no interface %s.%s" % (c, i))
        return e

    def _ports(self, o, n):
        for pid, c, i, _t in n["ports"] if n["k"] != "switch" else ():
            self.portmap[pid] = (o, c, i)
        for k in n.get("kids", ()):
            if k["k"] in ("ctx", "switch"):
                self._ports(self.objs[k["id"]], k)

    def _finish(self, o, n):
        if o is self.root:
            self._ports(o, n)
        # Children first: switch ports exist before anything binds to them.
        for k in n.get("kids", ()):
            if k["k"] in ("ctx", "switch"):
                self._finish(self.objs[k["id"]], k)
        if o.kind == "switch":
            for c, r in n.get("binds", ()):
                o.rules.append((self.comp(o, c), self.rules[r]))
            if n.get("default"):
                o.rules.append((self.comp(o, n["default"]), ("true",)))
            for pid, maps in n.get("ports", ()):
                e = o.addev("P", pid)
                e.label = pid
                o.swports[pid] = [self.iface(o, c, i) for c, i in maps]
        else:
            for pid, c, i, _t in n.get("ports", ()):
                e = self.iface(o, c, i)
                if e not in o.ports:
                    o.ports.append(e)
            self._links(o, n)

    def _links(self, o, n):
        for l in n.get("links", ()):
            conds = []
            for c in l["conds"]:
                e = self._target(o, c)
                conds.append((e, c["tr"], self._pred(o, c.get("pred"))))
            acts = []
            for a in l["acts"]:
                e = self._target(o, a)
                v = a.get("value", "")
                if isinstance(v, list):      # reference to a property
                    v = "$" + self.iface(o, v[0], v[1]).full()
                d = a.get("delay", "")
                if isinstance(d, list):
                    d = "$" + self.iface(o, d[0], d[1]).full()
                u = a.get("dur", "")
                acts.append((e, a["tr"], v, u, d))
            o.links.append((conds, acts))

    def _target(self, scope, b):
        e = self.iface(scope, b["c"], b.get("i"))
        if b["ev"] == "selection":
            o = e.obj
            key = b.get("key") or ""
            e = o.addev("S", key)
            e.selkey = key
        elif b["ev"] == "lookat":
            o = e.obj
            e = o.addev("L", e.id)
        return e

    def _pred(self, o, p):
        if p is None:
            return None
        if "kids" in p:
            r = (p["op"], [self._pred(o, k) for k in p["kids"]])
            return ("not", [r]) if p.get("neg") else r
        side = []
        for s in (p["l"], p["r"]):
            if isinstance(s, list):
                side.append("$" + self.iface(o, s[0], s[1]).full())
            else:
                side.append(s)
        return ("t", side[0], p["cmp"], side[1])

    # ------------------------------------------------------- nondeterminism
    def order_objs(self, objs):
        objs = list(objs)
        if self.perm is not None:
            self.perm.shuffle(objs)
        elif self.rank is not None:
            r = self.rank[0]
            objs.sort(key=lambda o: r.get(o.id, 1 << 30))
        return objs

    def order_evs(self, o):
        evs = list(o.evs.values())
        if self.perm is not None:
            self.perm.shuffle(evs)
        elif self.rank is not None:
            r = self.rank[1].get(o.id)
            if r:
                evs.sort(key=lambda e: r.get(e.key, 1 << 30))
        return evs

    # ------------------------------------------------------------ properties
    def prop_ref(self, ref):
        if not ref.startswith("$") or "." not in ref:
            return None
        i = ref.index(".")
        o = self.find(ref[1:i])
        if o is None:
            return None
        return o.props.get(ref[i + 1:], "")

    def set_prop(self, o, name, value, dur):
        if o.kind == "settings" and name == "service.currentFocus":
            self.focus = value
        old = o.props.get(name, "")
        o.props[name] = value
        if o.player is None:
            return
        if dur > 0 and name in ANIMATED:
            self.animate(o.player, name, old, value, dur)
        else:
            self.pl_set(o, name, value)

    # ------------------------------------------------------------ animations
    def animate(self, p, name, old, new, dur):
        if name in COMPOUND:
            cs = COMPOUND[name]
            a = [x.strip() for x in old.split(",")] if old else [""] * len(cs)
            b = [x.strip() for x in new.split(",")]
            for c, x, y in zip(cs, a, b):
                self.animate(p, c, x, y, dur)
            return
        p.cancel(name)
        if name == "background":
            to = COLORS[new] if new else None
            fr = COLORS[old] if old else to
            p.anims.append(Anim(name, fr, to, dur, p.time))
        elif name == "transparency":
            def op(s):
                return 255 - min(255, length(s, 255))
            p.anims.append(Anim(name, op(old) if old else None, op(new), dur,
                                p.time))
        else:
            base = self.w if name in ("left", "width") else self.h
            p.anims.append(Anim(name, length(old, base) if old else None,
                                length(new, base), dur, p.time))

    def start_transition(self, o, p):
        """The entry transition, if any."""
        t = o.props.get("transIn", "")
        if not t:
            return
        typ, dur = t.split("\0")[:2]
        dur = parse_time(dur)
        if typ in ("barWipe", "diagonalWipe"):
            p.wipe = [typ, dur, list(p.rect[:2]) * 2, 0, 0]
            p.reach()
        else:
            p.cancel("transparency")
            p.anims.append(Anim("transparency", 0, p.alpha, dur, p.time))

    def redraw(self):
        if self.state != "PLAYING":
            return
        for o in self.objs.values():
            if o.player is not None and o.lam.state != SLEEP:
                o.player.advance()
                if o.player.stream:
                    o.player.stream.drawn(o.player.eos)
                if o.player.lua:
                    self.script(o.player, "cycle " + self.dir_of(o))
                    self.receive(o)

    def pl_set(self, o, name, value):
        p = o.player
        if p.lua and p.state == OCC:
            v = value if value != "" else DEFAULTS.get(name, "")
            for x in ("start", "stop"):
                self.script(p, "evt attribution %s %s %s" % (
                    x, esc(name), esc(v)))
        p.cancel("background" if name == "backgroundColor" else name)
        if name in ("duration", "explicitDur"):
            p.duration = NONE if value in ("", "indefinite") \
                else parse_time(value)
        elif name == "focusIndex":
            p.focusIndex = value
        elif name == "bounds" and value != "":
            for n, v in zip(("left", "top", "width", "height"),
                            value.split(",")):
                self.set_prop(o, n, v.strip(), 0)
        elif name == "location" and value != "":
            for n, v in zip(("left", "top"), value.split(",")):
                self.set_prop(o, n, v.strip(), 0)
        elif name == "size" and value != "":
            for n, v in zip(("width", "height"), value.split(",")):
                self.set_prop(o, n, v.strip(), 0)
        elif name == "left":
            p.rect[0] = length(value or "0", self.w)
        elif name == "right":
            p.rect[0] = self.w - p.rect[2] - length(value or "0", self.w)
        elif name == "top":
            p.rect[1] = length(value or "0", self.h)
        elif name == "bottom":
            p.rect[1] = self.h - p.rect[3] - length(value or "0", self.h)
        elif name == "width":
            p.rect[2] = length(value or "100%", self.w)
            if o.props.get("right", "") != "":
                self.set_prop(o, "right", o.props["right"], 0)
        elif name == "height":
            p.rect[3] = length(value or "100%", self.h)
            if o.props.get("bottom", "") != "":
                self.set_prop(o, "bottom", o.props["bottom"], 0)
        elif name in ("background", "backgroundColor"):
            p.bg = COLORS[value] if value else None
        elif name == "transparency":
            p.alpha = 255 - min(255, length(value or "0%", 255))
        elif name == "visible":
            p.visible = value.lower() != "false"
        elif name == "zIndex":
            p.z[0] = int(value or "0")
        elif name == "zOrder":
            p.z[1] = int(value or "0")
        elif name == "focusBorderColor":
            p.fcolor = COLORS[value or "yellow"]
        elif name == "focusBorderTransparency":
            p.falpha = 255 - min(255, length(value or "0%", 255))
        if p.stream:
            p.stream.prop(p, name, value)
        p.props[name] = value

    def focused(self, o):
        return o.player is not None and o.player.focusIndex != "" \
            and o.player.focusIndex == self.focus

    # ------------------------------------------------------------ predicates
    def eval_pred(self, p):
        k = p[0]
        if k == "true":
            return True
        if k == "t":
            l, r = p[1], p[3]
            x = self.prop_ref(l) if l.startswith("$") else None
            if x is not None:
                l = x
            x = self.prop_ref(r) if r.startswith("$") else None
            if x is not None:
                r = x
            c = p[2]
            return {"eq": l == r, "ne": l != r, "lt": l < r, "lte": l <= r,
                    "gt": l > r, "gte": l >= r}[c]
        if k == "and":
            return all(self.eval_pred(x) for x in p[1])
        if k == "or":
            return any(self.eval_pred(x) for x in p[1])
        if k == "not":
            return not self.eval_pred(p[1][0])
        raise Unsupported("predicate " + k)

    # ------------------------------------------------------------ transitions
    def transition(self, e, tr):
        cur = e.state
        if tr == "start":
            if cur == OCC:
                return False
            nxt = OCC
        elif tr == "pause":
            if cur != OCC:
                return False
            nxt = PAUSED
        elif tr == "resume":
            if cur != PAUSED:
                return False
            nxt = OCC
        else:
            if cur == SLEEP:
                return False
            nxt = SLEEP
        self.steps += 1
        if self.steps > 20000:
            raise Runaway()
        o = e.obj
        if not getattr(self, "before_" + o.kind)(o, e, tr):
            return False
        e.state = nxt
        if not getattr(self, "after_" + o.kind)(o, e, tr):
            e.state = cur
            return False
        self.trace.append((o.id, e.key, TR[tr]))
        return True

    def add_delayed(self, o, e, tr, value, delay, group, dur=""):
        if o.time is NONE:
            return              # not being presented: nothing is pending
        t = NONE if delay is NONE else o.time + delay
        o.delayed.append([e, tr, value, t, group, dur])

    def do_start(self, o):
        if o.time is not NONE:          # restarted while paused
            for e in o.evs.values():
                if e is not o.lam:
                    e.state = SLEEP
            o.delayed = []
            o.due = []
        elif o.parent is not None and o.parent.kind == "ctx":
            o.parent.awake += 1
        o.time = 0
        if o.props.get("focusIndex", "") != "":
            self.next_focus = ""

    def do_stop(self, o):
        o.time = NONE
        for e in o.evs.values():
            e.state = SLEEP
        o.delayed = []
        o.due = []
        if o.parent is not None and o.parent.kind == "ctx":
            o.parent.awake -= 1

    # Context.
    def before_ctx(self, o, e, tr):
        if e.type in ("S", "L"):
            return False
        if e.type == "A":
            return tr not in ("pause", "resume")
        if e.type == "P" and tr != "start":
            for k in self.order_objs(o.kids):
                self.transition(k.lam, tr)
        return True

    def after_ctx(self, o, e, tr):
        if e.type == "P":
            if tr == "start":
                self.do_start(o)
                self.wake_parent(o)
                if e.fromport != "":
                    e.fromport = ""
                    return True
                for port in o.ports:
                    if port.type == "P":
                        self.add_delayed(o, port, "start", "", 0, None)
            elif tr in ("stop", "abort"):
                self.do_stop(o)
        elif e.type == "A":
            return self.after_attr(o, e, tr)
        return True

    def after_attr(self, o, e, tr):
        if tr == "start":
            v = self.prop_ref(e.value)
            if v is None:
                v = e.value
            dur = 0
            s = e.dur
            x = self.prop_ref(s)
            if x is not None:
                s = x
            dur = parse_time(s)
            self.set_prop(o, e.id, v, dur)
            # The time of an object that is not presented does not advance.
            owner = o if o.time is not NONE else self.root
            self.add_delayed(owner, e, "stop", v, dur, None)
        return True

    # Switch.
    def before_switch(self, o, e, tr):
        if e.type != "P":
            return False
        if tr == "start":
            if o.selected is not None:
                if o.lam.state == PAUSED:
                    return self.transition(o.selected.lam, "start")
                return e is o.lam
            self.wake_parent(o)
            if e is o.lam:
                evts = [k.lam for k in o.kids]
            else:
                evts = o.swports[e.id]
            for obj, pred in o.rules:
                c = [x for x in evts if x.obj is obj]
                if not c:
                    continue
                if len(c) > 1:
                    raise Unsupported("two mappings")
                if self.eval_pred(pred):
                    if self.transition(c[0], "start"):
                        o.selected = obj
                        return True
                    return False
            return False
        if o.selected is not None:
            self.transition(o.selected.lam, tr)
            if tr in ("stop", "abort"):
                o.selected = None
        return True

    def after_switch(self, o, e, tr):
        if tr == "start":
            if o.time is not NONE:
                self.sync_switch(o, e, "resume")
            elif e is not o.lam:
                self.transition(o.lam, "start")
            else:
                self.do_start(o)
        elif tr in ("stop", "abort"):
            self.do_stop(o)
        else:
            self.sync_switch(o, e, tr)
        return True

    def sync_switch(self, o, e, tr):
        for x in self.order_evs(o):
            if x is not e and x.type == "P":
                self.transition(x, tr)

    def wake_parent(self, o):
        p = o.parent
        if p is not None and p.kind == "ctx" and p.sleeping():
            p.lam.fromport = "true"
            self.transition(p.lam, "start")

    # Media.
    def before_settings(self, o, e, tr):
        return self.before_media(o, e, tr)

    def after_settings(self, o, e, tr):
        return self.after_media(o, e, tr)

    def before_media(self, o, e, tr):
        if e.type != "P":
            return tr not in ("pause", "resume")
        if tr == "start":
            self.wake_parent(o)
            if e.state == SLEEP:
                if e is o.lam:
                    o.player = Pl(self.w, self.h)
                    o.player.stream = stream.make(self, o)
                    n = min(o.props) if o.props else None
                    while n is not None:
                        self.pl_set(o, n, o.props[n])
                        n = min((x for x in o.props if x > n), default=None)
                    o.player.state = OCC
                    o.player.remote = self.is_remote(o)
                    o.player.lua = self.script_of(o)
                    self.tell(o, "start")
                    self.start_transition(o, o.player)
                    if o.props.get("type", "") == "":
                        x = o.props.get("uri", "").split("/")[-1] \
                            .split(".")[-1]
                        o.props["type"] = MIMES.get(
                            x, stream.EXT.get(x, "application/x-ginga-timer"))
                elif o.lam.state == SLEEP:
                    return self.start_anchor(o, e)
            elif e is o.lam:
                o.player.state = OCC
                self.tell(o, "resume")
        elif tr in ("pause", "resume"):
            if e is o.lam:
                for x in self.order_evs(o):
                    if x is not o.lam and x.type == "P":
                        self.eval(x, tr)
                if e.state != (OCC if tr == "pause" else PAUSED):
                    return False
                o.player.state = PAUSED if tr == "pause" else OCC
                self.tell(o, tr)
        return True

    # Scripts.
    def script(self, p, what):
        self.trace.append((p.lua, "N", what + ";"))

    def dir_of(self, o):
        u = o.props.get("uri", "")
        return u.split("/")[-2] if "/" in u else "DIR"

    def script_of(self, o):
        u = o.props.get("uri", "")
        if o.kind == "media" and (
                o.props.get("type", "") == NCLUA
                or (o.props.get("type", "") == "" and u.endswith(".lua"))):
            return u.split("/")[-1]
        return ""

    def post(self, file, type_, action, name, value):
        """A script posts an event."""
        for o in self.objs.values():
            if o.player is not None and o.player.lua == file:
                o.player.queue.append((type_, action, name, value))
                return True
        return False

    def receive(self, o):
        for type_, action, name, value in o.player.queue:
            e = None
            if type_ == "presentation":
                if name == "":
                    e = o.lam
                for x in o.evs.values():
                    if name != "" and x.type == "P" and x.label == name:
                        e = x
            elif type_ == "attribution":
                e = o.evs.get("A:" + name)
            if e is not None and action in ("start", "stop", "pause",
                                            "resume", "abort"):
                self.add_delayed(o, e, action,
                                 value if e.type == "A" else "", 0, None)
        o.player.queue = []

    # Remote devices.
    def is_remote(self, o):
        return o.kind == "media" and (
            o.props.get("type", "") == REMOTE
            or (o.props.get("type", "") == ""
                and o.props.get("uri", "").endswith(".ncl360"))
            or o.props.get("device", "") != "")

    def tell(self, o, action, node=None):
        """A request to the device that presents the media."""
        p = o.player
        if p is None:
            return
        if p.stream and node is None:
            stream.tell(self, o, action)
        if p.lua:
            if action == "start" and node is None:
                self.script(p, "open " + self.dir_of(o))
            self.script(p, "evt presentation %s %s %%" % (action, node or "%"))
            if action == "stop" and node is None:
                self.script(p, "cycle " + self.dir_of(o))
                self.script(p, "close")
            return
        if not p.remote:
            return
        base = p.props.get("remotePlayerBaseURL", "")
        if base.startswith("http://"):
            self.trace.append((base + "/scene/nodes/" + (node or o.id), "W ",
                               action + ";"))

    def register(self, location, device, formats):
        """A device registers itself: the media it is to present."""
        out = []
        for o in self.objs.values():
            if self.is_remote(o) and (
                    o.props.get("device", "") == device
                    or o.props.get("type", "") in formats):
                self.set_prop(o, "remotePlayerBaseURL", location, 0)
                self.trace.append((location, "W " + o.id, "register;"))
                out.append(o)
        return out

    def start_anchor(self, o, e):
        if not self.transition(o.lam, "start"):
            return False
        begin, end = e.begin, e.end
        self.pl_set(o, "time", "%d.%09d" % (begin // SEC, begin % SEC))
        if end is not NONE:
            d = end - begin
            self.pl_set(o, "duration", "%d.%09d" % (d // SEC, d % SEC))
            self.add_delayed(o, e, "stop", "", end, None)
        keep = []
        for d in o.delayed:
            t = d[3]
            if t is NONE or t < begin or (end is not NONE and t > end):
                if d[1] == "start" and t is not NONE and t < begin and \
                        (d[0].end is NONE or d[0].end > begin):
                    self.transition(d[0], "start")
            else:
                d[3] = t - begin
                keep.append(d)
        o.delayed = keep
        return True

    def after_media(self, o, e, tr):
        if e.type == "P":
            if tr == "start":
                if e is o.lam:
                    self.do_start(o)
                    g = object()
                    for x in self.order_evs(o):
                        if x is not o.lam and x.type == "P" \
                                and x.label == "":
                            self.add_delayed(o, x, "start", "", x.begin, g)
                            self.add_delayed(o, x, "stop", "", x.end, g)
                elif e.label != "":
                    self.tell(o, "start", e.label)
            elif tr in ("stop", "abort"):
                if e is o.lam:
                    if o.player is not None:
                        self.tell(o, "stop")
                        o.player = None
                        self.do_stop(o)
                elif e.label != "":
                    self.tell(o, "stop", e.label)
            return True
        if e.type == "A":
            return self.after_attr(o, e, tr)
        return True

    # ------------------------------------------------------------ links
    def links_of(self, ctx, e, tr):
        stack = []
        if not ctx.status:
            return stack
        for conds, acts in ctx.links:
            for ce, ctr, pred in conds:
                if ce is not e or ctr != tr:
                    continue
                if pred is not None and not self.eval_pred(pred):
                    continue
                for ae, atr, v, u, d in reversed(acts):
                    s = self.prop_ref(d)
                    delay = parse_time(d if s is None else s)
                    if delay == 0:
                        stack.append((ae, atr, v, u))
                    else:
                        self.add_delayed(ctx, ae, atr, v, delay, None, u)
        return stack

    def eval(self, e, tr, value="", dur=""):
        stack = [(e, tr, value, dur)]
        n = 0
        while stack:
            self.steps += 1
            if self.steps > 20000:
                raise Runaway()
            act = stack.pop()
            e, tr, value, dur = act
            e.dur = dur
            if e.type == "A":
                e.value = value
            if not self.transition(e, tr):
                continue
            n += 1
            o = e.obj
            p = o.parent
            ctxs = []
            if p is not None and p.kind == "ctx" and p.occ():
                ctxs.append(p)
                g = p.parent
                if g is not None and g.kind == "ctx" and g.occ() and \
                        any(port.obj is o for port in p.ports):
                    ctxs.append(g)
            elif p is not None and p.kind == "switch":
                sel = p.selected is o and e.type == "P"
                for pid in sorted(p.swports):
                    for me in p.swports[pid]:
                        if sel and me.obj is o and (me is e or e is o.lam):
                            self.eval(p.evs["P:" + pid], tr, value, dur)
                if sel and e is o.lam and o.sleeping() and p.selected is o:
                    self.eval(p.lam, tr)
            if o.kind == "ctx":
                ctxs.append(o)
            else:
                for name, ctx in o.aliases:
                    if ctx is not None and ctx.kind == "ctx" and ctx.occ() \
                            and ctx not in ctxs:
                        ctxs.append(ctx)
            for ctx in ctxs:
                stack.extend(self.links_of(ctx, e, tr))
        return n

    # ------------------------------------------------------------ host API
    def start(self):
        self.eos = False
        self.state = "PLAYING"
        self.eval(self.root.lam, "start")
        self.transition(self.settings.lam, "start")

    def check_eos(self):
        if self.root.sleeping() or self.eos:
            self.state = "STOPPED"
            return True
        return False

    def tick(self, diff):
        for _p, s in stream.playing(self):
            s.advance(diff)
        if self.state != "PLAYING" or self.check_eos():
            return False
        buf = [o for o in self.order_objs(self.objs.values()) if o.occ()]
        for o in buf:
            getattr(self, "tick_" + o.kind)(o, diff)
        return True

    def tick_obj(self, o, diff):
        if not o.occ():
            return
        o.time += diff
        due = [d for d in o.delayed if d[3] is not NONE and o.time >= d[3]]
        o.delayed = [d for d in o.delayed
                     if d[3] is not NONE and o.time < d[3]]
        o.due.extend(self.shuffle_groups(due))
        while o.due and o.occ():
            d = o.due.pop(0)
            self.eval(d[0], d[1], d[2], d[5])

    def shuffle_groups(self, due):
        if self.perm is None or len(due) < 2:
            return due
        out = list(due)
        groups = {}
        for i, d in enumerate(due):
            if d[4] is not None:
                groups.setdefault(id(d[4]), []).append(i)
        for idx in groups.values():
            # Keep each event's own start/stop order.
            evs = {}
            for i in idx:
                evs.setdefault(due[i][0], []).append(due[i])
            keys = list(evs)
            self.perm.shuffle(keys)
            flat = [d for k in keys for d in evs[k]]
            for i, d in zip(idx, flat):
                out[i] = d
        return out

    def tick_ctx(self, o, diff):
        self.tick_obj(o, diff)
        if not o.occ():
            return
        own = 1 if o.parent is None and not self.settings.sleeping() else 0
        if o.awake == own:
            self.eval(o.lam, "stop")

    def tick_switch(self, o, diff):
        self.tick_obj(o, diff)

    def tick_settings(self, o, diff):
        if self.next_focus is not None:
            self.update_focus(self.next_focus)
            self.next_focus = None
        self.tick_media(o, diff)

    def tick_media(self, o, diff):
        self.tick_obj(o, diff)
        p = o.player
        if p is None:
            return
        p.time += diff
        if p.eos or (p.duration is not NONE and o.time > p.duration):
            self.eval(o.lam, "stop")

    def update_focus(self, index):
        nxt = index
        if nxt == "":
            c = [o.props["focusIndex"] for o in self.objs.values()
                 if o.kind in ("media", "settings") and o.occ()
                 and o.props.get("focusIndex", "") != ""]
            nxt = min(c, key=index_order) if c else ""
        self.eval(self.settings.evs["A:service.currentFocus"], "start", nxt)

    def key(self, key, press):
        if self.state != "PLAYING" or self.check_eos():
            return False
        buf = [o for o in self.order_objs(self.objs.values())
               if not o.sleeping()]
        for o in buf:
            if o.kind in ("media", "settings"):
                self.key_media(o, key, press)
        return True

    def key_media(self, o, key, press):
        if o.sleeping() or o.player is None:
            return
        if press and key.startswith("CURSOR_") and self.focused(o):
            nxt = o.player.props.get("move" + key[7:].capitalize(), "")
            if nxt != "":
                self.next_focus = nxt
        if o.player.lua and self.focused(o):
            self.script(o.player, "key %s %s" % (
                "press" if press else "release", esc(key)))
        buf = []
        for e in self.order_evs(o):
            if e.type != "S":
                continue
            x = e.selkey
            if x.startswith("$"):
                x = ""
            if (x == "" and key == "ENTER" and self.focused(o)) or \
                    (x != "" and x == key):
                buf.append(e)
        for e in buf:
            self.eval(e, "start" if press else "stop")

    def resize(self, w, h):
        self.w, self.h = w, h
        if self.state != "PLAYING":
            return
        for o in self.objs.values():
            if o.player is None:
                continue
            for n in ("top", "left", "width", "height", "bottom", "right"):
                v = o.props.get(n, "")
                if v != "" or n in ("width", "height"):
                    self.pl_set(o, n, v)

    # ------------------------------------------------------------ observation
    def observe(self):
        """The observable state, in the driver's vocabulary."""
        st = {}
        if self.state != "PLAYING":
            return st
        for o in self.objs.values():
            st["T " + o.id] = "-" if o.time is NONE else str(o.time)
            for e in o.evs.values():
                st["S " + o.id + " " + e.key] = e.state
        v = stream.listed(self)
        if v:
            st["V"] = v
        return st


import stream  # noqa: E402

