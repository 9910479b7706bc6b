"""C20: texts and pictures are shown in their place and in their style."""
import os
import random
import struct
import zlib

import core
import model as M
import oracle
import pixels
import scen
from scen import Violation

PAL = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255),
       (255, 255, 255), (40, 80, 120), (200, 100, 0)]
GRAY = [(128, 128, 128)]
SYSFONTS = [("/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf",
             "DejaVu Sans Mono", ""),
            ("/usr/share/fonts/truetype/dejavu/DejaVuSans-Bold.ttf",
             "DejaVu Sans", "bold"),
            ("/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf",
             "DejaVu Serif", "")]
MIME = {"png": "image/png", "bmp": "image/bmp", "svg": "image/svg+xml",
        "txt": "text/plain"}
FONT = ["fontColor", "fontBgColor", "fontSize", "fontStyle", "fontWeight",
        "fontVariant",
        "fontFamily", "horzAlign", "vertAlign"]
WORDS = ["Ginga", "a", "Hi", "TV digital", "olá", "one two three four five",
         "x\ny", "A B C D E F G H", "ção", "fim."]


# ------------------------------------------------------------------- files
def png(n, at):
    def chunk(t, d):
        c = struct.pack(">I", len(d)) + t + d
        return c + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)
    raw = b"".join(b"\0" + b"".join(bytes(at(x, y)) for x in range(n))
                   for y in range(n))
    return b"\x89PNG\r\n\x1a\n" \
        + chunk(b"IHDR", struct.pack(">IIBBBBB", n, n, 8, 2, 0, 0, 0)) \
        + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")


def bmp(n, at):
    pad = b"\0" * (-3 * n % 4)
    raw = b"".join(b"".join(bytes(reversed(at(x, y))) for x in range(n))
                   + pad for y in reversed(range(n)))
    return b"BM" + struct.pack("<IHHI", 54 + len(raw), 0, 0, 54) \
        + struct.pack("<IiiHHIIiiII", 40, n, n, 1, 24, 0, len(raw), 2835,
                      2835, 0, 0) + raw


def data(spec):
    """The bytes of a file."""
    if spec["kind"] == "txt":
        return spec["text"].encode()
    n, g, cs = spec["n"], spec["grid"], spec["colors"]

    def at(x, y):
        return PAL[cs[(y * g // n) * g + x * g // n]]
    if spec["kind"] == "png":
        return png(n, at)
    if spec["kind"] == "bmp":
        return bmp(n, at)
    q = n // g
    return ('<svg xmlns="http://www.w3.org/2000/svg" width="%d" height="%d">'
            % (n, n) + "".join(
                '<rect x="%d" y="%d" width="%d" height="%d" '
                'fill="rgb(%d,%d,%d)"/>' % ((i % g * q, i // g * q, q, q)
                                            + PAL[c])
                for i, c in enumerate(cs)) + "</svg>").encode()


def files(doc):
    return {p: data(s) for p, s in doc.get("content", {}).items()}


def make(r):
    if r.random() < 0.5:
        return {"kind": "txt", "text": r.choice(WORDS)}
    g = r.choice([1, 2])
    return {"kind": r.choice(["png", "png", "bmp", "svg"]), "grid": g,
            "n": r.choice([16, 32, 48]),
            "colors": [r.randrange(len(PAL)) for _ in range(g * g)]}


def fill(r, doc, gen, p):
    """Gives media of a generated document something to show."""
    doc["content"] = {}
    for m, _ in gen.medias:
        if r.random() < p:
            s = make(r)
            f = "%s/%s.%s" % (r.choice(["c", "a b", "x.y"]), m["id"],
                              s["kind"])
            doc["content"][f] = s
            m["src"] = f
            m["type"] = MIME[s["kind"]] if r.random() < 0.5 else ""


# ------------------------------------------------------------------ frames
def layers(spec, rect, alpha, z):
    """What is certain about the content in its rectangle."""
    x, y, w, h = rect
    L = pixels.Layer
    if spec["kind"] == "txt":
        return [L(rect, (0, 0, 0), 0, z, None, True)]
    n, g = spec["n"], spec["grid"]
    out = []
    # Scaled pictures are blurred, also into their surroundings.
    mx, my = w // n + 3, h // n + 3
    out.append(L((x - mx, y - my, w + 2 * mx, h + 2 * my), (0, 0, 0), 0, z,
                 (x, y, x + w, y + h), True))
    for i, c in enumerate(spec["colors"]):
        x0, x1 = x + w * (i % g) // g, x + w * (i % g + 1) // g
        y0, y1 = y + h * (i // g) // g, y + h * (i // g + 1) // g
        if x1 - x0 > 2 * mx and y1 - y0 > 2 * my:
            k = L((x0, y0, x1 - x0, y1 - y0), (PAL + GRAY)[c], alpha, z)
            k.tol = 2
            out.append(k)
            out.append(L((x0, y0, x1 - x0, y1 - y0), (0, 0, 0), 0, z,
                         (x0 + mx, y0 + my, x1 - mx, y1 - my), True))
        else:
            out.append(L((x0, y0, x1 - x0, y1 - y0), (0, 0, 0), 0, z, None,
                         True))
    return out


def spec_of(o):
    return o.m.doc.get("content", {}).get(o.props.get("uri", ""))


def frame(m):
    """What is on the screen, or None if the document leaves it open."""
    if m.state != "PLAYING":
        return None
    vis = []
    for o in m.objs.values():
        p = o.player
        if o.kind not in ("media", "settings") or p is None \
                or o.lam.state == M.SLEEP:
            continue
        if p.anims or p.wipe is not None:
            return None
        if not p.visible or p.rect[2] <= 0 or p.rect[3] <= 0:
            continue
        foc = m.focused(o)
        s = spec_of(o)
        if p.bg is None and s is None and not foc:
            continue
        x, y, w, h = p.rect
        pos = []
        for n, v, a, b, size in (("left", "right", x, w, m.w),
                                 ("top", "bottom", y, h, m.h)):
            if a >= 0:
                pos.append([n, str(a)])
            elif size - b - a >= 0:
                pos.append([v, str(size - b - a)])
            else:
                return None
        props = pos + [["width", str(w)], ["height", str(h)],
                       ["transparency", str(255 - p.alpha)]]
        if p.bg is not None:
            props.append(["background", "rgb(%d,%d,%d)" % tuple(p.bg)])
        if foc:
            props += [["focusIndex", "1"],
                      ["focusBorderColor", "rgb(%d,%d,%d)" % p.fcolor],
                      ["focusBorderTransparency", str(255 - p.falpha)]]
        for n in FONT:
            if p.props.get(n, "") != "":
                props.append([n, p.props[n]])
        vis.append((list(p.z), (x - 2, y - 2, x + w + 2, y + h + 2), {
            "uri": o.props.get("uri", "") if s else "",
            "type": MIME[s["kind"]] if s else "", "props": props}))
    vis.sort(key=lambda t: t[0])
    for i, a in enumerate(vis):
        for b in vis[:i]:
            if a[0] == b[0] and a[1][0] < b[1][2] and b[1][0] < a[1][2] \
                    and a[1][1] < b[1][3] and b[1][1] < a[1][3]:
                return None             # which is on top is open
    return {"w": m.w, "h": m.h, "bg": m.background,
            "media": [t[2] for t in vis]}


def esc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


def still(f):
    """A document that shows a frame and nothing else."""
    ports = body = ""
    for i, x in enumerate(f["media"]):
        ports += '<port id="p%d" component="s%d"/>' % (i, i)
        body += '<media id="s%d"%s%s>' % (
            i, ' src="%s"' % x["uri"] if x["uri"] else "",
            ' type="%s"' % x["type"] if x["type"] else "")
        body += "".join('<property name="%s" value="%s"/>' % (n, esc(v))
                        for n, v in x["props"] + [["zIndex", str(i)]])
        body += "</media>"
    return "<ncl><body>" + ports + body + "</body></ncl>"


@core.register
class P20(core.CoreProp):
    id = "C20"
    real = core.REAL + ["PlayerText", "PlayerImage", "cairo, pango, "
                        "gdk-pixbuf and their loaders"]
    watch = scen.WATCH + ["type"]
    swarm = dict(geom=[0.8, 1.0], regions=[0, 0.4], focus=[0, 0.4],
                 attr=[0.5, 0.9], pause=[0, 0.3], ctx=[0, 0.3],
                 switch=[0, 0.3], settings=[0, 0.3], ref=[0, 0.2],
                 valref=[0, 0.3], animdur=[0, 0.5, 0.9], fonts=[0.6, 0.9],
                 dur=[0.1, 0.4], resizes=[0, 0.6], desc=[0, 0.3])
    feat = dict(media=(1, 5), areas=0.1, links=(1, 5))
    mixes = [{"tick": 4, "img": 4, "action": 4},
             {"tick": 4, "img": 4, "key": 3},
             {"tick": 3, "img": 4, "action": 3, "resize": 1, "optbg": 0.5},
             {"tick": 3, "img": 4, "action": 2, "restart": 1,
              "resize": 0.5}]
    nops = (5, 24)

    def adjust(self, r, doc, gen):
        doc["w"], doc["h"] = r.choice([(80, 60), (80, 60), (64, 48),
                                       (100, 100), (37, 53), (120, 40)])
        fill(r, doc, gen, 0.75)

    def more(self, r, scn, m):
        d = scn["doc"]
        scn["opts"] = [d["w"], d["h"], r.choice(["", "", "navy", "white"]),
                       0, 0]
        scn["ops"].append(["img"])
        if r.random() < 0.4 and d["content"]:
            f = r.choice(sorted(d["content"])).split("/")[-1]
            k = r.choice([3, 3, 5])
            scn["ops"].insert(0, ["fault", k, r.choice([1, 2, 7, 64]), 4, f])

    def evaluate(self, z, scn, st):
        self.frames = []
        v = super().evaluate(z, scn, st)
        if v is not None:
            return v
        v = self.stills(z, scn, st)
        if v is None and scn["alloc"] % 4 == 0:
            v = self.styles(z, scn, st)
        if v is None and scn["alloc"] % 8 == 1:
            v = self.fonts(z, scn, st)
        return v

    def model(self, scn, ops, segs, st):
        c = oracle.Checker(scn["doc"], scn.get("watch", self.watch),
                           background=scn["opts"][2],
                           size=(scn["opts"][0], scn["opts"][1]))
        c.on_image = lambda i, m, lines: self.frames.append(
            (i, frame(m), lines))
        mm = c.check(ops, segs)
        st.c["frames compared"] += c.images
        if c.inconclusive:
            st.notes["inconclusive: " + c.inconclusive[:40]] += 1
        st.c["model steps"] += c.steps
        for op in ops:
            if op[0] == "fault":
                st.faults["short reads" if op[1] == 3
                          else "interrupted reads"] += 1
        if mm is not None:
            return Violation("model:" + mm.key.split(" ")[0], mm.text(),
                             mm.step)
        return None

    def stills(self, z, scn, st):
        """Every frame looks like a presentation that never was any other."""
        todo = [(i, f, ls) for i, f, ls in self.frames
                if f is not None and any(x["uri"] for x in f["media"])]
        if not todo:
            return None
        todo = todo[-6:]
        fs = files(scn["doc"])
        ops = []
        for n, (i, f, _ls) in enumerate(todo):
            fs["still%d.ncl" % n] = still(f)
            ops += [["raw", "opts %d %d %s 0 0" % (
                f["w"], f["h"], scen.esc(f["bg"]))], ["new"],
                ["start", "still%d.ncl" % n], ["tick", 0], ["tick", 0],
                ["img"], ["delete"]]
        f = todo[0][1]
        res, segs = scen.run(z, {
            "files": fs, "ops": ops, "alloc": scn["alloc"] ^ 0x55555,
            "opts": [f["w"], f["h"], "", 0, 0], "watch": [], "end": False})
        v = scen.crash_violation(res)
        if v:
            v.text = "still frame: " + v.text
            return v
        for n, (i, f, lines) in enumerate(todo):
            want = [l for l in segs[n * 7 + 5][1] if l[:2] in ("IM", "I ")]
            got = [l for l in lines if l[:2] in ("IM", "I ")]
            st.c["frames compared with stills"] += 1
            if want == got:
                continue
            d = differs(want, got)
            return Violation("still", "op %d (img): the frame is not what a "
                             "presentation with the same properties shows: "
                             "%s" % (i, d), i)
        return None


    def styles(self, z, scn, st):
        """Texts of the run in every alignment, with and without style."""
        for _i, f, _ls in self.frames:
            for x in (f or {"media": []})["media"]:
                if x["type"] == "text/plain":
                    return self.style(z, scn, st, x)
        return None

    def fonts(self, z, scn, st):
        """A font that comes with a document looks like the same font of the
        system, whatever was shown before, and only in that document."""
        r = random.Random(scn["alloc"])
        have = [x for x in SYSFONTS if os.path.exists(x[0])]
        if len(have) < 2:
            return None
        fonts = r.sample(have, 2)
        name = r.choice(["Doc Font", "corporate", "F1"])
        text = r.choice(["Ginga", "abc", "x y"])
        size = r.choice(["8", "12", "16"])
        fs = {"t.txt": text.encode()}

        def one(fam, base="", weight=""):
            return ("<ncl><head>%s</head><body><port id='p' component='s'/>"
                    "<media id='s' src='t.txt'><property name='fontFamily' "
                    "value='%s'/><property name='fontSize' value='%s'/>%s"
                    "<property name='background' value='white'/></media>"
                    "</body></ncl>"
                    % (base, fam, size, "<property name='fontWeight' "
                       "value='%s'/>" % weight if weight else ""))
        for i, (path, family, weight) in enumerate(fonts):
            at = r.choice(["fonts/my font %d.ttf", "f%d.ttf"]) % i
            with open(path, "rb") as f:
                fs[at] = f.read()
            fs["sys%d.ncl" % i] = one(family, "", weight)
            # A font may also pass for the bold one of its family.
            w = r.choice(["", "", "bold"])
            fb = ("<fontBase><font fontFamily='%s' src='%s'%s/></fontBase>"
                  % (name, at, " fontWeight='bold'" if w else ""))
            if r.random() < 0.4:
                fs["lib%d.ncl" % i] = "<ncl><head>%s</head></ncl>" % fb
                fb = ("<fontBase><importBase alias='i' "
                      "documentURI='lib%d.ncl'/></fontBase>" % i)
            fs["doc%d.ncl" % i] = one(name, fb, w)
        # Fonts that nobody has.
        fs["none.ncl"] = one("no such font")
        fs["other.ncl"] = one(name)
        same = [{"doc0", "sys0"}, {"doc1", "sys1"}, {"none", "other"}]
        order = ["doc%d" % r.randrange(2)]
        order += [r.choice(["doc0", "doc1", "doc0", "doc1", "sys0", "sys1",
                            "none", "other"])
                  for _ in range(r.randint(1, 4))]
        r.shuffle(order)
        order += [min(set(g) - set(order), default=None)
                  for g in same if g & set(order)]
        order = [n for n in order if n]
        ops = []
        for n in order:
            ops += [["start", n + ".ncl"], ["tick", 0], ["img"], ["stop"]]
        res, segs = scen.run(z, {"files": fs, "ops": ops, "alloc": 1,
                                 "opts": [100, 40, "", 0, 0], "watch": []})
        v = scen.crash_violation(res)
        if v:
            v.text = "font of the document: " + v.text
            return v
        img = [[l for l in segs[n * 4 + 2][1] if l[:2] in ("IM", "I ")]
               for n in range(len(order))]
        st.c["fonts that come with documents"] += 1
        for g, what in zip(same, [fonts[0][1], fonts[1][1], "no font"]):
            at = [n for n in range(len(order)) if order[n] in g]
            for n in at[1:]:
                if img[n] != img[at[0]]:
                    return Violation(
                        "font", "of the documents %s, shown one after the "
                        "other, %s and %s (counted from 0) do not look the "
                        "same, but both are to show their text in %s"
                        % (" ".join(order), at[0], n, what))
        return None

    def style(self, z, scn, st, x):
        r = random.Random(scn["alloc"])
        text = scn["doc"]["content"][x["uri"]]["text"]
        if len(text) > 10 or "\n" in text:
            text = "Hi"
        own = {n: v for n, v in x["props"] if n in FONT
               and n not in ("horzAlign", "vertAlign")}
        fg = M.COLORS[own.get("fontColor", "black")]
        back = own.pop("fontBgColor", "")
        size = int(own.get("fontSize", "12"))
        base = (0, 0, 0) if sum(fg) > 380 else (255, 255, 255)
        style = r.choice(["fontStyle", "fontWeight", "fontFamily",
                          "fontSize"] + ["fontVariant"]
                         * any(c.islower() for c in text))
        other = {"fontVariant": {"small-caps": ""}.get(
            own.get(style, ""), "small-caps"),
            "fontStyle": {"italic": "normal"}.get(
            own.get(style, ""), "italic"),
            "fontWeight": {"bold": "normal"}.get(own.get(style, ""), "bold"),
            "fontFamily": {"monospace": "sans"}.get(
                own.get(style, ""), "monospace"),
            "fontSize": str(size + 4)}[style]
        w, h = 120, 90
        shown = []
        for props in (dict(own, horzAlign="left", vertAlign="top"),
                      dict(own, horzAlign="center", vertAlign="middle"),
                      dict(own, horzAlign="right", vertAlign="bottom"),
                      own, dict(own, **{style: other}),
                      dict(own, fontBgColor=back or "#204060")):
            shown.append({"w": w, "h": h, "bg": "", "media": [{
                "uri": "t.txt", "type": "text/plain", "props": [
                    ["background", "rgb(%d,%d,%d)" % base]]
                + sorted(props.items())}]})
        fs = {"t.txt": text.encode()}
        ops = []
        for n, f in enumerate(shown):
            fs["still%d.ncl" % n] = still(f)
            ops += [["start", "still%d.ncl" % n], ["tick", 0], ["img"],
                    ["stop"]]
        res, segs = scen.run(z, {"files": fs, "ops": ops, "alloc": 1,
                                 "opts": [w, h, "", 0, 0], "watch": []})
        v = scen.crash_violation(res)
        if v:
            v.text = "text on its own: " + v.text
            return v
        img = [grid(pixels.parse([l for l in segs[n * 4 + 2][1]
                                  if l[:2] in ("IM", "I ")])[2])
               for n in range(len(shown))]
        st.c["texts in every style"] += 1

        def bad(what):
            return Violation("style", "the text %r with %r: %s" % (
                text, sorted(own.items()), what))
        boxes = []
        b = 0xff000000 | base[0] << 16 | base[1] << 8 | base[2]
        for g in img[:3]:
            ink = [(px, py) for (px, py), c in g.items() if c != b]
            if not ink:
                return bad("nothing is shown")
            boxes.append((min(p[0] for p in ink), min(p[1] for p in ink),
                          w - 1 - max(p[0] for p in ink),
                          h - 1 - max(p[1] for p in ink)))
        (l, t, _r, _b), (cl, ct, cr, cb), (_l, _t, rr, rb) = boxes
        line = size * 2 + 4
        tall = line * 2 < h
        wide = w - l - _r < 80
        if wide and l > 6 + size // 2:
            return bad("aligned left, it is %d pixels away" % l)
        if wide and rr > 6 + size // 2:
            return bad("aligned right, it is %d pixels away" % rr)
        if wide and abs(cl - cr) > 6 + size // 2:
            return bad("centred, it has %d and %d pixels around it" % (cl,
                                                                       cr))
        if tall and t > line:
            return bad("at the top, it is %d pixels away" % t)
        if tall and rb > line:
            return bad("at the bottom, it is %d pixels away" % rb)
        if tall and abs(ct - cb) > line:
            return bad("in the middle, it has %d and %d pixels around it"
                       % (ct, cb))
        if img[3] != img[0]:
            return bad("its alignment is not left and top by default")
        if img[3] == img[4]:
            return bad("%s=%s makes no difference" % (style, other))
        near = min(max(abs((c >> s & 255) - v) for s, v in
                       zip((16, 8, 0), fg)) for c in img[0].values())
        far = max(max(abs((c >> s & 255) - v) for s, v in
                      zip((16, 8, 0), base)) for c in img[0].values())
        if near > 130 or far < 60:
            return bad("its colour is not shown")
        k = 0
        for c in img[5].values():
            k += all(abs((c >> s & 255) - v) <= 1 for s, v in
                     zip((16, 8, 0), M.COLORS[back or "#204060"]))
        if k < 10:
            return bad("fontBgColor is not shown")
        return None


def grid(rows):
    out = {}
    for y0, n, runs in rows:
        for x0, k, c in runs:
            for y in range(y0, y0 + n):
                for x in range(x0, x0 + k):
                    out[x, y] = c
    return out


def differs(a, b):
    wa, ha, ra = pixels.parse(a)
    wb, hb, rb = pixels.parse(b)
    if (wa, ha) != (wb, hb):
        return "size %dx%d, not %dx%d" % (wb, hb, wa, ha)
    ga, gb = grid(ra), grid(rb)
    bad = sorted((y, x) for (x, y) in ga if ga[x, y] != gb.get((x, y)))
    y, x = bad[0]
    return "%d pixels differ, first %d,%d: %08x, not %08x" % (
        len(bad), x, y, gb[x, y], ga[x, y])
