"""What a frame must look like, computed from the reference model.

The frame is cut into the cells bounded by the edges of everything that is
drawn; every cell has one colour.  Pixels covered by two media whose stacking
order the document leaves open are not compared.
"""
import model as M


class Layer(object):
    __slots__ = ("x0", "y0", "x1", "y1", "rgb", "a", "hole", "any", "z",
                 "tol")

    def __init__(self, r, rgb, a, z, hole=None, any_=False):
        self.x0, self.y0 = r[0], r[1]
        self.x1, self.y1 = r[0] + r[2], r[1] + r[3]
        self.rgb, self.a, self.z = rgb, a, z
        self.hole = hole
        self.any = any_
        self.tol = 0

    def covers(self, x, y):
        if not (self.x0 <= x < self.x1 and self.y0 <= y < self.y1):
            return False
        h = self.hole
        return not (h and h[0] <= x < h[2] and h[1] <= y < h[3])


def layers(m):
    """[(media, [layers])] from bottom to top."""
    out = []
    for o in m.objs.values():
        p = o.player
        if o.kind not in ("media", "settings") or p is None \
                or o.lam.state == M.SLEEP:
            continue
        x, y, w, h = p.rect
        ls = []
        fz = p.fuzzy()
        moving = fz & set(M.RECT)
        if moving:
            # Rounding of edges in flight is not defined.
            ls.append(Layer((x - 4, y - 4, w + 8, h + 8), (0, 0, 0), 0, p.z,
                            None if w < 5 or h < 5 or not p.visible
                            else (x + 2, y + 2, x + w - 2, y + h - 2)
                            if not m.focused(o) else
                            (x + 4, y + 4, x + w - 4, y + h - 4), True))
        if p.wipe is not None:
            a, b, c, d = p.wipe[2]
            ls.append(Layer((a - 12, b - 12, c - a + 24, d - b + 24),
                            (0, 0, 0), 0, p.z,
                            None, True))
        if not p.visible or w <= 0 or h <= 0:
            if ls:
                out.append((p.z, o, ls))
            continue
        if p.bg is not None:
            k = Layer((x, y, w, h), p.bg, p.alpha, p.z)
            k.tol = 3 if fz & {"background", "transparency"} else 0
            ls.insert(0, k)
        c = o.m.doc.get("content", {}).get(o.props.get("uri", ""))
        if p.stream and p.stream.shown is not None:
            c = {"kind": "png", "n": 16, "grid": 1,
                 "colors": [p.stream.shown]}
        if c is not None:
            import content
            ls += content.layers(c, (x, y, w, h), p.alpha, p.z)
        if m.focused(o):
            small = w < 3 or h < 3
            ls.append(Layer((x - 1, y - 1, w + 2, h + 2), p.fcolor,
                            p.falpha, p.z,
                            None if small else (x + 1, y + 1, x + w - 1,
                                                y + h - 1), small))
        if ls:
            out.append((p.z, o, ls))
    out.sort(key=lambda t: tuple(t[0]))
    return out


def over(dst, rgb, a):
    return tuple((s * a + d * (255 - a)) / 255.0 for s, d in zip(rgb, dst))


def parse(lines):
    """-> (w, h, [(y0, n, [(x0, n, argb)])])"""
    w = h = 0
    rows = []
    for l in lines:
        if l.startswith("IMG "):
            a = l.split()
            w, h = int(a[1]), int(a[2])
        elif l.startswith("I "):
            a = l.split()
            x = 0
            runs = []
            for t in a[3:]:
                n, c = t.split(":")
                runs.append((x, int(n), int(c, 16)))
                x += int(n)
            rows.append((int(a[1]), int(a[2]), runs))
    return w, h, rows


def cells(m, w, h):
    """Yields (x0, x1, y0, y1, colour or None, tolerance)."""
    if m.state != "PLAYING":
        yield 0, w, 0, h, (0, 0, 0, 0), 0
        return
    ls = layers(m)
    xs = {0, w}
    ys = {0, h}
    for _z, _o, l in ls:
        for y in l:
            xs |= {y.x0, y.x1}
            ys |= {y.y0, y.y1}
            if y.hole:
                xs |= {y.hole[0], y.hole[2]}
                ys |= {y.hole[1], y.hole[3]}
    xs = sorted(x for x in xs if 0 <= x <= w)
    ys = sorted(y for y in ys if 0 <= y <= h)
    base = M.COLORS[m.background] if m.background else (0, 0, 0)
    for y0, y1 in zip(ys, ys[1:]):
        for x0, x1 in zip(xs, xs[1:]):
            c = base
            tol = 0
            unknown = False
            last = None
            for z, _o, l in ls:
                hit = False
                unk = False
                solid = False
                for k in l:
                    if k.covers(x0, y0):
                        hit = True
                        if k.any:
                            unk = True
                        elif k.a == 255 and not k.tol:
                            c = k.rgb
                            tol = 0
                            solid = True
                        else:
                            c = over(c, k.rgb, k.a)
                            tol += 2 + k.tol
                if hit:
                    if last == z or unk:
                        unknown = True
                    elif solid:
                        unknown = False
                    last = list(z)
            yield x0, x1, y0, y1, None if unknown else (255,) + tuple(c), tol


def compare(m, lines):
    """First difference: (where, wanted, got)."""
    w, h, rows = parse(lines)
    if (w, h) != (m.w, m.h):
        return "size", "%dx%d" % (m.w, m.h), "%dx%d" % (w, h)
    for x0, x1, y0, y1, c, tol in cells(m, w, h):
        if c is None:
            continue
        for ry, rn, runs in rows:
            if ry >= y1 or ry + rn <= y0:
                continue
            for rx, n, argb in runs:
                if rx >= x1 or rx + n <= x0:
                    continue
                g = (argb >> 24, argb >> 16 & 255, argb >> 8 & 255,
                     argb & 255)
                if any(abs(a - b) > tol for a, b in zip(c, g)):
                    return ("pixel %d,%d" % (max(x0, rx), max(y0, ry)),
                            "%d,%d,%d,%d" % tuple(round(v) for v in c),
                            "%d,%d,%d,%d" % g)
    return None
