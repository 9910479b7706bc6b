"""C15: what a document does depends on what it says, not on how it is
written.

Documents are rendered in every way the language has to say the same thing
(ncl.Style: roles, parameters, shared connectors, defaults), split over files
that import one another, and written in every way XML has to spell the same
element; the reference model, which only knows what the document says, must
agree with the engine on every history.
"""
import codecs
import copy
import os
import random
import xml.etree.ElementTree as ET

import core
import ncl
import scen
from core import CoreProp, register

WHERE = {"connector": [("link", "xconnector")],
         "rule": [("bindRule", "rule")],
         "descriptor": [("media", "descriptor")],
         "region": [("descriptor", "region")],
         "transition": [("descriptor", "transIn"),
                        ("descriptor", "transOut")]}


DIRS = ["", "", "", "my docs", "p%41%", "q#r", "x?y=1", "\u00e9t\u00e9", "a&b",
        "c:d", "[y]/z", "sub/sub"]


def tree(text):
    i = text.find("<ncl")
    root = ET.fromstring(text[i:].replace(
        ' xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"', "", 1).encode())
    return root


def ids(e):
    return [x.get("id") for x in e.iter() if x.get("id")]


# ------------------------------------------------------------------ imports
class Files(object):
    """The files of one document, and who imports each under which alias."""

    def __init__(self, r, files, flat=False):
        self.r = r
        self.flat = flat
        self.t = {n: tree(t) for n, t in files.items() if n.endswith(".ncl")}
        self.rest = {n: t for n, t in files.items() if n not in self.t}
        self.parent = {}
        self.n = 0
        for i in self.t["main.ncl"].iter("importBase"):
            self.parent[i.get("documentURI")] = ("main.ncl", i.get("alias"))

    def chain(self, f):
        """[(file, how it refers to what is in f)], outermost last."""
        out = [(f, "")]
        while f in self.parent:
            f, alias = self.parent[f]
            out.append((f, alias + "#" + out[-1][1]))
        return out

    def new(self, near):
        self.n += 1
        d = "" if self.flat else self.r.choice(
            ["", "", "", "lib", "lib/more", "a b"])
        n = os.path.join(d, "part%d.ncl" % self.n)
        alias = self.r.choice(["z%d", "Z-%d", "al_%d", "p.%d"]) % self.n
        self.t[n] = ET.Element("ncl")
        ET.SubElement(self.t[n], "head")
        self.parent[n] = (near, alias)
        return n, alias, os.path.relpath(n, os.path.dirname(near) or ".")

    def bases(self, f, tag):
        h = self.t[f].find("head")
        return [] if h is None else [b for b in h if b.tag == tag]

    def rewrite(self, f, kind, moved, alias):
        """What was in f is now in what f imports under alias."""
        for d, old in self.chain(f):
            for tag, attr in WHERE[kind]:
                for e in self.t[d].iter(tag):
                    v = e.get(attr)
                    if v is not None and v.startswith(old) \
                            and v[len(old):] in moved:
                        e.set(attr, old + alias + "#" + v[len(old):])

    def put_import(self, f, base, alias, uri, at=None):
        """Into the base or into another one of its kind."""
        e = ET.Element("importBase", alias=alias, documentURI=uri)
        if at is not None:
            base.insert(at, e)
        elif self.r.random() < 0.5:
            base.insert(self.r.randint(0, len(base)), e)
        else:
            b = ET.Element(base.tag)
            b.append(e)
            h = self.t[f].find("head")
            h.insert(self.r.randint(0, len(h)), b)

    def move_items(self, f, kind):
        """Moves some connectors, rules, regions or transitions of a file
        into another one, which it imports."""
        r = self.r
        bs = [b for b in self.bases(f, kind + "Base")
              if any(x.tag != "importBase" for x in b)]
        if not bs:
            return
        b = r.choice(bs)
        items = [x for x in b if x.tag != "importBase"]
        some = [x for x in items if r.random() < 0.6] or items[:1]
        g, alias, uri = self.new(f)
        nb = ET.SubElement(self.t[g].find("head"), b.tag)
        at = None
        if kind == "region":
            # The order of regions matters.
            j = r.randint(0, len(items) - 1)
            some = items[j:r.randint(j + 1, len(items))]
            at = list(b).index(some[0])
        self.rewrite(f, kind, set(sum((ids(x) for x in some), [])), alias)
        for x in some:
            b.remove(x)
            nb.append(x)
        self.put_import(f, b, alias, uri, at)

    def move_descriptors(self, f):
        """Regions and transitions come along."""
        tags = ["regionBase", "transitionBase", "descriptorBase"]
        bs = sum((self.bases(f, t) for t in tags), [])
        if not any(b.tag == "descriptorBase" for b in bs):
            return
        h = self.t[f].find("head")
        g, alias, uri = self.new(f)
        moved = set()
        again = []
        for b in bs:
            h.remove(b)
            self.t[g].find("head").append(b)
            for x in b:
                if x.tag == "importBase":
                    tgt = os.path.normpath(os.path.join(
                        os.path.dirname(f), x.get("documentURI")))
                    x.set("documentURI", os.path.relpath(
                        tgt, os.path.dirname(g) or "."))
                    again.append((tgt, x.get("alias")))
                    if b.tag == "descriptorBase":
                        for y in self.everything(tgt, x.get("alias") + "#"):
                            moved.add(y)
                elif b.tag == "descriptorBase":
                    moved |= set(ids(x))
        nb = ET.Element("descriptorBase")
        nb.append(ET.Element("importBase", alias=alias, documentURI=uri))
        h.insert(self.r.randint(0, len(h)), nb)
        self.rewrite(f, "descriptor", moved, alias)
        for tgt, a in again:
            self.parent[tgt] = (g, a)

    def everything(self, f, prefix):
        """How the descriptors seen through f are named."""
        out = []
        for b in self.bases(f, "descriptorBase"):
            for x in b:
                if x.tag == "importBase":
                    tgt = os.path.normpath(os.path.join(
                        os.path.dirname(f), x.get("documentURI")))
                    out += self.everything(tgt, prefix + x.get("alias")
                                           + "#")
                else:
                    out += [prefix + i for i in ids(x)]
        return out

    def regions(self):
        """The regions in the order in which the engine comes across them
        (those that come later are stacked over those that come first)."""
        out = []

        def go(f, e):
            for x in e:
                if x.tag == "importBase":
                    tgt = os.path.normpath(os.path.join(
                        os.path.dirname(f), x.get("documentURI")))
                    bs = self.bases(tgt, e.tag)
                    if e.tag == "descriptorBase":
                        bs = bs + self.bases(tgt, "regionBase")
                    for b in bs:
                        go(tgt, b)
                elif x.tag == "region":
                    out.extend(ids(x))
        h = self.t["main.ncl"].find("head")
        for b in (h if h is not None else ()):
            go("main.ncl", b)
        return out

    def nest(self, n):
        for _ in range(n):
            was = self.regions()
            keep = copy.deepcopy((self.t, self.parent))
            self.step()
            if self.regions() != was:
                self.t, self.parent = keep

    def step(self):
        f = self.r.choice(sorted(self.t))
        k = self.r.choice(["connector", "rule", "region", "transition",
                           "descriptor", "connector"])
        if k == "descriptor":
            self.move_descriptors(f)
        else:
            self.move_items(f, k)

    def junk(self):
        """Things nothing refers to."""
        r = self.r
        for i in range(r.randint(1, 3)):
            f = r.choice(sorted(self.t))
            h = self.t[f].find("head")
            if h is None:
                continue
            k = r.choice(["connector", "rule", "descriptor", "font"])
            b = self.bases(f, k + "Base")
            b = r.choice(b) if b and r.random() < 0.6 else ET.Element(
                k + "Base")
            if k != "font" and not self.bases(f, k + "Base") \
                    and f != "main.ncl":
                continue
            n = "unused%d" % i
            if k == "connector":
                e = ET.Element("causalConnector", id=n)
                ET.SubElement(e, "simpleCondition", role="onBegin")
                ET.SubElement(e, "simpleAction", role="stop")
            elif k == "rule":
                e = ET.Element("rule", id=n, var="v1", comparator="eq",
                               value="0")
            elif k == "descriptor":
                e = ET.Element("descriptor", id=n, explicitDur="1s")
            else:
                e = None
            if e is not None:
                b.insert(r.randint(0, len(b)), e)
            if b not in list(h):
                h.insert(r.randint(0, len(h)), b)


# -------------------------------------------------------------------- XML
class Writer(object):
    def __init__(self, r, **kw):
        self.r = r
        self.space = kw.get("space", r.random() < 0.7)
        self.notes = r.choice([0, 0, 0.1, 0.4])
        self.refs = r.choice([0, 0, 0.05, 0.3])
        self.prefix = r.choice(["", "", "", "n:"])
        self.shuffle = r.random() < 0.7
        self.ents = {} if r.random() < 0.3 else None

    def gap(self):
        r = self.r
        s = r.choice(["\n", "\n  ", " ", "\t", "\r\n", ""]) \
            if self.space else ""
        if r.random() < self.notes:
            s += r.choice(["<!-- note -->", "<!--<media id=\"x\"/>-->",
                           "<?tool do this?>", "<!-- -->",
                           "<!--\n  two lines\n-->"])
        return s

    def attr(self, v):
        r = self.r
        q = r.choice("\"'")
        if self.ents is not None and v and r.random() < 0.2 \
                and "%" not in v and "&" not in v and "<" not in v \
                and '"' not in v:
            for n, w in self.ents.items():
                if w == v:
                    return q + "&%s;" % n + q
            n = "e%d" % len(self.ents)
            self.ents[n] = v
            k = r.randint(0, len(v))
            if r.random() < 0.5:
                return q + "&%s;" % n + q
            self.ents[n] = v[:k]
            return q + "&%s;" % n + self.chars(v[k:], q) + q
        return q + self.chars(v, q) + q

    def chars(self, v, q):
        s = ""
        for ch in v:
            if ch in "&<>\"'\n\t\r" or ord(ch) > 126 \
                    or self.r.random() < self.refs:
                s += self.r.choice(["&#%d;", "&#x%X;", "&#x%x;",
                                    "&#0%d;"]) % ord(ch)
            else:
                s += ch
        return s

    def elt(self, e, top=False):
        r = self.r
        at = list(e.items())
        if top:
            ns = ' xmlns%s="http://www.ncl.org.br/NCL3.0/EDTVProfile"' % (
                ":" + self.prefix[:-1] if self.prefix else "")
            if not self.prefix and r.random() < 0.5:
                ns = ""
        else:
            ns = ""
        if self.shuffle:
            r.shuffle(at)
        tag = self.prefix + e.tag
        s = "<" + tag + ns
        for k, v in at:
            s += r.choice([" ", " ", "\n ", "  ", "\t"] if self.space
                          else [" "]) + k \
                + (r.choice(["=", "=", " = "]) if self.space else "=") \
                + self.attr(v)
        if self.space and r.random() < 0.2:
            s += " "
        if not len(e) and r.random() < 0.7:
            return s + "/>"
        s += ">"
        for k in e:
            s += self.gap() + self.elt(k)
        return s + self.gap() + "</" + tag + r.choice(["", "", " "]) + ">"

    def file(self, root):
        r = self.r
        x = self.elt(root, True)
        enc = r.choice(["", "UTF-8", "UTF-8", "utf-8", "ISO-8859-1",
                        "US-ASCII", "UTF-16"])
        if not x.isascii():
            enc = "UTF-8"
        head = ""
        if enc == "UTF-16" or enc and r.random() < 0.9:
            head = "<?xml version=%s encoding='%s'%s?>" % (
                r.choice(["'1.0'", '"1.0"']), enc,
                r.choice(["", " standalone='yes'", " standalone=\"no\""]))
            if enc != "UTF-16" and r.random() < 0.8:
                head += "\n"
        else:
            enc = "UTF-8"
        if r.random() < self.notes:
            head += "<!-- a -->\n"
        if self.ents:
            head += "<!DOCTYPE %s [\n%s]>\n" % (
                self.prefix + "ncl", "".join(
                    "<!ENTITY %s \"%s\">\n" % kv
                    for kv in sorted(self.ents.items())))
        elif r.random() < 0.1:
            head += "<!DOCTYPE %sncl>\n" % self.prefix
        text = head + x
        if r.random() < self.notes:
            text += "\n<!-- the end -->"
        text += r.choice(["", "\n", "\n\n", " \n"])
        if enc == "UTF-16":
            k = r.randint(0, 1)
            return (codecs.BOM_UTF16_LE + text.encode("utf-16-le") if k else
                    codecs.BOM_UTF16_BE + text.encode("utf-16-be"))
        b = text.encode("utf-8" if enc != "ISO-8859-1" else "latin-1")
        if enc in ("UTF-8", "utf-8") and r.random() < 0.15:
            b = codecs.BOM_UTF8 + b
        return b


def respell(files, sp):
    """Other files that say the same."""
    r = random.Random(sp["seed"])
    f = Files(r, files)
    f.nest(sp["nest"])
    if sp["junk"]:
        f.junk()
    out = dict(f.rest)
    for n in sorted(f.t):
        out[n] = Writer(r).file(f.t[n]) if sp["xml"] else \
            '<?xml version="1.0"?>\n' + ET.tostring(f.t[n], "unicode")
    if sp.get("dir"):
        out = {sp["dir"] + "/" + n: t for n, t in out.items()}
    return out


def nest(files, r):
    """The same document over more files, as text."""
    f = Files(r, files, True)
    f.nest(r.randint(1, 4))
    out = dict(f.rest)
    for n in sorted(f.t):
        out[n] = '<?xml version="1.0"?>\n' + ET.tostring(f.t[n], "unicode")
    return out


@register
class P15(CoreProp):
    """The same document, written differently."""
    id = "C15"
    watch = scen.GEOMWATCH
    swarm = dict(geom=[0, 0.8], regions=[0, 0.8], desc=[0.3, 0.7],
                 switch=[0.2, 0.6], rules=[0.7, 1.0], delays=[0.2, 0.7],
                 preds=[0.2, 0.6], multi=[0.3, 0.7], valref=[0.1, 0.5],
                 trans=[0, 0, 0.5], areas=[0.3, 0.8], sel=[0.1, 0.5],
                 attr=[0.2, 0.6], ctx=[0.1, 0.5], ref=[0.1, 0.4],
                 settings=[0.2, 0.9], timesp=[0.2, 0.9],
                 rb=[True, False])
    feat = dict(media=(1, 5), links=(1, 6))
    mixes = [{"tick": 5, "action": 2, "key": 1},
             {"tick": 5, "key": 1.5, "img": 1},
             {"tick": 6, "img": 1, "action": 1, "burst": 1}]

    def features(self, r, tier):
        f = CoreProp.features(self, r, tier)
        if f.get("trans"):
            f["rb"] = False
        return f

    def more(self, rng, scn, m):
        scn["spell"] = {"seed": rng.randint(0, 1 << 30),
                        "nest": rng.choice([0, 1, 2, 3, 5, 8]),
                        "junk": rng.choice([0, 0, 1]),
                        "xml": rng.choice([0, 1, 1, 1]),
                        "dir": rng.choice(DIRS)}
        if scn["spell"]["dir"]:
            for o in scn["ops"]:
                if o[0] == "start":
                    o.append(scn["spell"]["dir"] + "/main.ncl")

    def extra(self, z, scn, ops, res, segs, st):
        st.faults["respelt document"] += 1
        f = scen.files_of(scn)
        st.c["files per document"] += sum(1 for n in f if n.endswith("ncl"))
        return None
