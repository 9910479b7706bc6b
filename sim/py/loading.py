"""C14: loading.

Documents that are not acceptable are refused with an explanation, leave no
trace and do not disturb anything; documents that are acceptable are accepted
however slowly or oddly the storage delivers them; nothing that can be put
into a file makes the engine misbehave.
"""
import copy
import random
import re
import xml.etree.ElementTree as ET

import core
import model as M
import ncl
import oracle
import scen
import spell
from scen import Violation
from zyg import unesc

REQUIRED = {
    "region": ["id"], "descriptor": ["id"],
    "descriptorParam": ["name", "value"], "causalConnector": ["id"],
    "simpleCondition": ["role"], "simpleAction": ["role"],
    "compoundStatement": ["operator"], "assessmentStatement": ["comparator"],
    "attributeAssessment": ["role"], "valueAssessment": ["value"],
    "compositeRule": ["id", "operator"],
    "rule": ["id", "var", "comparator", "value"],
    "transition": ["id", "type"], "importBase": ["alias", "documentURI"],
    "context": ["id"], "port": ["id", "component"], "switch": ["id"],
    "switchPort": ["id"], "mapping": ["component"],
    "bindRule": ["constituent", "rule"], "defaultComponent": ["component"],
    "media": ["id"], "area": ["id"], "property": ["name"],
    "link": ["xconnector"], "linkParam": ["name", "value"],
    "bind": ["role", "component"], "bindParam": ["name", "value"],
}
NONEMPTY = {
    "region": ["id"], "descriptor": ["id", "region", "transIn", "transOut"],
    "descriptorParam": ["name"], "causalConnector": ["id"],
    "simpleCondition": ["role"], "simpleAction": ["role"],
    "attributeAssessment": ["role"], "compositeRule": ["id"],
    "rule": ["id", "var"], "transition": ["id", "type", "subtype"],
    "importBase": ["alias"], "context": ["id"],
    "port": ["id", "component", "interface"], "switch": ["id"],
    "switchPort": ["id"], "mapping": ["component", "interface"],
    "bindRule": ["constituent", "rule"], "defaultComponent": ["component"],
    "media": ["id", "descriptor", "refer"], "area": ["id"],
    "property": ["name"], "link": ["id", "xconnector"],
    "linkParam": ["name"], "bind": ["role", "component", "interface"],
    "bindParam": ["name"], "connectorParam": ["name"], "ncl": ["id"],
    "body": ["id"],
}
DANGLING = [("port", "component"), ("port", "interface"),
            ("bind", "component"), ("bind", "interface"),
            ("link", "xconnector"), ("media", "descriptor"),
            ("media", "refer"), ("descriptor", "region"),
            ("descriptor", "transIn"), ("descriptor", "transOut"),
            ("bindRule", "constituent"), ("bindRule", "rule"),
            ("defaultComponent", "component"), ("mapping", "component"),
            ("mapping", "interface")]
TAGS = ["ncl", "head", "body", "media", "context", "switch", "link", "bind",
        "port", "area", "property", "region", "regionBase", "descriptor",
        "descriptorBase", "causalConnector", "connectorBase", "ruleBase",
        "rule", "compositeRule", "simpleCondition", "simpleAction",
        "compoundCondition", "compoundAction", "transitionBase",
        "transition", "importBase", "switchPort", "mapping", "bindRule",
        "bindParam", "linkParam", "defaultComponent", "assessmentStatement",
        "attributeAssessment", "valueAssessment", "compoundStatement",
        "connectorParam", "descriptorParam", "fontBase"]
# Which elements each may contain (from NCL's structure).
KIDS = {
    "ncl": "head body", "head": "regionBase descriptorBase connectorBase "
    "ruleBase transitionBase fontBase", "regionBase": "region importBase",
    "region": "region", "descriptorBase": "descriptor importBase",
    "descriptor": "descriptorParam", "connectorBase": "causalConnector "
    "importBase", "causalConnector": "connectorParam compoundCondition "
    "simpleCondition compoundAction simpleAction", "compoundCondition":
    "compoundCondition simpleCondition compoundStatement "
    "assessmentStatement", "compoundAction": "compoundAction simpleAction",
    "compoundStatement": "compoundStatement assessmentStatement",
    "assessmentStatement": "attributeAssessment valueAssessment",
    "ruleBase": "rule compositeRule importBase", "compositeRule":
    "rule compositeRule", "transitionBase": "transition importBase",
    "fontBase": "font importBase", "body": "context port switch media "
    "property link", "context": "context port switch media property link",
    "switch": "context switch switchPort bindRule defaultComponent media",
    "switchPort": "mapping", "media": "area property", "link":
    "linkParam bind", "bind": "bindParam",
}
KIDS = {k: set(v.split()) for k, v in KIDS.items()}


def parse_files(files):
    out = {}
    for n, t in files.items():
        if n.endswith(".ncl"):
            out[n] = ET.fromstring(
                re.sub(r' xmlns="[^"]*"', "", t).encode())
    return out


def text_of(trees):
    return {n: '<?xml version="1.0"?>\n' + ET.tostring(t, "unicode")
            for n, t in trees.items()}


class Doc(object):
    """The files of one document as element trees."""

    def __init__(self, files):
        self.t = parse_files(files)
        self.names = sorted(self.t)

    def elts(self, tag=None, where=None):
        """[(file, parent, element)] of what the engine looks at."""
        out = []
        for n in self.names:
            root = self.t[n]

            def go(e):
                for k in e:
                    if (tag is None or k.tag == tag) \
                            and (where is None or where(k)):
                        out.append((n, e, k))
                    go(k)
            go(root)
        return out


def i_unknown_element(r, d):
    n = r.choice(d.names)
    e = r.choice(list(d.t[n].iter()))
    e.insert(r.randint(0, len(e)), ET.Element(
        r.choice(["bogus", "Media", "nclx", "meta"])))
    return True


def i_misplaced(r, d):
    n = r.choice(d.names)
    e = r.choice(list(d.t[n].iter()))
    bad = [t for t in TAGS if t not in KIDS.get(e.tag, ())]
    x = ET.Element(r.choice(bad))
    for a in REQUIRED.get(x.tag, []):
        x.set(a, "zz9" if a != "comparator" else "eq")
    e.insert(r.randint(0, len(e)), x)
    return True


def i_unknown_attr(r, d):
    es = [e for _n, _p, e in d.elts()
          if not (e.tag == "head" and _n != "main.ncl")]
    r.choice(es).set(r.choice(["bogus", "ID", "x"]), "1")
    return True


def i_missing_attr(r, d):
    es = [(e, a) for _n, _p, e in d.elts() for a in REQUIRED.get(e.tag, ())
          if a in e.attrib]
    e, a = r.choice(es)
    del e.attrib[a]
    return True


def i_empty_attr(r, d):
    es = [(e, a) for _n, _p, e in d.elts() for a in NONEMPTY.get(e.tag, ())
          if a in e.attrib]
    e, a = r.choice(es)
    e.set(a, "")
    return True


def i_bad_name(r, d):
    es = [(e, a) for _n, _p, e in d.elts() for a in NONEMPTY.get(e.tag, ())
          if a in e.attrib]
    e, a = r.choice(es)
    v = e.get(a)
    i = r.randint(0, len(v))
    e.set(a, v[:i] + r.choice(" /$,?\u00e9") + v[i:])
    return True


def i_dup_id(r, d):
    by = {}
    for n, _p, e in d.elts():
        if "id" in e.attrib and e.tag in (
                "region", "descriptor", "causalConnector", "compositeRule",
                "rule", "transition", "context", "port", "switch",
                "switchPort", "media", "area", "link", "body"):
            by.setdefault(n, []).append(e)
    c = [v for v in by.values() if len(v) > 1]
    if not c:
        return False
    a, b = r.sample(r.choice(c), 2)
    b.set("id", a.get("id"))
    return True


def i_dangling(r, d):
    tag, at = r.choice(DANGLING)
    es = d.elts(tag, lambda e: at in e.attrib)
    if not es:
        return False
    n, p, e = r.choice(es)
    v = e.get(at)
    opts = ["nosuch", v + "x", "zz#" + v]
    if "#" in v:
        opts += [v.replace("#", "##"), v.split("#")[0] + "#nosuch"]
    e.set(at, r.choice(opts))
    return True


def i_out_of_scope(r, d):
    """A component that exists, but not where it is referred to."""
    main = d.t["main.ncl"]
    body = main.find("body")
    comps = [body] + list(body.iter("context")) + list(body.iter("switch"))
    ids = {}
    refers = set()
    for c in comps:
        for k in c:
            if k.tag in ("media", "context", "switch"):
                ids[k.get("id")] = c
                if k.get("refer") or "settings" in k.get("type", ""):
                    refers.add(k.get("id"))
                    refers.add(k.get("refer"))
    cand = []
    for c in comps:
        for k in c.iter():
            if k.tag in ("port", "bind", "mapping", "defaultComponent"):
                at = "component"
            elif k.tag == "bindRule":
                at = "constituent"
            else:
                continue
            # only direct children of c's links, ports, ...
            if k not in list(c) and not any(
                    k in list(x) for x in c
                    if x.tag in ("link", "switchPort")):
                continue
            wrong = [i for i, o in ids.items()
                     if o is not c and i not in refers
                     and i != c.get("id")]
            if wrong:
                cand.append((k, at, wrong))
    if not cand:
        return False
    k, at, wrong = r.choice(cand)
    k.set(at, r.choice(wrong))
    if "interface" in k.attrib and r.random() < 0.8:
        del k.attrib["interface"]
    return True


def conns(d):
    return {(n, e.get("id")): e for n, _p, e in d.elts("causalConnector")}


def i_unbound(r, d):
    cs = {}
    for (n, i), e in conns(d).items():
        cs[i] = e
    cand = []
    for _n, _p, l in d.elts("link"):
        c = cs.get(l.get("xconnector").split("#")[-1])
        if c is None:
            continue
        roles = set(x.get("role") for x in c.iter() if x.get("role"))
        count = {}
        for b in l.findall("bind"):
            count.setdefault(b.get("role"), []).append(b)
        for ro, bs in count.items():
            if ro in roles:
                cand.append((l, bs))
    if not cand:
        return False
    l, bs = r.choice(cand)
    for b in bs:
        l.remove(b)
    return True


def i_half_connector(r, d):
    cs = d.elts("causalConnector")
    if not cs:
        return False
    _n, _p, c = r.choice(cs)
    tag = r.choice(["simpleCondition", "simpleAction"])
    for e in list(c.iter()):
        for k in list(e):
            if k.tag == tag:
                e.remove(k)
    return True


def i_bad_value(r, d):
    cand = []
    for _n, _p, e in d.elts():
        t = e.tag
        if t in ("rule", "assessmentStatement"):
            cand.append((e, "comparator", ["equals", "", "EQ", "="]))
        elif t in ("compositeRule", "compoundStatement"):
            cand.append((e, "operator", ["xor", "", "AND"]))
            if t == "compoundStatement":
                cand.append((e, "isNegated", ["maybe", "1", ""]))
        elif t in ("simpleCondition", "simpleAction"):
            cand.append((e, "eventType", ["bogus", "", "Presentation"]))
            cand.append((e, "transition" if t == "simpleCondition"
                         else "actionType", ["bogus", "", "begins"]))
            cand.append((e, "role", ["start", "set", "stop", "abort"]
                         if t == "simpleCondition" else
                         ["onBegin", "onEnd", "onSelection"]))
            cand.append((e, "role", ["plain"]))
        elif t == "area":
            cand.append((e, "begin", ["x", "1:2:3:4", "5ss"]))
            cand.append((e, "end", ["x", "1;2", "--"]))
            if e.get("begin") or e.get("end"):
                cand.append((e, "label", ["l1"]))
    if not cand:
        return False
    e, a, vs = r.choice(cand)
    v = r.choice(vs)
    if a == "role":
        if v == "plain":
            # A role of its own needs an event type and a transition.
            x = r.choice(["eventType", "transition" if e.tag ==
                          "simpleCondition" else "actionType"])
            e.attrib.pop(x, None)
            for y in ("eventType", "transition", "actionType"):
                if y != x and y not in e.attrib:
                    pass
            e.set("role", "plain")
            return True
        for y in ("eventType", "transition", "actionType"):
            e.attrib.pop(y, None)
    if a in ("begin", "end"):
        e.attrib.pop("label", None)
    e.set(a, v)
    return True


def i_exclusive(r, d):
    refs = d.elts("media", lambda e: e.get("refer"))
    if not refs:
        ms = d.elts("media", lambda e: not e.get("type")
                    and not e.get("src"))
        if len(ms) < 2:
            return False
        a, b = r.sample(ms, 2)
        a[2].set("refer", b[2].get("id"))
        refs = [a]
    e = r.choice(refs)[2]
    if r.random() < 0.5:
        e.set("type", r.choice(["text/plain", ""]))
    else:
        e.set("src", r.choice(["x.txt", ""]))
    return True


def i_refer_chain(r, d):
    refs = d.elts("media", lambda e: e.get("refer"))
    if not refs:
        return False
    e = r.choice(refs)
    p = e[1]
    x = ET.Element("media", {"id": "zz8", "refer": e[2].get("id")})
    body = d.t["main.ncl"].find("body")
    if r.random() < 0.5:
        body.insert(r.randint(0, len(body)), x)
    else:
        p.append(x)
    return True


def i_refer_wrong(r, d):
    """A media that refers to something that is no media."""
    ids = [e.get("id") for _n, _p, e in d.elts()
           if e.tag in ("context", "switch", "port", "area", "region",
                        "descriptor", "rule") and e.get("id")]
    body = d.t["main.ncl"].find("body")
    if body.get("id"):
        ids.append(body.get("id"))
    if not ids:
        return False
    x = ET.Element("media", {"id": "zz8", "refer": r.choice(ids)})
    p = r.choice([body] + list(body.iter("context")))
    p.insert(r.randint(0, len(p)), x)
    return True


def i_statement(r, d):
    cand = d.elts("assessmentStatement")
    comp = d.elts("compoundStatement")
    if not cand and not comp:
        return False
    if cand and (not comp or r.random() < 0.6):
        e = r.choice(cand)[2]
        if r.random() < 0.5:
            e.remove(r.choice(list(e)))
        else:
            e.append(ET.Element("valueAssessment", {"value": "1"}))
    else:
        e = r.choice(comp)[2]
        for k in list(e)[1:] if r.random() < 0.5 and \
                e.get("operator") != "not" else list(e):
            e.remove(k)
    return True


def i_not_arity(r, d):
    cand = d.elts("compositeRule")
    if not cand:
        rb = d.elts("ruleBase")
        if not rb:
            return False
        rb = r.choice(rb)[2]
        e = ET.SubElement(rb, "compositeRule", {"id": "zz6",
                                                "operator": "not"})
    else:
        e = r.choice(cand)[2]
        e.set("operator", "not")
    i = 0
    while len(e) < 2:
        i += 1
        ET.SubElement(e, "rule", {"id": "zz7%d" % i, "var": "v1",
                                  "comparator": "eq", "value": "1"})
    return True


def i_import(r, d):
    """An import that cannot be satisfied."""
    head = d.t["main.ncl"].find("head")
    if head is None:
        head = ET.Element("head")
        d.t["main.ncl"].insert(0, head)
    k = r.choice(["missing", "nobase", "self", "cycle", "malformed",
                  "wrongroot", "empty", "nohead", "dir"])
    base = r.choice(["connectorBase", "descriptorBase", "ruleBase",
                     "transitionBase"])
    imp = ET.Element("importBase", {"alias": "zq",
                                    "documentURI": "zimp.ncl"})
    b = ET.SubElement(head, base)
    b.append(imp)
    text = None
    if k == "missing":
        imp.set("documentURI", r.choice(["nosuch.ncl", "zz/zimp.ncl"]))
    elif k == "dir":
        imp.set("documentURI", ".")
    elif k == "self":
        imp.set("documentURI", "zimp.ncl")
        text = "<ncl><head><%s><importBase alias='a1' documentURI=" \
            "'zimp.ncl'/></%s></head></ncl>" % (base, base)
    elif k == "cycle":
        text = "<ncl><head><%s><importBase alias='a1' documentURI=" \
            "'zimp2.ncl'/></%s></head></ncl>" % (base, base)
        d.t["zimp2.ncl"] = "<ncl><head><%s><importBase alias='a2' " \
            "documentURI='zimp.ncl'/></%s></head></ncl>" % (base, base)
    elif k == "nobase":
        other = "fontBase"
        text = "<ncl><head><%s/></head></ncl>" % other
    elif k == "nohead":
        text = "<ncl/>"
    elif k == "empty":
        text = ""
    elif k == "malformed":
        text = r.choice(["<ncl><head><%s></head></ncl>" % base,
                         "garbage", "<ncl"])
    elif k == "wrongroot":
        text = "<foo><head><%s/></head></foo>" % base
    if text is not None:
        d.t["zimp.ncl"] = text
    return True


def i_root(r, d):
    t = d.t["main.ncl"]
    if r.random() < 0.5:
        t.tag = r.choice(["foo", "NCL", "html"])
    else:
        x = ET.Element("wrap")
        x.append(t)
        d.t["main.ncl"] = x
    return True


def i_cut(r, d):
    n = r.choice(d.names)
    t = text_of({n: d.t[n]})[n]
    d.t[n] = t[:r.randint(0, t.rindex("<") - 1)]
    return True


def i_garble(r, d):
    """Not well-formed any more."""
    n = r.choice(d.names)
    t = text_of({n: d.t[n]})[n]
    k = r.randint(0, 3)
    tags = [m.start() for m in re.finditer(r"<(?!\?)", t)]
    i = r.choice(tags)
    if k == 0:
        t = t[:i] + t[i + 1:]        # drop a '<'
    elif k == 1:
        t = t[:i] + "<" + t[i:]
    elif k == 2:
        t = t[:i] + "&nosuch;" + t[i:]
    else:
        t = t[:t.rindex("<")] + "</other>"
    if k == 0 and _wellformed(t):
        return False
    d.t[n] = t
    return True


def _wellformed(t):
    try:
        ET.fromstring(t)
        return True
    except ET.ParseError:
        return False


def i_reserved(r, d):
    es = [e for _n, _p, e in d.elts()
          if e.tag in ("context", "switch") or e.tag == "media"
          and not e.get("type") and not e.get("refer")]
    if not es:
        return False
    e = r.choice(es)
    if e.get("src") is None and e.tag == "media" and r.random() < 0.3:
        e.set("type", "text/plain")
    e.set("id", r.choice(["__root__", "__settings__"]))
    return True


def i_self_switch(r, d):
    es = d.elts("switch")
    if not es:
        return False
    s = r.choice(es)[2]
    cs = [(k, "constituent" if k.tag == "bindRule" else "component")
          for k in s.iter() if k.tag in ("bindRule", "defaultComponent",
                                         "mapping")
          and (k in list(s) or any(k in list(x) for x in
                                   s.findall("switchPort")))]
    if not cs:
        return False
    k, a = r.choice(cs)
    k.set(a, s.get("id"))
    if k.tag == "mapping" and r.random() < 0.5:
        k.attrib.pop("interface", None)
    return True


def i_font(r, d):
    h = d.t["main.ncl"].find("head")
    if h is None:
        return False
    b = h.find("fontBase")
    if b is None:
        b = ET.SubElement(h, "fontBase")
    b.append(ET.Element("font", {"fontFamily": "F", "src": r.choice(
        ["nosuch.ttf", "http://nowhere/x.ttf", "main.ncl"])}))
    return True


INVALID = [
    ("unknown element", i_unknown_element),
    ("misplaced element", i_misplaced),
    ("unknown attribute", i_unknown_attr),
    ("missing attribute", i_missing_attr),
    ("empty attribute", i_empty_attr),
    ("bad name", i_bad_name),
    ("duplicate id", i_dup_id),
    ("dangling reference", i_dangling),
    ("dangling reference", i_dangling),
    ("reference out of scope", i_out_of_scope),
    ("unbound role", i_unbound),
    ("connector without condition or action", i_half_connector),
    ("bad value", i_bad_value),
    ("bad value", i_bad_value),
    ("exclusive attributes", i_exclusive),
    ("reference to a reference", i_refer_chain),
    ("reference to no media", i_refer_wrong),
    ("bad statement", i_statement),
    ("negation of two", i_not_arity),
    ("bad import", i_import),
    ("reserved id", i_reserved),
    ("switch selecting itself", i_self_switch),
    ("bad font", i_font),
    ("wrong root", i_root),
    ("cut file", i_cut),
    ("not well-formed", i_garble),
]


def invalid(r, files):
    for _ in range(20):
        name, fn = r.choice(INVALID)
        d = Doc(files)
        try:
            ok = fn(r, d)
        except (IndexError, ValueError):
            ok = False
        if ok:
            return name, finish(d)
    return None


def finish(d):
    out = {}
    for n, t in d.t.items():
        out[n] = t if isinstance(t, str) else text_of({n: t})[n]
    return out


# Attributes whose values are only looked at when something is presented.
FREE = {"value", "src"}


def mutate(r, files):
    """Any change at all; the outcome is open."""
    d = Doc(files)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        es = d.elts()
        n, p, e = r.choice(es)
        k = r.randint(0, 10)
        if k == 0:
            p.remove(e)
        elif k == 1:
            p.insert(r.randint(0, len(p)), copy.deepcopy(e))
        elif k == 2:
            q = r.choice(es)[2]
            if e.tag in KIDS.get(q.tag, ()) or r.random() < 0.1:
                if q not in list(e.iter()):
                    p.remove(e)
                    q.insert(r.randint(0, len(q)), e)
        elif k == 3:
            x = copy.deepcopy(e)
            for i, y in enumerate(x.iter()):
                if y.get("id"):
                    y.set("id", y.get("id") + "z")
            q = [z for z in es if e.tag in KIDS.get(z[2].tag, ())]
            if q:
                q = r.choice(q)[2]
                q.insert(r.randint(0, len(q)), x)
        elif k in (4, 5) and e.attrib:
            a = r.choice(sorted(e.attrib))
            if a in FREE:
                continue
            vs = [x.get(a) for _n, _p, x in es if x.get(a)]
            if vs:
                e.set(a, r.choice(vs))
        elif k == 6 and e.attrib:
            a = r.choice(sorted(e.attrib))
            del e.attrib[a]
        elif k == 7:
            ids = [x.get("id") for _n, _p, x in es if x.get("id")]
            for a in ("component", "interface", "refer", "constituent",
                      "descriptor", "rule", "region", "xconnector"):
                if a in e.attrib and ids and r.random() < 0.7:
                    e.set(a, r.choice(ids))
        elif k == 8 and len(e) > 1:
            ks = list(e)
            r.shuffle(ks)
            for x in ks:
                e.remove(x)
            for x in ks:
                e.append(x)
        elif k == 9 and e.tag == "media":
            ids = [x.get("id") for _n, _p, x in es if x.get("id")]
            e.attrib.pop("src", None)
            e.attrib.pop("type", None)
            if ids:
                e.set("refer", r.choice(ids))
        elif k == 10:
            b = ET.Element(r.choice(TAGS))
            for a in REQUIRED.get(b.tag, []):
                vs = [x.get(a) for _n, _p, x in es if x.get(a)]
                b.set(a, r.choice(vs) if vs and a != "id" else "zz5")
            q = [z for z in es if b.tag in KIDS.get(z[2].tag, ())]
            if q:
                q = r.choice(q)[2]
                q.insert(r.randint(0, len(q)), b)
    out = finish(d)
    if r.random() < 0.15:
        n = r.choice(sorted(out))
        t = bytearray(out[n].encode())
        for _ in range(r.choice([1, 1, 3])):
            if t:
                i = r.randrange(len(t))
                t[i] = r.choice([t[i] ^ (1 << r.randint(0, 7)),
                                 r.randint(0, 255), 0x20, 0x22, 0x3c])
        out[n] = bytes(t).decode("latin-1")
    return out


@core.register
class P14(core.CoreProp):
    id = "C14"
    rule = "A run is one valid document with several unacceptable, damaged " \
        "or unreadable variants of it, loaded before, between and during " \
        "the sessions of one host history; it counts as distinct if its " \
        "sequence of (variant kind, outcome, successful transitions) has " \
        "not been seen before."
    swarm = dict(switch=[0.1, 0.6], settings=[0.2, 1.0], ref=[0.2, 0.6],
                 ctx=[0.2, 0.6], preds=[0.2, 0.5], desc=[0.2, 0.8],
                 regions=[0, 0.6], trans=[0, 0, 1], swports=[0.2, 0.8],
                 rules=[0.7], sel=[0, 0.4], pause=[0, 0.2])
    feat = dict(media=(2, 5), links=(2, 6), areas=0.4, ctxports=(1, 3))
    mixes = [{"tick": 5, "restart": 1.5, "key": 1},
             {"tick": 5, "restart": 1.5, "action": 2}]
    nops = (4, 20)

    def more(self, rng, scn, m):
        files = scen.files_of(scn)
        if rng.random() < 0.4:
            files = spell.nest(files, rng)
        scn["files"] = files
        n = rng.randint(2, 5)
        ops = scn["ops"]
        kinds = []
        dirs = []
        for i in range(n):
            x = rng.random()
            if x < 0.55:
                iv = invalid(rng, files)
                if iv is None:
                    continue
                kind, fs = iv
                kinds.append(("refuse", kind))
            elif x < 0.85:
                fs = mutate(rng, files)
                kinds.append(("open", "mutated"))
            else:
                kinds.append(("io", "io"))
                fs = None
            dirs.append(fs)
        for i, fs in enumerate(dirs):
            for name, t in (fs or {}).items():
                scn["files"]["m%d/%s" % (i, name)] = t
        main = sorted(n for n in files if n.endswith(".ncl")
                      and "/" not in n)
        new = []
        at = {}
        for i in range(len(kinds)):
            at.setdefault(rng.randint(0, len(ops)), []).append(i)
        for p in range(len(ops) + 1):
            for i in at.get(p, ()):
                what, kind = kinds[i]
                if what == "refuse":
                    new.append(["state"])
                    new.append(["raw", "start @DIR@/m%d/main.ncl" % i,
                                "refuse", kind])
                    if rng.random() < 0.3:
                        new.append(["state"])
                        new.append(["raw", "start @DIR@/m%d/main.ncl" % i,
                                    "refuse", kind])
                elif what == "open":
                    new.append(["raw", "parse @DIR@/m%d/main.ncl %d %d" % (
                        i, 80, 60), "open", kind])
                else:
                    f = rng.choice(main)
                    size = len(files[f].encode())
                    last = files[f].encode().rindex(b"<")
                    k = rng.choice([1, 1, 2, 2, 4, 3, 5])
                    pos = rng.choice([0, rng.randint(0, last),
                                      rng.randint(0, last)])
                    err = rng.choice([2, 5, 13, 23, 24, 40]) if k == 1 \
                        else rng.choice([5, 21])
                    if k == 3:
                        pos = rng.choice([1, 2, 7, 100])
                    elif k == 5:
                        pos = rng.randint(1, 4)
                    new.append(["raw", "fault %d %d %d /%s" % (
                        k, pos, err, f), "fault", str(k)])
                    if k in (3, 5):
                        new.append(["raw", "parse @DIR@/main.ncl 80 60",
                                    "accept" if k == 3 else "open",
                                    "io fault %d" % k])
                    else:
                        new.append(["state"])
                        new.append(["raw", "start @DIR@/main.ncl",
                                    "refuse", "io fault %d" % k])
                    new.append(["raw", "iostat", "iostat", ""])
                    new.append(["nofault"])
            if p < len(ops):
                new.append(ops[p])
        if rng.random() < 0.3:
            new.insert(0, ["raw", "start @DIR@/nosuch.ncl", "refuse",
                           "missing file"])
            new.insert(0, ["state"])
        # What a refused or discarded document leaves behind.
        if kinds and rng.random() < 0.5:
            i = rng.randrange(len(kinds))
            if kinds[i][0] != "io":
                if new[-1] != ["stop"]:
                    new.append(["stop"])
                for j in range(5):
                    new.append(["raw", "parse @DIR@/m%d/main.ncl 80 60" % i,
                                "open", "again"])
                    new.append(["mem"])
        # Whatever was accepted can also be presented.
        if rng.random() < 0.4:
            if new[-1] != ["stop"]:
                new.append(["stop"])
            i = len(dirs) - 1
            for i in range(len(dirs)):
                if kinds[i] == ("open", "mutated"):
                    new.append(["raw", "start @DIR@/m%d/main.ncl" % i,
                                "show", "mutated"])
                    for _ in range(rng.randint(1, 5)):
                        new.append(rng.choice([
                            ["raw", "tick 0 %d 0" % rng.choice(
                                [0, 100000000, 700000000, 2000000000]),
                             "showing", ""],
                            ["raw", "key %s 1" % rng.choice(
                                ["RED", "ENTER", "CURSOR_RIGHT"]),
                             "showing", ""],
                            ["raw", "redraw", "showing", ""]]))
                    new.append(["raw", "stop", "showing", ""])
        scn["ops"] = new

    def evaluate(self, z, scn, st):
        res, segs = scen.run(z, scn)
        v = scen.crash_violation(res)
        if v:
            if res.exit in (95, 96) and self.explosive2(scn, segs):
                st.notes["inconclusive: explosive document"] += 1
                return None
            last = scn["ops"][min(len(segs), len(scn["ops"])) - 1]
            if len(last) > 2 and last[2] in ("show", "showing") and (
                    res.exit in (95, 96) or res.signal == 5
                    or "stack-overflow" in res.stderr):
                # Endless loops of links and bad property values.
                st.notes["inconclusive: presentation of a mutant"] += 1
                return None
            return v
        ops = [tuple(o) for o in scn["ops"]]
        v = self.loads(ops, segs, st)
        if v:
            return v
        # What the accepted document does is as if nothing else had been
        # loaded.
        f = [(("nop",) if o[0] in ("raw", "state", "nofault", "mem")
              else o, s) for o, s in zip(ops, segs)]
        f = [(o, (s[0], []) if p[0] == "raw" and p[2] in ("show", "showing")
              else s) for (o, s), p in zip(f, ops)]
        s2 = dict(scn)
        s2["ops"] = [o for o, _s in f]
        f = [(o, s) for o, s in f]
        ops2 = [o for o, _s in f]
        segs2 = [s for _o, s in f]
        # Structure dumps are not part of the protocol of sessions.
        segs2 = [(n, [l for l in ls if not l.startswith("O ")])
                 for n, ls in segs2]
        v = self.started(ops2, segs2)
        if v:
            return v
        v = self.invariants(s2, ops2, segs2, st)
        if v:
            return v
        return self.model(s2, ops2, segs2, st)

    def explosive2(self, scn, segs):
        s = dict(scn)
        s["ops"] = [o if o[0] not in ("raw", "state", "nofault", "mem")
                    else ["nop"] for o in scn["ops"]]
        return self.explosive(s, segs)

    def loads(self, ops, segs, st):
        state = ""
        mems = []
        sig = []
        for n, (op, (name, lines)) in enumerate(zip(ops, segs)):
            r = [l for l in lines if l.startswith("R ")]
            r = r[0].split() if r else ["R"]
            if op[0] == "state":
                state = r[1]
            elif op[0] == "mem":
                p = ops[n - 1]
                if p[0] == "raw" and len(p) > 3 and p[3] == "again":
                    for l in lines:
                        if l.startswith("M "):
                            mems.append(l)
            elif op[0] == "raw" and op[2] == "refuse":
                if op[3].startswith("io fault") and not any(
                        len(o) > 2 and o[2] == "fault"
                        for o in ops[max(0, n - 2):n]):
                    continue    # cut away by minimisation
                st.faults["refused document: " + op[3]
                          if "io" not in op[3] else op[3]] += 1
                sig.append((op[3], r[1]))
                if r[1] != "0":
                    return Violation(
                        "accepted", "op %d: a document with a fault (%s) "
                        "was accepted: %s" % (n, op[3], op[1]), n)
                if n and ops[n - 1][0] == "state" and state == "1" \
                        and unesc(r[2]).strip() == "":
                    return Violation(
                        "silent", "op %d: a document was refused without a "
                        "reason (%s)" % (n, op[3]), n)
            elif op[0] == "raw" and op[2] == "open":
                st.faults["mutated document"] += 1
                sig.append((op[3], r[1]))
                if r[1] == "0" and unesc(r[2]).strip() == "":
                    return Violation(
                        "silent", "op %d: a document was refused without a "
                        "reason" % n, n)
                if r[1] == "1":
                    st.c["mutants accepted"] += 1
            elif op[0] == "raw" and op[2] == "show":
                st.faults["mutated document presented"] += r[1] == "1"
            elif op[0] == "raw" and op[2] == "accept":
                if r[1] != "1":
                    return Violation(
                        "refused", "op %d: a valid document was refused "
                        "(%s): %s" % (n, op[3], unesc(r[2])[:200]), n)
            elif op[0] == "raw" and op[2] == "iostat":
                if r[1:] and any(x != "0" for x in r[1:]):
                    st.faults["injected I/O fault fired"] += 1
            if any(l.startswith("G critical") for l in lines):
                return Violation("critical", "op %d (%s): %s" % (
                    n, op[0], [unesc(l) for l in lines
                               if l.startswith("G critical")][0][:200]), n)
        grow = [tuple(int(y) - int(x) for x, y in
                      zip(a.split()[1:], b.split()[1:]))
                for a, b in zip(mems[1:], mems[2:])]
        if len(grow) >= 3 and len(set(grow)) == 1 and any(
                x > 0 for x in grow[0]):
            return Violation("leak", "memory in use grows with every load "
                             "of the same document: %s" % "; ".join(mems))
        if sig:
            st.states.add(scen.h64(repr(sig)))
        return None
