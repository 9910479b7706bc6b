"""C19: what the network may ask of a presentation, and the devices that
present part of it."""
import json

import core
import model as M
import ncl
import oracle
import scen
from core import MS
from model import REMOTE, SLEEP
from scen import Violation
from zyg import unesc

DEVICES = ["tv", "phone", "ncl360"]
PLACES = ["http://10.0.0.5:81", "http://10.0.0.6:8080", "http://hmd.local"]
APPS = "/current-service/apps/"
STATUS = [200, 200, 404, 500, 1, 2, 4, 7]


def body(r, d):
    """JSON text of a dictionary, in one of its spellings."""
    k = r.random()
    if k < 0.5:
        return json.dumps(d)
    if k < 0.8:
        return json.dumps(d, indent=2)
    items = list(d.items())
    r.shuffle(items)
    # The reader accepts a comma too many, which clients send.
    return "{" + ", ".join("%s: %s" % (json.dumps(a), json.dumps(b))
                           for a, b in items) + ",}" if items else "{}"


def mangled(r, good):
    """Bodies that ask for nothing."""
    k = r.randrange(12)
    if k == 0:
        return ""
    if k == 1:
        return r.choice(["[]", "null", "1", "\"select\"", "true", "[1,2]",
                         "[{}]", "{}"])
    if k == 2:
        return good[:r.randint(1, max(1, len(good) - 3))]
    if k == 3:
        return r.choice("[{") * r.choice([10, 999, 1001, 5000])
    if k == 4:
        return '{"action": [1], "interface": {}, "value": []}'
    if k == 5:
        return '{"action": {"action": "select"}}'
    if k == 6:
        return '{"action": null}'
    if k == 7:
        return '{"action": 3.5e400}'
    if k == 8:
        return '{"act\\u0000ion": "\\ud800"}'
    if k == 9:
        return '{"action": "unknown", "value": "ENTER"}'
    if k == 10:
        return "".join(r.choice('{}[]",:\\ae1 ') for _ in range(
            r.randint(1, 60)))
    return '{"location": {}, "deviceType": [], "supportedFormats": 7, ' \
        '"recognizableEvents": "x"}'


def request(r, m):
    """One request of a client: ["web", what, node, arg, method, path,
    body]."""
    meth = r.choice(["POST", "POST", "POST", "GET", "PUT"])
    ids = [o.id for o in m.objs.values() if o.kind != "settings"
           and o.parent is not None] or ["nosuch"]
    k = r.random()
    if k < 0.45:
        sel = [(o.id, e.id) for o in m.objs.values()
               for e in o.evs.values() if e.type == "S"]
        look = [(o.id, e.id) for o in m.objs.values()
                for e in o.evs.values() if e.type == "L"]
        if sel and (not look or r.random() < 0.5):
            n, key = r.choice(sel)
            if r.random() < 0.15:
                key = r.choice(ncl.KEYS + ["", "x"])
            d = {"action": "select", "value": key}
            if key == "" and r.random() < 0.5:
                del d["value"]
            return ["web", "select", n, key, meth,
                    APPS + "1/ncl/" + n, body(r, d)]
        if look:
            n, i = r.choice(look)
            w = r.choice(["lookAt", "lookAway"])
            d = {"action": w, "interface": i}
            if i == "@lambda" and r.random() < 0.7:
                d.pop("interface")
                if r.random() < 0.3:
                    d["interface"] = ""
            return ["web", w, n, i, meth, APPS + "app/doc/" + n,
                    body(r, d)]
        k = 0.5
    if k < 0.7:
        d = {"location": r.choice(PLACES), "deviceType": r.choice(DEVICES),
             "supportedFormats": r.sample(
                 [REMOTE, "video/mp4", "application/x-ginga-timer"],
                 r.randint(1, 2)),
             "recognizableEvents": r.choice([["selection"],
                                             ["onlookAt", "onlookAway"]])}
        if r.random() < 0.15:
            x = r.choice(sorted(d))
            if r.random() < 0.5:
                del d[x]
            else:
                d[x] = type(d[x])()
            return ["web", "none", "", "", meth, "/remote-mediaplayer",
                    body(r, d)]
        return ["web", "register", "",
                [d["location"], d["deviceType"], d["supportedFormats"]],
                meth, "/remote-mediaplayer", body(r, d)]
    if k < 0.75:
        return ["web", "location", "", "", r.choice(["GET", "HEAD"]),
                "/location", ""]
    # Requests that name nothing.
    n = r.choice(ids)
    b = body(r, {"action": r.choice(["select", "lookAt", "lookAway"]),
                 "value": "ENTER"})
    x = r.randrange(4)
    if x == 0:
        return ["web", "none", "", "", meth, r.choice([
            APPS, APPS + "1", APPS + "1/", APPS + "1/ncl", APPS + "1/ncl/",
            APPS + "//" + n, APPS + "1//" + n, APPS + "/ncl/" + n,
            APPS + "1/ncl/nosuch", APPS + "1/ncl/%s/x" % n,
            "/current-service/apps", "/", "/nosuch", "/locations",
            APPS + "1/ncl/" + "x" * 3000]), b]
    if x == 1:
        return ["web", "none", "", "", meth, "/remote-mediaplayer",
                mangled(r, body(r, {"location": PLACES[0],
                                    "deviceType": "tv",
                                    "supportedFormats": [REMOTE]}))]
    return ["web", "none", "", "", meth, APPS + "1/ncl/" + n,
            mangled(r, b)]


def effect(m, op):
    """What a request does to the model; returns the status, None if it is
    open."""
    what, node, arg = op[1], op[2], op[3]
    if what == "location":
        return 200
    if m is None or m.state != "PLAYING" or what == "none":
        return 404
    if what == "register":
        if not any(m.is_remote(o) for o in m.objs.values()):
            return 404
        return 200 if m.register(*arg) else None
    o = m.objs.get(node)
    e = o and o.evs.get(("S:" if what == "select" else "L:") + arg)
    if e is None:
        return 404
    if what == "select":
        m.eval(e, "start")
        m.eval(e, "stop")
    else:
        m.eval(e, "start" if what == "lookAt" else "stop")
    return 200


class Server(object):
    """The services as the host switches them."""

    def __init__(self, opt):
        self.opt = opt
        self.port = 0
        self.fail = [0, 0]

    def start(self):
        if self.port or self.fail[1]:
            return
        if self.fail[0] >= 2:
            self.fail[0] -= 2
            return
        self.port = 44642 + self.fail[0]
        self.fail[0] = 0


@core.register
class P19(core.CoreProp):
    id = "C19"
    watch = scen.WATCH + ["remotePlayerBaseURL", "device", "type"]
    assumptions = core.ASSUME + [
        "the HTTP and SSDP libraries deliver what they parsed: requests "
        "reach the engine's handlers as method, path and body"]
    real = core.REAL + ["WebServices", "PlayerRemote", "jsoncpp",
                        "libsoup messages and URIs"]
    stubs = core.STUB[:3] + ["libsoup server and client sessions, GSSDP: "
                             "simulated network", "NCLua: simulated"]
    swarm = dict(labels=[0, 0.3], lookat=[0.3, 0.7], sel=[0.3, 0.7],
                 ctx=[0, 0.3], switch=[0, 0.3], settings=[0, 0.5],
                 focus=[0, 0.4], attr=[0, 0.3], delays=[0, 0.4],
                 pause=[0.1, 0.5], abort=[0, 0.3], dur=[0.3, 0.8],
                 anchorport=[0, 1])
    feat = dict(media=(1, 5), links=(1, 6), areas=0.4)
    mixes = [{"tick": 5, "key": 1}, {"tick": 5, "action": 2},
             {"tick": 4, "action": 2, "restart": 0.5},
             {"tick": 4, "key": 1, "trans": 1, "restart": 0.3, "eos": 0.2}]
    nops = (4, 20)

    def adjust(self, r, doc, gen):
        for m, _ in gen.medias:
            k = r.random()
            if k < 0.3:
                m["type"] = REMOTE
            elif k < 0.5:
                m["props"].append(["device", r.choice(DEVICES)])
            elif k < 0.6:
                m["type"] = ""
                m["src"] = "scene.ncl360"
            if k < 0.6 and r.random() < 0.3:
                m["props"].append(["remotePlayerBaseURL",
                                   r.choice(PLACES)])

    def more(self, r, scn, m):
        ws = 0 if r.random() < 0.1 else 1
        scn["opts"] = [80, 60, "", 0, ws]
        for o in scn["ops"]:
            if o[0] == "action" and o[2] == "A:remotePlayerBaseURL":
                o[4] = r.choice(PLACES)
        ops = []
        rate = r.choice([0.2, 0.5, 0.7])
        if r.random() < 0.25:
            ops.append(["netcfg", r.randint(0, 3), int(r.random() < 0.3)])
        for op in scn["ops"]:
            if op[0] == "start" and r.random() < 0.2:
                ops.append(request(r, m))
            ops.append(op)
            while r.random() < rate:
                k = r.random()
                if k < 0.7:
                    ops.append(request(r, m))
                elif k < 0.95:
                    ops.append(["netdone", r.randint(0, 3),
                                r.choice(STATUS)])
                elif k < 0.98:
                    ops.append(["optbool", "webservices", r.randint(0, 1)])
                else:
                    ops.append(["netcfg", r.randint(0, 2),
                                int(r.random() < 0.3)])
        scn["ops"] = ops
        scn["end"] = False

    def expand(self, scn):
        c = dict(scn)
        c["ops"] = [["raw", "net %s %s %s" % tuple(
            scen.esc(x) for x in o[4:7])] if o[0] == "web" else o
            for o in scn["ops"]]
        n = sum(1 for o in scn["ops"] if o[0] not in ("tick",)) * 4 + 8
        c["ops"] += [["delete"], ["netstat"]] + \
            [["netdone", 0, 7]] * min(n, 400) + [["netstat"]]
        return c

    def fingerprint(self, z, scn):
        return scen.run(z, self.expand(scn))[0].digest()

    def evaluate(self, z, scn, st):
        x = self.expand(scn)
        res, segs = scen.run(z, x)
        v = scen.crash_violation(res)
        if v:
            if res.exit in (95, 96) and self.explosive(
                    dict(scn, ops=[o for o in scn["ops"]
                                   if o[0] not in ("web", "netdone",
                                                   "netcfg", "optbool")]),
                    ()):
                st.notes["inconclusive: explosive document"] += 1
                return None
            return v
        ops = [tuple(o) for o in scn["ops"]]
        n = len(ops)
        for i, (_name, lines) in enumerate(segs):
            for l in lines:
                if l.startswith("G "):
                    return Violation("critical", "op %d (%s): internal "
                                     "failure reported: %s" % (
                                         i, str(x["ops"][i])[:80],
                                         l[2:].replace("%20", " ")[:160]), i)
        v = self.started(ops, segs)
        if v:
            return v
        v = self.wire(scn, ops, segs, st)
        if v:
            return v
        mops = [o if o[0] not in ("netdone", "netcfg", "optbool")
                else ("nop",) for o in ops]
        mops = [("nop",) if o[0] == "web" and self.dead[i] else o
                for i, o in enumerate(mops)]
        v = self.invariants(scn, mops, segs[:n], st)
        if v:
            return v
        v = self.model(scn, mops, segs[:n], st)
        if v:
            return v
        return self.after(segs[n:])

    def wire(self, scn, ops, segs, st):
        """The server's side: who is answered at all, and where."""
        sv = Server(scn["opts"][4])
        ids = set(M.Model(scn["doc"]).objs)
        self.dead = {}
        last = {}
        base = {}
        for i, (op, (_name, lines)) in enumerate(zip(ops, segs)):
            k = op[0]
            r = [l.split(" ")[1:] for l in lines if l.startswith("R ")]
            r = r[0] if r else None

            def bad(what, want, got):
                return Violation("wire", "op %d (%s): %s: expected %s, got "
                                 "%s" % (i, str(op)[:100], what, want, got),
                                 i)
            if k == "netcfg":
                sv.fail = [op[1], op[2]]
                if op[1]:
                    st.faults["ports busy"] += 1
                if op[2]:
                    st.faults["service discovery fails"] += 1
            elif k == "start":
                if r and r[0] == "1" and sv.opt:
                    sv.start()
            elif k == "optbool":
                sv.opt = op[2]
                if r[0] != str(op[2]):
                    return bad("option", op[2], r[0])
                if op[2]:
                    sv.start()
                else:
                    sv.port = 0
                st.faults["services switched by the host"] += 1
            elif k == "netdone":
                if r[0] == "1":
                    st.faults["device answers" if op[2] == 200
                              else "device fails"] += 1
            elif k == "web":
                self.dead[i] = not sv.port
                if r[0] != str(int(bool(sv.port))):
                    return bad("listening", bool(sv.port), r[0])
                st.faults["web request: " + op[1]] += 1
                if sv.port and op[1] == "location":
                    h = {l.split(" ")[2]: unesc(l.split(" ")[3])
                         for l in lines if l.startswith("W hdr ")}
                    w = "http://127.0.0.1:%d" % sv.port
                    if h.get("GingaCC-Server-BaseURL") != w:
                        return bad("base URL", w,
                                   h.get("GingaCC-Server-BaseURL"))
            for l in lines:
                if l.startswith("W announce "):
                    w = "http://127.0.0.1:%d/location" % sv.port
                    if unesc(l.split(" ")[2]) != w:
                        return bad("announced location", w, l)
                elif l.startswith("W send "):
                    u = unesc(l.split(" ")[2])
                    b = json.loads(unesc(l.split(" ")[3]))
                    if "action" in b:
                        o = u.rsplit("/scene/nodes/", 1)[1]
                        if o in ids:    # not the label of an anchor
                            last[o] = b["action"]
                        st.faults["request to a device"] += 1
                elif l.startswith("P ") and " remotePlayerBaseURL " in l:
                    base[l.split(" ")[1]] = l.split(" ")[3]
                elif l == "GONE":
                    for o, a in sorted(last.items()):
                        if a != "stop" and base.get(o, "").startswith("http:"):
                            return bad("last request about %s when the "
                                       "session ended" % o, "stop", a)
                    last = {}
        return None

    def after(self, segs):
        stat = [l.split(" ")[1:] for _n, ls in segs for l in ls
                if l.startswith("R ") and len(l.split(" ")) == 4]
        if len(stat) < 2:
            return None
        if stat[0][2] != "0":
            return Violation("leak", "%s servers left behind" % stat[0][2])
        if stat[1][0] == "0" and stat[1][1] != "0":
            return Violation("leak", "%s client sessions left behind "
                             "after every request completed" % stat[1][1])
        return None
