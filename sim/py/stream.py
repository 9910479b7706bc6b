"""Reference model of what the players of the media framework do."""
import zyg

SIGGEN = "application/x-ginga-siggen"
EXT = {"mp4": "video/mp4", "ogv": "video/ogg", "avi": "video/x-msvideo",
       "mp3": "audio/mp3", "wav": "audio/basic", "ogg": "audio/ogg",
       "mpg": "video/mpeg"}
WAVES = ["sine", "square", "saw", "triangle", "silence", "white-noise",
         "pink-noise", "sine-table", "ticks", "gaussian-noise", "red-noise",
         "blue-noise", "violet-noise"]
ALIAS = {"soundLevel": "volume", "rate": "speed", "balanceLevel": "balance",
         "bassLevel": "bass", "trebleLevel": "treble", "currentTime": "time"}
DEFAULT = {"volume": "100%", "speed": "1", "balance": "0.0", "bass": "0",
           "treble": "0", "time": "indefinite", "mute": "false",
           "freeze": "false", "freq": "440", "wave": "sine"}
SLOW, NOQUERY, NOFRAMES, NOSEEK = 1, 2, 4, 8
FRAME = 40000000
GRAY = 8


def number(s):
    s = s.strip()
    return float(s[:-1]) / 100.0 if s.endswith("%") else float(s)


def kind_of(o):
    """Which stream a media plays."""
    if o.kind != "media":
        return ""
    t = o.props.get("type", "")
    if t == "":
        t = EXT.get(o.props.get("uri", "").split("/")[-1].split(".")[-1], "")
    if t == SIGGEN:
        return "tone"
    return "video" if t.startswith(("video", "audio")) else ""


class Stream(object):
    """What a player of the media framework plays."""

    def __init__(self, kind, base, cfg):
        self.kind, self.base = kind, base
        self.dur, self.flags = cfg
        self.cur = self.target = "NULL"
        self.async_ = False
        self.msgs = []
        self.stacked = []
        self.pos = 0
        self.rate = 1.0
        self.ended = False
        self.pushed = -1
        self.sink = None
        self.shown = None
        self.freeze = False
        self.speed = 1.0
        self.volume = 1.0
        self.mute = False
        self.pan = self.bass = self.treble = 0.0
        self.freq = 440.0
        self.wave = 0
        self.heard = (440.0, 0, 0.8)    # what the tone is made with

    # -------------------------------------------------------- states
    def to(self, target):
        self.target = target
        if self.kind == "tone":
            self.cur = target
            return
        if self.cur == "NULL":
            self.cur = "READY"
            self.pos, self.rate, self.ended = 0, 1.0, False
            self.pushed = -1
            if self.flags & SLOW:
                self.async_ = True
                return
            self.cur = "PAUSED"
            self.msgs.append("state")
        self.proceed()

    def proceed(self):
        if self.async_ or self.cur == self.target:
            return
        self.cur = self.target
        self.msgs.append("state")
        if self.cur == "PLAYING":
            self.push()

    def ready(self):
        """The stream can be played at last."""
        if self.async_:
            self.async_ = False
            self.cur = "PAUSED"
            self.msgs.append("state")
            self.proceed()

    def push(self):
        if self.flags & NOFRAMES or self.ended:
            return
        n = self.pos // FRAME
        if n != self.pushed:
            self.pushed = n
            self.sink = (sum(self.base.encode()) + n) % 8

    def advance(self, diff):
        if self.cur != "PLAYING":
            return
        if self.kind == "tone":
            if diff > 0:
                self.sink = GRAY
            return
        if self.ended:
            return
        self.pos += int(float(diff) * self.rate)
        end = False
        if self.rate > 0 and self.dur >= 0 and self.pos >= self.dur:
            self.pos, end = self.dur, True
        elif self.rate < 0 and self.pos <= 0:
            self.pos, end = 0, True
        self.push()
        if end:
            self.ended = True
            self.msgs.append("eos")

    def drawn(self, eos):
        if self.kind == "tone" and eos:
            return
        if self.sink is not None:
            self.shown, self.sink = self.sink, None

    def known(self):
        return not self.flags & NOQUERY and not self.async_ \
            and self.cur in ("PAUSED", "PLAYING")

    def go(self, rate, pos):
        if self.flags & NOSEEK:
            return
        self.rate = rate
        self.pos = max(0, pos)
        if self.dur >= 0:
            self.pos = min(self.pos, self.dur)
        self.ended = False
        self.pushed = -1
        self.sink = None
        if self.cur == "PLAYING":
            self.push()

    # -------------------------------------------------------- properties
    def prop(self, p, name, value):
        import model as M
        name = ALIAS.get(name, name)
        if name not in DEFAULT:
            return
        if value == "":
            value = DEFAULT[name]
        awake = p.state != M.SLEEP
        if self.kind == "tone":
            if name == "freq":
                self.freq = number(value)
            elif name == "wave" and value in WAVES:
                self.wave = WAVES.index(value)
            elif name == "volume":
                self.volume = number(value)
            if awake:
                h = list(self.heard)
                i = {"freq": 0, "wave": 1, "volume": 2}.get(name)
                if i is not None:
                    h[i] = (self.freq, self.wave, self.volume)[i]
                self.heard = tuple(h)
            return
        if name == "volume":
            self.volume = number(value)
        elif name == "mute":
            self.mute = value.lower() == "true"
        elif name == "freeze":
            self.freeze = value.lower() == "true"
        elif name == "balance":
            self.pan = number(value)
        elif name == "bass":
            self.bass = number(value)
        elif name == "treble":
            self.treble = number(value)
        elif name in ("time", "speed"):
            if self.cur not in ("PAUSED", "PLAYING"):
                self.stacked.append((name, value))
            elif awake:
                self.timed(p, name, value)

    def timed(self, p, name, value):
        import model as M
        known = self.known()
        cur = self.pos if known else 0
        if name == "speed":
            x = float(value)
            if x != 0:
                self.speed = x
                self.go(x, cur)
            return
        if value == "indefinite":
            return
        t = M.parse_time(value.lstrip("+-"))
        if value.startswith("+"):
            if known and self.dur >= 0 and t + cur >= self.dur:
                p.eos = True
            t += cur
        elif value.startswith("-"):
            t = max(0, cur - t)
        self.go(self.speed, t)

    # -------------------------------------------------------- messages
    def pump(self, p):
        ms, self.msgs = self.msgs, []
        for m in ms:
            if m == "eos":
                if self.kind == "video" and not self.freeze:
                    p.eos = True
            elif self.stacked:
                st, self.stacked = self.stacked, []
                for name, value in st:
                    self.prop(p, name, value)

    def text(self):
        if self.kind == "tone":
            return "tone:%s:%.6g:%.6g:%.6g" % ((self.target,) + self.heard)
        return "video:%s:%s:%d:%.6g:%.6g:%d:%.4g:%.6g:%.6g:%.6g" % (
            self.base, self.target, self.pos, self.rate, self.volume,
            self.mute, self.pan, self.bass, self.treble, self.treble)


def make(m, o):
    k = kind_of(o)
    if not k:
        return None
    base = o.props.get("uri", "").split("/")[-1]
    return Stream(k, base, m.streams.get(base, (-1, 0)))


def tell(m, o, action):
    """The media starts, stops, ..."""
    p = o.player
    s = p.stream
    if action == "start":
        if s.kind == "tone":
            s.heard = (s.freq, s.wave, s.volume)
            if m.tonefails:
                s.target = "PLAYING"
                s.cur = "READY"
                p.eos = True
                return
        s.to("PLAYING")
    elif action == "pause":
        if s.kind == "tone" and s.cur == "READY" and m.tonefails:
            s.target = "PAUSED"
            return
        s.to("PAUSED")
    elif action == "resume":
        if s.kind == "tone" and s.cur == "READY" and m.tonefails:
            s.target = "PLAYING"
            return
        if s.kind == "video":
            s.target = "PLAYING"
            s.ready()           # waits for it
        s.to("PLAYING")


def playing(m):
    return [(o.player, o.player.stream) for o in m.objs.values()
            if o.player is not None and o.player.stream is not None]


def gst(m, uri, what):
    for _p, s in playing(m):
        if uri != ("tone" if s.kind == "tone" else s.base):
            continue
        if what == "ready" and s.kind == "video":
            s.ready()
        elif what == "eos" and s.cur in ("PAUSED", "PLAYING"):
            s.ended = True
            s.msgs.append("eos")


def pump(m):
    for p, s in playing(m):
        s.pump(p)


def listed(m):
    return "|".join(zyg.esc(t) for t in sorted(
        s.text() for _p, s in playing(m)))


def config(ops):
    """The streams of a run: basename -> (duration, flags)."""
    return {op[1]: (op[2], op[3]) for op in ops if op and op[0] == "gstcfg"
            and op[1] != "tone"}
