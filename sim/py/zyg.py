"""Runs plans in forked children of a simulator zygote."""
import os
import shutil
import subprocess
import hashlib

HEX = "0123456789abcdef"


def esc(s):
    out = []
    for b in s.encode("utf-8", "surrogateescape"):
        if b <= 32 or b == 37 or b >= 127:
            out.append("%%%02x" % b)
        else:
            out.append(chr(b))
    return "".join(out) or "%"


def unesc(s):
    if s == "%":
        return ""
    if "%" not in s:
        return s
    out = bytearray()
    b = s.encode("latin-1", "replace")
    i = 0
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode("utf-8", "surrogateescape")


class RunResult(object):
    __slots__ = ("log", "exit", "signal", "stderr", "ops")

    def __init__(self, log, exit_, signal, stderr):
        self.log = log
        self.exit = exit_
        self.signal = signal
        self.stderr = stderr
        self.ops = None

    def digest(self):
        h = hashlib.sha256()
        h.update("\n".join(self.log).encode())
        h.update(("|%d|%d" % (self.exit, self.signal)).encode())
        return h.hexdigest()

    def segments(self):
        """[(op name, [lines])] in order."""
        if self.ops is None:
            ops = []
            cur = None
            for l in self.log:
                if l.startswith("> "):
                    cur = []
                    ops.append((l.split(" ", 2)[2], cur))
                elif cur is not None:
                    cur.append(l)
            self.ops = ops
        return self.ops

    def crashed(self):
        return self.exit != 0 or self.signal != 0


class Zygote(object):
    """One simulator process serving plans one at a time.

    Every plan runs in a scratch directory with a fixed-length path, so a
    plan's execution does not depend on which worker runs it.
    """

    def __init__(self, exe, root, slot):
        self.exe = exe
        self.root = root
        self.dir = os.path.join(root, "w%03d" % slot)
        self.err = os.path.join(root, "e%03d" % slot)
        self.proc = None
        os.makedirs(self.dir, exist_ok=True)

    def _spawn(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": self.root, "LC_ALL": "C",
               "TZ": "UTC", "XDG_CACHE_HOME": self.root,
               "GIO_USE_VFS": "local", "GSETTINGS_BACKEND": "memory",
               "GST_REGISTRY": os.path.join(self.root, "gst.bin"),
               "GST_REGISTRY_FORK": "no", "GST_PLUGIN_SYSTEM_PATH": "",
               "GST_PLUGIN_PATH": "",
               "G_SLICE": "always-malloc"}
        self.proc = subprocess.Popen(
            ["setarch", "-R", self.exe, self.err] if NO_ASLR
            else [self.exe, self.err], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
            cwd="/")

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None

    def put_files(self, files):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for name, data in files.items():
            p = os.path.join(self.dir, name)
            d = os.path.dirname(p)
            if d != self.dir:
                os.makedirs(d, exist_ok=True)
            if isinstance(data, str):
                data = data.encode()
            with open(p, "wb") as f:
                f.write(data)

    def run(self, text, files=None):
        """text: plan text with @DIR@ standing for the scratch directory."""
        if files is not None:
            self.put_files(files)
        data = text.replace("@DIR@", self.dir).encode()
        for attempt in (0, 1):
            if self.proc is None or self.proc.poll() is not None:
                self._spawn()
            try:
                self.proc.stdin.write(b"PLAN %d\n" % len(data) + data)
                self.proc.stdin.flush()
                return self._read()
            except (BrokenPipeError, EOFError):
                self.proc.kill()
                self.proc.wait()
                self.proc = None
        raise RuntimeError("simulator process keeps dying")

    def _read(self):
        log = []
        out = self.proc.stdout
        d = self.dir
        while True:
            l = out.readline()
            if not l.endswith(b"\n"):
                raise EOFError()
            s = l[:-1].decode("latin-1")
            if s.startswith("END "):
                a = s.split()
                err = ""
                if a[1] != "0" or a[2] != "0":
                    try:
                        with open(self.err, "rb") as f:
                            err = f.read(200000).decode("latin-1")
                    except OSError:
                        pass
                return RunResult(log, int(a[1]), int(a[2]), err)
            if d in s:
                s = s.replace(d, "@DIR@")
            log.append(s)


NO_ASLR = False


def scratch_root():
    """A fresh, fixed-length scratch root."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    for i in range(100000):
        p = "%s/gsim%05d%02d" % (base, os.getpid() % 100000, i % 100)
        try:
            os.mkdir(p, 0o700)
            return p
        except FileExistsError:
            continue
    raise RuntimeError("no scratch root")
