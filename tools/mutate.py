#!/usr/bin/env python3
"""mutate.py [--seed N] [--count N] [--files A.cpp,B.cpp] [--secs S] [--out F]

Looks for gaps: makes small changes to lib/*.cpp (in memory; nothing in the
repository is touched), builds the simulator with each and gives every
property a short search.  Prints the changes nothing noticed.
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim")
sys.path.insert(0, V + "/sim/py")
SKIP = re.compile(r"TRACE|WARNING|ERROR|g_assert|DEBUG|^\s*(//|\*|/\*|#)|"
                  r"unlikely \(!parser_|_opengl|gltexture|case |PROP_DEBUG|"
                  r"msg_|GL::|g_return_|opengl")
FILES = {
    "Formatter.cpp": "C11 C17 C12 C10 C03", "Document.cpp": "C11 C17 C14 C06",
    "Event.cpp": "C01 C06 C02", "Object.cpp": "C05 C04 C09 C07",
    "Composition.cpp": "C02 C03 C05 C08",
    "Context.cpp": "C02 C03 C06 C05 C07",
    "Switch.cpp": "C07 C02", "Media.cpp": "C04 C10 C09 C08 C12",
    "MediaSettings.cpp": "C10 C09", "Predicate.cpp": "C06 C07",
    "Parser.cpp": "C15 C14 C06 C07 C12 C09", "Player.cpp": "C12 C04 C20 C09 C13",
    "PlayerAnimator.cpp": "C13", "PlayerText.cpp": "C20 C16",
    "PlayerImage.cpp": "C20 C16", "PlayerVideo.cpp": "C21 C16",
    "PlayerSigGen.cpp": "C21 C16", "PlayerLua.cpp": "C18",
    "PlayerRemote.cpp": "C19", "WebServices.cpp": "C19 C16",
    "aux-ginga.cpp": "C15 C12 C13 C14 C04 C20", "ginga.cpp": "C22",
    "gingagui/MainWindow.cpp": "C24", "gingagui/Draw.cpp": "C24",
    "gingagui/FullscreenWindow.cpp": "C24",
    "gingagui/TvControlWindow.cpp": "C24", "gingagui/gingagui.cpp": "C24",
    "gingagui/SaveLoadSettings.cpp": "C23 C24",
    "gingagui/AboutWindow.cpp": "C24", "gingagui/HelpWindow.cpp": "C24",
}


def mutants(line):
    """Changed versions of a line of code."""
    out = []
    s = line.rstrip("\n")
    if SKIP.search(s) or s.strip() in ("", "{", "}", "};"):
        return out
    m = re.match(r"^(\s*)(?:else )?if \((.*)\)\s*$", s)
    if m:
        out.append(s.replace("if (", "if (!(", 1) + ")")
    for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "),
                 (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
                 (" && ", " || "), (" || ", " && "), (" + ", " - "),
                 (" - ", " + "), (" * ", " / "), ("true", "false"),
                 ("false", "true"), ("return true", "return false"),
                 ("continue;", "break;"), ("++", "--"),
                 (" += ", " = "), ("begin ()", "end ()"), (", 0)", ", 1)"),
                 (" = 0;", " = 1;"), ("push_back", "push_front")):
        i = s.find(a)
        while i >= 0:
            out.append(s[:i] + b + s[i + len(a):])
            i = s.find(a, i + 1)
    if re.match(r"^\s+[\w>\-\.\(\)\[\]:\*& ]*\w+ ?\(.*\);\s*$", s) \
            and "return" not in s and "delete" not in s.split():
        out.append(re.match(r"^\s*", s).group(0) + ";")
    if re.match(r"^\s+[\w>\-\.\[\]\*]+ [\+\-]?= .*;\s*$", s):
        out.append(re.match(r"^\s*", s).group(0) + ";")
    return out


BASE = []


class Base(object):
    def __init__(self):
        import build
        self.b = build
        build.build()
        b = build
        self.cfl = b.sh(["pkg-config", "--cflags"] + b.PKGS)
        self.lfl = b.sh(["pkg-config", "--libs"] + b.PKGS)
        self.san = ["-fsanitize=address,undefined",
                    "-fno-sanitize=vptr,alignment",
                    "-fno-sanitize-recover=undefined"]
        self.flags = ["-std=c++11", "-O1", "-g1", "-fno-omit-frame-pointer",
                      "-D_GLIBCXX_ASSERTIONS", "-DGINGA_SIM=1",
                      "-Wno-deprecated-declarations", "-w",
                      "-I" + b.HERE + "/stubs",
                      "-I" + b.REPO + "/lib",
                      "-I" + b.REPO + "/src"] + self.san
        h = b.digest(*(b.readall(b.REPO + "/lib", ".h")
                       + b.readall(b.HERE + "/stubs", ".h")
                       + b.readall(b.HERE + "/stubs/libgssdp", ".h")
                       + b.readall(b.HERE + "/src", ".h")),
                     *self.flags, *self.cfl)
        progs = b.digest(*(b.readall(b.REPO + "/src", ".cpp")
                           + b.readall(b.REPO + "/src/gingagui", ".cpp")
                           + b.readall(b.REPO + "/src/gingagui", ".h")))
        self.objs = {}
        for s in b.lib_sources() + [
                os.path.join(b.HERE, "src", f)
                for f in sorted(os.listdir(b.HERE + "/src"))
                if f.endswith(".cpp")]:
            d = b.digest(*([progs] if os.path.basename(s) in b.PROGS
                           else []), h, os.path.basename(s), open(s, "rb").read())
            self.objs[s] = "%s/obj/%s-%s.o" % (
                b.OUT, os.path.basename(s)[:-4], d)
            assert os.path.exists(self.objs[s]), s


def where(base, f):
    d = "/src/" if f == "ginga.cpp" or "gui" in f else "/lib/"
    return base.b.REPO + d + f


def build_mutant(base, d, src, text):
    f = d + "/" + os.path.basename(src)
    inc = []
    if "/src/" in src:          # part of a program: a copy of all of it
        import shutil
        shutil.rmtree(d + "/src", ignore_errors=True)
        shutil.copytree(base.b.REPO + "/src", d + "/src")
        inc = ["-I" + d + "/src"]
        f = d + "/src/" + src.split("/src/")[1]
        src = [s for s in base.objs if os.path.basename(s) ==
               ("gui.cpp" if "gingagui" in src else "app.cpp")][0]
    open(f, "w").write(text)
    if inc:
        f = src
    o = d + "/m.o"
    r = subprocess.run(["g++"] + inc + base.flags + base.cfl + ["-c", f, "-o", o],
                       capture_output=True, text=True)
    if r.returncode:
        return None
    exe = d + "/sim"
    objs = [o if s == src else x for s, x in base.objs.items()]
    r = subprocess.run(["g++"] + base.san + ["-o", exe] + objs
                       + ["-Wl,--wrap=" + w for w in base.b.WRAP]
                       + base.lfl + ["-ldl", "-lpthread"],
                       capture_output=True, text=True)
    return None if r.returncode else exe


def try_one(args):
    src, n, new, secs, seed = args
    base = BASE[0]
    import registry
    import runner
    import scen  # noqa: F401
    import zyg
    sys.setrecursionlimit(10000)
    d = "/tmp/mut/w%d" % os.getpid()
    os.makedirs(d, exist_ok=True)
    lines = open(src).read().split("\n")
    old = lines[n]
    lines[n] = new
    name = src.split("/lib/" if "/lib/" in src else "/src/")[-1]
    exe = build_mutant(base, d, src, "\n".join(lines))
    res = {"file": name, "line": n + 1, "old": old.strip(),
           "new": new.strip(), "by": None}
    if exe is None:
        res["by"] = "compiler"
        return res
    first = FILES.get(name, "").split()
    order = first + [p for p in sorted(registry.PROPS) if p not in first]
    root = zyg.scratch_root()
    try:
        z = zyg.Zygote(exe, root, 1)
        for pid in order:
            P = registry.PROPS[pid]()
            st = runner.Stats()
            end = time.time() + (secs * 2 if pid in first else secs)
            i = 0
            while time.time() < end:
                s = runner.seed_of(seed, pid, i)
                i += 1
                scn = P.generate(random.Random(s), i, "quick")
                if scn is None:
                    continue
                v = P.evaluate(z, scn, st)
                if v is not None:
                    res["by"] = pid
                    res["why"] = v.text[:160]
                    return res
        z.close()
    except Exception as e:
        res["by"] = "harness"
        res["why"] = repr(e)[:200]
    finally:
        import shutil
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--count", type=int, default=40)
    a.add_argument("--files", default=",".join(sorted(FILES)))
    a.add_argument("--secs", type=float, default=4)
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--out", default="/tmp/mut/out.jsonl")
    a.add_argument("--again", help="the survivors in this file")
    a = a.parse_args()
    base = Base()
    BASE.append(base)
    r = random.Random(a.seed)
    todo = []
    for f in a.files.split(","):
        src = where(base, f)
        fn = ""
        for n, l in enumerate(open(src).read().split("\n")):
            m = re.match(r"^(?:\w[\w :\*&<>]*[ \*&])?(?:(\w+)::)?(\w+) \(", l)
            if m:
                fn = m.group(2)
            if re.search(r"toString|asString|AsString|Debugging|errElt", fn):
                continue
            ms = mutants(l)
            if ms:
                todo.append((src, n, r.choice(ms)))
    r.shuffle(todo)
    todo = todo[:a.count]
    if a.again:
        todo = []
        for l in open(a.again):
            x = json.loads(l)
            if x["by"] is not None:
                continue
            src = where(base, x["file"])
            ls = open(src).read().split("\n")
            n = [i for i, t in enumerate(ls) if t.strip() == x["old"]]
            if n:
                n = min(n, key=lambda i: abs(i - x["line"] + 1))
                todo.append((src, n, x["new"]))
    c = {}
    with mp.Pool(a.jobs, maxtasksperchild=1) as pool:
        for res in pool.imap_unordered(
                try_one, [(s, n, m, a.secs, "m%d" % a.seed)
                          for s, n, m in todo], chunksize=1):
            c[res["by"]] = c.get(res["by"], 0) + 1
            with open(a.out, "a") as f:
                f.write(json.dumps(res) + "\n")
            if res["by"] in (None, "harness"):
                print("%s:%d\n  - %s\n  + %s\n  %s" % (
                    res["file"], res["line"], res["old"], res["new"],
                    res.get("why", "")), flush=True)
    print(c)


if __name__ == "__main__":
    main()
