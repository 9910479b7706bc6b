#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every lib/*.cpp of the project's own list is compiled (nothing is left out:
the two packages missing from this sandbox, nclua and gssdp, are replaced by
simulated ones), together with the simulator sources.  Objects are cached by
content hash under /verif/build, so a second check in the same copy only
recompiles what changed.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
PKGS = ('glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 '
        'libxml-2.0 gdk-3.0 gdk-pixbuf-2.0 cairo fontconfig pango pangocairo '
        'librsvg-2.0 gstreamer-1.0 gstreamer-base-1.0 gstreamer-app-1.0 '
        'gstreamer-video-1.0 gtk+-3.0 atk jsoncpp lua5.3').split()
CXX = 'g++'
PROGS = ('app.cpp', 'gui.cpp')      # they include the programs' sources
WRAP = ['_ZN5ginga5Event10transitionENS0_10TransitionE']


def sh(cmd):
    return subprocess.check_output(cmd, text=True).split()


def lib_sources():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(LIBGINGA_SOURCES([^)]*)\)', txt)
    srcs = re.findall(r'lib/[A-Za-z0-9_-]+\.cpp', m.group(1)) if m else []
    if not srcs:
        srcs = ['lib/' + f for f in sorted(os.listdir(REPO + '/lib'))
                if f.endswith('.cpp')]
    srcs = [s for s in srcs if os.path.basename(s) != 'PlayerHTML.cpp']
    return [os.path.join(REPO, s) for s in srcs]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def readall(d, ext):
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(ext):
            out.append(f.encode() + open(os.path.join(d, f), 'rb').read())
    return out


def build(verbose=False, asan=True):
    os.makedirs(OUT + '/obj', exist_ok=True)
    lock = open(OUT + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    cfl = sh(['pkg-config', '--cflags'] + PKGS)
    lfl = sh(['pkg-config', '--libs'] + PKGS)
    san = (['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment',
            '-fno-sanitize-recover=undefined'] if asan else [])
    base = ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer',
            '-D_GLIBCXX_ASSERTIONS', '-DGINGA_SIM=1',
            '-Wno-deprecated-declarations', '-w',
            '-I' + HERE + '/stubs', '-I' + REPO + '/lib',
            '-I' + REPO + '/src'] + san
    hdr = digest(*(readall(REPO + '/lib', '.h') + readall(HERE + '/stubs', '.h')
                   + readall(HERE + '/stubs/libgssdp', '.h')
                   + readall(HERE + '/src', '.h')), *base, *cfl)
    srcs = lib_sources() + [os.path.join(HERE, 'src', f)
                            for f in sorted(os.listdir(HERE + '/src'))
                            if f.endswith('.cpp')]
    progs = digest(*(readall(REPO + '/src', '.cpp')
                     + readall(REPO + '/src/gingagui', '.cpp')
                     + readall(REPO + '/src/gingagui', '.h')))
    jobs = []
    for s in srcs:
        h = digest(*([progs] if os.path.basename(s) in PROGS else []), hdr, os.path.basename(s), open(s, 'rb').read())
        jobs.append((s, '%s/obj/%s-%s.o' % (OUT, os.path.basename(s)[:-4], h)))
    key = digest(*[o for _, o in jobs], *WRAP, *lfl)
    exe = '%s/sim-%s' % (OUT, key)
    if os.path.exists(exe):
        return exe

    def comp(j):
        s, o = j
        if os.path.exists(o):
            return None
        # The arena itself must not be instrumented.
        flags = [f for f in base if not (s.endswith('/arena.cpp')
                                         and f.startswith('-fsanitize'))]
        if s.endswith('/arena.cpp') and asan:
            flags += ['-D__SANITIZE_ADDRESS__=1']
        r = subprocess.run([CXX] + flags + cfl + ['-c', s, '-o', o + '.tmp'],
                           capture_output=True, text=True)
        if r.returncode == 0 and os.path.basename(s) in PROGS:
            # A function of the toolkit that is not simulated.
            u = subprocess.run(['nm', '-u', o + '.tmp'], capture_output=True,
                               text=True).stdout
            m = re.findall(r' U (g[td]k_(?!keyval_)\w+)', u)
            if m:
                r.returncode = 1
                r.stderr = 'not simulated: %s\n' % m
        if r.returncode != 0 and os.path.basename(s) in PROGS:
            # Only the property about the programs needs them.
            sys.stderr.write(r.stderr[-4000:])
            r = subprocess.run([CXX] + flags + ['-DSIM_NO_APP'] + cfl
                               + ['-c', s, '-o', o + '.tmp'],
                               capture_output=True, text=True)
        if r.returncode != 0:
            return s + '\n' + r.stderr
        os.rename(o + '.tmp', o)
        return None
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, order) if e]
    if errs:
        sys.stderr.write('\n'.join(errs))
        raise SystemExit(3)
    def link():
        cmd = ([CXX] + san + ['-o', exe + '.tmp'] + [o for _, o in jobs]
               + ['-Wl,--wrap=' + w for w in WRAP] + lfl
               + ['-ldl', '-lpthread'])
        return subprocess.run(cmd, capture_output=True, text=True)
    r = link()
    if r.returncode != 0:       # without the programs then
        sys.stderr.write(r.stderr[-4000:])
        for s, o in jobs:
            if os.path.basename(s) in PROGS:
                subprocess.run([CXX] + base + ['-DSIM_NO_APP'] + cfl
                               + ['-c', s, '-o', o])
        r = link()
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit(3)
    os.rename(exe + '.tmp', exe)
    # Drop executables and objects of other trees (keeps the cache small).
    keep = set(o for _, o in jobs)
    now = [os.path.join(OUT + '/obj', f) for f in os.listdir(OUT + '/obj')]
    if len(now) > 600:
        for f in now:
            if f not in keep:
                os.unlink(f)
    exes = sorted((f for f in os.listdir(OUT) if f.startswith('sim-')),
                  key=lambda f: os.path.getmtime(os.path.join(OUT, f)))
    for f in exes[:-4]:
        os.unlink(os.path.join(OUT, f))
    return exe


if __name__ == '__main__':
    print(build(True, '--noasan' not in sys.argv))
