"""Builds conformance drivers from /repo's current working tree.

Only the library sources a driver can reach through its includes are compiled
(same-stem .cpp of every header in the include closure); if the link then
misses a symbol, every library source is compiled.  ccache, keyed on contents,
is used when present; nothing is taken from /repo/_build.
"""
import concurrent.futures as cf
import glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXXFLAGS = ["-O0", "-g0", "-w", "-std=c++11", "-DNDEBUG_VERIF"]
HFLAGS = ["-O0", "-g0", "-w", "-std=c++11"]
INC_RE = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e.pop("CCACHE_DISABLE", None)
    e["CCACHE_MAXSIZE"] = "2G"
    e["LANG"] = e["LC_ALL"] = "C"
    return e


def _gen_config():
    d = os.path.join(BUILD, "generated")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "build_config.h.in")
    txt = open(src, errors="replace").read()
    txt = txt.replace("@PROJECT_SOURCE_DIR@", REPO).replace("@PROJECT_BINARY_DIR@", "/nonexistent")
    txt = re.sub(r"@[A-Z_]+@", "/nonexistent", txt)
    p = os.path.join(d, "build_config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return d


class Tree:
    def __init__(self):
        self.headers = {}
        self.sources = []
        self.bystem = {}
        dirs = set()
        for root in ("core/lib", "ext/lib"):
            for dp, dn, fn in os.walk(os.path.join(REPO, root)):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    if f.endswith((".hpp", ".h")):
                        self.headers.setdefault(f, p)
                        dirs.add(dp)
                    elif f.endswith(".cpp"):
                        self.sources.append(p)
                        self.bystem.setdefault(f[:-4], []).append(p)
        self.incs = ["-I" + _gen_config(), "-I" + os.path.join(VERIF, "harness")] + ["-I" + d for d in sorted(dirs)]
        self._inc = {}

    def includes(self, path):
        if path not in self._inc:
            try:
                t = open(path, errors="replace").read()
            except OSError:
                t = ""
            self._inc[path] = [os.path.basename(x) for x in INC_RE.findall(t)]
        return self._inc[path]

    def closure(self, main):
        seen, todo, srcs = set(), [main], set()
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            if p.endswith(".cpp") and p != main:
                srcs.add(p)
            for h in self.includes(p):
                hp = self.headers.get(h)
                if hp is None:
                    lp = os.path.join(VERIF, "harness", h)
                    if os.path.exists(lp):
                        todo.append(lp)
                    continue
                todo.append(hp)
                stem = h.rsplit(".", 1)[0]
                for s in self.bystem.get(stem, []) + self.bystem.get(stem + "_Generated", []):
                    todo.append(s)
        return sorted(srcs)


def _compile(src, obj, flags, incs):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.o" % (obj[:-2], os.getpid())
    cmd = (["ccache"] if shutil.which("ccache") else []) + ["g++"] + flags + incs + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, capture_output=True, text=True, env=_env())
    if p.returncode:
        err = "\n".join(x for x in p.stderr.splitlines() if "error" in x)[:1500]
        raise BuildError("compile of %s failed:\n%s\n%s" % (src, err, p.stderr[:1500]))
    os.replace(tmp, obj)
    return obj


def build(name, main=None, verbose=False):
    """Build /verif/harness/<name>.cpp; returns the executable's path."""
    t0 = time.time()
    tree = Tree()
    main = main or os.path.join(VERIF, "harness", name + ".cpp")
    bdir = os.path.join(BUILD, "chk", name)
    odir = os.path.join(bdir, "obj")
    os.makedirs(odir, exist_ok=True)
    exe = os.path.join(bdir, name)

    def objs(srcs):
        jobs = [(main, os.path.join(odir, "main.o"), HFLAGS)]
        for s in srcs:
            rel = os.path.relpath(s, REPO).replace("/", "__")
            jobs.append((s, os.path.join(odir, rel[:-4] + ".o"), CXXFLAGS))
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            return list(ex.map(lambda j: _compile(j[0], j[1], j[2], tree.incs), jobs))

    def link(os_):
        tmp = exe + ".%d" % os.getpid()
        p = subprocess.run(["g++"] + os_ + ["-o", tmp], capture_output=True, text=True, env=_env())
        if p.returncode == 0:
            os.replace(tmp, exe)
        return p

    srcs = tree.closure(main)
    p = link(objs(srcs))
    if p.returncode:
        p = link(objs(tree.sources))
        if p.returncode:
            raise BuildError("link of %s failed:\n%s" % (name, p.stderr[-3000:]))
        srcs = tree.sources
    if verbose:
        print("built %s: %d library sources, %.1fs" % (name, len(srcs), time.time() - t0))
    return exe, len(srcs)


if __name__ == "__main__":
    for n in sys.argv[1:]:
        build(n, verbose=True)
