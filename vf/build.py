"""Content-hashed builder: compiles /repo's current sources (sanitized) and harnesses.

Objects are cached under /verif/build/obj by the hash of (command, source and
every header it included, by content), so a changed file is always rebuilt
whatever its time stamp, and an unchanged one never is.
"""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 4)))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,shift-base", "-fsanitize-recover=undefined",
       "-fno-omit-frame-pointer"]
BASE = ["-g1", "-w", "-fPIC"]
CXX, CC = "clang++", "clang"


class BuildError(Exception):
    pass


_fh = {}
_lock = threading.Lock()


def fhash(p):
    with _lock:
        if p in _fh:
            return _fh[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _fh[p] = h
    return h


def lib_dirs():
    r = []
    for b in ("core/lib", "ext/lib"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, b))):
            r.append(d)
    return r


def lib_sources():
    r = []
    for d in lib_dirs():
        for f in sorted(os.listdir(d)):
            if f.endswith((".cpp", ".c", ".cc", ".cxx")):
                r.append(os.path.join(d, f))
    return r


def gen_config():
    """build_config.h as CMake would write it, in our own build tree."""
    g = os.path.join(BUILD, "generated")
    os.makedirs(g, exist_ok=True)
    src = open(os.path.join(REPO, "build_config.h.in")).read()
    import re
    vals = {"PROJECT_SOURCE_DIR": REPO, "PROJECT_BINARY_DIR": os.path.join(REPO, "_build")}
    def sub(m):
        return vals.get(m.group(1), REPO)
    src = re.sub(r"[@$]\{?(\w+)\}?@?", lambda m: vals.get(m.group(1), m.group(0)) if m.group(1) in vals else m.group(0), src)
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), REPO + "/data"), src)
    src = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), REPO + "/data"), src)
    p = os.path.join(g, "build_config.h")
    if not os.path.exists(p) or open(p).read() != src:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(src)
        os.replace(tmp, p)
    return g


def incs():
    return ["-I" + gen_config()] + ["-I" + d for d in lib_dirs()]


def compile_one(src, flags, inc):
    cxx = not src.endswith(".c")
    cmd = [CXX if cxx else CC] + (["-std=c++14" if src.startswith(VERIF) else "-std=c++11"] if cxx else []) + flags + inc
    ck = hashlib.sha256("\0".join(cmd + [src]).encode()).hexdigest()
    od = os.path.join(BUILD, "obj", ck[:2])
    os.makedirs(od, exist_ok=True)
    meta = os.path.join(od, ck + ".json")
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if os.path.exists(m["obj"]) and all(fhash(p) == h for p, h in m["deps"].items()):
                return m["obj"]
        except (ValueError, KeyError, OSError):
            pass
    tag = "%d.%d" % (os.getpid(), threading.get_ident())
    tmpo = os.path.join(od, ck + "." + tag + ".o")
    dep = tmpo + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmpo], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, "\n".join([l for l in p.stderr.splitlines() if "error:" in l][:12]) or p.stderr[-2000:]))
    txt = open(dep).read().replace("\\\n", " ").replace("\\ ", "\1")
    deps = [x.replace("\1", " ") for x in txt.split(":", 1)[1].split()]
    os.unlink(dep)
    dh = {d: fhash(d) for d in set(deps + [src]) if not d.startswith("/usr/")}
    obj = os.path.join(od, ck + ".o")
    os.replace(tmpo, obj)
    tmpm = meta + "." + tag
    json.dump({"obj": obj, "deps": dh}, open(tmpm, "w"))
    os.replace(tmpm, meta)
    return obj


def compile_many(srcs, flags, inc):
    # biggest first: the slowest units start early
    srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(JOBS) as ex:
        return dict(zip(srcs, ex.map(lambda s: compile_one(s, flags, inc), srcs)))


def link(out, objs, extra=()):
    rsp = out + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    p = subprocess.run([CXX] + SAN + ["-o", out, "@" + rsp] + list(extra), capture_output=True, text=True)
    return p.returncode, p.stderr


def closure_file(name):
    return os.path.join(VERIF, "closures", name + ".txt")


def build_harness(name, sources, opt="-O0", extra_flags=(), extra_link=()):
    """Build /verif/harness/<sources> against the library sources they need.

    closures/<name>.txt holds the library units the last full link pulled in;
    it only saves time: when a link against them fails, everything is compiled.
    """
    flags = [opt] + BASE + SAN + ["-DVF_UBSAN"] + list(extra_flags)
    libflags = [opt] + BASE + SAN
    inc = incs()
    hs = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in sources]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", name)
    allsrc = lib_sources()
    want = None
    if os.path.exists(closure_file(name)):
        have = set(allsrc)
        want = [os.path.join(REPO, l.strip()) for l in open(closure_file(name)) if l.strip()]
        want = [w for w in want if w in have]
    tasks = [(h, flags, inc + ["-I" + os.path.join(VERIF, "harness")]) for h in hs]
    def go(libsrcs):
        t = tasks + [(s, libflags, inc) for s in sorted(libsrcs, key=lambda s: -os.path.getsize(s))]
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda a: compile_one(*a), t))
    if want:
        objs = go(want)
        rc, err = link(out, objs, extra_link)
        if rc == 0:
            return out
    objs = go(allsrc)
    nh = len(hs)
    ar = out + ".a"
    if os.path.exists(ar):
        os.unlink(ar)
    order = sorted(allsrc, key=lambda s: -os.path.getsize(s))
    rsp = ar + ".rsp"
    open(rsp, "w").write("\n".join(objs[nh:]))
    subprocess.run(["ar", "rcsP", ar, "@" + rsp], check=True, capture_output=True)
    mp = out + ".map"
    rc, err = link(out, objs[:nh] + ["-Wl,--start-group", ar, "-Wl,--end-group"], list(extra_link) + ["-Wl,-t"])
    if rc:
        raise BuildError("link failed: %s\n%s" % (name, err[-4000:]))
    if os.environ.get("VF_SAVE_CLOSURE"):
        p = subprocess.run([CXX] + SAN + ["-o", out] + objs[:nh] + [ar, "-Wl,-t"] + list(extra_link), capture_output=True, text=True)
        bases = {os.path.basename(o): s for o, s in zip(objs[nh:], order)}
        used = sorted(os.path.relpath(s, REPO) for b, s in bases.items() if b in p.stdout)
        os.makedirs(os.path.dirname(closure_file(name)), exist_ok=True)
        open(closure_file(name), "w").write("\n".join(used) + "\n")
    os.unlink(ar)
    return out


def build_app(name, src, opt="-O0"):
    """An application of /repo (its own main), sanitized."""
    return build_harness(name, [os.path.join(REPO, src)], opt)
