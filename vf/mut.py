#!/usr/bin/env python3
"""Development tool (no check uses it): coverage of a property's anchor files by
its own harness, and random one-token mutants of the covered lines.

usage: mut.py cov PID            uncovered functions and line coverage
       mut.py run PID N [SEED]   N mutants in a private clone; survivors are listed
Works in /tmp/mut only; never touches /repo.
"""
import json, os, random, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/mut")
SRC = os.environ.get("MUT_SRC", "/repo")
R = W + "/repo"
os.makedirs(W, exist_ok=True)
os.environ["VF_REPO"] = R
os.environ["VF_BUILD"] = W + "/build"
os.environ["VF_EVIDENCE"] = W + "/ev"
sys.path.insert(0, os.path.join(HERE, "vf"))
if not os.path.isdir(R):
    subprocess.check_call(["git", "clone", "-q", SRC, R])
subprocess.check_call("git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % SRC, shell=True, cwd=R)
import build
import props
P = {p: d for p, d in props.PROPS.items()}


def coverage(pid):
    p = P[pid]
    b0, s0, base0 = build.BUILD, build.SAN, build.BASE
    build.BUILD = W + "/cov"
    build.SAN = []
    build.BASE = base0 + ["-fprofile-instr-generate", "-fcoverage-mapping"]
    srcs = list(p["sources"])
    def lnk(out, objs, extra=()):
        rsp = out + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        q = subprocess.run(["clang++", "-fprofile-instr-generate", "-fcoverage-mapping", "-o", out, "@" + rsp] + [e for e in extra if "sanit" not in e], capture_output=True, text=True)
        return q.returncode, q.stderr
    l0 = build.link
    build.link = lnk
    flags = [f for f in p.get("flags", ())]
    exe = build.build_harness(pid.lower(), srcs, "-O0", flags + ["-UVF_UBSAN"], p.get("link", ()))
    build.link, build.BUILD, build.SAN, build.BASE = l0, b0, s0, base0
    d = W + "/cov/run_" + pid
    subprocess.call(["rm", "-rf", d])
    os.makedirs(d)
    ps = []
    for i in range(8):
        e = dict(os.environ, LLVM_PROFILE_FILE="%s/%d.profraw" % (d, i), VF_REPO_DIR=R, VF_VERIF_DIR=HERE, HOME=d)
        ps.append(subprocess.Popen([exe, "--seed", "1", "--tier", "quick", "--shard", "%d/8" % i, "--out", "%s/o%d" % (d, i)], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for q in ps:
        q.wait()
    raws = [d + "/" + f for f in os.listdir(d) if f.endswith(".profraw")]
    subprocess.check_call(["llvm-profdata", "merge", "-o", d + "/p.profdata"] + raws)
    files = [os.path.join(R, f) for f in p["files"]]
    out = subprocess.run(["llvm-cov", "export", exe, "-instr-profile=" + d + "/p.profdata"] + files, capture_output=True, text=True).stdout
    J = json.loads(out)["data"][0]
    lines = {}
    for f in J["files"]:
        cov, state = {}, None
        segs = f["segments"]
        # line is covered when a counted region with count>0 is active at its start or begins on it
        cur = None
        last = 1
        for s in segs:
            ln, col, cnt, has, ent = s[:5]
            for x in range(last, ln):
                if cur is not None:
                    cov[x] = max(cov.get(x, 0), cur)
            if cur is not None:
                cov[ln] = max(cov.get(ln, 0), cur) if ln in cov else cur
            cur = cnt if has else None
            if cur is not None:
                cov[ln] = cur if ent else max(cov.get(ln, 0), cur)
            last = ln
            if cur is not None:
                last = ln + 0
        lines[f["filename"]] = cov
    fn = {}
    for f in J["functions"]:
        for x in f["filenames"][:1]:
            if x in files:
                fn.setdefault(x, {})
                k = f["name"]
                fn[x][k] = max(fn[x].get(k, 0), f["count"])
    return lines, fn, J


def demangle(n):
    n = n.split(":")[-1] if ":" in n else n
    return subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()


OPS = [(r"(?<![<\-=>])<=(?!=)", "<"), (r"(?<![<>\-=])>=(?!=)", ">"), (r" < (?!<)", " <= "), (r" > (?!>)", " >= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"),
       (r"(?<![\w.\"'])(\d+)(?![\w.\"'x])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])(\d+)(?![\w.\"'x])", lambda m: str(max(0, int(m.group(1)) - 1))), (r"(?<![\w.])(\d+\.\d*)(?![\w])", lambda m: repr(float(m.group(1)) * 1.01 + (0.5 if float(m.group(1)) == 0 else 0))),
       (r"\bif ?\((.*)\)\s*\{?\s*$", None), (r"^(\s*)([\w.\->\[\]():*]+(?: =| \+=| -=).*;)\s*$", "del"), (r"^(\s*)([\w.\->]+\(.*\);)\s*$", "del"), (r"^(\s*)(break|continue);", "del"),
       (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\.begin\(\)", ".end()"), (r"\blower_bound\b", "upper_bound"), (r"\bupper_bound\b", "lower_bound")]


def mutants(files, cov, n, rng, fixlines=None):
    cand = []
    for f in files:
        L = open(f, errors="replace").read().split("\n")
        c = cov.get(f, {})
        for i, l in enumerate(L, 1):
            if c.get(i, 0) <= 0:
                continue
            code = l.split("//")[0]
            if not code.strip() or "throw" in code.lower() or "THROW" in code or code.strip().startswith(("#", "*", "/*")):
                continue
            for k, (rx, rep) in enumerate(OPS):
                for m in re.finditer(rx, code):
                    pre = code[:m.start()]
                    if pre.count('"') % 2:
                        continue
                    if rep == "del":
                        new = m.group(1) + ";" + code[m.end():]
                    elif rep is None:
                        new = code[:m.start(1)] + "!(" + m.group(1) + ")" + code[m.end(1):]
                        if m.group(1).count("(") != m.group(1).count(")"):
                            continue
                    else:
                        r = rep(m) if callable(rep) else rep
                        new = code[:m.start()] + r + code[m.end():]
                    if new.rstrip() != code.rstrip():
                        cand.append((f, i, l, new))
    by = {}
    for c in cand:
        by.setdefault((c[0], c[1]), []).append(c)
    keys = sorted(by)
    rng.shuffle(keys)
    return [rng.choice(by[k]) for k in keys[:n]], len(keys)


def main():
    mode, pid = sys.argv[1], sys.argv[2]
    cov, fn, J = coverage(pid)
    files = [os.path.join(R, f) for f in P[pid]["files"]]
    if mode == "cov":
        for f in files:
            c = cov.get(f, {})
            t, k = len(c), sum(1 for v in c.values() if v > 0)
            print("%s: %d of %d lines" % (os.path.relpath(f, R), k, t))
            for name, cnt in sorted(fn.get(f, {}).items()):
                if cnt == 0:
                    print("    never:", demangle(name)[:150])
            if len(sys.argv) > 3:
                z = sorted(x for x, v in c.items() if v == 0)
                L = open(f, errors="replace").read().split("\n")
                for x in z:
                    s = L[x - 1].strip() if x <= len(L) else ""
                    if s and s not in "{}" and "GPSTK_" not in s and "catch" not in s:
                        print("      %5d %s" % (x, s[:120]))
        return
    n = int(sys.argv[3])
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    ms, tot = mutants(files, cov, n * 2, rng)
    log = open("%s/%s.log" % (W, pid), "a")
    def say(s):
        print(s, flush=True)
        log.write(s + "\n")
        log.flush()
    kill = surv = 0
    for f, i, old, new in ms:
        if kill + surv >= n:
            break
        txt = open(f, errors="surrogateescape").read()
        L = txt.split("\n")
        L[i - 1] = new
        open(f, "w", errors="surrogateescape").write("\n".join(L))
        try:
            p = subprocess.run([sys.executable, HERE + "/check.py", pid], capture_output=True, text=True, timeout=400, errors="replace")
            rc, o = p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            rc, o = 99, "timeout"
        open(f, "w", errors="surrogateescape").write(txt)
        if "BUILD ERROR" in o or "compile failed" in o:
            continue
        if rc == 1 and "VIOLATION" in o:
            kill += 1
            continue
        surv += 1
        say("%s %s rc=%d %s:%d\n   - %s\n   + %s" % ("SURVIVED" if rc == 0 else "OTHER", pid, rc, os.path.relpath(f, R), i, old.strip(), new.strip()))
        if rc not in (0,):
            say("   " + o[-300:])
    say("%s: %d killed, %d not, of %d mutable lines" % (pid, kill, surv, tot))


main()
