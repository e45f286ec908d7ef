#!/usr/bin/env python3
"""Run the monitor of one property:  check.py <ID> [--tier quick|thorough]
Replay one recorded violation:       check.py --replay <file>

Exit 0: held on everything observed.  1: VIOLATION line.  2: no verdict.
"""
import argparse, array, json, os, re, resource, shutil, signal, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build
from vf.props import PROPS

BUILD = build.BUILD
HANG_RC = 86


def log(*a):
    print(*a, flush=True)


def load_findings(pid):
    """known_findings.txt: 'finding: property=ID key=<regex> detail=<regex> :: text'"""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) detail=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                r.append({"key": re.compile(m.group(2) + r"\Z"), "detail": re.compile(m.group(3), re.S),
                          "text": m.group(4), "hits": 0})
    return r


def san_key(err):
    """stable identity of a process death: kind of report and the repository function it was in"""
    if "VF-HANG" in err:
        return "hang", ""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    elif "ERROR: LeakSanitizer" in err:
        kind = "leak"
    elif "libfuzzer" in err:
        kind = "oom"
    elif re.search(r"terminate called", err):
        kind = "terminate"
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?)(:\d+)*\n", err):
        if "/core/lib/" in m.group(2) or "/ext/lib/" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    return kind + ":" + fn, err


def env():
    e = dict(os.environ)
    e.update({"LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": os.path.join(BUILD, "home"),
              "ASAN_OPTIONS": "abort_on_error=0:exitcode=87:detect_leaks=0:allocator_may_return_null=0:"
                              "max_allocation_size_mb=2048:hard_rss_limit_mb=6000:handle_abort=1:symbolize=1:"
                              "detect_stack_use_after_return=0:malloc_context_size=12",
              "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0:silence_unsigned_overflow=1"})
    sym = shutil.which("llvm-symbolizer") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
    if os.path.exists(sym):
        e["ASAN_SYMBOLIZER_PATH"] = sym
    return e


class Shard:
    def __init__(self, exe, work, i, n, seed, tier):
        self.exe, self.i, self.n, self.seed, self.tier = exe, i, n, seed, tier
        self.out = os.path.join(work, "s%d" % i)
        self.start = "0,0"
        self.restarts = 0
        self.parts = []
        self.proc = None
        self.done = False
        self.deaths = []
        self.hung = set()

    def spawn(self):
        part = "%s.%d" % (self.out, self.restarts)
        self.parts.append(part)
        self.errf = open(part + ".err", "wb")
        self.proc = subprocess.Popen([self.exe, "--seed", str(self.seed), "--tier", self.tier,
                                      "--shard", "%d/%d" % (self.i, self.n), "--start", self.start, "--out", part],
                                     stdout=subprocess.DEVNULL, stderr=self.errf, stdin=subprocess.DEVNULL,
                                     env=env(), cwd=os.path.dirname(self.out))

    def shared(self):
        b = open(self.parts[-1] + ".shared", "rb").read()
        st, ix, act = struct.unpack_from("<QQi", b, 0)
        note = b[20:].split(b"\0")[0].decode("latin-1")
        return st, ix, act, note


def run_property(pid, tier, seed, only=None, exe=None):
    t0 = time.time()
    P = PROPS[pid]
    bt = time.time()
    for d in ("", "home"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    if exe is None:
        exe = build.build_harness(pid.lower(), P["sources"], P.get("opt", "-O0"), P.get("flags", ()), P.get("link", ()))
        for name, src in P.get("apps", {}).items():
            a = build.build_app("app_" + name, src)
            os.environ["VF_APP_" + name] = a
    os.environ["VF_REPO_DIR"] = build.REPO
    os.environ["VF_VERIF_DIR"] = HERE
    build_s = time.time() - bt
    work = os.path.join(BUILD, "run", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    n = P.get("shards", build.JOBS)
    cap = P.get("cap", {"quick": 560, "thorough": 6 * 3600})[tier]
    vios, incon = [], []
    if only:
        part = os.path.join(work, "only")
        p = subprocess.run([exe, "--seed", str(seed), "--tier", tier, "--only", only, "--out", part],
                           capture_output=True, env=env(), cwd=work)
        err = p.stderr.decode("latin-1")
        if os.path.exists(part + ".vio"):
            vios += [json.loads(l) for l in open(part + ".vio")]
        if p.returncode not in (0,):
            k, _ = san_key(err)
            vios.append({"key": k, "stage": only, "idx": 0, "detail": err[-3000:]})
        shutil.rmtree(work, ignore_errors=True)
        return vios
    shards = [Shard(exe, work, i, n, seed, tier) for i in range(n)]
    for s in shards:
        s.spawn()
    stage_names = P.get("_stages")
    maxdeath = P.get("max_restarts", 60)
    while not all(s.done for s in shards):
        time.sleep(0.05)
        for s in shards:
            if s.done or s.proc.poll() is None:
                continue
            s.errf.close()
            rc = s.proc.returncode
            err = open(s.parts[-1] + ".err", "rb").read().decode("latin-1")
            if rc == 0:
                s.done = True
                continue
            if rc == 2 or not os.path.exists(s.parts[-1] + ".shared"):
                incon.append("harness error rc=%s: %s" % (rc, err[-800:]))
                s.done = True
                continue
            st, ix, act, note = s.shared()
            key, _ = san_key(err)
            if not act:
                incon.append("harness died outside a case rc=%s: %s" % (rc, err[-1500:]))
                s.done = True
                continue
            if rc == -9:
                incon.append("killed (memory) in stage %d case %d: %s" % (st, ix, note[:300]))
                s.done = True
                continue
            if key == "hang" and (st, ix) not in s.hung:
                s.hung.add((st, ix))      # re-run once before reporting a hang
                s.start = "%d,%d" % (st, ix)
            else:
                det = "signal/exit %s; note: %s; %s" % (rc, note[:1200],
                      "\n".join(l for l in err.splitlines() if "ERROR" in l or re.match(r"\s*#[0-9] ", l))[:1500])
                vios.append({"key": key, "stage": "#%d" % st, "idx": ix, "detail": det})
                s.start = "%d,%d" % (st, ix + 1)
                if key == "hang":         # a confirmed hang is a verdict; do not pay for it again
                    s.done = True
                    continue
            s.restarts += 1
            if s.restarts > maxdeath:
                incon.append("shard %d: more than %d process deaths; rest of its cases not run" % (s.i, maxdeath))
                s.done = True
                continue
            s.spawn()
        if time.time() - t0 > cap:
            for s in shards:
                if not s.done:
                    s.proc.kill()
                    s.proc.wait()
                    s.done = True
            incon.append("time cap %ds reached" % cap)
            break
    clauses, stages, counters, maxima, samples = {}, {}, {}, {}, []
    hashes = set()
    for s in shards:
        for part in s.parts:
            if os.path.exists(part + ".vio"):
                for l in open(part + ".vio"):
                    try:
                        vios.append(json.loads(l))
                    except ValueError:
                        pass
            if os.path.exists(part + ".json"):
                try:
                    j = json.load(open(part + ".json"))
                except ValueError as e:
                    incon.append("bad result file: %s" % e)
                    continue
                for a, b in ((clauses, "clauses"), (stages, "stages"), (counters, "counters")):
                    for k, v in j[b].items():
                        a[k] = a.get(k, 0) + v
                for k, v in j["maxima"].items():
                    maxima[k] = max(maxima.get(k, 0), v)
                samples += j["samples"]
            if os.path.exists(part + ".hash"):
                a = array.array("Q")
                a.frombytes(open(part + ".hash", "rb").read())
                hashes.update(a)
    shutil.rmtree(work, ignore_errors=True)
    # ---- verdict -----------------------------------------------------------
    finds = load_findings(pid)
    new = []
    for v in vios:
        for f in finds:
            if f["key"].match(v["key"]) and f["detail"].search(v["detail"]):
                f["hits"] += 1
                break
        else:
            new.append(v)
    for f in finds:
        if f["hits"]:
            log("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
        else:
            log("note: listed finding not seen in this run: property=%s %s" % (pid, f["text"]))
    total = sum(clauses.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": len(hashes), "rule": P["rule"],
            "samples": samples[:5], "cases_per_stage": stages, "evaluations_per_oracle_clause": dict(sorted(clauses.items())),
            "observed": dict(sorted(counters.items())),
            "maxima": {k: v for k, v in sorted(maxima.items())},
            "process_deaths": sum(s.restarts for s in shards), "inconclusive": incon,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2),
        "violations": len(new),
        "known_findings_seen": sum(1 for f in finds if f["hits"]),
    }
    ed = os.environ.get("VF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ed, exist_ok=True)
    tmp = os.path.join(ed, ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ed, pid + ".json"))
    log("%s %s seed=%d: %d oracle evaluations, %d distinct inputs, %d clauses, build %.1fs, total %.1fs" %
        (pid, tier, seed, total, len(hashes), len(clauses), build_s, time.time() - t0))
    if os.environ.get("VF_SAVE_CLAUSES"):
        os.makedirs(os.path.join(HERE, "clauses"), exist_ok=True)
        open(os.path.join(HERE, "clauses", pid + ".txt"), "w").write(
            "".join(k + "\n" for k, v in sorted(clauses.items()) if v >= 40 and not k.startswith("ub:")))
    if new:
        rd = os.path.join(BUILD, "replay", pid)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        bykey = {}
        for v in new:
            bykey.setdefault(v["key"], []).append(v)
        for i, (k, vs) in enumerate(sorted(bykey.items())):
            rp = os.path.join(rd, "%03d.json" % i)
            v = vs[0]
            json.dump({"property": pid, "tier": tier, "seed": seed, "key": k, "stage": v["stage"], "idx": v["idx"],
                       "detail": v["detail"], "count": len(vs), "others": vs[1:4]}, open(rp, "w"), indent=1)
            if i < 25:
                log("  [%s] x%d stage=%s case=%d: %s" % (k, len(vs), v["stage"], v["idx"], v["detail"][:400].replace("\n", " | ")))
        log("VIOLATION property=%s replay=%s" % (pid, os.path.join(rd, "000.json")))
        return 1
    cf = os.path.join(HERE, "clauses", pid + ".txt")
    if os.path.exists(cf):
        miss = [l.strip() for l in open(cf) if l.strip() and l.strip() not in clauses]
        if miss:
            incon.append("oracle clauses never evaluated: " + ", ".join(miss[:10]))
    if total == 0 or len(hashes) < 2:
        incon.append("nothing observed")
    if incon:
        for x in incon:
            log("INCONCLUSIVE:", x)
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="stage,index")
    a = ap.parse_args()
    try:
        if a.replay:
            r = json.load(open(a.replay))
            st = r["stage"]
            if st.startswith("#"):
                st = PROPS[r["property"]]["stages"][int(st[1:])]
            v = run_property(r["property"], r["tier"], r["seed"], only="%s,%d" % (st, r["idx"]))
            for x in v:
                log(json.dumps(x, indent=1))
            sys.exit(1 if v else 0)
        if a.only:
            v = run_property(a.pid, a.tier, a.seed, only=a.only)
            for x in v:
                log("%s: %s" % (x["key"], x["detail"]))
            sys.exit(1 if v else 0)
        sys.exit(run_property(a.pid, a.tier, a.seed))
    except build.BuildError as e:
        log("BUILD ERROR:", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
