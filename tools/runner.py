"""Runs the harnesses of one property, judges what they observed, writes the evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
NSH = int(os.environ.get("VERIF_JOBS", "8"))

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "handle_abort=1:print_legend=0:print_summary=1:malloc_context_size=12:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0",
    "OMP_NUM_THREADS": "4",
}


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


def frame_of(text):
    """first frame of a report that lies in the code under test"""
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)*(:\d+)?$", text, re.M):
        fn, path = m.group(1), m.group(2)
        if "/repo/" in path or path.startswith(vbuild.REPO):
            return re.sub(r"\(.*", "", fn).strip().replace(" ", "_"), os.path.basename(path.split(":")[0])
    m = re.search(r"^\s*#\d+ 0x[0-9a-f]+ in (\S+)", text, re.M)
    return (re.sub(r"\(.*", "", m.group(1)) if m else "?", "?")


def san_reports(err):
    """(key, message) of every sanitizer report in a stderr"""
    out, seen = [], set()
    for m in re.finditer(r"ERROR: AddressSanitizer: (\S+).*?(?=\n==\d+==|\Z)", err, re.S):
        fn, f = frame_of(m.group(0))
        out.append(("asan:%s:%s" % (m.group(1).strip(":"), fn), m.group(0)[:1500]))
    for m in re.finditer(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$((?:\n\s+#\d+.*)*)", err, re.M):
        msg = re.sub(r"-?\d+", "N", m.group(4))
        msg = re.sub(r"0xN\w*", "ADDR", msg)
        fn, f = frame_of(m.group(5))
        k = "ub:%s:%s:%s" % (os.path.basename(m.group(1)), fn, re.sub(r"[^A-Za-z]+", "-", msg)[:60].strip("-"))
        if k not in seen:
            seen.add(k)
            out.append((k, m.group(0)[:1200]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)\n=+", err, re.S):
        fn, f = frame_of(m.group(2))
        k = "tsan:%s:%s" % (m.group(1).replace(" ", "-"), fn)
        if k not in seen:
            seen.add(k)
            out.append((k, m.group(0)[:3500]))
    return out


class Shard:
    def __init__(self, exe, run, shard, nsh, ncases, seed, tier, scratch, wall):
        self.__dict__.update(locals())
        self.viol, self.inconclusive, self.stats = [], [], {"count": {}, "distinct": set(), "samples": []}
        self.log = []

    def merge(self, st):
        for k, v in st["count"].items():
            self.stats["count"][k] = self.stats["count"].get(k, 0) + v
        self.stats["distinct"].update(st["distinct"])
        self.stats["samples"] += st["samples"]

    def once(self, first, n, wall, tag):
        d = os.path.join(self.scratch, "s%d_%s" % (self.shard, tag))
        os.makedirs(d, exist_ok=True)
        cmd = [self.exe, "--seed", str(self.seed), "--first", str(first), "--cases", str(n),
               "--stride", str(self.nsh), "--tier", self.tier, "--mode", self.run.get("mode", "")]
        for k, v in self.run.get("opts", {}).items():
            cmd += ["--" + k, str(v)]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(self.run.get("env", {}))
        env["VERIF_SCRATCH"] = os.path.join(d, "w")
        env["TMPDIR"] = d
        env.setdefault("OMP_NUM_THREADS", "2"); env.setdefault("OMP_WAIT_POLICY", "passive") # several shards run at once
        out, err = os.path.join(d, "out"), os.path.join(d, "err")
        to = False
        with open(out, "wb") as fo, open(err, "wb") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=d, env=env, start_new_session=True)
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                to = True
                if os.environ.get("VERIF_GDB"):
                    subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt"])
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                rc = p.wait()
        o = open(out, errors="replace").read()
        e = open(err, errors="replace").read()[:4000000]
        last, done, st = None, False, None
        for line in o.splitlines():
            if line.startswith("@@CASE "):
                last = int(line.split()[1])
            elif line.startswith("@@VIOL "):
                c, key, msg = (line[7:].split("|", 2) + ["", ""])[:3]
                self.viol.append((key, msg, int(c), cmd))
            elif line.startswith("@@STAT "):
                try:
                    st = json.loads(line[7:])
                except ValueError:
                    pass
            elif line.startswith("@@DONE"):
                done = True
        if st:
            self.merge(st)
        for k, m in san_reports(e):
            self.viol.append((k, m, last if last is not None else first, cmd))
        shutil.rmtree(d, ignore_errors=True)
        return rc, to, last, done, e, o

    def __call__(self):
        i, left, restarts = self.shard, self.ncases, 0
        end = time.time() + self.wall
        while left > 0:
            n0 = len(self.viol)
            rc, to, last, done, err, o = self.once(i, left, max(5, end - time.time()), "r%d" % restarts)
            if done or rc == 3:
                break
            at = i if last is None else last
            if to:
                # a second, generous run of that case alone tells a hang from a slow machine
                rc2, to2, _, done2, err2, _ = self.once(at, 1, self.run.get("case_wall", 150), "t%d" % restarts)
                if to2:
                    self.viol.append(("hang", "case %d does not finish within %d s when run alone" %
                                      (at, self.run.get("case_wall", 150)), at, []))
                else:
                    self.inconclusive.append("shard %d stopped by its time limit at case %d" % (self.shard, at))
                break
            if len(self.viol) == n0:
                how = "signal %d" % -rc if rc < 0 else "exit status %d" % rc
                m = re.search(r"terminate called.*(\n.*what.*)?", err)
                ex = m.group(0).replace("\n", " ") if m else err.strip()[-400:]
                self.viol.append(("crash:%s" % re.sub(r"[^A-Za-z0-9]+", "-", (m.group(0).split("'")[1] if m and "'" in m.group(0) else how)),
                                  "the process ended with %s in case %d: %s" % (how, at, ex), at, []))
            done_cases = (at - i) // self.nsh + 1
            i, left, restarts = at + self.nsh, left - done_cases, restarts + 1
            if restarts > 6:
                self.inconclusive.append("shard %d: stopped after %d restarts" % (self.shard, restarts))
                break
        return self


def execute(pid, cfg, tier, seed):
    t0 = time.time()
    total = {"count": {}, "samples": [], "parts": {}}
    distinct, viol, notes = set(), [], []
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        for run in cfg["runs"]:
            n = run.get(tier, 0)
            if not n:
                continue
            tb = time.time()
            try:
                exe = vbuild.build(run["name"], run["main"], run["comps"], run.get("variant", "asan"),
                                   extra=run.get("extra", ()), snap=run.get("snap", False), libs=run.get("libs", ()))
            except vbuild.BuildError as e:
                # no answer: neither 0 nor 1
                sys.stdout.write("BUILD FAILED for %s\n%s\n" % (run["name"], e))
                sys.exit(2)
            tr = time.time()
            nsh = min(NSH, run.get("shards", NSH), n)
            per = (n + nsh - 1) // nsh
            wall = run.get("wall_" + tier, 300 if tier == "quick" else 3600)
            shards = [Shard(exe, run, s, nsh, per, seed, tier, scratch, wall) for s in range(nsh)]
            with ThreadPoolExecutor(nsh) as ex:
                list(ex.map(lambda s: s(), shards))
            part = {}
            for s in shards:
                for k, v in s.stats["count"].items():
                    part[k] = part.get(k, 0) + v
                distinct.update((run["name"] + run.get("mode", ""), h) for h in s.stats["distinct"])
                for x in s.stats["samples"][:1]:
                    if len(total["samples"]) < 12 and len([1 for y in total["samples"] if y.startswith(run["name"] + ":")]) < 2:
                        total["samples"].append(run["name"] + ": " + x)
                for v in s.viol:
                    viol.append((run, s, v))
                notes += s.inconclusive
            total["parts"]["/".join(x for x in (run["name"], run.get("mode"), run.get("variant")) if x)] = part
            for k, v in part.items():
                total["count"][k] = total["count"].get(k, 0) + v
            print("%s %s%s: built in %.1fs, ran %d cases in %.1fs" % (
                pid, run["name"], "/" + run["mode"] if run.get("mode") else "", tr - tb, part.get("cases", 0), time.time() - tr))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # judge
    kf = [k for k in known_findings() if k["property"] == pid]
    reported, groups, seen_known = 0, {}, set()
    ign = cfg.get("ignore", [])
    for run, sh, (key, msg, case, cmd) in viol:
        hit = next((k for k in kf if re.fullmatch(k["key"], key)), None)
        if hit:
            seen_known.add(hit["what"])
            continue
        groups.setdefault((run["name"], key), []).append((run, sh, msg, case))
    for k in kf:
        if k["what"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(EVID, "replay")
    for (name, key), items in sorted(groups.items()):
        run, sh, msg, case = items[0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, reported))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": run["main"], "components": run["comps"], "variant": run.get("variant", "asan"),
                       "key": key, "message": msg, "occurrences": len(items), "case": case, "seed": seed, "tier": tier,
                       "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s --replay %s" % (seed, tier, pid, path)}, f, indent=1)
        print("  [%s] %s (x%d) case %d: %s" % (name, key, len(items), case, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        reported += 1
    for x in notes[:5]:
        print("inconclusive: " + x)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": total["count"].get("evals", total["count"].get("cases", 0)),
                       "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                       "samples": total["samples"] or ["(none)"], "observed": total["parts"], "inconclusive": notes},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": reported}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d evaluations, %d distinct, %d violations, %.1fs" % (
        pid, total["count"].get("cases", 0), ev["coverage"]["evaluations"], len(distinct), reported, time.time() - t0))
    return 1 if reported else 0


def replay(pid, cfg, path):
    r = json.load(open(path))
    run = next(x for x in cfg["runs"] if x["main"] == r["harness"])
    exe = vbuild.build(run["name"], run["main"], run["comps"], run.get("variant", "asan"), extra=run.get("extra", ()),
                       snap=run.get("snap", False), libs=run.get("libs", ()))
    d = tempfile.mkdtemp(prefix="vf_replay_")
    env = dict(os.environ); env.update(SAN_ENV); env.update(run.get("env", {})); env["VERIF_SCRATCH"] = d + "/w"
    cmd = [exe, "--seed", str(r["seed"]), "--first", str(r["case"]), "--cases", "1", "--tier", r["tier"], "--mode", run.get("mode", "")]
    for k, v in run.get("opts", {}).items():
        cmd += ["--" + k, str(v)]
    print(" ".join(cmd))
    p = subprocess.run(cmd, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode
