#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough]

Builds what is needed from /repo's working tree, runs the property's workload families in the
instrumented harness over all cores, collects what the monitors and sanitizers reported, and
writes evidence/ID.json. Exit 0: held on everything explored; 1: violation(s); 2: no answer.
"""
import concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import build as B
import jobs as J

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
STUCK = 90          # seconds one case may take before it is run again alone
STUCK_ALONE = 240   # and then

def env_for(conf, extra):
    e = {k: v for k, v in os.environ.items() if k not in ("OMP_NUM_THREADS", "OMP_SCHEDULE", "MALLOC_PERTURB_", "OMP_DYNAMIC")}
    e.update(OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1", LC_ALL="C", OMP_MAX_ACTIVE_LEVELS="1")
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=%s:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_odr_violation=0:quarantine_size_mb=64" % ("1" if extra.get("leak") else "0")
    e["LSAN_OPTIONS"] = "exitcode=0:suppressions=%s/tools/lsan.supp:print_suppressions=0" % VERIF
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:suppressions=%s/tools/ubsan.supp" % VERIF
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0:suppressions=%s/tools/tsan.supp:history_size=4:second_deadlock_stack=1" % VERIF
    e.update(extra.get("env", {}))
    return e

def crash_key(err, rc):
    """a stable name for what a sanitizer or signal reported"""
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    if m:
        return "ub:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[-+]?\d[\d.e+-]*|0x\w+", "#", m.group(3))[:80]), m.group(0)[:400]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        fr = [f for f in re.findall(r"^\s*#\d+ 0x\w+ (?:in )?(.*)$", err, re.M)]
        own = next((f for f in fr if "/source/core/" in f), fr[0] if fr else "")
        where = re.search(r"(/repo/\S+?):\d+", own) or re.search(r"in (\w+)", own)
        fn = re.search(r"([A-Za-z_]\w*)(?:<[^()]*>)?\(", own)
        return "asan:%s:%s:%s" % (m.group(1), os.path.basename(where.group(1)) if where else "?", fn.group(1) if fn else "?"), "AddressSanitizer %s: %s" % (m.group(1), own[:300])
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", err)
    if m:
        fr = re.findall(r"#\d+ (.*?) (/repo/\S+?):(\d+)", err)
        w = fr[0] if fr else ("?", "?", "0")
        fn = re.search(r"([A-Za-z_]\w*)(?:<[^()]*>)?\(", w[0])
        return "tsan:%s:%s:%s" % (m.group(1), os.path.basename(w[1]), fn.group(1) if fn else "?"), "ThreadSanitizer %s at %s:%s" % (m.group(1), w[1], w[2])
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        w = re.search(r"^(\S+?):\d+:", err, re.M)
        return "assert:%s" % m.group(1)[:60], err[-400:]
    m = re.search(r"terminate called.*?'([^']*)'", err)
    if m:
        return "exception:%s" % m.group(1), err[-400:]
    m = re.search(r"Fortran runtime error: (.*)", err)
    if m:
        return "fortran:%s" % re.sub(r"\d+", "#", m.group(1))[:80], err[-600:]
    if rc < 0:
        return "signal:%d" % -rc, err[-400:]
    return "exit:%d" % rc, err[-400:]

class Shard:
    """cases lo..hi of a family; restarts after a crash"""
    def __init__(self, exe, conf, fam, lo, hi, tier, extra, tmp, deadline):
        self.__dict__.update(locals())
        self.viol, self.counts, self.distinct, self.samples = [], {}, set(), []
        self.done = 0; self.noanswer = None; self.stopped = False
    def cmd(self, lo, hi, prog=None):
        c = self.extra.get("wrap", []) + [self.exe, self.fam, "--seed", str(SEED), "--lo", str(lo), "--hi", str(hi), "--tier", self.tier]
        for k, v in self.extra.get("args", {}).items():
            c += ["--" + k, str(v)]
        for k, v in self.extra.get("opt", {}).items():
            c += ["--opt", f"{k}={v}"]
        if self.extra.get("leak"):
            c += ["--leak", "1"]
        if prog:
            c += ["--prog", prog]
        return c
    def once(self, lo, hi, stuck):
        """-> (kind, index) kind: ok, crash, hang, deadline"""
        d = tempfile.mkdtemp(dir=self.tmp)
        prog = d + "/prog"
        out, err = open(d + "/out", "w+b"), open(d + "/err", "w+b")
        e = env_for(self.conf, self.extra)
        e["VT_TMP"] = d
        p = subprocess.Popen(self.cmd(lo, hi, prog), stdout=out, stderr=err, env=e, cwd=d, start_new_session=True)
        last, t_last, kind = None, time.time(), None
        while True:
            try:
                p.wait(0.05 if last is None else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(prog).read()
            except OSError:
                cur = None
            now = time.time()
            if cur != last:
                last, t_last = cur, now
            if now - t_last > stuck * self.extra.get("slow", 1):
                kind = "hang"
            elif now > self.deadline:
                kind = "deadline"
            if kind:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                break
        try:
            idx = int(open(prog).read())
        except (OSError, ValueError):
            idx = lo
        out.seek(0); err.seek(0)
        o, er = out.read().decode(errors="replace"), err.read().decode(errors="replace")
        out.close(); err.close(); shutil.rmtree(d, ignore_errors=True)
        fin = False
        for line in o.splitlines():
            if line.startswith("@V "):
                try: self.viol.append(json.loads(line[3:]))
                except ValueError: pass
            elif line.startswith("@E "):
                fin = True
                try: j = json.loads(line[3:])
                except ValueError: continue
                for k, v in j["counts"].items(): self.counts[k] = self.counts.get(k, 0) + v
                self.distinct.update(j["distinct"]); self.samples += j["samples"]
        if kind:
            return kind, idx, er
        if self.conf == "tsan" and "WARNING: ThreadSanitizer" in er:
            for blk in er.split("==================")[1:]:
                if "WARNING: ThreadSanitizer" in blk:
                    k, m = crash_key(blk, 66)
                    self.viol.append(dict(key=k, fam=self.fam, idx=idx, msg=m + " " + blk[:1500]))
            if fin: return "ok", hi, er
        if p.returncode == 0 and fin:
            return "ok", hi, er
        if p.returncode == 0:
            return "crash", idx, er + "\nprocess ended early (exit called inside the library)"
        self.rc = p.returncode
        return "crash", idx, er
    def run(self):
        lo, crashes = self.lo, 0
        while lo < self.hi and not self.stopped:
            if time.time() > self.deadline:
                self.noanswer = "time"; break
            kind, idx, er = self.once(lo, self.hi, STUCK)
            if kind == "ok":
                self.done += self.hi - lo; break
            if kind == "deadline":
                self.done += max(0, idx - lo); self.noanswer = "time"; break
            self.done += idx - lo + 1
            if kind == "hang":
                k2, i2, er2 = self.once(idx, idx + 1, STUCK_ALONE)
                if k2 == "hang":
                    self.viol.append(dict(key="hang", fam=self.fam, idx=idx, msg="case does not end"))
                elif k2 == "crash":
                    k, m = crash_key(er2, self.rc); self.viol.append(dict(key=k, fam=self.fam, idx=idx, msg=m))
            else:
                rc = getattr(self, "rc", -1)
                k, m = crash_key(er, rc)
                if rc == -9 and "Sanitizer" not in er:   # out of memory in the sandbox: once more alone
                    k2, i2, er2 = self.once(idx, idx + 1, STUCK_ALONE)
                    if k2 == "crash" and self.rc != -9:
                        k, m = crash_key(er2, self.rc); self.viol.append(dict(key=k, fam=self.fam, idx=idx, msg=m))
                else:
                    self.viol.append(dict(key=k, fam=self.fam, idx=idx, msg=m))
            crashes += 1
            if crashes >= 12:
                break
            lo = idx + 1
        return self

def load_known():
    out = []
    for line in open(VERIF + "/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) key=(\S+) msg=/(.*?)/ what=(.*)", line.strip())
        if m:
            out.append(dict(prop=m.group(1), key=re.compile(m.group(2) + "$"), msg=re.compile(m.group(3)), what=m.group(4)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    budget = 700 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3600"))
    spec = J.PROPS[pid]
    jobs = [j for j in spec["jobs"] if not only or only in j["fam"]]
    exes = {}
    for conf in sorted({j["conf"] for j in jobs} | set(spec.get("confs", []))):
        try:
            exes[conf] = B.build(conf)[0]
        except B.BuildError as e:
            print("cannot build configuration", conf, "\n", str(e)[-3000:]); return 2
    notes = []
    for conf in sorted({j["conf"] for j in jobs if j.get("internal")}):
        # the library builds: when the harness of the internal interfaces does not, an internal
        # interface was changed, and only the families over the public ones can decide
        try:
            exes["int-" + conf] = B.build_int(conf)[0]
        except B.BuildError as e:
            notes.append("internal interfaces have changed, their monitors did not run: " + str(e)[-400:])
            jobs = [j for j in jobs if not (j.get("internal") and j["conf"] == conf)]
    t_built = time.time()
    deadline = t_built + budget
    tmp = tempfile.mkdtemp(prefix="vt-", dir=os.environ.get("TMPDIR", "/tmp"))
    shards, results = [], []
    try:
        for j in jobs:
            n = j["q"] if tier == "quick" else j["t"]
            per = max(1, min((n + NCPU * 3 - 1) // (NCPU * 3), j.get("chunk", 4000)))
            b = j.get("base", 0)
            for lo in range(0, n, per):
                shards.append(Shard(exes[("int-" if j.get("internal") else "") + j["conf"]], j["conf"], j["fam"], b + lo, b + min(n, lo + per), tier, j, tmp, deadline))
        # interleave the families so that a deadline cuts all alike
        shards.sort(key=lambda s: (s.lo - s.extra.get("base", 0)) / max(1, (s.extra["q"] if tier == "quick" else s.extra["t"])))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(s.run) for s in shards]
            for f in cf.as_completed(futs):
                s = f.result()
                if sum(len(x.viol) for x in shards) > 400:
                    for x in shards: x.stopped = True
        extra_viol, extra_cov = [], {}
        if "post" in spec and not only:
            extra_viol, extra_cov = spec["post"](exes, tier, SEED, tmp, deadline, VERIF)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = [dict(v, conf=s.conf, extra=s.extra, cmdline=" ".join(s.cmd(v["idx"], v["idx"] + 1))) for s in shards for v in s.viol]
    viol += [dict(dict(conf="", extra={}, cmdline=v.get("cmd", ""), fam="", idx=0), **v) for v in extra_viol]
    known = [k for k in load_known() if k["prop"] == pid]
    seen_known, new = {}, {}
    for v in viol:
        k = next((k for k in known if k["key"].match(v["key"]) and k["msg"].search(v["msg"])), None)
        if k: seen_known.setdefault(k["what"], 0); seen_known[k["what"]] += 1
        else: new.setdefault(v["key"], []).append(v)
    done = sum(s.done for s in shards)
    planned = sum(s.hi - s.lo for s in shards)
    distinct, counts, samples = set(), {}, []
    for s in shards:
        distinct |= s.distinct
        for k, n in s.counts.items():
            counts[f"{s.fam}.{k}"] = counts.get(f"{s.fam}.{k}", 0) + n
    perfam = {}
    for s in shards:
        for x in s.samples:
            l = perfam.setdefault(s.fam, [])
            if len(l) < 4: l.append(f"{s.fam}: {x[:300]}")
    for l in perfam.values(): samples += l
    for k in known:
        if k["what"] in seen_known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(VERIF + "/work/replays", exist_ok=True)
    for key, vs in sorted(new.items()):
        v = vs[0]
        path = f"{VERIF}/work/replays/{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80]}.json"
        with open(path, "w") as f:
            json.dump(dict(property=pid, key=key, occurrences=len(vs), family=v["fam"], index=v["idx"], seed=SEED, conf=v["conf"], cmd=v["cmdline"], env={k: x for k, x in env_for(v["conf"], v["extra"]).items() if k.startswith(("OMP", "OPENBLAS", "ASAN", "UBSAN", "LSAN", "TSAN", "VT_"))}, message=v["msg"]), f, indent=1)
        print(f"  {key} x{len(vs)}: {v['msg'][:700]}")
        print(f"VIOLATION property={pid} replay={path}")
    evid = dict(property=pid, tier=tier, seed=SEED, level="exploration",
        coverage=dict(evaluations=done + extra_cov.get("evaluations", 0), distinct_nontrivial=len(distinct) + extra_cov.get("distinct", 0), rule=spec["rule"],
                      samples=(samples + extra_cov.get("samples", []))[:40], observed={k: v for k, v in sorted(counts.items())[:400]}, post={k: v for k, v in extra_cov.items() if k not in ("samples",)},
                      planned=planned, configurations=sorted({s.conf for s in shards}), known_findings_seen=seen_known, notes=notes,
                      build_s=round(t_built - t0, 1)),
        assumptions=J.ASSUME + spec.get("assume", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(evid, f, indent=1)
    print(f"{pid}: {done}/{planned} cases, {len(distinct)} distinct, {len(new)} violation kinds, {len(seen_known)} known, {time.time()-t0:.1f} s (build {t_built-t0:.1f} s)")
    for x in notes: print("note:", x[:300])
    if new:
        return 1
    if done == 0 and not extra_cov:
        print("no answer: nothing ran"); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
