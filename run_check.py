#!/usr/bin/env python3
"""Decide one property: build /repo's working tree with instrumentation, run the property's
workload under it, and judge what the monitors saw.

  run_check.py ID                     (VERIF_SEED and VERIF_TIER from the environment)
  run_check.py ID --replay FAMILY SEED CASE

Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Anything else: no answer.
"""
import importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild

CASE_WATCHDOG = 60       # s without progress on one case before it is rerun alone
QUICK_SCALE = {"C14": 6, "C15": 8, "C16": 8, "C24": 6, "C25": 8, "C26": 2, "C27": 2, "C28": 1, "C29": 1, "C30": 2, "C31": 1, "C32": 1, "C33": 1, "C34": 1, "C35": 1, "C36": 8, "C37": 8, "C38": 6, "C39": 6}  # others: 12
ALONE_WATCHDOG = 150     # s for that rerun; only then is it called a hang
MAX_CRASHES = 4          # per job, then the job stops

# id -> list of (variant, sources). The default is one asan program, harness/ID.c
SPECIAL = {
    "C33": [("tsan", ["harness/C33.c", "harness/vh.c"])],
}


def known():
    """[(property, key)] of the recorded findings; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def crash_key(err, rc):
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    fr = re.findall(r"#\d+ 0x\S+ in (\S+) (\S+)", err)
    where = "?"
    for f, loc in fr:
        if "/stage/" in loc:
            where = f
            break
    a = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    g = re.search(r"gsl: (\S+): ERROR: (.*)", err)
    t = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", err)
    if t:
        fns = set()
        for stack in err.split("\n\n")[:2]:      # the two accesses: the library function each is in
            fs = re.findall(r"#\d+ (\S+) \S*/stage/", stack) or re.findall(r"#\d+ (\S+) \S*/verif", stack)
            if fs:
                fns.add(fs[0].split(".")[0])
        return "tsan:%s:%s" % (t.group(1).split("(")[0].strip().replace(" ", "-"), "+".join(sorted(fns)))
    if m:
        return "crash:ubsan:%s:%s" % (where, re.sub(r"[^a-z]+", "-", m.group(3).lower())[:40])
    if g:
        return "crash:gsl-abort:%s:%s" % (where, re.sub(r"[^a-z]+", "-", g.group(2).lower())[:40])
    if a:
        return "crash:asan:%s:%s" % (a.group(1), where)
    if rc < 0:
        return "crash:signal%d" % -rc
    return "crash:exit%d" % rc


class Job:
    def __init__(self, exe, fam, a, b, threads, seed, thorough, samples):
        self.__dict__.update(locals())
        self.viol, self.ctr, self.cases, self.samples_out = [], {}, [], []
        self.problem = None

    def go(self):
        crashes, a = 0, self.a
        while a < self.b:
            a2, v = self.span(a, self.b, CASE_WATCHDOG)
            if v and v[1] == "hang":      # inconclusive so far: the same case again, alone
                _, w = self.span(v[0], v[0] + 1, ALONE_WATCHDOG)
                if w:
                    self.viol.append((v[0], self.fam + "/" + w[1], w[2]))
                else:
                    self.ctr["watchdog_retries"] = self.ctr.get("watchdog_retries", 0) + 1
            elif v:
                self.viol.append((v[0], self.fam + "/" + v[1], v[2]))
            if v:
                crashes += 1
                if crashes >= MAX_CRASHES:
                    self.problem = "stopped after %d crashes" % crashes
                    return self
            a = a2
        return self

    def span(self, a, b, watchdog):
        """run cases a..b-1 in one process; returns (next case, None or (case, key, message))"""
        d = tempfile.mkdtemp(prefix="verif-")
        out, errf = d + "/out", d + "/err"
        work = d + "/w"
        os.mkdir(work)
        cmd = [self.exe, "--family", self.fam, "--from", str(a), "--to", str(b), "--seed", str(self.seed),
               "--out", out, "--samples", str(self.samples)] + (["--thorough"] if self.thorough else [])
        env = dict(os.environ, OMP_NUM_THREADS=str(self.threads), OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive",
                   LC_ALL="C.UTF-8", TMPDIR=work, VERIF_WORK=work, HOME=work,
                   TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:log_path=%s" % (d + "/tsan"))
        env.pop("APOP_DB_ENGINE", None)
        if zlib.crc32(b"%s %d %d" % (self.fam.encode(), self.a, self.seed)) % 2:  # half of the processes reuse freed memory at once, so stale state keyed on an address shows
            env["ASAN_OPTIONS"] = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        hang = False
        try:
            with open(errf, "wb") as ef, open("/dev/null") as dn:
                p = subprocess.Popen(cmd, stdin=dn, stdout=subprocess.DEVNULL, stderr=ef, cwd=work, env=env,
                                     start_new_session=True)
                last, size = time.monotonic(), -1
                while True:
                    try:
                        p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        s = os.path.getsize(out) if os.path.exists(out) else 0
                        if s != size:
                            size, last = s, time.monotonic()
                        elif time.monotonic() - last > watchdog:
                            hang = True
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            break
            rc = p.returncode
            done, cur, child, races = False, None, None, {}
            if os.path.exists(out):
                for l in open(out, errors="replace"):
                    f = l.rstrip("\n").split("\t")
                    if f[0] == "S":
                        cur = int(f[1])
                    elif f[0] == "E":
                        self.cases.append(child or (f[2], f[3] == "1"))
                        child = None
                    elif f[0] == "X":     # a case that ran in a child process
                        child = (f[1], f[2] == "1")
                    elif f[0] == "Y" and len(self.samples_out) < self.samples:
                        self.samples_out.append("%s case %s: %s" % (self.fam, cur, f[1]))
                    elif f[0] == "T":     # ThreadSanitizer reported, in this case and process
                        races.setdefault(f[2], []).append(int(f[1]))
                    elif f[0] == "V":
                        self.viol.append((int(f[1]), f[2], f[3] if len(f) > 3 else ""))
                    elif f[0] == "D" and len(f) > 2:
                        self.samples_out.append("%s case %s: %s" % (self.fam, f[1], f[2]))
                    elif f[0] == "C":
                        self.ctr[f[1]] = self.ctr.get(f[1], 0) + int(f[2])
                    elif f[0] == "DONE":
                        done = True
            err = open(errf, errors="replace").read(200000)
            for t in sorted(os.listdir(d)):
                if t.startswith("tsan"):
                    rep = open(d + "/" + t, errors="replace").read(400000)
                    cs = races.get(t.split(".")[-1], [])
                    blks = [blk for blk in rep.split("==================") if "WARNING: ThreadSanitizer" in blk]
                    for i, blk in enumerate(blks[:400]):
                        self.viol.append((cs[i] if i < len(cs) else cur if cur is not None else a, self.fam + "/" + crash_key(blk, 0), blk.strip()[:1500]))
            if done and rc in (0, 66):
                return b, None
            if cur is None:
                if hang:
                    raise RuntimeError("harness made no progress before its first case: " + " ".join(cmd))
                raise RuntimeError("harness failed to start (%s): %s" % (rc, err[-2000:]))
            if hang:
                return cur + 1, (cur, "hang", "no progress for %d s" % watchdog)
            if rc == 3 or rc == -signal.SIGKILL:
                raise RuntimeError("harness error or killed (rc %s): %s" % (rc, err[-2000:]))
            k = crash_key(err, rc)
            msg = "\n".join([l for l in err.splitlines() if l.strip()][:25])
            return cur + 1, (cur, k, msg[:1500])
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.monotonic()
    mod = None
    pyf = os.path.join(HERE, "harness", pid + ".py")
    if os.path.exists(pyf):
        spec = importlib.util.spec_from_file_location("h_" + pid, pyf)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    progs = SPECIAL.get(pid)
    if progs is None:
        progs = [("asan", ["harness/%s.c" % pid, "harness/vh.c"])] if os.path.exists(
            os.path.join(HERE, "harness", pid + ".c")) else []
    exes = [(v, vbuild.build(v, s, name=pid)) for v, s in progs]
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        fam, sd, case = sys.argv[3], sys.argv[4], int(sys.argv[5])
        bad = 0
        if mod and fam in [f[0] for f in mod.FAMILIES]:
            for v in mod.replay(fam, int(sd), case, vbuild):
                print(v)
                bad = 1
            sys.exit(bad)
        for v, e in exes:
            j = Job(e, fam, case, case + 1, dict((f[0], f[3]) for f in families(e)[1])[fam], int(sd), thorough, 1)
            j.go()
            for s in j.samples_out:
                print(s)
            for c, k, m in j.viol:
                print("replayed: property=%s %s\n%s" % (pid, k, m))
                bad = 1
        sys.exit(bad)

    jobs, rules, floors = [], [], []
    for v, e in exes:
        rule, fams = families(e)
        rules.append(rule)
        only = os.environ.get("VERIF_FAMILY")
        for name, q, th, threads in fams:
            if only and only != name:
                continue
            n = th if thorough else max(q, min(th, q * QUICK_SCALE.get(pid, 12))) if q > 1 else q
            if n <= 0:
                continue
            par = max(1, 8 // threads)
            step = max(1, min(-(-n // par), 4000 if n > 32 else n)) if n > 16 else n
            if n > 16:
                step = max(8, -(-n // (par * 2)))
            for k, a in enumerate(range(0, n, step)):
                jobs.append(Job(e, name, a, min(n, a + step), threads, seed, thorough, 1 if k == 0 else 0))
    many = [j for j in jobs if j.threads > 1]
    few = [j for j in jobs if j.threads == 1]
    done = []
    with ThreadPoolExecutor(8) as ex:
        done += list(ex.map(Job.go, few))
    with ThreadPoolExecutor(2) as ex:
        done += list(ex.map(Job.go, many))

    viol, ctr, cases, samples, problems = [], {}, [], [], []
    for j in done:
        viol += [(j.fam, j.seed) + v for v in j.viol]
        for k, n in j.ctr.items():
            ctr[k] = ctr.get(k, 0) + n
        cases += j.cases
        samples += j.samples_out
        if j.problem:
            problems.append(j.fam + ": " + j.problem)
    if mod:
        r = mod.run(seed, thorough, vbuild)
        viol += r["viol"]
        cases += r["cases"]
        samples += r["samples"]
        rules.append(mod.RULE)
        for k, n in r["counters"].items():
            ctr[k] = ctr.get(k, 0) + n

    kf = [(k, d) for p, k, d in known() if p == pid]
    seen_kf, bykey = {}, {}
    for fam, sd, case, key, msg in viol:
        m = [k for k, _ in kf if k == key or (k.endswith("*") and key.startswith(k[:-1]))]
        if m:
            seen_kf[m[0]] = msg
        else:
            bykey.setdefault(key, []).append((fam, sd, case, msg))
    for k, d in kf:
        if k in seen_kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
        else:
            print("note: the recorded finding %s did not show in this run" % k)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, old))
    n = 0
    for key, l in sorted(bykey.items()):
        fam, sd, case, msg = l[0]
        n += 1
        rp = os.path.join(rdir, "%s-%d.sh" % (pid, n))
        with open(rp, "w") as f:
            f.write("#!/bin/sh\n# %s: %d occurrence(s), first at family %s, seed %s, case %s\n" % (key, len(l), fam, sd, case))
            for ml in msg.splitlines():
                f.write("#   %s\n" % ml)
            f.write("exec env VERIF_TIER=%s python3 %s %s --replay %s %s %s\n" % (tier, os.path.abspath(__file__), pid, fam, sd, case))
        os.chmod(rp, 0o755)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s (%d times): %s" % (key, len(l), msg.splitlines()[0][:600] if msg else ""))
    distinct = len(set(s for s, nt in cases if nt))
    wall = time.monotonic() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": len(cases), "distinct_nontrivial": distinct,
                       "rule": " ".join(rules), "samples": samples[:12] or ["none"],
                       "observed": dict(sorted(ctr.items())), "instrumentation": [v for v, _ in exes] + (["asan command-line programs"] if mod else []),
                       "known_findings_seen": sorted(seen_kf), "incomplete": problems},
          "assumptions": ["Only the executions counted here were judged.", "GSL, SQLite and libc are trusted and uninstrumented."],
          "wall_s": round(wall, 2), "violations": n}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d oracle evaluations, %d violation keys, %.1f s" % (
        pid, tier, len(cases), distinct, ctr.get("oracle_checks", 0), n, wall))
    if n:
        sys.exit(1)
    if not cases or ctr.get("oracle_checks", 0) == 0 or distinct < 2:
        print("inconclusive: nothing was observed")
        sys.exit(2)
    sys.exit(0)


def families(exe):
    o = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True)
    if o.returncode:
        raise RuntimeError("harness --list failed")
    rule, fams = "", []
    for l in o.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "R":
            rule = f[1]
        elif f[0] == "F":
            fams.append((f[1], int(f[2]), int(f[3]), int(f[4])))
    return rule, fams


if __name__ == "__main__":
    try:
        main()
    except (vbuild.BuildError, RuntimeError) as e:
        print("ERROR (no answer): %s" % e)
        sys.exit(2)
