#!/usr/bin/env python3
"""check.py ID [quick|thorough]      run the check of one property
   check.py --replay FILE            re-run one recorded counterexample"""
import os, sys, json, time, shutil, subprocess, tempfile, concurrent.futures, re, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCGL_REPO", "/repo")
sys.path.insert(0, VERIF)
from specs import SPECS
NOBODY = 65534

GDAL_INC = "/usr/include/gdal"
BASE = ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-DLINUX", "-DUSE_GDAL", "-DSUPPORT_OMP", "-fopenmp",
        "-I" + GDAL_INC, "-I" + REPO + "/src", "-I" + REPO + "/apps", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"]
ASAN = ["-fsanitize=address"]

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def compile_all(spec, work):
    """Compile the harness and the sources of REPO it needs. Returns the list of executables built."""
    flags = BASE + (ASAN if spec.get("asan", True) else []) + spec.get("flags", [])
    jobs, objs = [], []
    units = [(os.path.join(VERIF, "mc/mc.cpp"), ["-std=c++17"])] if spec.get("mc", True) else []
    for s in spec["harness"]:
        for part in range(spec.get("parts", 1)):     # large harnesses are compiled in parts, side by side
            units.append((os.path.join(VERIF, "harness", s), spec.get("hflags", []) + ["-DPART=%d" % part]))
    for s in spec.get("sources", []):
        s, fl = s if isinstance(s, tuple) else (s, [])
        units.append((os.path.join(REPO, s), fl))
    for s in spec.get("plain", []):                  # not instrumented
        units.append((os.path.join(VERIF, s), None))
    def one(u):
        src, extra = u
        if extra is None:
            o = os.path.join(work, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
            cmd = ["g++"] + [b for b in BASE if b != "-fopenmp"] + ["-c", src, "-o", o]
            return o, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd
        o = os.path.join(work, re.sub(r"[^A-Za-z0-9]", "_", src + "".join(e for e in extra if "PART" in e)) + ".o")
        cmd = [spec.get("cxx", "g++")] + flags + extra + ["-c", src, "-o", o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, r, cmd
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    for o, r, cmd in res:
        if r.returncode:
            print(r.stdout[-6000:])
            die("does not compile: " + " ".join(cmd))
        objs.append(o)
    exe = os.path.join(work, "harness")
    cmd = [spec.get("cxx", "g++")] + (ASAN if spec.get("asan", True) else []) + (["-fopenmp"] if spec.get("openmp_link", True) else []) + objs + ["-o", exe] + spec.get("libs", ["-lgdal"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        die("does not link: " + " ".join(cmd))
    extra = {}
    for name, e in spec.get("exes", {}).items():
        extra[name] = os.path.join(work, name)
        cmd = ["g++"] + BASE + e.get("flags", []) + [os.path.join(REPO, s) for s in e["sources"]] + [os.path.join(VERIF, "harness", s) for s in e.get("harness", [])] + ["-o", extra[name]] + e.get("libs", ["-lgdal"])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            die("does not compile: " + " ".join(cmd))
    os.chmod(exe, 0o755)
    return exe

def environ(work, scr, spec):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "GDAL"))}
    e.update({"OMP_NUM_THREADS": "1", "GDAL_NUM_THREADS": "1", "HOME": scr, "TMPDIR": scr, "LC_ALL": "C", "TZ": "UTC0",
              "GDAL_PAM_ENABLED": "NO", "CPL_LOG": "/dev/null", "CPL_LOG_ERRORS": "OFF",
              "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:quarantine_size_mb=8:detect_odr_violation=0:abort_on_error=0:exitcode=86:max_allocation_size_mb=2048:allocator_release_to_os_interval_ms=-1:detect_stack_use_after_return=0" + spec.get("asan_options", ""),
              "UBSAN_OPTIONS": "halt_on_error=1:exitcode=86", "VERIF_EXE_DIR": work})
    e.update(spec.get("env", {}))
    return e

def run(cmd, env, cwd, timeout):
    kw = {}
    if os.geteuid() == 0:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    try:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, start_new_session=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except PermissionError:
        die("cannot drop privileges")
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -1, out
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return p.returncode, out

def known_findings(pid):
    res = []
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        for e in json.load(f)["findings"]:
            if e["property"] == pid:
                res.append(e)
    return res

def asan_summary(path):
    try:
        t = open(path, errors="replace").read()
    except OSError:
        return ""
    m = re.search(r"SUMMARY: (.*)", t)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", t)
    fr = [f for f in fr if "ccgl" in f or "cls" in f][:3]
    what = re.search(r"AddressSanitizer: ([\w-]+)", t)
    return ((what.group(1) if what else (t.strip().splitlines() or [""])[-1][:200]), fr, m.group(1) if m else "")

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        return check(rep["property"], rep.get("tier", "quick"), rep)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier, None)

def check(pid, tier, rep):
    t0 = time.time()
    spec = SPECS[pid]
    work = tempfile.mkdtemp(prefix="ccglv-%s-" % pid, dir="/tmp")
    os.chmod(work, 0o755)
    shm = tempfile.mkdtemp(prefix="ccglv-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    os.chmod(shm, 0o755)
    os.mkdir(os.path.join(work, "out"))
    os.mkdir(os.path.join(shm, "scratch"))
    if os.geteuid() == 0:
        os.chown(os.path.join(work, "out"), NOBODY, NOBODY)
        os.chown(os.path.join(shm, "scratch"), NOBODY, NOBODY)
    try:
        return check_in(pid, tier, rep, spec, work, os.path.join(shm, "scratch"), t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)

def check_in(pid, tier, rep, spec, work, scr, t0):
    exe = compile_all(spec, work)
    env = environ(work, scr, spec)
    out = os.path.join(work, "out")
    t1 = time.time()
    if rep:
        rc, o = run([exe, "--out", out, "--scratch", scr, "--body", rep["body"], "--replay", rep["choices"] or "0"] + (["--thorough"] if rep.get("tier") == "thorough" else []), env, scr, 300)
        print(o)
        for f in sorted(os.listdir(out)):
            print(open(os.path.join(out, f), errors="replace").read())
        print("exit status of the replayed execution:", rc)
        return 0
    budget = spec.get("budget_thorough", 100000) if tier == "thorough" else spec.get("budget_quick", 560)
    args = ["--thorough"] if tier == "thorough" else []
    rc, o = run([exe, "--out", out, "--scratch", scr, "--jobs", str(spec.get("jobs", 8)), "--budget", str(budget)] + args, env, scr, budget + 60)
    if rc != 0:
        print(o[-3000:])
        die("harness ended with %s" % rc)
    viol, samples, outcomes, keyn, tot, errs = [], [], {}, {}, {}, []
    for f in sorted(os.listdir(out)):
        if not f.startswith("w."):
            continue
        for line in open(os.path.join(out, f), errors="replace"):
            c = line.rstrip("\n").split("\t")
            if c[0] == "V":
                viol.append(dict(body=c[1], key=c[2], choices=c[3], case=c[4], detail=c[5]))
            elif c[0] == "S":
                samples.append(c[1] + ": " + c[2])
            elif c[0] == "O":
                outcomes.setdefault(c[1], set()).add(c[2])
            elif c[0] == "K":
                keyn[(c[1], c[2])] = keyn.get((c[1], c[2]), 0) + int(c[3])
    for line in open(os.path.join(out, "log"), errors="replace"):
        c = line.rstrip("\n").split("\t")
        if c[0] == "T":
            tot[c[1]] = dict(decision_states=int(c[2]), transitions=int(c[3]), executions=int(c[4]), crashes=int(c[5]), hangs=int(c[6]), capped=bool(int(c[7])))
        elif c[0] == "E":
            errs.append(line.strip())
        elif c[0] == "C":
            summ = asan_summary(c[5]) if c[2] == "crash" else ("hang", [], "")
            what, fr, s = (summ or ("crash", [], ""))
            key = ("hang" if c[2] == "hang" else "crash:" + what.split(" ")[0][:60]) + ("@" + fr[0] if fr else "")
            viol.append(dict(body=c[1], key=key, choices=c[3], case=c[4], detail="%s %s %s %s" % (c[2], what, " < ".join(fr), s), crash=True))
    # replay before report
    confirmed, seen, unrepro = [], set(), []
    viol.sort(key=lambda v: (v["body"], v["key"], len(v["choices"].split(",")), v["choices"]))
    for v in viol:
        if (v["body"], v["key"]) in seen:
            continue
        if len(seen) >= 40 or (confirmed and time.time() - t1 > budget + 40):      # an answer in time
            break
        o2 = tempfile.mkdtemp(prefix="replay", dir=work)
        if os.geteuid() == 0:
            os.chown(o2, NOBODY, NOBODY)
        ok = False
        for _ in range(2):
            rc2, oo = run([exe, "--out", o2, "--scratch", scr, "--body", v["body"], "--replay", v["choices"] or "0"] + args, env, scr, spec.get("replay_timeout", 180))
            if v.get("crash"):
                ok = rc2 != 0
            else:
                for f in os.listdir(o2):
                    ok = ok or any(l.startswith("V\t%s\t%s\t" % (v["body"], v["key"])) for l in open(os.path.join(o2, f), errors="replace"))
                ok = ok or rc2 not in (0,)
            if ok:
                break
        if ok:
            seen.add((v["body"], v["key"]))
            confirmed.append(v)
        else:
            unrepro.append(v)
    kf = known_findings(pid)
    repdir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(repdir, ignore_errors=True)
    nviol, known = 0, []
    for v in confirmed:
        k = next((e for e in kf if re.fullmatch(e["body"], v["body"]) and re.fullmatch(e["key"], v["key"])), None)
        if k:
            known.append((k, v))
            continue
        os.makedirs(repdir, exist_ok=True)
        nviol += 1
        path = os.path.join(repdir, "%02d.json" % nviol)
        json.dump(dict(property=pid, tier=tier, **v, occurrences=keyn.get((v["body"], v["key"]), 1),
                       how="python3 %s/check.py --replay <this file>" % VERIF), open(path, "w"), indent=1)
        print("  %s [%s] case: %s -- %s" % (v["body"], v["key"], v["case"][:300], v["detail"][:500]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    done = set()
    for k, v in known:
        if id(k) not in done:
            done.add(id(k))
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # evidence
    level = spec["level"]
    n = lambda f: sum(t[f] for t in tot.values())
    capped = [b for b, t in tot.items() if t["capped"]]
    smp = samples[:60]
    cov = {}
    if level == "model_checking":
        cov = dict(states=n("decision_states"), transitions=n("transitions"), traces_validated_against_impl=n("executions"), samples=smp)
    else:
        cov = dict(evaluations=n("transitions"), distinct_nontrivial=n("executions"), rule=spec["rule"], samples=smp)
    cov.update(exhaustive=not capped and not errs, per_body={b: dict(t, distinct_outcomes=len(outcomes.get(b, ()))) for b, t in tot.items()},
               bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
               meaning="a state is a decision point of the choice tree (one nondeterministic input, operation, fault or schedule choice) visited below the sharding prefix; a transition is one operation of the implementation executed and checked; a trace is one complete execution of the real code compared with the reference model")
    if capped:
        cov["capped"] = capped
    if unrepro:
        cov["unreproduced"] = [dict(body=v["body"], key=v["key"], case=v["case"][:500], detail=v["detail"][:500]) for v in unrepro]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d decision states, %d transitions, %d violations, %d known, build %.1fs, explore %.1fs%s" % (
        pid, tier, n("executions"), n("decision_states"), n("transitions"), nviol, len(known), t1 - t0, time.time() - t1, ", CAPPED " + ",".join(capped) if capped else ""))
    for b, t in tot.items():
        print("   %-28s executions=%d transitions=%d outcomes=%d%s" % (b, t["executions"], t["transitions"], len(outcomes.get(b, ())), " CAPPED" if t["capped"] else ""))
    if errs and not nviol:
        die("; ".join(errs))
    for v in unrepro:
        print("   unreproduced (not reported): %s %s %s" % (v["body"], v["key"], v["detail"][:300]))
    return 1 if nviol else 0

if __name__ == "__main__":
    sys.exit(main())
