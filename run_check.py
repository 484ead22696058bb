#!/usr/bin/env python3
"""Decides one property:  run_check.py PID [--tier quick|thorough]
   replays a violation:   run_check.py --replay FILE
   checks the toolchain:  run_check.py --setup

Every harness (harness/*.cpp) is compiled from the working tree of /repo (VERIF_REPO), run on every
process count of its table entry, and enumerates its whole case space.  A failing case is run again
on its own before it is reported.  Exit 0: held everywhere.  Exit 1: VIOLATION line.  Exit 2: error."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from properties_table import PROPS
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
CORES = 8
COMPILERS = threading.Semaphore(CORES)


def env(pid):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", f". {HERE}/env.sh; env -0"], env=e, stdout=subprocess.PIPE).stdout
    e = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    for k in ("PETSC_OPTIONS",):
        e.pop(k, None)
    # memory that nobody wrote does not look like zeros (see also compat flags and operator new in harness/common.hpp)
    if pid not in ("C14", "C15", "C16", "C20", "C24"):  # it doubles the time of the coupled solvers
        e["MALLOC_PERTURB_"] = "171"
    e["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=67108864:malloc_fill_byte=127"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return e


def fingerprint(harness):
    h = hashlib.sha256()
    files = sorted(p for d in (REPO / "cafes", REPO / "external_packages") for p in d.rglob("*") if p.is_file())
    files += sorted(p for p in (HERE / "harness").rglob("*") if p.suffix in (".hpp", ".h")) + [HERE / "harness" / (harness + ".cpp")]
    for f in files:
        h.update(str(f).encode()); h.update(b"\0"); h.update(f.read_bytes())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:24]


def compile_harness(harness, opts, e):
    out = HERE / "build"
    out.mkdir(exist_ok=True)
    name = harness + (".mem" if opts.get("memory") else "")
    exe = out / f"{name}-{fingerprint(harness)}"
    if exe.exists():
        return exe, None
    for old in out.glob(name + "-*"):
        old.unlink()
    tmp = str(exe) + f".{os.getpid()}.tmp"
    archives = []
    if opts.get("qhull"):
        archives, err = compile_qhull(out, e)
        if err:
            return None, err
    cmd = ["mpicxx", *opts.get("cxxflags", ["-O1", "-g0"]), "-std=gnu++14", "-w", "-ftrivial-auto-var-init=pattern", "-include", str(HERE / "harness/compat.h"),
           f"-I{REPO}/cafes", f"-I{REPO}/external_packages/qhull", f"-I{PETSC}/include", "-I/usr/include/hdf5/openmpi",
           *[f"-I{HERE / 'harness' / d}" for d in opts.get("include", [])],
           str(HERE / "harness" / (harness + ".cpp")), "-o", tmp, *archives, f"-L{PETSC}/lib", f"-Wl,-rpath,{PETSC}/lib", "-lpetsc_real", *opts.get("libs", [])]
    with COMPILERS:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, " ".join(cmd) + "\n" + r.stdout[-6000:]
    os.rename(tmp, exe)
    for a in archives:
        os.unlink(a)
    return exe, None


def compile_qhull(out, e):
    """the repository's copy of qhull, as its CMakeLists.txt builds it"""
    src, archives, failed = REPO / "external_packages/qhull", [], []
    for lib, comp, skip in (("libqhullcpp", ["g++", "-std=gnu++14"], ("usermem_r-cpp.cpp",)), ("libqhull_r", ["gcc"], ())):
        files = sorted(p for p in (src / lib).iterdir() if p.suffix in (".c", ".cpp") and p.name not in skip)
        objs = [str(out / f"qhull-{os.getpid()}-{f.stem}.o") for f in files]
        ps = [subprocess.Popen([*comp, "-O1", "-w", f"-I{src}", "-c", str(f), "-o", o], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for f, o in zip(files, objs)]
        failed += [q for q in (p.communicate()[0] for p in ps) if q]
        a = str(out / f"{lib}-{os.getpid()}.a")
        if any(p.returncode for p in ps) or subprocess.run(["ar", "rcs", a, *objs]).returncode:
            failed.append(f"{lib} does not build")
        archives.append(a)
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
    return archives, "\n".join(failed)[-6000:] if any("does not build" in f for f in failed) else None


class Slots:
    """weighted semaphore over the cores"""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        k = min(k, CORES)
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
        return k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


class Job:
    def __init__(self, harness, np_, shard=(0, 1), args=()):
        self.harness, self.np, self.shard, self.args = harness, np_, shard, list(args)

    def name(self):
        return f"{self.harness} np={self.np} shard={self.shard[0]}/{self.shard[1]} {' '.join(self.args)}".strip()


def execute(exe, job, tier, e, scratch, case=None, timeout=600, stall=None, stop=None):
    """-> dict(ok, ranks=[...], last=case key, rc, tail, why)"""
    d = Path(tempfile.mkdtemp(dir=scratch))
    ee = dict(e); ee["OMPI_MCA_orte_tmpdir_base"] = str(d)
    ee["TMPDIR"] = str(d); ee["VP_SCRATCH"] = str(d)
    a = [str(exe), "-vp_out", str(d / "out"), "-vp_progress", str(d / "progress"), "-vp_tier", tier, *job.args]
    if case is not None:
        a += ["-vp_case", case]
    else:
        a += ["-vp_shard", f"{job.shard[0]}/{job.shard[1]}"]
    # always through mpirun: a crash of one process ends the others
    cmd = ["mpirun", "-np", str(job.np), *a]
    stall = stall or ((200 if "-vp_mem" in job.args else 60) if tier == "quick" else 900)
    t0 = tlast = time.time()
    seen, rc, why = None, None, ""

    def progress():
        try:
            return (d / "progress").read_text(errors="replace").split("\n")[0].strip() or None
        except OSError:
            return None
    with open(d / "log", "w") as log:
        p = subprocess.Popen(cmd, env=ee, cwd=d, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        wait = .02
        while rc is None:
            try:
                rc = p.wait(wait); break
            except subprocess.TimeoutExpired:
                wait = min(.25, wait * 2)
            now, cur = time.time(), progress()
            if cur != seen:
                seen, tlast = cur, now
            if stop is not None and stop.is_set():
                why = "stopped"
            elif now - t0 > timeout:
                why = f"runs into the time limit of {int(timeout)} s"
            elif now - tlast > stall:
                why = f"hangs ({int(stall)} s without an answer)"
            if why:
                for sig, grace in ((signal.SIGTERM, 8), (signal.SIGKILL, 5)):
                    try:
                        os.killpg(p.pid, sig)
                    except ProcessLookupError:
                        pass
                    try:
                        p.wait(grace); break
                    except subprocess.TimeoutExpired:
                        pass
                rc = 124
    ranks = []
    for r in range(job.np):
        f = d / f"out.{r}"
        if f.exists():
            ranks.append(json.loads(f.read_text()))
    last = progress()
    text = (d / "log").read_text(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return dict(ok=rc == 0 and len(ranks) == job.np, ranks=ranks, last=last, rc=rc, tail=text[-1500:], why=why, log=text[-200000:])


def memory_report(log):
    """first line of a sanitizer's report, and the first place in the repository's code"""
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", log)
    if not m:
        return None
    at = re.search(r"(\S*/cafes/\S+:\d+)", log[m.start():]) or re.search(r"(\S*/cafes/\S+:\d+)", log)
    return re.sub(r"0x[0-9a-f]+", "0x..", m[1])[:160] + (f" at {at[1]}" if at else "")


def failures_of(res):
    out, seen = [], set()
    for r in res["ranks"]:
        for f in r["failures"]:
            k = (f["case"], f["what"])
            if k not in seen:
                seen.add(k); out.append(f)
    return out


def load_known():
    known = []
    f = HERE / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) harness=(\S+) case=/(.*?)/ what=/(.*?)/ :: (.*)$", line)
            if m:
                known.append(dict(property=m[1], harness=m[2], case=re.compile(m[3]), what=re.compile(m[4]), text=m[5]))
    return known


def known_match(known, pid, harness, f):
    for k in known:
        if k["property"] == pid and k["harness"] == harness and k["case"].fullmatch(f["case"]) and k["what"].search(f["what"]):
            return k
    return None


def check(pid, tier):
    t0 = time.time()
    e = env(pid)
    prop = PROPS[pid]
    jobs = []
    for h in prop["harnesses"]:
        cfg = h.get(tier, {})
        for np_ in cfg.get("np", [1]):
            ns = cfg.get("shards", {}).get(np_, 1)
            # "part": every n-th case only, another part on every number of processes
            for s in [np_ % h["part"]] if h.get("part") and tier == "quick" else range(ns):
                ns = h["part"] if h.get("part") and tier == "quick" else ns
                for args in h.get("argsets", [[]]):
                    jobs.append(Job(h["name"], np_, (s, ns), args))
    exes, errs = {}, {}

    def comp(h):
        exes[h["name"]], errs[h["name"]] = compile_harness(h["name"], dict(h, memory=prop.get("memory")), e)
    ths = [threading.Thread(target=comp, args=(h,)) for h in prop["harnesses"]]
    [t.start() for t in ths]; [t.join() for t in ths]
    bad = {k: v for k, v in errs.items() if v}
    if bad:
        for k, v in bad.items():
            print(f"ERROR: harness {k} does not compile against {REPO}:\n{v}")
        return 2
    scratch = tempfile.mkdtemp(prefix="vp-")
    limit = 780 if tier == "quick" else 6 * 3600
    single = 120 if tier == "quick" else 1800
    slots, results, lock = Slots(CORES), {}, threading.Lock()

    def remaining():
        return max(20, limit - (time.time() - t0))

    stop = threading.Event()
    known = load_known()
    violations, known_hits, unstable = [], {}, []

    def judge(j, res):
        """Sorts the failures of a job; every new one is run again, alone, before it is believed."""
        fs = failures_of(res)
        if not res["ok"]:
            if res["why"] == "stopped":
                return
            what = res["why"] or f"crashes (exit code {res['rc']}): {res['tail'][-300:]}"
            if prop.get("memory"):
                report = memory_report(res["log"])
                if res["why"] or not (report or res["rc"] in (134, 135, 136, 139)):
                    with lock:
                        unstable.append(f"{j.name()}: {res['last']}: {what} (no report of the sanitizers)")
                    return
                what = report or what
            # the failures the processes recorded before the crash are lost; the case is the last one started
            fs = [dict(case=res["last"] or "?", what=what, crash=True)]
        tried = 0
        for f in fs:
            k = known_match(known, pid, j.harness, f)
            if k:
                with lock:
                    known_hits[k["text"]] = known_hits.get(k["text"], 0) + 1
                continue
            if stop.is_set():
                return
            tried += 1
            if tried > 3:
                with lock:
                    unstable.append(f"{j.name()}: {f['case']}: {f['what']} (and others)")
                return
            r2 = execute(exes[j.harness], j, tier, e, scratch, case=f["case"], timeout=min(remaining(), single), stop=stop)
            if r2["why"] == "stopped":
                return
            f2 = [x for x in failures_of(r2) if not known_match(known, pid, j.harness, x)]
            v = None
            if not r2["ok"]:
                if prop.get("memory") and not memory_report(r2["log"]):
                    with lock:
                        unstable.append(f"{j.name()}: {f['case']}: {f['what']} (not when replayed alone)")
                    return
                v = (j, dict(case=f["case"], what=f["what"] if prop.get("memory") else "crashes or hangs: " + f["what"]), "replayed alone")
            elif f2:
                v = (j, f2[0], "replayed alone")
            else:
                # depends on the cases before it: run the whole job again, twice if needed
                for _ in range(2):
                    r3 = execute(exes[j.harness], j, tier, e, scratch, timeout=min(remaining(), 150), stop=stop)
                    if r3["why"] == "stopped":
                        return
                    again = [x for x in failures_of(r3) if x["case"] == f["case"]]
                    if f.get("crash") and r3["ok"]:
                        results[j] = r3      # whatever ended the first run did not do so again
                        if failures_of(r3):
                            return judge(j, r3)
                        break
                    if again or (not r3["ok"] and (f.get("crash") or r3["last"] == f["case"])):
                        v = (j, f, "replayed with the cases before it"); break
            if v:
                with lock:
                    violations.append(v)
                stop.set()      # one confirmed violation decides the check
                return
            with lock:
                unstable.append(f"{j.name()}: {f['case']}: {f['what']}")

    def work(j):
        k = slots.take(j.np)
        try:
            if stop.is_set():
                results[j] = dict(ok=False, ranks=[], last=None, rc=0, tail="", why="stopped"); return
            results[j] = execute(exes[j.harness], j, tier, e, scratch, timeout=min(remaining(), 240 if tier == "quick" else 3 * 3600), stop=stop)
            judge(j, results[j])
        finally:
            slots.give(k)
    jobs.sort(key=lambda j: -j.np)
    ths = [threading.Thread(target=work, args=(j,)) for j in jobs]
    [t.start() for t in ths]; [t.join() for t in ths]
    shutil.rmtree(scratch, ignore_errors=True)

    cov = dict(states=0, transitions=0, comparisons=0, traces_validated_against_impl=0, failed_cases=0)
    samples, notes, per = [], {}, {}
    for j in jobs:
        rk = results[j]["ranks"]
        if not rk:
            continue
        z = rk[0]
        cov["states"] += z["states"]; cov["transitions"] += z["transitions"]
        cov["comparisons"] += sum(r["comparisons"] for r in rk); cov["traces_validated_against_impl"] += z["traces"]
        cov["failed_cases"] += len({c["case"] for r in rk for c in r["failures"]})
        for s in z["samples"]:
            if len(samples) < 8 and s not in samples:
                samples.append(s)
        for k, v in z["notes"].items():
            notes[k] = notes.get(k, 0) + v
        p = per.setdefault(f"{j.harness} np={j.np}" + (" " + " ".join(j.args) if j.args else ""), dict(states=0, transitions=0, distinct_outcomes=0))
        p["states"] += z["states"]; p["transitions"] += z["transitions"]; p["distinct_outcomes"] += z["outcomes"]
    complete = all(results[j]["ok"] for j in jobs)
    cov.update(samples=samples, exhaustive=complete, runs=per, notes=notes, bounds=prop["bounds"][tier] if isinstance(prop["bounds"], dict) else prop["bounds"],
               oracle=prop["oracle"], unstable=unstable)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov,
              assumptions=prop.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    for k, n in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={pid} {k} ({n} cases)")
    for u in unstable:
        print(f"note: not reproduced, not reported: {u}")
    print(f"{pid} {tier}: {cov['states']} states, {cov['transitions']} transitions, {cov['comparisons']} comparisons, "
          f"{cov['traces_validated_against_impl']} traces, {ev['wall_s']} s")
    if violations:
        (HERE / "replays").mkdir(exist_ok=True)
        j, f, how = violations[0]
        rp = HERE / "replays" / f"{pid}.json"
        rp.write_text(json.dumps(dict(property=pid, harness=j.harness, np=j.np, shard=j.shard, args=j.args, tier=tier, case=f["case"], what=f["what"], confirmed=how,
                                      others=[dict(np=x[0].np, harness=x[0].harness, **x[1]) for x in violations[1:40]]), indent=1) + "\n")
        for j, f, how in violations[:6]:
            print(f"  {j.harness} np={j.np} case [{f['case']}]: {f['what']} ({how})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not complete or (cov["states"] == 0):
        # a run ended early and the failure could not be reproduced
        print("ERROR: a run did not finish and its failure did not show again")
        return 2
    return 0


def replay(path):
    d = json.loads(Path(path).read_text())
    e = env(d["property"])
    h = next(h for h in PROPS[d["property"]]["harnesses"] if h["name"] == d["harness"])
    exe, err = compile_harness(d["harness"], dict(h, memory=PROPS[d["property"]].get("memory")), e)
    if err:
        print(err); return 2
    scratch = tempfile.mkdtemp(prefix="vp-")
    case = None if d.get("confirmed") == "replayed with the cases before it" else d["case"]
    r = execute(exe, Job(d["harness"], d["np"], d["shard"], d["args"]), d["tier"], e, scratch, case=case, timeout=600)
    shutil.rmtree(scratch, ignore_errors=True)
    fs = failures_of(r)
    for f in fs:
        print(f"[{f['case']}] {f['what']}")
    if not r["ok"]:
        print("crashes or hangs:", r["rc"], r["tail"])
    if fs or not r["ok"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("does not fail any more")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("mpicxx", "mpirun", "timeout"):
            if not shutil.which(t):
                print("missing", t); return 2
        print("toolchain present; every check compiles its own harness from", REPO)
        return 0
    if a.replay:
        return replay(a.replay)
    return check(a.pid, a.tier)


if __name__ == "__main__":
    sys.exit(main())
