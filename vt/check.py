#!/usr/bin/env python3
"""Runs the monitors of one property:  vt/check.py C01 [--tier quick|thorough] [--replay FILE] [--seed N]

Builds the instrumented harnesses from /repo's working tree, runs their cases in parallel slices or under mpirun, and
judges what the monitors, the sanitizers and the process endings reported.  Exit 0: held; 1: VIOLATION; 2: no answer."""
import argparse, hashlib, json, os, pathlib, re, shutil, signal, subprocess, sys, tempfile, time

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import build as vb
from props import PROPS

VERIF = HERE.parent
START = time.time()


class Job:
    """One process group: a slice of the serial cases, or an mpirun."""

    def __init__(self, prop, spec, exe, seed, tier, scratch, slice_=None, only=None):
        self.spec, self.prop, self.slice = spec, prop, slice_
        self.np = spec.get("np", 1)
        self.name = "%s%s%s" % (spec["harness"], "-np%d" % self.np if spec.get("np") else "",
                                "-s%d" % slice_[0] if slice_ else "")
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix=self.name + "-", dir=scratch))
        self.out = self.dir / "log"
        cmd = [str(exe), "--vprop=" + spec.get("prop", prop), "--vseed=%d" % seed, "--vtier=" + tier,
               "--vout=" + str(self.out), "--vscratch=" + str(self.dir)]
        if slice_:
            cmd.append("--vslice=%d/%d" % slice_)
        if "share" in spec:
            cmd.append("--vshare=%s" % spec["share"])
        if only:
            cmd.append("--vonly=" + only)
        cmd += spec.get("args", [])
        if spec.get("variant") == "plain":
            cmd = ["valgrind", "-q", "--error-exitcode=69", "--suppressions=" + str(VERIF / "vt/valgrind.supp")] + cmd
        if spec.get("np"):
            cmd = ["mpirun", "--oversubscribe", "-np", str(self.np)] + cmd
        self.cmd = cmd
        self.env = vb.mpi_env()
        self.env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1"
                                     ":detect_odr_violation=1:handle_abort=1"
                                     ":max_malloc_fill_size=268435456:malloc_fill_byte=255",
                        UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67",
                        TSAN_OPTIONS="halt_on_error=1:exitcode=68:suppressions=" + str(VERIF / "vt/tsan.supp"),
                        TMPDIR=str(self.dir), PETSC_OPTIONS="-no_signal_handler")
        self.env.update(spec.get("env", {}))
        self.idle = spec.get("idle", 150 if tier == "quick" else 400)
        self.proc = None
        self.hung = False

    def start(self):
        self.err = open(self.dir / "stderr", "wb")
        self.proc = subprocess.Popen(self.cmd, cwd=self.dir, env=self.env, stdout=self.err, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
        self.last = (0, time.time())

    def poll(self):
        if self.proc.poll() is not None:
            return True
        size = sum(f.stat().st_size for f in self.dir.glob("log.*"))
        if size != self.last[0]:
            self.last = (size, time.time())
        elif time.time() - self.last[1] > self.idle:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGTERM)
            try:
                self.proc.wait(3)
            except subprocess.TimeoutExpired:
                pass
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def records(self, rank):
        f = pathlib.Path(str(self.out) + ".%d" % rank)
        out = []
        if f.exists():
            for line in f.read_text(errors="replace").splitlines():
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
        return out

    def stderr_text(self):
        self.err.close()
        return (self.dir / "stderr").read_text(errors="replace")


def ending(job, text):
    """Signature and detail of an abnormal ending, or None."""
    rc = job.proc.returncode
    m = re.search(r"SUMMARY: (\w+Sanitizer): (.*)", text)
    err = re.search(r"runtime error: (.*)", text)
    if m or err:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?/src/\S+)", text)
        where = re.sub(r"^.*/src/", "src/", frames[0][1]) if frames else ""
        kind = err.group(1) if err else m.group(2)
        kind = re.sub(r"0x[0-9a-f]+", "ADDR", kind)
        kind = re.sub(r"/\S*/", "", kind)
        cut = text.find("ERROR: ") if not err else text.find("runtime error:")
        return "sanitizer:" + re.sub(r"\d+", "N", kind.split(" in ")[0])[:80], (kind + " at " + where + " | " +
                                                                             text[max(0, cut - 200):cut + 1800])
    if job.spec.get("variant") == "plain":
        # only what has one of our own frames: the process manager's threads have errors of their own
        ours = {f.name for f in vb.SRC.rglob("*.?pp")} | {f.name for f in (VERIF / "harness").glob("*.?pp")}
        for m in re.finditer(r"^==\d+== ([A-Z][^\n]*)\n((?:==\d+==    [^\n]*\n)+)", text, re.M):
            if any(f in ours for f in re.findall(r"\((\S+?):\d+\)", m.group(2))):
                return "valgrind:" + re.sub(r"\d+", "N", m.group(1))[:80], (m.group(1) + "\n" + m.group(2))[:1800]
        if rc == 69:
            rc = 0
    if job.hung:
        return "hang", "no progress for %d s" % job.idle
    if rc != 0:
        sig = -rc if rc < 0 else rc
        m = re.search(r"terminate called.*?(what\(\): .*)", text, re.S)
        return "crash:%s" % sig, "ended with %d: %s" % (rc, (m.group(0)[:300] if m else text[-1200:]))
    return None


def known_findings():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    P = PROPS[a.prop]
    only = spec_only = None
    if a.replay:
        r = json.loads(pathlib.Path(a.replay).read_text())
        only, spec_only, a.seed, a.tier = r["case"], r["job"], r["seed"], r["tier"]
    budget = a.budget or (800 if a.tier == "quick" else 4 * 3600)
    specs = [s for s in P["jobs"] if a.tier == "thorough" or not s.get("thorough_only")]
    if spec_only:
        specs = [s for s in P["jobs"] if {k: s[k] for k in s} == spec_only] or [spec_only]
    try:
        exes = {}
        for variant in sorted({s.get("variant", "asan") for s in specs}):
            names = sorted({s["harness"] for s in specs if s.get("variant", "asan") == variant})
            for n, e in vb.build(names, variant).items():
                exes[(n, variant)] = e
    except RuntimeError as e:
        print("ERROR: the tree does not build with the harness\n%s" % e)
        return 2
    built = time.time()
    scratch = tempfile.mkdtemp(prefix="vt-" + a.prop + "-")
    try:
        return judge(a, P, specs, exes, scratch, only, budget, built)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        vb.prune()


def judge(a, P, specs, exes, scratch, only, budget, built):
    pending = []
    for s in specs:
        exe = exes[(s["harness"], s.get("variant", "asan"))]
        if s.get("np") or only or s.get("single"):
            pending.append(Job(a.prop, s, exe, a.seed, a.tier, scratch, only=only))
        else:
            n = s.get("slices", 8)
            pending += [Job(a.prop, s, exe, a.seed, a.tier, scratch, (i, n)) for i in range(n)]
    # widest first; at most 8 processes' worth at a time (an mpirun wider than that runs alone)
    pending.sort(key=lambda j: -j.np)
    running, done, late = [], [], False
    while pending or running:
        for j in list(running):
            if j.poll():
                running.remove(j)
                done.append(j)
        used = sum(j.np for j in running)
        for j in list(pending):
            if used == 0 or used + j.np <= 8:
                pending.remove(j)
                j.start()
                running.append(j)
                used += j.np
        if time.time() - START > budget:
            late = True
            for j in running:
                j.kill()
                done.append(j)
            break
        time.sleep(0.05)

    viols, evals, keys, counts, maxima, samples, perjob = [], 0, set(), {}, {}, [], {}
    for j in done:
        text = j.stderr_text()
        bad = ending(j, text)
        open_cases, finished = [], True
        for rank in range(j.np):
            recs = j.records(rank)
            cur = None
            for r in recs:
                if r["t"] == "begin":
                    cur = r["c"]
                elif r["t"] == "end":
                    cur = None
                    if rank == 0:
                        evals += 1
                        perjob[j.spec["harness"]] = perjob.get(j.spec["harness"], 0) + 1
                        if r["nt"]:
                            keys.add((j.np, r["key"]))
                elif r["t"] == "viol":
                    viols.append({"case": r["c"], "sig": r["sig"], "detail": r["detail"], "job": j, "rank": rank})
                elif r["t"] == "sample" and rank == 0:
                    samples.append({"case": r["c"], "ranks": j.np, "text": r["text"]})
                elif r["t"] == "obs":
                    for k, v in r["n"].items():
                        counts[k] = counts.get(k, 0) + v
                    for k, v in r.get("max", {}).items():
                        maxima[k] = max(maxima.get(k, 0.0), float(v)) if v not in ("nan", "-nan") else v
            finished = finished and bool(recs) and recs[-1]["t"] == "done"
            if cur:
                open_cases.append(cur)
        if bad is None and not finished and not late:
            bad = ("crash:silent", "the process ended before its cases did: " + text[-800:])
        if bad and not late:
            if any(v["job"] is j and v["sig"].startswith("exception:") for v in viols):
                continue # a rank reported the exception and ended the run
            case = open_cases[0] if open_cases else "startup"
            viols.append({"case": case, "sig": bad[0], "detail": bad[1], "job": j, "rank": 0})

    # a sweep judges memory, crashes and progress; the values are another property's matter
    viols = [v for v in viols if not v["job"].spec.get("sweep") or
             re.match(r"sanitizer:|valgrind:|crash:|hang|leak:|exception:", v["sig"])]
    known = [k for k in known_findings() if k["property"] == a.prop and k.get("status") == "open"]
    shown, fresh, hits = set(), {}, {}
    for v in viols:
        mode = v["case"].split("#")[0]
        k = next((k for k in known if k["mode"] == mode and re.fullmatch(k["sig"], v["sig"]) and
                  re.search(k.get("detail", ""), v["detail"])), None)
        if k:
            hits[k["id"]] = hits.get(k["id"], 0) + 1
            if k["id"] not in shown:
                shown.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
            continue
        fresh.setdefault((mode, v["sig"]), []).append(v)
    for (mode, sig), vs in list(fresh.items())[:12]:
        v = vs[0]
        (VERIF / "replays").mkdir(exist_ok=True)
        f = VERIF / "replays" / ("%s-%s.json" % (a.prop, hashlib.sha256((mode + sig).encode()).hexdigest()[:10]))
        f.write_text(json.dumps({"property": a.prop, "case": v["case"], "job": v["job"].spec, "seed": a.seed,
                                 "tier": a.tier, "sig": sig, "detail": v["detail"], "rank": v["rank"],
                                 "replay": "python3 vt/check.py %s --replay %s" % (a.prop, f.relative_to(VERIF))},
                                indent=1))
        print("VIOLATION property=%s replay=%s" % (a.prop, f.relative_to(VERIF)))
        print("  case %s (%d like it): %s: %s" % (v["case"], len(vs), sig, v["detail"][:700]))
    if not a.replay:
        n_eval = P.get("count")
        cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": P["rule"], "samples": samples[:6],
               "observed": dict(sorted(counts.items())), "extremes": maxima, "cases_per_harness": perjob,
               "processes": len(done), "known_finding_hits": hits, "build_s": round(built - START, 1)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (a.prop + ".json")).write_text(json.dumps(
            {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
             "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - START, 1),
             "violations": sum(len(v) for v in fresh.values())}, indent=1))
    if fresh:
        return 1
    if late:
        print("ERROR: out of time after %d cases" % evals)
        return 2
    if evals == 0:
        print("ERROR: no case ran")
        return 2
    print("OK property=%s: %d cases, %d distinct and non-trivial, %.0f s" % (a.prop, evals, len(keys),
                                                                            time.time() - START))
    return 0


if __name__ == "__main__":
    sys.exit(main())
