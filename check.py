#!/usr/bin/env python3
"""check.py <property id>: runs the stages registered for one property.

Exit 0: held on everything explored.  1: VIOLATION line(s).  2: no answer."""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild
from registry import CHECKS

SAN_EXIT = 66
# Stages that share a workload must not repeat each other's cases.
SEED_OF = {"asan": 0, "plain": 1, "ndebug": 2, "tsan": 3, "vg": 4}
NCPU = int(os.environ.get("VH_JOBS", "8"))


def load_known():
    """Lines 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    except OSError:
        pass
    return out


MEM_LIMIT = 6000 << 20


def resident(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * resource.getpagesize()
    except (OSError, ValueError, IndexError):
        return 0


def san_env(variant):
    e = dict(os.environ)
    sup = ""
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=%d:detect_stack_use_after_return=1:strict_memcmp=0:handle_abort=1:"
                         "allocator_may_return_null=0:check_initialization_order=1:detect_invalid_pointer_pairs=0:"
                         "quarantine_size_mb=64:malloc_context_size=12" % SAN_EXIT)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=%d" % SAN_EXIT
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=%d:history_size=4:report_signal_unsafe=0:second_deadlock_stack=1" % SAN_EXIT
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def crash_key(text, rc):
    """Classifies an abnormal end by what reported it and where."""
    frame = "?"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        if "/harness/" in m.group(2) or not m.group(2).startswith(vbuild.REPO + "/"):
            continue
        frame = re.sub(r"[^A-Za-z0-9_:~]+", "_", m.group(1).split("(")[0])[-60:]
        break
    m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(", text)
    if m:
        return "race:%s:%s" % (m.group(1).strip().replace(" ", "-"), frame)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m and m.group(1) not in ("ABRT",):
        return "mem:%s:%s" % (m.group(1), frame)
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination)", text)
    if m:
        return "mem:vg:" + m.group(1).replace(" ", "-")
    m = re.search(r"runtime error: (.+)", text)
    if m:
        return "mem:ub:%s:%s" % (re.sub(r"[^A-Za-z]+", "-", m.group(1))[:30].strip("-"), frame)
    m = re.search(r"Assertion [`'](.+?)' failed", text)
    if m:
        return "crash:assert:%s" % re.sub(r"\s+", "", m.group(1))[:60]
    if rc < 0:
        return "crash:signal%d" % -rc
    if "AddressSanitizer" in text:
        return "crash:abort"
    return "crash:exit%d" % rc


class Run:
    """One process: cases [first, first+n) of a stage."""

    def __init__(self, prop, st, exe, seed, first, n, tier, work, idx):
        self.prop, self.st, self.exe, self.seed, self.first, self.n, self.tier = prop, st, exe, seed, first, n, tier
        self.name = "%s-%s-%s-%d" % (st["harness"], st["mode"], st["variant"], idx)
        self.dir = os.path.join(work, self.name)
        self.viols, self.problem, self.stats, self.sigs = [], None, None, set()
        self.known = []

    def cmd(self, out=True):
        c = list(self.st.get("prefix", []))
        if self.st["variant"] == "vg":
            c += ["valgrind", "-q", "--error-exitcode=%d" % SAN_EXIT, "--leak-check=no", "--exit-on-first-error=yes", "--fair-sched=yes", "--num-callers=20"]
        c += [self.exe, "--prop", self.prop, "--mode", self.st["mode"], "--seed", str(self.seed * 11 + SEED_OF.get(self.st["variant"], 5)), "--first", str(self.first), "--cases", str(self.n), "--tmp", os.path.join(self.dir, "t")]
        if self.tier == "thorough":
            c.append("--thorough")
        if out:
            c += ["--out", os.path.join(self.dir, "out.json")]
        return c + self.st.get("args", [])

    def mem_limit(self):
        return self.st["mem_gb"] << 30 if "mem_gb" in self.st else MEM_LIMIT

    def once(self, timeout):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "t"))
        so = open(os.path.join(self.dir, "stdout"), "wb")
        se = open(os.path.join(self.dir, "stderr"), "wb")

        def pre():
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.st["variant"] in ("plain", "ndebug"):
                resource.setrlimit(resource.RLIMIT_AS, (self.st.get("as_gb", 12) << 30,) * 2)
        p = subprocess.Popen(self.cmd(), stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=san_env(self.st["variant"]), cwd=self.dir, preexec_fn=pre)
        timed_out, rc, self.huge = False, None, False
        end = time.time() + timeout
        while rc is None:
            try:
                rc = p.wait(max(0.01, min(0.4, end - time.time())))
            except subprocess.TimeoutExpired:
                if time.time() >= end:
                    timed_out = True
                    break
                # The sanitizers' own memory limit needs a thread that opens files, which the
                # descriptor counts would see; so the limit is kept here.
                if resident(p.pid) > self.mem_limit():
                    self.huge = True
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        so.close(), se.close()
        out = open(os.path.join(self.dir, "stdout"), errors="replace").read()
        err = open(os.path.join(self.dir, "stderr"), errors="replace").read()
        return timed_out, rc, out, err

    def execute(self, deadline):
        tmo = self.st.get("timeout", 300) * (1 if self.tier == "quick" else 4)
        hangs = 0
        for attempt in range(4):
            left = deadline - time.time()
            if left < 5:
                self.problem = "out of time"
                return
            timed_out, rc, out, err = self.once(min(tmo * (1 + hangs), left))
            timed_out = timed_out or rc == 5
            if self.huge:
                self.viols.append(("crash:memory", -1, "%s used more than %d MiB" % (self.name, self.mem_limit() >> 20)))
                self.text = out[-3000:] + err[-3000:]
                return
            if timed_out:
                hangs += 1
                if hangs < 2:
                    continue
                if rc != 5 and left < tmo:  # the limit was ours, not the workload's
                    self.problem = "out of time"
                    return
                self.viols.append(("hang", -1, "%s did not finish, twice" % self.name))
                self.text = out[-3000:] + err[-3000:]
                return
            if "unexpected memory mapping" in err or rc == -signal.SIGKILL or "Shadow memory range interleaves" in err:
                self.problem = "killed or sanitizer start-up failure: " + err[-300:]
                continue
            break
        self.text = out[-6000:] + "\n--- stderr ---\n" + err[-12000:]
        if self.problem and (rc == -signal.SIGKILL or rc is None or "unexpected memory mapping" in err):
            return
        self.problem = None
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 4:
                self.viols.append((f[1], int(f[2]), f[3]))
            elif f[0] == "BROKEN":
                self.problem = line
        if rc == 4:
            self.problem = self.problem or "harness problem"
        elif rc not in (0, 3):
            k = crash_key(err + out, rc)
            m = re.search(r"(SUMMARY: .*|Assertion .*|==\d+== .*)", err)
            self.viols.append((k, -1, (m.group(1) if m else err.strip().splitlines()[-1] if err.strip() else "exit code %s" % rc)[:400]))
        elif rc == 3 and not self.viols:
            self.problem = "exit 3 without a violation line"
        elif rc == 0 and "DONE rc=0" not in out:
            self.viols.append(("crash:exit0", -1, "the process ended early with status 0"))
        try:
            self.stats = json.load(open(os.path.join(self.dir, "out.json")))
            raw = open(os.path.join(self.dir, "out.json.sigs"), "rb").read()
            self.sigs = set(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except (OSError, ValueError):
            pass


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    C = CHECKS[prop]
    t0 = time.time()
    budget = 840 if tier == "quick" else 4 * 3600
    deadline = t0 + budget
    stages = [dict(s) for s in C["stages"] if tier == "thorough" or s.get("quick", 0) > 0]
    targets = []
    for s in stages:
        s["target"] = (s["harness"], s["variant"], tuple(s.get("defs", ())), tuple(s.get("wraps", ())))
        if s["target"] not in targets:
            targets.append(s["target"])
    built = vbuild.build(targets, NCPU)
    notes = []
    broken = []
    live = []
    for s in stages:
        r = built[s["target"]]
        if isinstance(r, vbuild.BuildError):
            if s.get("optional_build"):
                notes.append("stage %s/%s skipped: the instrumented build does not compile" % (s["mode"], s["variant"]))
                continue
            if not broken: print("BUILD FAILED\n%s" % str(r)[-1500:], flush=True)
            broken.append("build failed")
            continue
        s["exe"] = r
        live.append(s)
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    os.chmod(work, 0o755)  # some harnesses act as other users
    runs = []
    for s in live:
        total = s.get(tier, s.get("quick", 1))
        shards = min(s.get("shards", 8), total)
        base = total // shards
        first = 0
        for k in range(shards):
            n = base + (1 if k < total % shards else 0)
            runs.append((s.get("weight", 1), Run(prop, s, s["exe"], seed, first, n, tier, work, k)))
            first += n
    known = [k for k in load_known() if k[0] == prop]
    known_keys = {(k[0], k[1]) for k in known}
    rel = C.get("only_keys")  # only keys matching this (C29)
    found = threading.Event()  # the quick tier starts nothing more after a violation
    # A weight w stage occupies w of the NCPU slots.
    slots = threading.Semaphore(NCPU)
    lock = threading.Lock()

    def go(item):
        w, r = item
        w = min(w, NCPU)
        with lock:
            for _ in range(w):
                slots.acquire()
        try:
            if not found.is_set():
                r.execute(deadline)
                if r.viols and tier == "quick" and not all((prop, v[0]) in known_keys or (rel and not re.search(rel, v[0])) for v in r.viols):
                    found.set()
        finally:
            for _ in range(w):
                slots.release()
        return r
    with ThreadPoolExecutor(max(1, len(runs))) as ex:
        done = list(ex.map(go, runs))

    viol, known_seen = [], {}
    for r in done:
        for key, case, msg in r.viols:
            if rel and not re.search(rel, key):
                if key != "hang":
                    notes.append("ignored here: %s" % key)
                continue
            hit = [k for k in known if k[1] == key]
            if hit:
                known_seen[key] = hit[0][2]
            else:
                viol.append((r, key, case, msg))
        if r.problem and not r.viols:
            broken.append("%s: %s" % (r.name, r.problem))

    counters, samples, sigs, evals = {}, [], set(), 0
    per_stage = {}
    for r in done:
        if not r.stats:
            continue
        evals += r.stats["evaluations"]
        sigs |= r.sigs
        for k, v in r.stats["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        tag = "%s:%s/%s" % (r.st["harness"], r.st["mode"], r.st["variant"])
        per_stage[tag] = per_stage.get(tag, 0) + r.stats["evaluations"]
        for x in r.stats["samples"][:1]:
            if sum(1 for y in samples if y.startswith(tag)) < 2:
                samples.append(tag + ": " + x)
    for k, lo in C.get("require", {}).items():
        if not viol and not broken and counters.get(k, 0) < lo:
            broken.append("observed only %d of %s (needs %d)" % (counters.get(k, 0), k, lo))

    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    seen = set()
    for r, key, case, msg in viol:
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
        cmd = r.cmd(out=False)
        if case >= 0:
            cmd += ["--only", str(case)]
        json.dump({"property": prop, "key": key, "case": case, "message": msg, "command": cmd,
                   "env": {k: v for k, v in san_env(r.st["variant"]).items() if k.endswith("SAN_OPTIONS")},
                   "build": {"harness": r.st["harness"], "variant": r.st["variant"], "defines": list(r.st.get("defs", ())), "wraps": list(r.st.get("wraps", ()))},
                   "how": "build with vbuild.build([(harness, variant, defines, wraps)]), make the --tmp directory, run the command; schedule-dependent stages may need several runs",
                   "output": getattr(r, "text", "")}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %s (stage %s, case %d)" % (key, msg, r.name, case))
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": C["rule"], "samples": samples or ["(none)"],
           "evaluations_by_stage": per_stage, "observed": counters}
    if notes:
        cov["notes"] = sorted(set(notes))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": C["level"], "coverage": cov,
          "assumptions": C.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    if known_seen:
        ev["coverage"]["known_findings_seen"] = sorted(known_seen)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_seen[k]))
    for l in lines:
        print(l)
    if lines:
        return 1
    if broken:
        for b in broken[:6]:
            print("NO ANSWER: " + b)
        return 2
    print("%s held: %d evaluations, %d distinct, %.1f s%s" % (prop, evals, len(sigs), time.time() - t0, "; " + "; ".join(sorted(set(notes))) if notes else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
