#!/usr/bin/env python3
"""Decides one property: builds its monitors against /repo's working tree, runs them over all cores,
attributes crashes and hangs to a case, writes evidence/<id>.json and prints the verdict.

    check.py C01            tier and seed come from VERIF_TIER and VERIF_SEED
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(1, min(8, os.cpu_count() or 1))
MAX_SECS = float(os.environ.get("VERIF_MAX_SECS", "200" if TIER == "quick" else "1500"))
STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", "nightly"
HOST = "x86_64-unknown-linux-gnu"

from checks import CHECKS  # noqa: E402


class Infra(Exception):
    """The check could not be carried out."""


def cargo_env(toolchain=STABLE, rustflags=None, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    env.update(HOME="/root", PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8",
               RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    env.update(extra or {})
    return env


def build(crate, binary, variant):
    """Returns the command prefix that runs the binary of that build variant."""
    d = os.path.join(VERIF, crate)
    if variant in ("dev", "release"):
        env = cargo_env(extra={"CARGO_TARGET_DIR": os.path.join(TARGET, crate)})
        cmd = ["cargo", "build", "--offline", "--bin", binary] + (["--release"] if variant == "release" else [])
        out = [os.path.join(TARGET, crate, "debug" if variant == "dev" else "release", binary)]
    elif variant == "asan":
        env = cargo_env(NIGHTLY, "-Zsanitizer=address",
                        {"CARGO_TARGET_DIR": os.path.join(TARGET, crate + "-asan"),
                         "FC": os.path.join(VERIF, "tools", "fc-address", "gfortran")})
        cmd = ["cargo", "build", "--offline", "--release", "--target", HOST, "--bin", binary]
        out = [os.path.join(TARGET, crate + "-asan", HOST, "release", binary)]
    elif variant == "tsan":
        # The standard library and the native library are instrumented too.
        env = cargo_env(NIGHTLY, "-Zsanitizer=thread",
                        {"CARGO_TARGET_DIR": os.path.join(TARGET, crate + "-tsan"),
                         "FC": os.path.join(VERIF, "tools", "fc-thread", "gfortran")})
        cmd = ["cargo", "build", "--offline", "--release", "-Zbuild-std", "--target", HOST, "--bin", binary]
        out = [os.path.join(TARGET, crate + "-tsan", HOST, "release", binary)]
    elif variant == "miri":
        env = cargo_env(NIGHTLY, None, {"CARGO_TARGET_DIR": os.path.join(TARGET, crate + "-miri"),
                                        "MIRIFLAGS": "-Zmiri-disable-isolation"})
        # `run` with --build-only does not exist: the first run builds, so do that once, alone.
        cmd = ["cargo", "miri", "run", "--offline", "--bin", binary, "--", "--probe"]
        out = ["cargo", "miri", "run", "--offline", "--quiet", "--bin", binary, "--"]
    else:
        raise Infra("unknown build variant " + variant)
    t = time.time()
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Infra("building %s (%s) failed:\n%s" % (binary, variant, p.stdout[-6000:]))
    return out, time.time() - t


def limits(mem_gb, cpu_s=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu_s), int(cpu_s) + 5))
        os.setsid()
    return f


def sessions(pids):
    """For each session of ours: processor seconds used by its processes, and whether every thread of them sleeps."""
    out = {p: [0.0, True] for p in pids}
    tick = os.sysconf("SC_CLK_TCK")
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % d) as f:
                s = f.read().rsplit(")", 1)[1].split()
            o = out.get(int(s[3]))
            if o is None:
                continue
            o[0] += sum(int(x) for x in s[11:15]) / tick
            for t in os.listdir("/proc/%s/task" % d):
                with open("/proc/%s/task/%s/stat" % (d, t)) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] not in "SZ":
                        o[1] = False
        except (OSError, IndexError):
            o = None
    return out


class Watch:
    """Decides when a process is stuck: too much processor time in one case, or all of it asleep."""

    def __init__(self, hang_cpu):
        self.hang_cpu, self.case, self.cpu, self.t = hang_cpu, None, 0.0, time.time()
        self.last, self.still = -1.0, time.time()

    def look(self, case, cpu, asleep):
        now = time.time()
        if case != self.case:
            self.case, self.cpu, self.t = case, cpu, now
        if not asleep or cpu > self.last + 0.02:
            self.last, self.still = cpu, now
        if now - self.still > DEADLOCK_S:
            return "every thread slept for %d s" % DEADLOCK_S
        if cpu - self.cpu > self.hang_cpu:
            return "one case did not end within %d s of processor time" % self.hang_cpu
        return None


DEADLOCK_S = 60


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read(path, n=1 << 22):
    try:
        with open(path, errors="replace") as f:
            return f.read(n)
    except OSError:
        return ""


class Stage:
    """One binary in one build variant."""

    def __init__(self, pid, spec, variant, work):
        self.pid, self.spec, self.variant, self.work = pid, spec, variant, work
        self.crate, self.binary = spec.get("crate", "harness"), spec["bin"]
        self.tag = "%s-%s" % (self.binary, variant)
        self.violations = []      # (case or None, message)
        self.notes = []
        self.results = []
        slow = {"miri": 4, "asan": 2, "tsan": 3, "valgrind": 4}.get(variant, 1)
        self.hang_cpu = spec.get("hang_cpu", 60) * slow * (1 if TIER == "quick" else 4)
        self.mem = None if variant in ("asan", "tsan", "miri") else spec.get("mem_gb", 3)
        self.env = dict(os.environ, RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0")
        if variant == "asan":
            self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3500:symbolize=0"
        if variant == "tsan":
            self.env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
        if variant == "miri":
            self.env = cargo_env(NIGHTLY, None, {"CARGO_TARGET_DIR": os.path.join(TARGET, self.crate + "-miri"),
                                                 "MIRIFLAGS": "-Zmiri-disable-isolation"})
        self.env.update(spec.get("env", {}))

    def build(self):
        if self.variant == "valgrind":
            self.cmd, self.build_s = build(self.crate, self.binary, "dev")
            self.cmd = ["valgrind", "--quiet", "--error-exitcode=97", "--leak-check=no", "--errors-for-leak-kinds=none"] + self.cmd
            self.mem = None
        else:
            self.cmd, self.build_s = build(self.crate, self.binary, self.variant)

    def args(self):
        mult = self.spec.get("mult", {}).get(self.variant)
        if TIER == "quick" and self.variant in self.spec.get("quick", {}):
            mult = (mult or 1) * self.spec["quick"][self.variant]
        a = ["--tier", TIER, "--seed", str(SEED)]
        if mult:
            a += ["--mult", str(mult)]
        if self.spec.get("only", {}).get(self.variant):
            a += ["--only", self.spec["only"][self.variant]]
        return a

    def start(self, k, n, skip):
        base = os.path.join(self.work, "%s.%d" % (self.tag, k))
        for e in (".json", ".json.bits", ".cur", ".log"):
            if os.path.exists(base + e):
                os.unlink(base + e)
        a = self.cmd + self.args() + ["--shard", str(k), "--shards", str(n), "--out", base + ".json", "--cur", base + ".cur",
                                      "--max-secs", str(int(self.max_secs))]
        for s in skip:
            a += ["--skip", s]
        log = open(base + ".log", "w")
        p = subprocess.Popen(a, cwd=os.path.join(VERIF, self.crate), env=self.env, stdin=subprocess.DEVNULL,
                             stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(self.mem))
        p.base, p.cmdline, p.k = base, a, k
        p.watch = Watch(self.hang_cpu)
        return p

    def run(self):
        self.max_secs = self.spec.get("max_secs", {}).get(self.variant, MAX_SECS) if TIER == "quick" else MAX_SECS
        n = self.spec.get("shards", {}).get(self.variant, self.spec.get("shards", {}).get("", NPROC))
        par = self.spec.get("parallel", NPROC)
        todo = [(k, [], 0) for k in range(n)]
        live, looked = [], 0.0
        while todo or live:
            while todo and len(live) < par:
                k, skip, tries = todo.pop(0)
                p = self.start(k, n, skip)
                p.skip, p.tries = skip, tries
                live.append(p)
            time.sleep(0.05)
            info = {}
            if time.time() - looked > 0.5:
                looked = time.time()
                info = sessions([p.pid for p in live])
            for p in list(live):
                rc = p.poll()
                if rc is None:
                    if p.pid not in info:
                        continue
                    stuck = p.watch.look(read(p.base + ".cur", 80).strip(), *info[p.pid])
                    if stuck:
                        kill(p)
                        live.remove(p)
                        self.ended(p, None, todo, stuck)
                        if self.violations:
                            # The others will hang as well.
                            for q in live:
                                kill(q)
                            return
                    continue
                live.remove(p)
                if rc == 0 and os.path.exists(p.base + ".json"):
                    self.results.append(json.load(open(p.base + ".json")))
                    self.results[-1]["bits"] = p.base + ".json.bits"
                    for c, m in self.results[-1]["failures"]:
                        self.violations.append((c, m))
                else:
                    self.ended(p, rc, todo)

    def alone(self, case):
        """Runs one case in a process of its own; returns what went wrong, or None."""
        a = self.cmd + self.args() + ["--case", case]
        log = os.path.join(self.work, "alone.log")
        with open(log, "w") as f:
            p = subprocess.Popen(a, cwd=os.path.join(VERIF, self.crate), env=self.env, stdin=subprocess.DEVNULL,
                                 stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(self.mem))
            w = Watch(self.hang_cpu)
            while p.poll() is None:
                time.sleep(0.2)
                stuck = w.look(case, *sessions([p.pid])[p.pid])
                if stuck:
                    kill(p)
                    return stuck
        if p.returncode == 0:
            return None
        out = read(log)
        m = re.search(r"case \S+ FAILED: (.*)", out, re.S)
        if m:
            return m.group(1).strip()
        return "%s\n%s" % (how(p.returncode), out[-3000:])

    def ended(self, p, rc, todo, stuck=""):
        """A shard crashed or hung."""
        case = read(p.base + ".cur", 80).strip()
        what = "hung (%s)" % stuck if rc is None else how(rc)
        log = read(p.base + ".log", 1 << 26)[-20000:]
        if not case or case == "finished":
            if p.tries < 1:
                todo.append((p.k, p.skip, p.tries + 1))
                self.notes.append("shard %d %s outside a case; repeated" % (p.k, what))
                return
            raise Infra("%s shard %d %s outside a case:\n%s" % (self.tag, p.k, what, log))
        if rc is None and "slept" in stuck:
            self.violations.append((None, "deadlock at case %s: %s\n%s" % (case, stuck, " ".join(p.cmdline))))
            return
        alone = self.alone(case)
        report = REPORT.search(log) if rc is not None else None
        if alone is None and report:
            # What a sanitizer has seen happened, whether or not it happens again.
            self.violations.append((None, "%s at case %s:\n%s\n%s" % (what, case, log[report.start():], " ".join(p.cmdline))))
            return
        if alone is not None:
            self.violations.append((case, alone))
            if len(self.violations) < 6:
                todo.append((p.k, p.skip + [case], 0))
        elif p.tries < 1:
            self.notes.append("shard %d %s at %s, which holds when run alone; repeated" % (p.k, what, case))
            todo.append((p.k, p.skip, p.tries + 1))
        elif rc is not None and rc == -signal.SIGKILL:
            raise Infra("%s shard %d was killed twice at %s" % (self.tag, p.k, case))
        else:
            self.violations.append((None, "%s at case %s, only after the cases before it:\n%s\n%s" % (what, case, log, " ".join(p.cmdline))))


REPORT = re.compile("WARNING: ThreadSanitizer: (data race|heap-use|signal|destroy|unlock|double lock)|"
                    "ERROR: AddressSanitizer: (?!allocation-size|out-of-memory|hard-rss|rss|requested allocation)|Undefined Behavior|"
                    "Invalid (read|write) of size|(depends on|Use of) uninitialised value")


def how(rc):
    if rc is not None and rc < 0:
        try:
            return "ended by " + signal.Signals(-rc).name
        except ValueError:
            return "ended by signal %d" % -rc
    return "ended with status %s" % rc


def known():
    """Findings that are recorded rather than repaired: lines `finding: property=<id> case-message=<regex> -- <what fails>`."""
    out = []
    for line in read(os.path.join(VERIF, "known_findings.txt")).splitlines():
        m = re.match(r"finding: property=(\S+) match=(.*?) -- (.*)", line)
        if m:
            out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        for k in sorted({(s.get("crate", "harness"), s["bin"], v) for c in CHECKS.values() for s in c["stages"] for v in s["variants"]}):
            build(*k[:2], k[2] if k[2] != "valgrind" else "dev")
        return 0
    check = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    work = os.path.join(TARGET, "work-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    stages = []
    for spec in check["stages"]:
        for v in spec.get("variants_" + TIER, spec["variants"]):
            stages.append(Stage(pid, spec, v, work))
    for s in stages:
        s.build()
    for n, s in enumerate(stages):
        s.run()
        if s.violations:
            # One violation decides; what the other builds would add is not worth the wait.
            stages = stages[:n + 1]
            break

    coverage = {"rule": check["rule"], "stages": {}}
    evaluations, distinct, samples = 0, 0, []
    merged = None
    for s in stages:
        ev = sum(r["evaluations"] for r in s.results)
        fams, counters = {}, {}
        bits = 0
        for r in s.results:
            for k, v in r["families"].items():
                fams[k] = fams.get(k, 0) + v
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            bits |= int.from_bytes(open(r["bits"], "rb").read(), "little")
            if len(samples) < 6:
                samples += [s.variant + " " + x for x in r["samples"][:2]]
        merged = bits if merged is None else merged | bits
        evaluations += ev
        coverage["stages"][s.tag] = {"cases": ev, "families": fams, "observed": counters,
                                     "distinct": bin(bits).count("1"), "longest_case_ms": max([r["longest_ms"] for r in s.results] or [0]), "build_s": round(s.build_s, 1),
                                     "truncated_by_time": any(r["truncated"] for r in s.results), "notes": s.notes}
    distinct = bin(merged or 0).count("1")
    coverage.update(evaluations=evaluations, distinct_nontrivial=distinct, samples=samples[:8])

    viol, found, n = [], {}, 0
    kn = known()
    for s in stages:
        for case, msg in s.violations:
            hit = [w for (p, rx, w) in kn if p == pid and rx.search(msg)]
            if hit:
                found[hit[0]] = 1
                continue
            n += 1
            path = os.path.join(EVID, "replay", "%s-%d.sh" % (pid, n))
            with open(path, "w") as f:
                f.write("#!/bin/bash\n# Property %s, %s, case %s\n" % (pid, s.tag, case))
                for line in msg.splitlines():
                    f.write("# %s\n" % line)
                if case:
                    f.write("VERIF_TIER=%s VERIF_SEED=%d exec python3 %s/check.py --replay %s %s %s\n" % (TIER, SEED, VERIF, pid, s.tag, case))
            os.chmod(path, 0o755)
            viol.append((s, case, msg, path))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": coverage,
                   "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for w in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for s, case, msg, path in viol:
        print("%s case %s: %s" % (s.tag, case, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    for s in stages:
        c = coverage["stages"][s.tag]
        if not c["cases"] or not c["distinct"] or not c["observed"]:
            raise Infra("%s observed nothing" % s.tag)
    print("%s held: %d cases, %d distinct, %.1f s" % (pid, evaluations, distinct, time.time() - t0))
    return 0


def replay():
    pid, tag, case = sys.argv[2:5]
    for spec in CHECKS[pid]["stages"]:
        for v in set(spec["variants"] + spec.get("variants_thorough", [])):
            work = os.path.join(TARGET, "work-replay")
            os.makedirs(work, exist_ok=True)
            s = Stage(pid, spec, v, work)
            if s.tag == tag:
                s.build()
                s.cmd = s.cmd
                p = subprocess.run(s.cmd + s.args() + ["--case", case, "--trace"], cwd=os.path.join(VERIF, s.crate), env=s.env)
                return p.returncode
    print("no such stage")
    return 2


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    try:
        sys.exit(replay() if sys.argv[1] == "--replay" else main())
    except Infra as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
