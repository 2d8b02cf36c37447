#!/usr/bin/env python3
"""Decide one property of palmtree.

    check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the driver against /repo's working tree, checks the design specifications with TLC, runs
programs (made up by the driver, or generated by TLC from the specifications) on the real crate,
and has TLC decide whether each recorded run is a behaviour of spec/PalmMap.tla.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: tool error.
"""
import argparse, concurrent.futures, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
import plan, probes  # what each property is decided by, what its programs look at


class ToolError(Exception):
    pass


T0 = time.time()


def note(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


# ------------------------------------------------------------------ building
def build(profile, wide):
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
    if wide:
        cmd += ["--features", "wide"]
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "wide-" + profile if wide else "core-" + profile)
    env["RUSTFLAGS"] = "-Awarnings"
    env["CARGO_INCREMENTAL"] = "0"
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(env["CARGO_TARGET_DIR"], profile, "palmdrive")
    if p.returncode != 0 or not os.path.exists(exe):
        raise ToolError("building the driver (%s) failed:\n%s" % (profile, p.stdout[-4000:]))
    return exe


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, scratch, name, env=None, args=(), heap="2g", workers=1, timeout=840, jit=True):
    """Run TLC; returns its output."""
    meta = os.path.join(scratch, "meta-" + name)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if jit:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-maxSetSize", "9000000",
            "-config", cfg, module, "-metadir", meta] + list(args)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s (%s)" % (module, name))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout.decode("utf-8", "replace"), p.returncode


def states_of(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)()", out)
    if not m:
        return 0, 0
    n = lambda s: int(s.replace(",", "") or 0)
    return n(m[-1][0]), n(m[-1][1])


def tail(out, n=1500):
    return out[-n:]


# ------------------------------------------------------------------ running the crate
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(exe, args, out, timeout=600):
    """Run the driver; what ends a trace other than its end marker becomes an event no spec allows."""
    err = open(out + ".err", "wb")
    why = None
    try:
        p = subprocess.run([exe] + [str(a) for a in args] + ["--out", out], stdout=err, stderr=err, timeout=timeout, preexec_fn=limits)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, why = -1, "hang"
    err.close()
    if rc in (2, 9):
        raise ToolError("driver: %s" % open(out + ".err", errors="replace").read()[-800:])
    data = open(out, "rb").read() if os.path.exists(out) else b""
    lines = data.split(b"\n")
    if lines and lines[-1] != b"":
        lines[-1] = b""  # cut short in the middle
    lines = [l for l in lines if l]
    if not lines and rc == 101:
        raise ToolError("driver panicked: %s" % open(out + ".err", errors="replace").read()[-800:])
    last = lines[-1] if lines else b""
    if rc == 0 and last.startswith(b'{"o":"end"'):
        return
    if not last.startswith(b'{"o":"hang"'):
        if rc == 101:
            # the driver itself panicked, outside a call: its own fault
            text = open(out + ".err", errors="replace").read()[-800:]
            if "malformed event" in text or "no such tree" in text:
                raise ToolError("driver panicked: " + text)
        cur = ""
        if os.path.exists(out + ".cur"):
            cur = open(out + ".cur", errors="replace").read().strip()
        why = why or "crash"
        lines.append(json.dumps({"o": why, "x": 1, "rc": rc, "during": cur}, separators=(",", ":")).encode())
    if not lines[0].startswith(b'{"o":"begin"'):
        lines.insert(0, b'{"o":"begin","x":0,"dbg":0,"shared":0,"part":0,"kit":"?","prof":"?","seed":"0"}')
    with open(out, "wb") as f:
        f.write(b"\n".join(lines) + b"\n")


def validate(trace, scratch, name, heap="2g", jit=True, timeout=840):
    """Is the recorded run a behaviour of PalmMap? Returns (rejected line or None, states)."""
    out, rc = tlc("PalmTrace.tla", "PalmTrace.cfg", scratch, name, env={"TRACE": trace}, heap=heap, jit=jit, timeout=timeout)
    m = re.search(r'<<"REJECTED", (\d+)>>', out)
    gen, dis = states_of(out)
    if m:
        return int(m.group(1)), dis
    if "Model checking completed. No error has been found" in out:
        return None, dis
    if "Attempted to" in out or "evaluating" in out or "Error:" in out:
        # a reply of a shape the action cannot be evaluated on is no reply of that action
        m = re.search(r"^/?\\?/?\s*\\?/?\s*l = (\d+)", out, re.M) or re.search(r"/\\ l = (\d+)", out)
        ls = re.findall(r"/\\ l = (\d+)", out)
        if ls and ("Attempted to" in out or "was not in the domain" in out):
            return int(ls[-1]), dis
    raise ToolError("TLC on %s: %s" % (name, tail(out)))


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="palm-%s-" % prop)
        self.lock = threading.Lock()
        self.exes = {}
        self.violations = []
        self.slow = []
        self.c = dict(states=0, transitions=0, programs=0, events=0, design_states=0, design_runs=0, generated_programs=0, negative_controls=0)
        self.ops = {}
        self.kits = {}
        self.samples = []
        self.design = []
        self.deadline = T0 + plan.BUDGET[tier]

    def count(self, trace):
        progs, n = 0, 0
        sample, cur = [], []
        with open(trace) as f:
            for line in f:
                m = re.match(r'\{"o":"([a-z]+)"', line)
                o = m.group(1) if m else "?"
                n += 1
                self_ops = self._ops
                self_ops[o] = self_ops.get(o, 0) + 1
                if o == "begin":
                    progs += 1
                    k = re.search(r'"kit":"([^"]*)"', line)
                    k = k.group(1) if k else "?"
                    self._kits[k] = self._kits.get(k, 0) + 1
                if progs == 2 and len(sample) < 12:
                    sample.append(line.strip()[:160])
        return progs, n, sample

    def judge(self, trace, name, what, heap="2g", jit=True, replay="replay"):
        """Validate a trace; on rejection record the violation with the program that shows it."""
        # a program's trace can be judged alone, so what follows a rejection is judged too (once)
        bad, states = validate(trace, self.scratch, name, heap, jit)
        with self.lock:
            self._ops, self._kits = self.ops, self.kits
            progs, n, sample = self.count(trace)
            self.c["states"] += states
            self.c["transitions"] += max(states - 1, 0)
            self.c["programs"] += progs
            self.c["events"] += n
            if len(self.samples) < 4 and sample:
                self.samples.append({"source": what, "trace": sample})
            if bad is not None:
                self.violated(trace, bad, name, what, replay)

    def violated(self, trace, bad, name, what, replay):
        lines = open(trace).read().split("\n")
        start = bad - 1
        while start > 0 and not lines[start].startswith('{"o":"begin"'):
            start -= 1
        prog = lines[start:bad]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.nd" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", name), len(self.violations)))
        head = json.loads(prog[0])
        head["replay"] = replay
        with open(path, "w") as f:
            f.write(json.dumps(head, separators=(",", ":")) + "\n" + "\n".join(prog[1:]) + "\n")
        self.violations.append((path, what, prog[-1][:300]))
        note("VIOLATION in %s (%s): line %d of its program is no step of the specification: %s" % (name, what, bad - start, prog[-1][:300]))

    # -------------------------------------------------------------- jobs
    def job_gen(self, j, n, seed):
        exe = self.exes[j["profile"]]
        out = os.path.join(self.scratch, "t%d.nd" % n)
        cmd = j.get("cmd", "gen")
        args = [cmd, "--seed", seed, "--kits", ",".join(j["kits"])]
        if cmd == "gen":
            args += ["--prof", j["prof"], "--events", j["events"], "--ops", j.get("ops", 300), "--large", j.get("large", 0)]
        elif cmd == "threads":
            args += ["--events", j["events"], "--ops", j.get("ops", 300), "--threads", j.get("threads", 6)]
        elif cmd == "big":
            args += ["--programs", j["programs"], "--size", j["size"]]
            if "style" in j:
                args += ["--style", j["style"]]
        drive(exe, args, out)
        what = "%s build, %s %s seed %d" % (j["profile"], cmd, j.get("prof", ""), seed)
        self.judge(out, "t%d" % n, what, heap=j.get("heap", "2g"), jit=j.get("jit", True), replay="trace" if cmd == "threads" else "replay")
        self.remove(out)

    def job_design(self, j, n, seed):
        """A design specification: must hold (or, as a control, must fail by the named property)."""
        name = "d%d" % n
        out, rc = tlc(j["module"], j["cfg"], self.scratch, name, args=j.get("args", []), heap=j.get("heap", "3g"),
                      workers=j.get("workers", 1), jit=j.get("jit", True), timeout=j.get("timeout", 840))
        gen, dis = states_of(out)
        want = j.get("fails")
        if want:
            if "is violated" not in out and "was violated" not in out and "Error: Deadlock" not in out and "Assumption" not in out:
                raise ToolError("control %s did not fail: %s" % (j["cfg"], tail(out)))
            if want not in out:
                raise ToolError("control %s failed otherwise than by %s: %s" % (j["cfg"], want, tail(out)))
        else:
            if "No error has been found" not in out and not (j.get("simulate") and "Error" not in out):
                raise ToolError("design %s: %s" % (j["cfg"], tail(out, 3000)))
        with self.lock:
            self.c["design_runs"] += 1
            self.c["negative_controls"] += 1 if want else 0
            self.c["states"] += dis or gen
            self.c["transitions"] += gen
            self.c["design_states"] += dis or gen
            self.design.append({"module": j["module"], "config": j["cfg"], "states_generated": gen, "distinct": dis, "expected_to_fail_by": want})

    def job_spec(self, j, n, seed):
        """Behaviours generated by TLC from a specification, replayed into the crate."""
        name = "s%d" % n
        args = [a.replace("@SEED", str(seed % 1000000007)) for a in j.get("args", [])]
        out, rc = tlc(j["module"], j["cfg"], self.scratch, name, args=args, heap=j.get("heap", "3g"), workers=1, jit=j.get("jit", True))
        if "Error" in out and not j.get("errors_ok"):
            raise ToolError("generation by %s: %s" % (j["cfg"], tail(out, 3000)))
        gen, dis = states_of(out)
        progs = plan.programs(j, out, seed, self.prop)
        if len(progs) < j.get("at_least", 1):
            raise ToolError("generation by %s: only %d programs: %s" % (j["cfg"], len(progs), tail(out)))
        with self.lock:
            self.c["states"] += dis or gen
            self.c["transitions"] += gen
            self.c["generated_programs"] += len(progs)
            self.design.append({"module": j["module"], "config": j["cfg"], "states_generated": gen, "distinct": dis, "programs_generated": len(progs)})
        # each program on some of the kits and builds
        rng = random.Random(seed)
        bins = {c: [] for c in j["combos"]}
        for i, p in enumerate(progs):
            for c in rng.sample(j["combos"], min(j.get("copies", 1), len(j["combos"]))):
                bins[c].append(p)
        m = 0
        for (kit, profile), ps in bins.items():
            for i in range(0, len(ps), j.get("chunk", 40)):
                m += 1
                self.submit(dict(kind="replay", kit=kit, profile=profile, programs=ps[i:i + j.get("chunk", 40)], cmd=j.get("cmd", "replay"),
                                 name="%s-%d-%s" % (name, m, kit), what="behaviours of %s (%s)" % (j["module"], j["cfg"])), n, seed)

    def job_replay(self, j, n, seed):
        """Programs made from a specification's behaviours, run on the crate."""
        src = os.path.join(self.scratch, j["name"] + ".in")
        t = os.path.join(self.scratch, j["name"] + ".nd")
        rng = random.Random(seed)
        with open(src, "w") as f:
            for p in j["programs"]:
                f.write('{"o":"begin","x":0,"kit":"%s","prof":"%s","seed":"%d"}\n' % (j["kit"], self.prop, seed))
                for e in p:
                    e = probes.adapted(e, j["kit"], rng)
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
        drive(self.exes[j["profile"]], [j["cmd"], "--in", src, "--kit", j["kit"]], t)
        what = "%s build, %s of %s on %s" % (j["profile"], j["cmd"], j["what"], j["kit"])
        self.judge(t, j["name"], what, replay="sched" if j["cmd"] == "sched" else "replay")
        self.remove(t)
        self.remove(src)

    def job_across(self, j, n, seed):
        """One program on many kits: what comes back must not depend on the configuration."""
        exe = self.exes[j["profile"]]
        src = os.path.join(self.scratch, "x%d.src" % n)
        drive(exe, ["gen", "--seed", seed, "--kits", j["kits"][0], "--prof", j["prof"], "--events", j["events"], "--ops", 150], src)
        for kit in j["kits"]:
            t = os.path.join(self.scratch, "x%d-%s.nd" % (n, kit))
            drive(exe, ["replay", "--in", src, "--kit", kit], t)
            self.judge(t, "x%d-%s" % (n, kit), "%s build, one program on %s seed %d" % (j["profile"], kit, seed))
            self.remove(t)
        self.remove(src)

    def remove(self, path):
        for p in (path, path + ".cur", path + ".err"):
            if os.path.exists(p):
                os.remove(p)

    def run(self):
        jobs = plan.jobs(self.prop, self.tier)
        wide = any(j.get("wide") for j in jobs)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            profs = ["chk", "rel"]
            fs = {p: pool.submit(build, p, wide) for p in profs}
            # the specifications need no driver
            rng = random.Random(self.seed * 7919 + sum(map(ord, self.prop)))
            pending = []
            for n, j in enumerate(jobs):
                j = dict(j)
                pending.append((j, n, rng.getrandbits(40)))
            early = [p for p in pending if p[0]["kind"] == "design"]
            late = [p for p in pending if p[0]["kind"] != "design"]
            self.pool, self.futures = pool, []
            for p in early:
                self.futures.append(pool.submit(self.job_design, *p))
            for p in profs:
                self.exes[p] = fs[p].result()
            note("driver built (%s)" % ("wide" if wide else "core"))
            late.sort(key=lambda p: -p[0].get("cost", 1))
            for p in late:
                self.submit(*p)
            done = 0
            while True:     # jobs may submit more jobs
                with self.lock:
                    todo = self.futures[done:]
                if not todo:
                    break
                todo[0].result()
                done += 1

    def submit(self, j, n, seed):
        with self.lock:
            self.futures.append(self.pool.submit(self.guard, (j, n, seed)))

    def guard(self, p):
        if self.violations or time.time() > self.deadline:
            if not self.violations:
                note("out of time: skipping a %s job" % p[0]["kind"])
                with self.lock:
                    self.c["skipped_jobs"] = self.c.get("skipped_jobs", 0) + 1
            return
        t = time.time()
        getattr(self, "job_" + p[0]["kind"])(*p)
        j = p[0]
        what = " ".join(str(j[k]) for k in ("kind", "cmd", "profile", "cfg", "large", "size", "name") if k in j)
        with self.lock:
            self.slow.append((round(time.time() - t, 1), what))

    def evidence(self):
        cov = dict(self.c)
        cov["traces_validated_against_impl"] = cov.pop("programs")
        cov["events_validated"] = cov.pop("events")
        cov["calls_by_kind"] = dict(sorted(self.ops.items()))
        cov["programs_by_configuration"] = dict(sorted(self.kits.items()))
        cov["specifications"] = self.design
        cov["samples"] = self.samples
        cov["rule"] = plan.RULE
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def replay(prop, path):
    """Run a saved program against the current tree and judge it again."""
    scratch = tempfile.mkdtemp(prefix="palm-replay-")
    try:
        head = json.loads(open(path).readline())
        how = head.get("replay", "replay")
        wide = head.get("kit") not in plan.CORE
        profile = "chk" if head.get("dbg") else "rel"
        out = os.path.join(scratch, "r.nd")
        if how == "trace":
            shutil.copy(path, out)
        else:
            lines = open(path).read().strip().split("\n")
            last = json.loads(lines[-1])
            if last["o"] in ("crash", "hang") and last.get("during"):
                try:
                    json.loads(last["during"])
                    lines[-1] = last["during"]
                except ValueError:
                    pass
            src = os.path.join(scratch, "r.in")
            open(src, "w").write("\n".join(lines) + "\n")
            drive(build(profile, wide), [how, "--in", src], out)
        bad, _ = validate(out, scratch, "r")
        if bad is None:
            print("accepted: the program's run is a behaviour of the specification")
            return 0
        print("rejected at line %d: %s" % (bad, open(out).read().split("\n")[bad - 1][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        try:
            return replay(a.prop, a.replay)
        except ToolError as e:
            print("ERROR: %s" % e)
            return 2
    c = Check(a.prop, a.tier, a.seed)
    try:
        err = None
        try:
            c.run()
        except ToolError as e:
            err = e
        except Exception:
            err = "internal: " + traceback.format_exc()
        c.evidence()
        if c.violations:
            for path, what, line in c.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if err:
            print("ERROR: %s" % err)
            return 2
        note("longest jobs: " + "; ".join("%ss %s" % x for x in sorted(c.slow, reverse=True)[:4]))
        note("%s holds on everything explored: %d programs, %d events, %d specification states" %
             (a.prop, c.c["programs"], c.c["events"], c.c["design_states"]))
        return 0
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
