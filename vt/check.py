"""Common part of every check: run jobs, merge what they report, write evidence, print the verdict."""
import json, os, re, subprocess, sys, time, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines: 'KNOWN property=<id> key=<regex over "variant | what | case">  <description>'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) key=/(.*?)/ +(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Job:
    def __init__(self, variant, cfg, cmd, prop, args=(), env=None, timeout=600, how="engine", parse=None, label=None):
        self.variant, self.cfg, self.cmd, self.prop = variant, cfg, cmd, prop
        self.args, self.env, self.timeout, self.how = [str(a) for a in args], env or {}, timeout, how
        self.parse, self.label = parse, label or f"{variant.name} [{cfg.name}]"


class Result:
    def __init__(self, job, data, error=None):
        self.job, self.data, self.error = job, data, error


class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level, self.assumptions = prop, rule, level, list(assumptions)
        self.t0 = time.time()
        self.results, self.notes, self.skipped = [], [], {}
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix="vt-" + prop + "-")
        self.quick = TIER != "thorough"

    # -------------------------------------------------------------- building
    def build(self, pairs, optional=False):
        """The plain builds must succeed; an instrumented one that does not is reported as skipped."""
        cmds, failed = B.build_all(pairs)
        hard = {k: e for k, e in failed.items() if k[1] == "kat" and not optional}
        if hard:
            for k, e in hard.items():
                print("BUILD FAILED", k, e, file=sys.stderr)
            self.finish_error(f"{len(hard)} builds failed")
        for k, e in failed.items():
            self.skipped[f"{k[0]} [{k[1]}]"] = "does not build in this configuration: " + e.strip().splitlines()[-1][:200]
        return cmds

    # -------------------------------------------------------------- running
    def run_one(self, job):
        if self.quick and time.time() - self.t0 > 560:          # a slow machine: say less, but answer in time
            self.skipped[f"{job.label} {job.prop} {' '.join(job.args[:2])}"] = "not started within the time of the quick tier"
            return None
        if self.found and time.time() - self.found > 45:        # the verdict is clear
            self.skipped[f"{job.label} {job.prop} {' '.join(job.args[:2])}"] = "not started, a violation had been found"
            return None
        err = os.path.join(self.tmp, hashlib.sha1((job.label + job.prop + repr(job.args)).encode()).hexdigest()[:12])
        if job.how == "engine":
            cmd = job.cmd + ["--prop", job.prop, "--variant", job.label, "--alg", str(job.variant.alg),
                             "--slow", "1" if job.variant.arm else "0", "--errfile", err] + job.args
            if "--seed" not in job.args:
                cmd += ["--seed", str(SEED)]
        else:
            cmd = job.cmd + job.args
        env = dict(os.environ)
        env.update(job.env)
        env.pop("QEMU_STRACE", None)
        if not any("valgrind" in c for c in cmd):
            cmd = ["setarch", "-R"] + cmd if shutil.which("setarch") and self.no_aslr else cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=job.timeout, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return Result(job, None, "timeout of the whole job")
        if job.parse:
            return job.parse(self, job, r)
        lines = [l for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("{")]
        if r.returncode not in (0, 1) or not lines:
            return Result(job, None, f"exit {r.returncode}: {r.stderr.decode(errors='replace')[-600:]} {r.stdout.decode(errors='replace')[-300:]}")
        try:
            d = json.loads(lines[-1])
        except ValueError as e:
            return Result(job, None, f"bad report: {e}: {lines[-1][:300]}")
        res = Result(job, d)
        if self.confirmed(res) and not self.known(res) and not self.found:
            self.found = time.time()
        return res

    found = 0

    @staticmethod
    def confirmed(r):
        return r.data.get("violation") and r.data.get("reproduced", 0) >= (1 if r.data.get("kind", 1) == 1 else 2)

    def known(self, r):
        """The description of the known finding that explains this violation, if any."""
        text = f"{r.job.label} | {r.data.get('what')} | {r.data.get('case')}"
        return next((desc for rx, desc in known_findings(self.prop) if rx.search(text)), None)

    @staticmethod
    def with_places(r):
        """What failed, with 'pc=0x...' followed by the function and line it belongs to where that is known."""
        exe = next((c for c in r.job.cmd if os.path.isfile(c) and c.startswith(B.BUILD)), None)
        def name(m):
            try:
                tool = "arm-linux-gnueabi-addr2line" if r.job.variant.arm else "addr2line"
                out = subprocess.run([tool, "-f", "-s", "-e", exe, m.group(1)], capture_output=True, text=True, timeout=60).stdout.split("\n")
                place = " ".join(x for x in out[:2] if x and not x.startswith("??"))
                return m.group(0) + (f" ({place})" if place else "")
            except (OSError, TypeError, subprocess.SubprocessError):
                return m.group(0)
        return re.sub(r"pc=(0x[0-9a-f]+)", name, str(r.data.get("what")))

    no_aslr = False

    def run(self, jobs, workers=None):
        with ThreadPoolExecutor(workers or B.CORES) as pool:
            for res in pool.map(self.run_one, jobs):
                if res:
                    self.results.append(res)

    # -------------------------------------------------------------- verdict
    def finish_error(self, msg):
        print(f"ERROR {self.prop}: {msg}", file=sys.stderr)
        shutil.rmtree(self.tmp, ignore_errors=True)
        sys.exit(2)

    def finish(self, minimum=1):
        ev = dict(evaluations=0, distinct_nontrivial=0, cases=0)
        classes, samples, per, metrics, inconclusive = {}, [], {}, {}, []
        viol = []
        for r in self.results:
            if r.error:
                inconclusive.append(f"{r.job.label} {r.job.prop}: {r.error}")
                continue
            d = r.data
            ev["evaluations"] += d.get("evaluations", 0)
            ev["cases"] += d.get("cases", 0)
            ev["distinct_nontrivial"] += d.get("nontrivial_distinct", 0)
            for k, n in d.get("classes", {}).items():
                classes[k] = classes.get(k, 0) + n
            for k, x in d.get("metrics", {}).items():
                metrics.setdefault(k, {})[r.job.label] = x
            p = per.setdefault(r.job.label, dict(evaluations=0, distinct_nontrivial=0, seconds=0))
            p["evaluations"] += d.get("evaluations", 0)
            p["distinct_nontrivial"] += d.get("nontrivial_distinct", 0)
            p["seconds"] = round(p["seconds"] + d.get("seconds", 0), 2)
            samples += [f"{r.job.label}: {s}" for s in d.get("samples", [])]
            if d.get("violation"):
                if self.confirmed(r):
                    viol.append(r)
                else:
                    inconclusive.append(f"{r.job.label}: a failure did not reproduce: {d.get('what')}")
        new, hit = [], {}
        for r in viol:
            desc = self.known(r)
            if desc:
                hit[desc] = hit.get(desc, 0) + 1
            else:
                new.append(r)
        # spread the samples over the variants
        step = max(1, len(samples) // 12)
        cov = dict(evaluations=ev["evaluations"], distinct_nontrivial=ev["distinct_nontrivial"], rule=self.rule,
                   samples=[s[:600] for s in samples[::step][:14]], generated_cases=ev["cases"], classes=classes,
                   per_build=per, metrics=metrics, skipped=self.skipped, inconclusive=inconclusive, exhaustive=False)
        cov.update(self.extra)
        wall = round(time.time() - self.t0, 1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier="thorough" if not self.quick else "quick", seed=SEED, level=self.level,
                           coverage=cov, wall_s=wall, violations=len(new), assumptions=self.assumptions), f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for line in inconclusive:
            print("INCONCLUSIVE", line[:400])
        for desc, n in hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {desc}")
        print(f"{self.prop} {TIER} seed={SEED}: {ev['evaluations']} evaluations ({ev['distinct_nontrivial']} distinct non-trivial) "
              f"in {len(per)} builds, {wall} s, {len(new)} violation(s)")
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, r in enumerate(new):
                if i == 6:
                    print(f"  and {len(new) - 6} more builds fail: " + ", ".join(x.job.label for x in new[6:])[:1500])
                    break
                d = r.data
                rep = dict(property=self.prop, prop=r.job.prop, variant=r.job.variant.name, config=r.job.cfg.name, label=r.job.label,
                           seed=SEED, how=d.get("how", r.job.how), choices=d.get("choices"), range=d.get("range"),
                           args=r.job.args, what=d.get("what"), case=d.get("case"), data=d.get("replay_data"))
                name = f"{self.prop}-{hashlib.sha1(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]}.json"
                path = os.path.join("replays", name)
                with open(os.path.join(VERIF, path), "w") as f:
                    json.dump(rep, f, indent=1)
                print(f"  {r.job.label}: {self.with_places(r)}\n    case: {str(d.get('case'))[:300]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        if ev["distinct_nontrivial"] < minimum:
            self_err = f"only {ev['distinct_nontrivial']} non-trivial cases were checked (at least {minimum} expected)"
            print("ERROR", self.prop, self_err, file=sys.stderr)
            sys.exit(2)
        sys.exit(0)
