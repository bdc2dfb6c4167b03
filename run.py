#!/usr/bin/env python3
"""Driver of the generated-input checks.

  run.py PROPERTY                decide a property (VERIF_TIER, VERIF_SEED)
  run.py PROPERTY --replay FILE  run one case
  run.py --setup                 check that the tools needed are here

Builds the harness of the property from /repo's working tree in a scratch
directory, runs generated cases in parallel jobs, confirms and shrinks a
failing case, writes evidence/PROPERTY.json. Exit 0: the property held on
everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: no answer.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

EXIT_VIOLATION, EXIT_HANG = 10, 12
CASE_TIMEOUT = 60


def mpi_env(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMPI_", "PMIX_", "PRTE_")):
            del e[k]
    e.update({
        "OMPI_ALLOW_RUN_AS_ROOT": "1",
        "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_rmaps_base_oversubscribe": "1",
        "OMPI_MCA_hwloc_base_binding_policy": "none",
        "OMPI_MCA_btl": "self,vader",
        "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_plm_rsh_agent": "/bin/true",
        "OMPI_MCA_mpi_yield_when_idle": "1",
        "OMPI_MCA_orte_tmpdir_base": scratch,
        "TMPDIR": scratch,
        # memory that isn't initialized has neither zeros nor old values
        "MALLOC_PERTURB_": "165",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1",
    })
    return e


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = dict(PROPS[prop])
        if tier == "thorough":
            for part in ("binaries", "slots"):
                self.spec[part] = self.spec[part] + self.spec.get("thorough_" + part, [])
        self.case_timeout = self.spec.get("case_timeout", CASE_TIMEOUT)
        self.scratch = tempfile.mkdtemp(prefix="vp", dir="/tmp")
        self.env = mpi_env(self.scratch)
        self.lock = threading.Lock()
        self.children = set()
        self.njob = 0
        self.stats = []
        self.failures = []
        self.unconfirmed = 0
        self.stop = threading.Event()
        self.begin = time.time()
        self.binaries = {}

    def cleanup(self):
        self.stop.set()
        for p in list(self.children):
            self.kill(p)
        shutil.rmtree(self.scratch, ignore_errors=True)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def run(self, cmd, timeout, cwd=None, log=None):
        """Returns exit code or None if time ran out"""
        out = open(log, "wb") if log else subprocess.DEVNULL
        p = subprocess.Popen(cmd, cwd=cwd or self.scratch, env=self.env, stdin=subprocess.DEVNULL,
                             stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        with self.lock:
            self.children.add(p)
        try:
            try:
                p.wait(timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = None
            self.kill(p)
            p.wait()
        finally:
            with self.lock:
                self.children.discard(p)
            if log:
                out.close()
        return rc

    # ---- building
    def build(self):
        jobs = []
        for name, src, flags in self.spec["binaries"]:
            out = os.path.join(self.scratch, name)
            self.binaries[name] = out
            cmd = ["mpic++", "-std=c++11", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-I", REPO, "-isystem", "/usr/include/trilinos"] + flags \
                + [os.path.join(HERE, "harness", src), "-o", out, "-ltrilinos_zoltan"]
            log = out + ".log"
            res = {}
            t = threading.Thread(target=lambda c=cmd, l=log, r=res: r.update(rc=self.run(c, 600, log=l)))
            t.start()
            jobs.append((t, res, log))
        ok = True
        for t, res, log in jobs:
            t.join()
            if res.get("rc") != 0:
                ok = False
                sys.stderr.write("build failed:\n" + open(log, errors="replace").read()[:4000] + "\n")
        return ok

    # ---- running
    def command(self, np, binary, args):
        b = self.binaries[binary]
        if self.spec.get("mpi", True):
            return ["mpiexec", "-n", str(np), b] + args
        return [b] + args

    def newdir(self):
        with self.lock:
            self.njob += 1
            n = self.njob
        d = os.path.join(self.scratch, "j%d" % n)
        os.mkdir(d)
        return d

    @staticmethod
    def failing_case(d):
        """(message, text) of a failure found in directory of a job"""
        for f in sorted(os.listdir(d)):
            if f.startswith("fail") and f.endswith(".txt"):
                t = open(os.path.join(d, f)).read().split("\n", 1)
                return t[0].lstrip("# "), t[1]
        c = os.path.join(d, "current.txt")
        if os.path.exists(c):
            t = open(c, "rb").read().split(b"\0")[0].decode()
            if t.strip():
                return None, t
        return None, None

    def slot(self, number, plan, deadline):
        """Runs jobs one after another"""
        turn = 0
        while not self.stop.is_set():
            left = deadline - time.time()
            if left < 1:
                return
            np, binary = plan[(turn + number) % len(plan)]
            d = self.newdir()
            seconds = min(left, self.spec.get("slice", 9))
            start = number * 10**10 + turn * 10**6
            args = ["--prop", self.prop, "--out", d, "--seconds", "%.1f" % seconds, "--seed", str(self.seed),
                    "--start", str(start), "--count", str(self.spec.get("count", 400)), "--case-timeout", str(self.case_timeout)]
            if self.tier == "thorough":
                args.append("--thorough")
            rc = self.run(self.command(np, binary, args), seconds + 3 * self.case_timeout, log=os.path.join(d, "log"))
            turn += 1
            if self.stop.is_set():
                return
            s = os.path.join(d, "stats.json")
            if os.path.exists(s):
                with self.lock:
                    self.stats.append(json.load(open(s)))
            if rc != 0:
                message, text = self.failing_case(d)
                if text is None:
                    # didn't get as far as running a case
                    self.unconfirmed += 1
                    if self.unconfirmed > 20:
                        return
                    continue
                if message is None:
                    message = "hang" if rc in (None, EXIT_HANG) else "crash, exit code %s" % rc
                with self.lock:
                    self.failures.append((message, text, binary))
                self.stop.set()
                return
            shutil.rmtree(d, ignore_errors=True)

    def replay(self, text, binary=None, timeout=None):
        """Message of failure of given case or None"""
        timeout = timeout or self.case_timeout
        np, binary = self.target(text, binary)
        d = self.newdir()
        f = os.path.join(d, "case.txt")
        with open(f, "w") as o:
            o.write(text)
        rc = self.run(self.command(np, binary, ["--prop", self.prop, "--out", d, "--replay", f, "--case-timeout", str(timeout)]),
                      2 * timeout + 10, log=os.path.join(d, "log"))
        message = None
        if rc != 0:
            message, _ = self.failing_case(d)
            started = os.path.exists(os.path.join(d, "current.txt")) or not self.spec.get("mpi", True)
            if message is None:
                if rc == EXIT_VIOLATION:
                    log = open(os.path.join(d, "log"), errors="replace").read()
                    message = next((x[7:] for x in log.split("\n") if x.startswith("FAILED ")), "violation")
                elif rc in (None, EXIT_HANG):
                    message = "hang"
                elif started:
                    message = "crash, exit code %s" % rc
        shutil.rmtree(d, ignore_errors=True)
        return message

    def target(self, text, binary):
        np = 1
        first = text.strip().split("\n")[0].split() if text.strip() else []
        if self.spec.get("mpi", True) and first:
            np = max(1, min(8, int(first[0])))
        if binary is None:
            names = [b[0] for b in self.spec["binaries"]]
            binary = names[0]
            if self.spec.get("geom") and len(first) > 1 and "grid%d" % (int(first[1]) % 3) in names:
                binary = "grid%d" % (int(first[1]) % 3)
        return np, binary

    def confirm(self, message, text, binary):
        hang = message == "hang"
        tries = 3 if hang else 6
        for _ in range(tries):
            m = self.replay(text, binary)
            if m is not None and not (hang and m != "hang"):
                return m
        return None

    def shrink(self, text, binary, budget, hang):
        end = time.time() + budget
        case = [line.split() for line in text.strip().split("\n")]

        def fails(c):
            if time.time() > end:
                return False
            m = self.replay("\n".join(" ".join(x) for x in c) + "\n", binary, 20)
            return m is not None and (m == "hang") == hang

        def batch(cands):
            """first failing candidate of several, tried in parallel"""
            width = 4
            for i in range(0, len(cands), width):
                if time.time() > end:
                    return None
                part = cands[i:i + width]
                res = [False] * len(part)
                ts = []
                for j, c in enumerate(part):
                    t = threading.Thread(target=lambda j=j, c=c: res.__setitem__(j, fails(c)))
                    t.start()
                    ts.append(t)
                for t in ts:
                    t.join()
                for j, r in enumerate(res):
                    if r:
                        return part[j]
            return None

        # fewer operations
        n = max(1, (len(case) - 1) // 2)
        while time.time() < end and len(case) > 1:
            c = batch([case[:i] + case[i + n:] for i in range(len(case) - n, 0, -n)] if n < len(case) else [])
            if c is not None:
                case = c
                n = min(n, max(1, len(case) - 1))
            elif n == 1:
                break
            else:
                n = max(1, n // 2)
        # fewer processes, smaller numbers
        changed = True
        while changed and time.time() < end:
            changed = False
            for row in range(len(case)):
                cands = []
                if row > 0:
                    for k in (1, 2, 3, 5, 7):
                        if k < len(case[row]):
                            cands.append(case[:row] + [case[row][:k]] + case[row + 1:])
                elif self.spec.get("mpi", True):
                    for np in range(1, int(case[0][0])):
                        cands.append([[str(np)] + case[0][1:]] + case[1:])
                if len(case[row]) <= 40:
                    for k in range(1, len(case[row])):
                        if self.spec.get("geom") and row == 0 and k == 1:
                            continue
                        v = int(case[row][k])
                        for w in {0, v // 2, v % 16}:
                            if w < v:
                                cands.append(case[:row] + [case[row][:k] + [str(w)] + case[row][k + 1:]] + case[row + 1:])
                c = batch(cands)
                if c is not None:
                    case = c
                    changed = True
                if time.time() > end:
                    break
        return "\n".join(" ".join(x) for x in case) + "\n"

    def evidence(self, violations):
        classes, samples = {}, []
        for s in self.stats:
            for k, v in s["classes"].items():
                classes[k] = classes.get(k, 0) + v
            for x in s["samples"]:
                if len(samples) < 6:
                    samples.append(x)
        cov = {
            "evaluations": sum(s["evaluations"] for s in self.stats),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in self.stats),
            "rule": self.spec["rule"],
            "oracle_comparisons": sum(s["oracle_comparisons"] for s in self.stats),
            "classes": classes,
            "jobs": len(self.stats),
            "jobs_without_answer": self.unconfirmed,
            "samples": samples,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump({
                "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
                "coverage": cov, "wall_s": round(time.time() - self.begin, 2), "violations": violations,
                "assumptions": self.spec.get("assumptions", []),
            }, f, indent=1)
            f.write("\n")
        return cov

    def decide(self):
        if not self.build():
            return 2
        spec = self.spec
        seconds = float(os.environ.get("VP_SECONDS", spec["quick_s"] if self.tier == "quick" else spec["thorough_s"]))
        deadline = time.time() + seconds
        violations = 0
        while time.time() < deadline:
            self.stop.clear()
            threads = []
            for i, plan in enumerate(spec["slots"]):
                t = threading.Thread(target=self.slot, args=(i + len(threads) * 0 + 64 * violations, plan, deadline))
                t.start()
                threads.append(t)
            for t in threads:
                t.join()
            if not self.failures:
                break
            message, text, binary = self.failures.pop(0)
            self.failures.clear()
            confirmed = self.confirm(message, text, binary)
            if confirmed is None:
                self.unconfirmed += 1
                violations += 1  # continue with other cases
                if self.unconfirmed > 5:
                    break
                sys.stderr.write("not reproduced: %s\n" % message)
                continue
            small = text if os.environ.get("VP_NOSHRINK") else self.shrink(text, binary, 45 if self.tier == "quick" else 200, message == "hang")
            final = self.replay(small, binary)
            if final is None:
                small, final = text, confirmed
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            name = os.path.join(HERE, "replays", "%s-%s.txt" % (self.prop, hashlib.sha1(small.encode()).hexdigest()[:10]))
            with open(name, "w") as f:
                f.write("# property %s: %s\n# run with: python3 run.py %s --replay FILE\n# binary: %s\n%s" % (
                    self.prop, final, self.prop, binary, small))
            self.evidence(1)
            print("%s: %s" % (self.prop, final))
            print("VIOLATION property=%s replay=%s" % (self.prop, name), flush=True)
            return 1
        cov = self.evidence(0)
        if cov["evaluations"] == 0:
            sys.stderr.write("nothing was run\n")
            return 2
        for line in known_findings(self.prop):
            print(line)
        print("%s: held in %d cases (%d distinct non-trivial, %d comparisons) in %.0f s" % (
            self.prop, cov["evaluations"], cov["distinct_nontrivial"], cov["oracle_comparisons"], time.time() - self.begin))
        return 0


def known_findings(prop):
    """Findings recorded in known-findings.txt, none of which the generators produce"""
    ret = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                ret.append(line.rstrip("\n"))
    return ret


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    o = a.parse_args()
    if o.setup:
        for tool in ("mpic++", "mpiexec"):
            if shutil.which(tool) is None:
                sys.exit("no " + tool)
        return 0
    if o.prop not in PROPS:
        a.error("unknown property")
    r = Runner(o.prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if o.replay:
            if not r.build():
                return 2
            lines = open(o.replay).readlines()
            text = "".join(x for x in lines if not x.startswith("#"))
            binary = next((x.split(":")[1].strip() for x in lines if x.startswith("# binary:")), None)
            if binary not in r.binaries:
                binary = None
            for _ in range(3):
                m = r.replay(text, binary)
                if m is not None:
                    print("%s: %s" % (o.prop, m))
                    print("VIOLATION property=%s replay=%s" % (o.prop, os.path.abspath(o.replay)))
                    return 1
            print("%s: case passed" % o.prop)
            return 0
        return r.decide()
    finally:
        r.cleanup()


if __name__ == "__main__":
    sys.exit(main())
