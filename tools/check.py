#!/usr/bin/env python3
"""Decides one property: model checking, replay of the specification's
behaviours into the real code, and validation of recorded traces.

  check.py Cxx quick|thorough     exit 0: held; 1: VIOLATION line; 2: no answer
  check.py replay FILE            runs a recorded violation again
"""
import concurrent.futures as cf
import itertools
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

REPO = os.environ.get("VERIF_TRY_REPO", "/repo")  # another tree only while developing; no evidence then
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"
WORKERS = 8
START = time.time()


class NoAnswer(Exception):
    """The machinery failed; nothing is decided."""


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def go_env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod", HOME="/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Check:
    NoAnswer = NoAnswer

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.plan = plan.PLAN[prop]
        self.vh = os.path.join(self.dir, "vh")
        self.cover = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                      "trace_events": 0, "trace_files": 0, "model_runs": [], "model_cases_replayed": 0,
                      "not_returning_elsewhere": 0}
        self.violations = []
        self.serial = itertools.count(1)
        self.lock = threading.Lock()

    # ------------------------------------------------------------- tools

    def path(self, name):
        return os.path.join(self.dir, "%d.%s" % (next(self.serial), name))

    def build(self, race=False):
        src = os.path.join(self.dir, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, "harness"), src)
            if REPO != "/repo":
                mod = os.path.join(src, "go.mod")
                text = open(mod).read().replace("=> /repo", "=> " + REPO)
                open(mod, "w").write(text)
        cmd = [GO, "build"] + (["-race"] if race else []) + ["-o", self.vh + ("r" if race else ""), "."]
        p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True, timeout=800)
        if p.returncode != 0:
            raise NoAnswer("build failed:\n" + p.stderr[-3000:])

    def driver(self, *args, timeout=300, race=False):
        """Runs the driver, perhaps under the race detector; returns its status."""
        scratch = self.path("scratch")
        os.mkdir(scratch)
        cmd = [self.vh + ("r" if race else ""), args[0], "-prop", self.prop, "-scratch", scratch] + list(args[1:])
        env = dict(os.environ, GORACE="exitcode=66 halt_on_error=1 atexit_sleep_ms=0")
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout,
                               preexec_fn=None if race else limits, cwd=scratch, env=env)
        except subprocess.TimeoutExpired:
            raise NoAnswer("driver timed out: " + " ".join(cmd))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if "harnessError" in p.stderr or "main.must" in p.stderr and p.returncode not in (0, 3):
            raise NoAnswer("harness mistake: " + p.stderr[-2000:])
        return p.returncode, p.stdout, p.stderr

    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=850, extra=()):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + self.dir,
               "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", cfg, "-noGenerateSpecTE"] + \
            list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        left = plan.HARD_LIMIT - (time.time() - START)
        out = self.path("tlc.out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=max(5, min(timeout, left)))
            except subprocess.TimeoutExpired:
                raise NoAnswer("TLC timed out on " + module)
            finally:
                shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    # ------------------------------------------------------------- traces

    def validate(self, trace, count=True):
        """Checks a trace file against the specification; gives the cases that do not conform."""
        with open(trace) as f:
            head = json.loads(f.readline())
            lines = f.read().splitlines()
        if not lines:
            return []
        head["n"] = len(lines)
        hd, nd = self.path("head.json"), self.path("trace.ndjson")
        with open(hd, "w") as f:
            f.write(json.dumps(head, separators=(",", ":")) + "\n")
        with open(nd, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out = self.tlc("Conform.tla", "Conform.cfg",
                           {"VERIF_PROP": self.prop, "VERIF_HEADER": hd, "VERIF_TRACE": nd},
                           extra=["-continue"])
        with open(out) as f:
            text = f.read()
        bad = [(int(c), int(k)) for c, k in re.findall(r'<<"NONCONFORMING", (\d+), (\d+)>>', text)]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        fatal = [l for l in text.splitlines() if l.startswith("Error:") and "Invariant Conforms is violated" not in l
                 and "The behavior up to this point is" not in l]
        if not m or fatal or (rc != 0 and not bad):
            raise NoAnswer("TLC failed on a trace: " + "\n".join(text.splitlines()[-40:]))
        if count:
            with self.lock:
                cov = self.cover
                cov["states"] += int(m.group(2))
                cov["transitions"] += int(m.group(1)) - len(lines)
                cov["traces_validated_against_impl"] += len(lines)
                cov["trace_events"] += sum(l.count('"obs":') for l in lines)
                cov["trace_files"] += 1
                if len(cov["samples"]) < 3:
                    cov["samples"].append(sample(lines[(7 * cov["trace_files"]) % len(lines)]))
        seen, res = set(), []
        for c, k in sorted(bad):
            if c not in seen:
                seen.add(c)
                case = json.loads(lines[c - 1])
                case["ev"] = case["ev"][:k]
                res.append(case)
        return res

    def holds(self, case, cmd="run"):
        """Runs one case again in a process of its own and validates it."""
        src, out = self.path("case.json"), self.path("case.out")
        with open(src, "w") as f:
            f.write(json.dumps(case) + "\n")
        rc, so, se = self.driver(cmd, "-in", src, "-out", out, timeout=120)
        if rc == 3 or rc != 0:
            if cmd == "cut":
                raise NoAnswer("the case stops elsewhere: " + se[-500:])
            return not self.stops(case)
        return not self.validate(out, count=False)

    def stops(self, case):
        """A case whose last event did not return: whether that is against the property."""
        return not self.holds(case, "cut")

    def record(self, kind, data, why):
        os.makedirs(os.path.join(HERE, "out", "replays"), exist_ok=True)
        f = os.path.join(HERE, "out", "replays", "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed,
                                                                       len(self.violations) + 1))
        with open(f, "w") as o:
            o.write(json.dumps({"property": self.prop, "kind": kind, "data": data, "why": why}, indent=1) + "\n")
        self.violations.append({"replay": f, "why": why})
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)

    def confirm(self, case, redo):
        """A recorded case deviates: have it happen again, then report it."""
        why = "event %d (%s) is not a step of the specification" % (len(case["ev"]), case["ev"][-1].get("op"))
        for _ in range(3):
            if not self.holds(case):
                self.record("case", case, why)
                return
        # not on its own: perhaps after what ran before it
        for _ in range(3):
            bad, stuck = redo()
            for c in bad:
                self.record("history", c, why + " (after earlier cases in the same process)")
                return
        raise NoAnswer("a deviation did not happen again: " + json.dumps(case)[:1500])

    def shard(self, from_, n):
        """Generates and validates cases from_ .. from_+n-1 in processes of their own."""
        bad, stuck = [], []
        end = from_ + n
        at = from_
        rounds = 0
        while at < end and rounds < 4:
            rounds += 1
            out, prog = self.path("trace"), self.path("progress")
            args = ["-seed", str(self.seed), "-from", str(at), "-n", str(end - at), "-out", out, "-progress", prog]
            rc, so, se = self.driver("gen", *args, timeout=600)
            if rc == 0:
                bad += self.validate(out)
                break
            if rc != 3:
                # the process died: find out where
                rc2, so, se2 = self.driver("gen", *args, "-verbose", timeout=900)
                if rc2 == 0 or not os.path.exists(prog):
                    raise NoAnswer("the driver died once, with status %d: %s" % (rc, se[-2000:]))
                if rc2 != 3:
                    case = json.load(open(prog))
                    if case["idx"] > at:
                        self.driver("gen", "-seed", str(self.seed), "-from", str(at), "-n",
                                    str(case["idx"] - at), "-out", out)
                        bad += self.validate(out)
                    stuck.append(case)
                    at = case["idx"] + 1
                    continue
            bad += self.validate(out)
            case = json.load(open(prog))
            stuck.append(case)
            at = case["idx"] + 1
        return bad, stuck

    def batch(self, from_, total):
        """Validates a batch of seeded cases; reports deviations."""
        per = (total + WORKERS - 1) // WORKERS
        shards = [(from_ + i * per, per) for i in range(WORKERS)]
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            results = list(ex.map(lambda s: (s, self.shard(*s)), shards))
        self.report([(bad, stuck, lambda s=s: self.shard(*s)) for s, (bad, stuck) in results])

    def report(self, results):
        known = [json.loads(k) for k in plan.known_cases(self.prop)]
        for bad, stuck, redo in results:
            for case in stuck:
                if self.violations:
                    return
                if self.stops(case):
                    if not self.holds(case):
                        self.record("stuck", case, "the last event does not return")
                else:
                    self.cover["not_returning_elsewhere"] += 1
            for case in sorted(bad, key=lambda c: len(json.dumps(c))):
                if len(self.violations) >= 2:
                    return
                if any(same_input(case, k) for k in known):
                    continue
                self.confirm(case, redo)

    def sweep(self, stride):
        """Runs short histories with every character (see harness/sweep.go),
        and validates one case of each group of characters."""
        t0 = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            parts = list(ex.map(lambda i: self.sweep_part(i, stride), range(WORKERS)))
        self.cover["characters_swept"] = sum(p[1] for p in parts)
        self.cover["character_cases"] = sum(p[2] for p in parts)
        log("swept %d characters, %d cases (%.1f s)" % (self.cover["characters_swept"], self.cover["character_cases"],
                                                        time.time() - t0))
        self.report([(p[0], p[3], lambda i=i: self.sweep_part(i, stride)[::3]) for i, p in enumerate(parts)])

    def sweep_part(self, part, stride):
        out, prog = self.path("trace"), self.path("progress")
        args = ["-out", out, "-progress", prog, "-part", str(part), "-parts", str(WORKERS), "-stride", str(stride)]
        rc, so, se = self.driver("sweep", *args, timeout=600)
        if rc not in (0, 3):
            rc, so, se = self.driver("sweep", *args, "-verbose", timeout=800)
            if rc == 0 or not os.path.exists(prog):
                raise NoAnswer("the driver died once: " + se[-2000:])
            return [], 0, 0, [json.load(open(prog))]
        if rc == 3:
            return [], 0, 0, [json.load(open(prog))]
        tried = int(re.search(r"swept (\d+)", so).group(1))
        with open(out) as f:
            n = sum(1 for _ in f) - 1
        return self.validate(out), tried, n, []

    # ------------------------------------------------------------- models

    def model(self, module, length, depth, validate=False, cfg=None, env=None, heap="8g", race=False, prints=True):
        """Explores a bounded state machine of the specification, whose
        invariants must hold, and runs every case it prints against the code:
        compared with the results it gives, or validated as traces."""
        if race:
            self.build(race=True)
        e = {"VERIF_PROP": self.prop, "VERIF_LEN": str(length), "VERIF_DEPTH": str(depth),
             "VERIF_TIER": self.tier, "VERIF_SEED": str(self.seed)}
        e.update(env or {})
        t0 = time.time()
        rc, out = self.tlc(module + ".tla", (cfg or module) + ".cfg", e, workers=WORKERS, heap=heap)
        tail = subprocess.run("grep -av '^\"' %s | tail -n 60" % out, shell=True, capture_output=True, text=True).stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
        if rc != 0 or not m or "No error has been found" not in tail:
            raise NoAnswer("TLC on %s: %s" % (module, tail[-3000:]))
        t1 = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            parts = list(ex.map(lambda i: self.model_part(out, i, validate, race), range(WORKERS)))
        cases = sum(p["n"] for p in parts)
        self.cover["states"] += int(m.group(2))
        self.cover["transitions"] += int(m.group(1))
        self.cover["model_cases_replayed"] += cases
        self.cover["model_runs"].append({
            "module": module, "length": length, "depth": depth, "states": int(m.group(2)),
            "transitions": int(m.group(1)), "cases": cases, "mode": "validated" if validate else "compared",
            "skipped": sum(p["skipped"] for p in parts), "seconds": round(time.time() - t0, 1)})
        log("%s length %s depth %s: %s states, %d cases (model %.1f s, code %.1f s)" %
            (module, length, depth, m.group(2), cases, t1 - t0, time.time() - t1))
        if (cases > 0) != prints and not any(p["racy"] or p["stuck"] for p in parts):
            raise NoAnswer("%s printed %d cases" % (module, cases))
        for p in parts:
            for case, err in p["racy"]:
                if not self.violations:
                    self.confirm_race(case, err)
        if validate:
            self.report([(p["bad"], p["stuck"], lambda i=i: self.model_redo(out, i)) for i, p in enumerate(parts)])
        else:
            for i, p in enumerate(parts):
                self.report([([], p["stuck"], None)])
            for i, p in enumerate(parts):
                for case in sorted(p["bad"], key=lambda c: len(json.dumps(c)))[:2]:
                    if len(self.violations) >= 2:
                        break
                    self.confirm_cmp(case, lambda i=i: self.model_part(out, i, False)["bad"])
        os.unlink(out)

    def model_redo(self, out, i):
        p = self.model_part(out, i, True)
        return p["bad"], p["stuck"]

    def confirm_race(self, case, err):
        for _ in range(20):
            if self.races(case):
                self.record("racy", case, "concurrent callers interfere:\n" + err[:4000])
                return
        raise NoAnswer("a race did not happen again: " + err[:2000])

    def races(self, case):
        """Runs a case of concurrent callers under the race detector."""
        src, out = self.path("case.json"), self.path("case.out")
        with open(src, "w") as f:
            f.write(json.dumps(case) + "\n")
        rc, so, se = self.driver("run", "-in", src, "-out", out, race=True, timeout=120)
        return plan.racy(rc, se)

    def model_part(self, cases, part, validate, race=False):
        """Runs a part of the cases, going on after one that does not return."""
        res = {"n": 0, "skipped": 0, "bad": [], "stuck": [], "racy": []}
        at = 0
        for _ in range(4):
            out, prog = self.path("dev"), self.path("progress")
            args = ["-in", cases, "-out", out, "-part", str(part), "-parts", str(WORKERS), "-from", str(at),
                    "-progress", prog]
            cmd = "run" if validate else "cmp"
            rc, so, se = self.driver(cmd, *args, timeout=800, race=race)
            if race and plan.racy(rc, se):
                rc, so, se = self.driver(cmd, *args, "-verbose", timeout=800, race=True)
                if not plan.racy(rc, se):
                    raise NoAnswer("a race did not happen again: " + se[:2000])
                res["racy"].append((json.load(open(prog)), se))
                break
            if rc not in (0, 3):
                rc2, so, se2 = self.driver(cmd, *args, "-verbose", timeout=800)
                if rc2 == 0 or not os.path.exists(prog):
                    raise NoAnswer("the driver died once, with status %d: %s" % (rc, se[-2000:]))
            if rc in (0, 3) and validate:
                res["bad"] += self.validate(out)
                with open(out) as f:
                    res["n"] += sum(1 for _ in f) - 1
            elif not validate and os.path.exists(out):
                with open(out) as f:
                    res["bad"] += [json.loads(l) for l in f if l.endswith("}\n")]
                m = re.search(r"compared (\d+) different (\d+) skipped (\d+)", so)
                if m:
                    res["n"] += int(m.group(1))
                    res["skipped"] += int(m.group(3))
            if rc == 0:
                break
            case = json.load(open(prog))
            res["stuck"].append(case)
            at = case["idx"] + 1
        return res

    def differs(self, case):
        """Runs one expected result again in a process of its own."""
        src, out = self.path("case.json"), self.path("case.out")
        with open(src, "w") as f:
            f.write(json.dumps(case) + "\n")
        rc, so, se = self.driver("cmp", "-in", src, "-out", out, timeout=120)
        return rc != 0 or "different 1" in so

    def confirm_cmp(self, case, redo):
        why = case.get("why", "")
        for _ in range(3):
            if self.differs(case):
                self.record("cmp", case, why)
                return
        for _ in range(3):
            for c in redo():
                self.record("cmp", c, c.get("why", "") + " (after earlier cases in the same process)")
                return
        raise NoAnswer("a deviation did not happen again: " + json.dumps(case)[:1500])

    # ------------------------------------------------------------- whole

    def run(self):
        log("property", self.prop, self.tier, "seed", self.seed)
        self.build()
        log("built")
        quick = self.tier == "quick"
        plan.known_lines(self)
        for step in self.plan["steps"]:
            if self.violations:
                break
            step(self, quick)
        if self.plan.get("cases") and not self.violations:
            n = self.plan["cases"][0 if quick else 1]
            at, rounds = 0, 0
            while True:
                t0 = time.time()
                self.batch(at, n)
                at += n
                rounds += 1
                log("validated", self.cover["traces_validated_against_impl"], "traces")
                took = time.time() - t0
                if quick or self.violations or time.time() - START + 1.5 * took > plan.SOFT_LIMIT:
                    break
        self.evidence()
        return 1 if self.violations else 0

    def evidence(self):
        if REPO != "/repo":
            return
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        self.cover["rule"] = self.plan["rule"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cover, "wall_s": round(time.time() - START, 1),
              "assumptions": plan.ASSUMPTIONS + self.plan.get("assumptions", []),
              "violations": len(self.violations)}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            f.write(json.dumps(ev, indent=1) + "\n")


def same_input(case, known):
    e = {k: v for k, v in case["ev"][-1].items() if k != "obs"}
    return e == known


def sample(line):
    c = json.loads(line)
    s = json.dumps(c, separators=(",", ":"))
    return json.loads(s) if len(s) < 6000 else {"kind": c["kind"], "idx": c.get("idx"), "ev": c["ev"][:1]}


def replay(file):
    d = json.load(open(file))
    ck = Check(d["property"], "quick", 1)
    try:
        if d["kind"] in ("race", "racy"):
            ck.build(race=True)
        ck.build()
        if d["kind"] == "cmp":
            bad = ck.differs(d["data"])
        elif d["kind"] == "racy":
            bad = any(ck.races(d["data"]) for _ in range(20))
        elif d["kind"] in ("case", "stuck", "history"):
            bad = not ck.holds(d["data"])
        else:
            bad = plan.replay(ck, d)
        print(d["why"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (d["property"], file))
        return 1 if bad else 0
    finally:
        shutil.rmtree(ck.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in plan.PLAN or sys.argv[2] not in ("quick", "thorough"):
        print("usage: check.py Cxx quick|thorough | replay FILE", file=sys.stderr)
        return 2
    ck = Check(sys.argv[1], sys.argv[2], int(os.environ.get("VERIF_SEED", "1") or "1"))
    try:
        return ck.run()
    except NoAnswer as e:
        if ck.violations:
            return 1
        print("NO ANSWER:", e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(ck.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
