"""What each check does: the seeded cases, the model-checking runs and the
other steps of every property."""
import concurrent.futures as cf
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HARD_LIMIT = 870   # seconds after which nothing may still run
SOFT_LIMIT = 600   # no further round starts that would end after this

ASSUMPTIONS = [
    "texts are valid UTF-8",
    "the Unicode tables of the Go standard library and the single-character classes of regexp2 are right",
]

# Inputs of known findings (known_findings.txt): the case, and the line to print.
KNOWN = {
    "C14": [({"op": "tile", "t": [97, 120, 98],
              "mo": {"k": "bpe", "v": [[[97], 0], [[98], 1]], "m": [], "unk": [], "fuse": 0, "pre": [], "suf": []}},
             "bpe-drop-unknown-shifts-offsets: BPEModel without unknown token, vocabulary {a,b}, no merges, word "
             "\"axb\": the unknown x is dropped and token b is reported at bytes (1,2) instead of (2,3)")],
}


def known_cases(prop):
    return [json.dumps(k) for k, _ in KNOWN.get(prop, [])]


def known_lines(ck):
    """Shows each known finding that is still there."""
    listed = open(os.path.join(HERE, "known_findings.txt")).read()
    for ev, text in KNOWN.get(ck.prop, []):
        if "KNOWN-FINDING: property=%s %s" % (ck.prop, text.split(":")[0]) not in listed:
            continue
        if not ck.holds({"kind": "fn", "idx": 0, "ev": [dict(ev)]}):
            print("KNOWN-FINDING: property=%s %s" % (ck.prop, text), flush=True)


def race(ck, quick):
    """Concurrent callers of shared instances, under the race detector; their
    results are validated like all others."""
    ck.build(race=True)
    jobs = [(i * 250, 250) for i in range(8 if quick else 64)]
    with cf.ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda j: race_run(ck, ck.seed, *j), jobs))
    for (from_, n), (rc, err, out) in zip(jobs, runs):
        if racy(rc, err):
            for _ in range(4):
                rc2, err2, _o = race_run(ck, ck.seed, from_, n)
                if racy(rc2, err2):
                    ck.record("race", {"seed": ck.seed, "from": from_, "n": n},
                              "concurrent callers interfere:\n" + err2[:4000])
                    return
            raise ck.NoAnswer("a race did not happen again: " + err[:2000])
        if rc == 3:
            case = json.load(open(out + ".progress"))
            if ck.stops(case) and not ck.holds(case):
                ck.record("stuck", case, "concurrent callers do not return")
                return
            raise ck.NoAnswer("concurrent callers hung once")
        if rc != 0:
            raise ck.NoAnswer("driver failed under the race detector: " + err[-2000:])
    with cf.ThreadPoolExecutor(8) as ex:
        bad = list(ex.map(lambda r: ck.validate(r[2]), runs))
    ck.report([(b, [], lambda j=j: (ck.validate(race_run(ck, ck.seed, *j)[2]), [])) for j, b in zip(jobs, bad)])
    ck.cover["concurrent_traces"] = sum(n for _, n in jobs)


def racy(rc, err):
    return "DATA RACE" in err or "fatal error: concurrent map" in err


def race_run(ck, seed, from_, n):
    out = ck.path("race")
    cmd = [ck.vh + "r", "gen", "-prop", "C24", "-conc", "-seed", str(seed), "-from", str(from_), "-n", str(n),
           "-out", out, "-progress", out + ".progress"]
    env = dict(os.environ, GORACE="exitcode=66 halt_on_error=1 atexit_sleep_ms=0")
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=500, env=env, cwd=ck.dir)
    return p.returncode, p.stderr, out


def replay(ck, d):
    """Replays of kinds that are particular to a property."""
    if d["kind"] == "race":
        for _ in range(5):
            rc, err, _o = race_run(ck, d["data"]["seed"], d["data"]["from"], d["data"]["n"])
            if racy(rc, err):
                return True
        return False
    raise SystemExit(2)


def P(cases, rule, *steps, **kw):
    return dict(cases=cases, rule=rule, steps=list(steps), **kw)


NS = ("seeded histories of edits, slices, splits and queries on pools of live texts over mixed-width alphabets; "
      "every event is checked as a step of NormStrOps.tla")
PT = ("seeded chains of split, normalize, tokenize, pre-tokenizer and encoding steps; every event is checked as a "
      "step of PreTokenized.tla")
FN = "seeded calls with small vocabularies, merge tables, patterns and texts, each checked against the specification"

def mc(module, quick, deep=None, **kw):
    """A bounded state machine: (length, depth) for each tier."""
    def step(ck, is_quick):
        for bounds in ([quick] if is_quick else (deep or [quick])):
            ck.model(module, *bounds, **kw)
    return step


def sweep(ck, quick):
    """Every character: in the quick check, one of 16 of the unassigned ones."""
    ck.sweep(16 if quick else 1)


PLAN = {
    "C01": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)], validate=True)),
    "C02": P((20000, 40000), NS, mc("MCNormStr", (3, 2), [(4, 2), (2, 3)])),
    "C03": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)])),
    "C04": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)])),
    "C05": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)])),
    "C06": P((20000, 40000), NS, mc("MCNormStr", (3, 3), [(4, 3), (3, 4)])),
    "C07": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)])),
    "C08": P((20000, 40000), NS, mc("MCNormStr", (2, 2), [(3, 2), (2, 3)])),
    "C09": P((20000, 60000), FN, mc("MCPatterns", (3, 1), [(5, 1)])),
    "C10": P((20000, 40000), PT, mc("MCPreTok", (2, 2), [(2, 3)], validate=True)),
    "C11": P((20000, 40000), PT, mc("MCPreTok", (2, 2), [(2, 3)], validate=True)),
    "C12": P((20000, 40000), PT, mc("MCPreTok", (2, 3), [(2, 3), (3, 2)])),
    "C13": P((20000, 60000), FN, mc("MCBpe", (4, 2), [(5, 2), (5, 3)]), mc("MCTok", (4, 1)),
             mc("MCBpe", (3, 1), [(4, 2)], cfg="MCBpeEnds")),
    "C14": P((20000, 60000), FN, mc("MCTok", (4, 1)), mc("MCTok", (2, 2), [(3, 2)], validate=True)),
    "C15": P((10000, 30000), FN, mc("MCTok", (3, 1), validate=True),
             mc("MCBpe", (3, 2), [(4, 2)], cfg="MCBpe", prints=False)),
    "C16": P((20000, 60000), FN, mc("MCWordPiece", (4, 1), [(4, 2)])),
    "C17": P((20000, 60000), FN, mc("MCVocab", (1, 4), validate=True)),
    "C18": P((20000, 60000), FN, mc("MCMergeFile", (2, 1), validate=True)),
    "C19": P((20000, 40000), NS, mc("MCNormalizers", (3, 1), [(3, 1), (2, 2)])),
    "C20": P((20000, 40000), NS + "; " + PT, mc("MCNormalizers", (2, 1), [(3, 1), (2, 2)]), mc("MCPreTok", (2, 2), [(3, 2)])),
    "C21": P((14000, 32000), PT, mc("MCPreTok", (4, 1), [(4, 1), (3, 2)])),
    "C22": P((20000, 40000), PT, mc("MCPreTok", (4, 1), [(4, 1), (3, 2)])),
    "C23": P((20000, 40000), PT, mc("MCPreTok", (4, 1), [(5, 1), (4, 2)])),
    "C24": P((14000, 40000), "seeded histories of calls on shared instances of models, patterns, normalizers and "
             "pre-tokenizers, with failing calls, caller-spoilt results, several instances and more distinct words than "
             "the cache holds; concurrent callers run under the race detector; every call must end with the result of "
             "a fresh instance (SharedUse)", mc("SharedUse", (1, 3), [(1, 3), (1, 4)], validate=True, race=True), race),
    "C25": P((32000, 96000), FN, mc("MCPatterns", (4, 1), [(7, 1)])),
}
for _p in PLAN:
    if _p != "C24":
        PLAN[_p]["steps"].append(sweep)
