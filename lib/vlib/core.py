"""The harness every check runs in: seeded cases, worker processes, verdicts, evidence and replay files.

A check is a module checks/<ID>.py with
  ID, TITLE       the property's id, and a name for the log
  RULE            how cases are made and what makes one non-trivial (goes into the evidence)
  CASES           {kind: (function, number of quick cases, number of thorough cases)}
  REQUIRED        {counter: minimum} - what the monitors must have observed for a verdict to count
Each case function takes a Ctx. Its random choices all come from ctx.rng, so (kind, seed) replays it.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

import multiprocessing as mp

import numpy as np

VERIF = Path(__file__).resolve().parents[2]
REPO_SRC = os.path.realpath(os.environ.get("CC_REPO", "/repo")) + "/src/chainconsumer/"
CASE_CPU_LIMIT = 100  # seconds of processor time; the cases themselves take a few at most


class Skip(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(Exception):
    pass


def jsonable(v):
    if isinstance(v, np.ndarray):
        return [jsonable(x) for x in v.ravel()[:20]] if v.size <= 20 else f"array{v.shape} {v.ravel()[:6]}..."
    if isinstance(v, np.floating | np.integer | np.bool_):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, list | tuple | set):
        return [jsonable(x) for x in v]
    if isinstance(v, str | int | float | bool) or v is None:
        return v
    return repr(v)[:300]


class Ctx:
    def __init__(self, check: str, kind: str, seed: int, tier: str):
        self.check, self.kind, self.seed, self.tier = check, kind, seed, tier
        self.rng = np.random.default_rng([int(hashlib.sha256(f"{check}/{kind}".encode()).hexdigest()[:12], 16), seed])
        self.counters: collections.Counter = collections.Counter()
        self.violations: list[dict] = []
        self.keys: set[str] = set()
        self.desc: dict = {}

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] += n

    def fail(self, what: str, **details) -> None:
        if len(self.violations) < 5:
            self.violations.append({"what": what, **jsonable(details)})

    def check_that(self, ok, what: str, **details) -> bool:
        """One evaluation of an oracle."""
        self.counters["oracle_evaluations"] += 1
        if not bool(ok):
            self.fail(what, **details)
        return bool(ok)

    def distinct(self, *key) -> None:
        self.keys.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def describe(self, **kw) -> None:
        self.desc.update(jsonable(kw))


def _in_library(tb) -> bool:
    return any(os.path.realpath(f.filename).startswith(REPO_SRC) for f in traceback.extract_tb(tb))


def _alarm(signum, frame):
    raise CaseTimeout(f"case still running after {CASE_CPU_LIMIT} s of processor time")


def _run_case(func, check: str, kind: str, seed: int, tier: str) -> dict:
    ctx = Ctx(check, kind, seed, tier)
    out = {"kind": kind, "seed": seed, "error": None, "skipped": False}
    t0 = time.time()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(ctx)
    except Skip as e:
        out["skipped"] = True
        ctx.count("skipped: " + str(e)[:60])
    except CaseTimeout as e:
        # Processor time, not wall time, so a loaded machine cannot set it off
        if _in_library(e.__traceback__):
            ctx.fail(f"the library does not return: {e}", trace=traceback.format_exc()[-1500:])
        else:
            out["error"] = f"timeout {e}\n{traceback.format_exc()[-1500:]}"
    except Exception as e:  # noqa: BLE001
        if _in_library(e.__traceback__):
            # The library failed on an input in the property's domain: it did not give what it promises
            ctx.fail(f"unexpected {type(e).__name__} from the library: {str(e)[:300]}", trace=traceback.format_exc()[-1500:])
        elif isinstance(e, MemoryError | OSError):
            out["error"] = traceback.format_exc()[-3000:]
        else:
            # No case ends so on a tree where the property holds: what came back does not have the form it promises
            ctx.fail(f"a result cannot be read by the oracle: {type(e).__name__}: {str(e)[:200]}", trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    out.update(
        counters=dict(ctx.counters), violations=ctx.violations, keys=sorted(ctx.keys), desc=ctx.desc, wall=time.time() - t0
    )
    return out


def _run_batch(modname: str, tier: str, batch: list[tuple[str, int]]) -> list[dict]:
    import importlib

    mod = importlib.import_module(modname)
    return [_run_case(mod.CASES[k][0], mod.ID, k, s, tier) for k, s in batch]


def load_known(prop: str) -> list[dict]:
    path = VERIF / "KNOWN_FINDINGS.jsonl"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


def run_check(mod, argv: list[str]) -> int:
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = mod.ID

    import logging

    import chainconsumer

    logging.disable(logging.CRITICAL)
    where = os.path.realpath(chainconsumer.__file__)
    if not where.startswith(REPO_SRC):
        print(f"ERROR: chainconsumer was imported from {where}, not from {REPO_SRC}")
        return 3
    for line in getattr(mod, "PRELOAD", []):
        __import__(line)

    if "--replay" in argv:
        rep = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        res = _run_case(mod.CASES[rep["kind"]][0], prop, rep["kind"], rep["seed"], rep.get("tier", tier))
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["violations"] else 3 if res["error"] else 0

    jobs: list[tuple[str, int]] = []
    for kind, (_, nq, nt) in mod.CASES.items():
        n = nq if tier == "quick" else nt
        # the seed space is split by VERIF_SEED: no two seeds share a case
        jobs += [(kind, seed * 1_000_000 + i) for i in range(n)]
    order = np.random.default_rng(seed).permutation(len(jobs))
    jobs = [jobs[i] for i in order]
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    size = max(1, min(getattr(mod, "BATCH", 8), len(jobs) // (workers * 4) or 1))
    batches = [jobs[i : i + size] for i in range(0, len(jobs), size)]
    listed = {k["finding"] for k in load_known(prop) if k.get("kind") == "known"}
    cap = 420 if tier == "quick" else 780
    results: list[dict] = []
    lost = None
    stop = False
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as pool:
        pending = [pool.submit(_run_batch, mod.__name__, tier, b) for b in batches]
        try:
            for fut in as_completed(pending, timeout=cap):
                results += fut.result()
                if sum(any(v.get("finding") not in listed for v in r["violations"]) for r in results) >= 5:
                    stop = True  # enough witnesses
                    break
        except BrokenProcessPool as e:
            lost = f"a worker process died: {e}"
        except TimeoutError:
            lost = None  # out of time: judge what was run
            stop = True
        if stop or lost:
            for p in pending:
                p.cancel()
            for pr in list((pool._processes or {}).values()):
                pr.kill()

    counters: collections.Counter = collections.Counter()
    keys: set[str] = set()
    for r in results:
        counters.update(r["counters"])
        keys.update(f"{r['kind']}:{k}" for k in r["keys"])
    errors = [r for r in results if r["error"]]
    known = load_known(prop)
    new, seen_known = [], {}
    for r in sorted(results, key=lambda r: (r["kind"], r["seed"])):
        for v in r["violations"]:
            hit = next((k for k in known if k.get("kind") == "known" and v.get("finding") == k.get("finding")), None)
            if hit is not None:
                seen_known.setdefault(hit["finding"], (hit, r, v))
            else:
                new.append((r, v))
    for hit, _r, _v in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    for hit in known:
        if hit.get("kind") == "known" and hit["finding"] not in seen_known:
            print(f"note: known finding {hit['finding']} was not observed on this run")

    samples = []
    for kind in mod.CASES:
        rs = [r for r in results if r["kind"] == kind and r["desc"] and not r["skipped"]]
        for r in sorted(rs, key=lambda r: r["seed"])[:2]:
            samples.append({"kind": kind, "seed": r["seed"], **r["desc"], "observed": r["counters"]})
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(sum(not r["skipped"] for r in results)),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:12] or [{"note": "no case completed"}],
            "oracle_evaluations": int(counters.get("oracle_evaluations", 0)),
            "cases_by_kind": dict(collections.Counter(r["kind"] for r in results)),
            "observed": {k: int(v) for k, v in sorted(counters.items()) if k != "oracle_evaluations"},
            "case_errors": len(errors),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", ["single process; numpy, scipy, pandas and matplotlib behave as documented"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    print(
        f"{prop} {mod.TITLE}: tier={tier} seed={seed} cases={len(results)}/{len(jobs)} distinct={len(keys)} "
        f"oracle_evaluations={counters.get('oracle_evaluations', 0)} wall={time.time() - t0:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(counters.items()):
            print(f"   {k}: {v}")
        for kind in mod.CASES:
            w = [r["wall"] for r in results if r["kind"] == kind]
            if w:
                print(f"   time {kind}: n={len(w)} mean={np.mean(w):.2f} max={np.max(w):.2f}")
    if new:
        (VERIF / "replays").mkdir(exist_ok=True)
        shown = set()
        for r, v in new:
            path = VERIF / "replays" / f"{prop}-{r['kind']}-{r['seed']}.json"
            if path in shown:
                continue
            shown.add(path)
            path.write_text(
                json.dumps(
                    {"property": prop, "kind": r["kind"], "seed": r["seed"], "tier": tier, "case": r["desc"],
                     "violations": r["violations"],
                     "replay": f"bash run.sh {prop} --replay {path}"}, indent=1, default=str) + "\n")
            print(f"  [{r['kind']} seed {r['seed']}] {v['what']} {json.dumps({k: x for k, x in v.items() if k not in ('what', 'trace')}, default=str)[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(shown) >= 3:
                break
        return 1
    if lost:
        print(f"INCONCLUSIVE: {lost}")
        return 3
    if errors:
        print(f"INCONCLUSIVE: {len(errors)} case(s) ended in an error of the check; first:\n{errors[0]['kind']} {errors[0]['seed']}\n{errors[0]['error']}")
        return 3
    for name, least in getattr(mod, "REQUIRED", {}).items():
        if counters.get(name, 0) < least:
            print(f"INCONCLUSIVE: the monitors saw {counters.get(name, 0)} of '{name}', a verdict needs {least}")
            return 3
    return 0
