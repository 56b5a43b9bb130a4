"""Runner: drives each property's legs with Hypothesis, in several processes.

A *leg* is a pair of a Hypothesis strategy producing a JSON-serialisable case (all random
choices are made there, and nothing there imports the code under test) and a function check(case)
that runs the code under test against the leg's oracle.  check(case) raises Violation when the property
does not hold, HarnessError when the harness itself is at fault, and returns a dict
{"nontrivial": bool, "labels": [...], "n": sub-cases} otherwise.  Any other exception escaping from
check(case) comes from the code under test (or from what it returned) and counts as a violation.
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness (generator, oracle, environment) failed; says nothing about the property."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def setup_path():
    sys.path.insert(0, REPO)
    try:
        import elementpath  # noqa: F401
    except ImportError:
        for d in ("/opt/venv/lib/python3.12/site-packages",):
            if os.path.isdir(d):
                sys.path.append(d)


class Leg:
    def __init__(self, name, strategy, check, quick=300, thorough=None, chunk=60):
        self.name = name
        self.strategy = strategy          # callable returning a strategy (lazy) or strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.chunk = chunk


def get_prop(pid):
    import importlib
    return importlib.import_module(f"vf.props.{pid.lower()}")


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, ensure_ascii=True)
                        .encode()).hexdigest()[:16]


def brief(exc):
    return "".join(traceback.format_exception_only(type(exc), exc)).strip()[:1500]


class Hang(BaseException):
    """The per-case limit of CPU time is used up."""


CASE_CPU = 60


def _hang(signum, frame):
    raise Hang()


def run_check(leg, case):
    """Run a leg's check; returns (info, None) or (None, violation text); HarnessError propagates."""
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        info = leg.check(json.loads(json.dumps(case)))
        return (info or {"nontrivial": False}), None
    except Skip as s:
        return {"nontrivial": False, "labels": ["skip:" + str(s)]}, None
    except Violation as v:
        return None, str(v)
    except (HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        return None, f"unexpected exception {brief(e)} [{where}]"
    except Hang:
        return None, f"no answer within {CASE_CPU} s of CPU time"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class ShrinkTimeout(BaseException):
    """Time for shrinking is over."""


SHRINK_SECONDS = 40


def _shrunk(signum, frame):
    signal.setitimer(signal.ITIMER_REAL, 5)      # once more if this one gets swallowed
    raise ShrinkTimeout()


def make_body(leg, state, account):
    def body(case):
        info, viol = run_check(leg, case)
        if viol is not None:
            size = len(json.dumps(case))
            if state["fail"] is None:
                signal.signal(signal.SIGALRM, _shrunk)
                signal.setitimer(signal.ITIMER_REAL, SHRINK_SECONDS)
            if state["fail"] is None or size < state["size"]:
                state["fail"], state["size"] = (case, viol), size
            state["nfail"] = state.get("nfail", 0) + 1
            raise Violation(viol)
        if state["fail"] is None:
            account(leg, case, info)
    return body


def worker(pid, shard, nshards, tier, seed, outfile, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS - 5
    t0 = time.monotonic()
    prop = get_prop(pid)
    stats = {"evaluations": 0, "hashes": [], "samples": [], "labels": {}, "legs": {},
             "violation": None, "error": None, "timeout": False}
    seen = set()

    def account(leg, case, info):
        stats["evaluations"] += 1
        ls = stats["legs"].setdefault(leg.name, [0, 0])
        ls[0] += 1
        for lb in info.get("labels", ()):
            k = f"{leg.name}:{lb}"
            stats["labels"][k] = stats["labels"].get(k, 0) + 1
        if info.get("nontrivial"):
            h = case_hash(case)
            if h not in seen:
                seen.add(h)
                ls[1] += 1
                n = ls[1]
                if n in (1, 7, 60):
                    stats["samples"].append({"leg": leg.name, "case": case})

    def finish():
        stats["hashes"] = sorted(seen)
        stats["wall"] = time.monotonic() - t0
        tmp = outfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(stats, f)
        os.replace(tmp, outfile)

    try:
        if shard == 0:
            for leg, case, note in load_corpus(pid, prop):
                info, viol = run_check(leg, case)
                if viol is not None:
                    stats["violation"] = {"leg": leg.name, "case": case, "msg": viol,
                                          "from": "corpus: " + note}
                    return finish()
                account(leg, case, info)
        legs = prop.LEGS
        plan = []
        for li, leg in enumerate(legs):
            total = leg.quick if tier == "quick" else leg.thorough
            mine = -(-total // nshards)
            nchunks = max(1, -(-mine // leg.chunk))
            for c in range(nchunks):
                plan.append(((c + 0.5) / nchunks, li, c, min(leg.chunk, mine - c * leg.chunk)))
        plan.sort()
        for _, li, c, n in plan:
            if time.monotonic() - t0 > budget:
                stats["timeout"] = True
                break
            leg = legs[li]
            state = {"fail": None}
            strat = leg.strategy() if callable(leg.strategy) else leg.strategy

            body = make_body(leg, state, account)

            sd = (seed * 1000003 + shard * 10007 + li * 101 + c * 7919) & 0x7fffffff
            test = hypothesis.seed(sd)(settings(
                max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink), print_blob=False,
                suppress_health_check=list(HealthCheck))(given(case=strat)(body)))
            try:
                test()
            except BaseException as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if state["fail"] is not None and not isinstance(e, (KeyboardInterrupt, HarnessError,
                                                                    MemoryError)):
                    case, viol = state["fail"]
                    stats["violation"] = {"leg": leg.name, "case": case, "msg": viol,
                                          "from": f"generated (seed {seed}, shard {shard}, chunk {c}; "
                                                  f"{state['nfail']} failing runs while shrinking)"}
                    return finish()
                raise
    except BaseException as e:
        stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finish()


def load_corpus(pid, prop):
    f = VERIF / "corpus" / f"{pid}.jsonl"
    legs = {lg.name: lg for lg in prop.LEGS}
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                r = json.loads(line)
                if r["leg"] not in legs:
                    raise HarnessError(f"corpus of {pid}: no leg {r['leg']}")
                yield legs[r["leg"]], r["case"], r.get("note", "")


def load_known(pid):
    """Open findings of a property: list of dicts with leg, case, what."""
    f = VERIF / "known_findings.jsonl"
    res = []
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r["property"] == pid and r.get("status") == "open":
                    res.append(r)
    return res


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--leg", help="restrict to one leg (development only)")
    ap.add_argument("--scale", type=float, default=1.0)
    if argv == ["--selftest"]:
        setup_path()
        import hypothesis
        import yangson
        for f in sorted((VERIF / "vf" / "props").glob("p*.py")):
            get_prop(f.stem)
        print(f"hypothesis {hypothesis.__version__}, yangson from {Path(yangson.__file__).parent}: ready")
        return 0
    a = ap.parse_args(argv)
    pid = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    setup_path()
    budget = float(os.environ.get("VERIF_BUDGET", "100" if tier == "quick" else "660"))
    if a.leg or a.scale != 1.0:
        prop = get_prop(pid)
        if a.leg:
            prop.LEGS = [lg for lg in prop.LEGS if lg.name == a.leg]
        for lg in prop.LEGS:
            lg.quick = int(lg.quick * a.scale)
            lg.thorough = int(lg.thorough * a.scale)
    if a.worker is not None:
        import resource
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        worker(pid, a.worker, a.shards, tier, seed, a.out, budget)
        return 0
    prop = get_prop(pid)
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        leg = {lg.name: lg for lg in prop.LEGS}[r["leg"]]
        info, viol = run_check(leg, r["case"])
        if viol is not None:
            print(f"VIOLATION property={pid} replay={a.replay}")
            print(viol)
            return 1
        print(f"property={pid} holds on {a.replay}: {info}")
        return 0
    return parent(pid, prop, tier, seed, a, budget)


def parent(pid, prop, tier, seed, a, budget):
    t0 = time.monotonic()
    known_lines = []
    violation = None
    for r in load_known(pid):
        leg = {lg.name: lg for lg in prop.LEGS}[r["leg"]]
        info, viol = run_check(leg, r["case"])
        if viol is not None:
            known_lines.append(f"KNOWN-FINDING: property={pid} {r['what']}")
    nsh = a.shards
    work = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    procs = []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed),
               TMPDIR=work)
    try:
        for k in range(nsh):
            out = os.path.join(work, f"w{k}.json")
            cmd = [sys.executable, str(VERIF / "check.py"), pid, "--tier", tier, "--worker", str(k),
                   "--shards", str(nsh), "--out", out]
            if a.leg:
                cmd += ["--leg", a.leg]
            if a.scale != 1.0:
                cmd += ["--scale", str(a.scale)]
            log = open(os.path.join(work, f"w{k}.log"), "wb")
            procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=log,
                                           start_new_session=True), out, log))
        pending = set(range(nsh))
        results = {}
        hard = t0 + budget + 150
        while pending:
            for k in sorted(pending):
                p, out, log = procs[k]
                if p.poll() is not None:
                    pending.discard(k)
                    try:
                        results[k] = json.loads(Path(out).read_text())
                    except Exception:
                        log.flush()
                        tail = Path(work, f"w{k}.log").read_bytes()[-3000:].decode("utf8", "replace")
                        results[k] = {"error": f"worker {k} exited {p.returncode} without result\n{tail}",
                                      "violation": None, "evaluations": 0, "hashes": [],
                                      "samples": [], "labels": {}, "legs": {}, "timeout": False}
            if any(r["violation"] for r in results.values()):
                break
            if time.monotonic() > hard:
                for k in pending:
                    results[k] = {"error": None, "violation": None, "evaluations": 0, "hashes": [],
                                  "samples": [], "labels": {}, "legs": {}, "timeout": True,
                                  "hung": True}
                break
            time.sleep(0.05)
    finally:
        for p, out, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
            log.close()
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    viols = [r["violation"] for k, r in sorted(results.items()) if r["violation"]]
    errors = [r["error"] for k, r in sorted(results.items()) if r["error"]]
    evaluations = sum(r["evaluations"] for r in results.values())
    hashes = set()
    labels, legs, samples = {}, {}, []
    for k, r in sorted(results.items()):
        hashes.update(r["hashes"])
        for x, n in r["labels"].items():
            labels[x] = labels.get(x, 0) + n
        for x, (n, m) in r["legs"].items():
            o = legs.setdefault(x, {"evaluations": 0, "nontrivial": 0})
            o["evaluations"] += n
            o["nontrivial"] += m
    for k, r in sorted(results.items()):
        for s in r["samples"]:
            if sum(1 for z in samples if z["leg"] == s["leg"]) < 2:
                txt = json.dumps(s["case"], ensure_ascii=False)
                samples.append({"leg": s["leg"], "case": s["case"] if len(txt) < 3000
                                else txt[:3000] + "... (truncated)"})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes),
                       "rule": prop.RULE, "samples": samples[:12], "legs": legs,
                       "distribution": dict(sorted(labels.items())),
                       "stopped_by_time_budget": any(r["timeout"] for r in results.values()),
                       "workers": nsh},
          "assumptions": getattr(prop, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(viols)}
    if viols:
        ev["violation_detail"] = [{"leg": v["leg"], "msg": v["msg"][:2000], "from": v["from"]}
                                  for v in viols]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False))
    for ln in known_lines:
        print(ln)
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v["case"])))
        rd = VERIF / "replay"
        rd.mkdir(exist_ok=True)
        path = rd / f"{pid}-{v['leg']}-{case_hash(v['case'])}.json"
        path.write_text(json.dumps({"property": pid, "leg": v["leg"], "case": v["case"],
                                    "msg": v["msg"], "from": v["from"]}, indent=1,
                                   ensure_ascii=False))
        print(f"VIOLATION property={pid} replay={path}")
        print(v["msg"][:3000])
        return 1
    if errors:
        print(f"HARNESS ERROR in {pid}:\n{errors[0]}", file=sys.stderr)
        return 2
    if evaluations == 0:
        print(f"HARNESS ERROR in {pid}: nothing evaluated", file=sys.stderr)
        return 2
    print(f"{pid} ok: {evaluations} cases, {len(hashes)} distinct non-trivial, "
          f"{ev['wall_s']} s" + (" (time budget hit)" if ev["coverage"]["stopped_by_time_budget"] else ""))
    return 0
