"""Drives the generated checks: facets, shards, shrinking, replay files, evidence."""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from . import boot
from .boot import VERIF, np, torch

from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hyp_seed
from hypothesis.errors import HypothesisException


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case lies outside the domain of the property (counted, never a failure)."""


class HarnessError(Exception):
    pass


class Facet:
    """One executable statement of (a part of) a property.

    strategy: Hypothesis strategy of JSON-able dicts (the whole case, data seed included)
    check:    case -> set/list of class labels; raises Violation when the oracle disagrees
    cases:    (quick, thorough) number of generated cases
    examples: cases that are always run first (regressions and known corner cases)
    nontrivial: (case, labels) -> bool
    """

    def __init__(self, name, strategy, check, cases=(400, 8000), examples=(),
                 nontrivial=None, rule="every case whose oracle was evaluated", weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.cases = cases
        self.examples = list(examples)
        self.nontrivial = nontrivial or (lambda case, labels: True)
        self.rule = rule
        self.weight = weight


# ----------------------------------------------------------------------------- helpers
def call(fn, *args, **kwargs):
    """Run code under test on input inside the property's domain: it has to return."""
    try:
        return fn(*args, **kwargs)
    except (Skip, Violation):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(raised_in_code(e) or "raised %s on a valid input: %s" % (
            type(e).__name__, str(e)[:300])) from e


def raised_in_code(e):
    """the message for an exception that went through the code under test, else None"""
    where = [f for f in traceback.extract_tb(e.__traceback__)
             if os.path.join(boot.REPO, "torchiva") in f.filename]
    if not where:
        return None
    return "raised %s on a valid input at %s:%d: %s" % (
        type(e).__name__, os.path.basename(where[-1].filename), where[-1].lineno, str(e)[:300])


def tonp(x, what="result"):
    if not isinstance(x, torch.Tensor):
        raise Violation("%s is a %s, not a tensor" % (what, type(x).__name__))
    return x.detach().cpu().resolve_conj().resolve_neg().numpy()


def expect_shape(x, shape, what="result"):
    if not isinstance(x, torch.Tensor):
        raise Violation("%s is a %s, not a tensor" % (what, type(x).__name__))
    if tuple(x.shape) != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (what, tuple(x.shape), tuple(shape)))


def expect_dtype(x, dtype, what="result"):
    if x.dtype != dtype:
        raise Violation("%s has dtype %s, expected %s" % (what, x.dtype, dtype))


def expect_finite(x, what="result"):
    a = tonp(x, what) if isinstance(x, torch.Tensor) else np.asarray(x)
    if not np.all(np.isfinite(a)):
        raise Violation("%s has %d non-finite values of %d"
                        % (what, int((~np.isfinite(a)).sum()), a.size))


def relerr(a, b, axis=None, floor=0.0):
    """max over the kept axes of ||a-b|| / max(||b||, floor); NaN counts as inf."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.size == 0:
        return 0.0
    d = np.abs(a - b) ** 2
    n = np.abs(b) ** 2
    if axis is None:
        d, n = d.sum(), n.sum()
    else:
        d, n = d.sum(axis=axis), n.sum(axis=axis)
    with np.errstate(all="ignore"):
        r = np.sqrt(d) / np.maximum(np.sqrt(n), max(floor, 1e-300))
        r = np.where(d == 0, 0.0, r)
    r = np.where(np.isnan(r), np.inf, r)
    return float(np.max(r))


def expect_close(a, b, tol, what="result", axis=None, floor=0.0):
    a = tonp(a, what) if isinstance(a, torch.Tensor) else np.asarray(a)
    b = tonp(b, what) if isinstance(b, torch.Tensor) else np.asarray(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    e = relerr(a, b, axis=axis, floor=floor)
    if not (e <= tol):
        raise Violation("%s: relative error %.3g exceeds %.3g" % (what, e, tol))
    return e


# ----------------------------------------------------------------------------- running
def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def evaluate(facet, case):
    """-> (status, labels_or_message); status in ok, skip, violation"""
    torch.manual_seed(0)
    torch.set_grad_enabled(True)
    if torch.get_default_dtype() != torch.float32:
        torch.set_default_dtype(torch.float32)
    try:
        labels = facet.check(case)
        return "ok", sorted(set(labels or ()))
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", str(e)
    except Exception as e:  # noqa: BLE001
        # e.g. a constructor that is called outside of call()
        m = raised_in_code(e)
        if m is None:
            raise
        return "violation", m


def run_task(pid, facet, shard, nshards, tier, base_seed, budget_s):
    """Runs in a forked child. Returns a JSON-able result."""
    t0 = time.time()
    res = dict(facet=facet.name, shard=shard, evaluations=0, skipped=0, hashes=[], classes={},
               samples=[], violation=None, error=None, truncated=0)
    hashes = set()
    classes = collections.Counter()
    state = dict(fail=None, msg=None, stop=False)

    def one(case):
        status, info = evaluate(facet, case)
        res["evaluations"] += 1
        if status == "skip":
            res["skipped"] += 1
            classes["skip: " + info] += 1
            return
        if status == "violation":
            state["fail"], state["msg"] = case, info
            raise Violation(info)
        for l in info:
            classes[l] += 1
        if facet.nontrivial(case, info):
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 2:
                    res["samples"].append(dict(facet=facet.name, case=case, labels=info))

    try:
        if shard == 0:
            for ex in facet.examples:
                one(json.loads(canon(ex)))
        n = facet.cases[0 if tier == "quick" else 1]
        n = (n + nshards - 1) // nshards
        if n > 0 and facet.strategy is not None:
            h = hashlib.sha256(("%d:%s:%s:%d" % (base_seed, pid, facet.name, shard)).encode())

            @hyp_seed(int.from_bytes(h.digest()[:7], "big"))
            @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink))
            @given(facet.strategy)
            def prop(case):
                if state["fail"] is None and time.time() - t0 > budget_s:
                    res["truncated"] += 1
                    return
                one(json.loads(canon(case)))

            prop()
    except Violation:
        pass
    except (HypothesisException, BaseExceptionGroup) as e:
        # Flaky & co: decided below by re-running the recorded case outside Hypothesis
        if state["fail"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except Exception as e:  # noqa: BLE001
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
        if state["fail"] is not None:
            res["error"] = None
    if state["fail"] is not None:
        res["violation"] = dict(case=state["fail"], message=state["msg"])
    res["hashes"] = sorted(hashes)
    res["classes"] = dict(classes)
    res["wall"] = time.time() - t0
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_check(pid, module, tier, seed):
    t0 = time.time()
    facets = module.FACETS
    only = os.environ.get("VERIF_FACET")
    if only:
        facets = [f for f in facets if f.name in only.split(",")]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if scale != 1:
        for f in facets:
            f.cases = tuple(int(max(1, c * scale)) for c in f.cases)
    ncpu = int(os.environ.get("VERIF_JOBS", max(1, min(8, os.cpu_count() or 1))))
    hard = 780 if tier == "quick" else 6 * 3600
    soft = 420 if tier == "quick" else 5 * 3600

    tasks = []
    for f in facets:
        n = f.cases[0 if tier == "quick" else 1]
        ns = max(1, min(ncpu if tier == "quick" else 4 * ncpu, n // 20))
        for s in range(ns):
            tasks.append((f, s, ns))
    tasks.sort(key=lambda t: -t[0].weight * t[0].cases[0] / t[2])

    outdir = os.path.join(VERIF, "evidence", "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    running = {}
    results = []
    unfinished = 0
    queue = list(enumerate(tasks))
    violated = False
    errors = []
    while queue or running:
        while queue and len(running) < ncpu and not violated:
            i, (f, s, ns) = queue.pop(0)
            sys.stdout.flush()
            pid_child = os.fork()
            if pid_child == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    r = run_task(pid, f, s, ns, tier, seed, soft)
                    with open(os.path.join(outdir, "%d.json" % i), "w") as fh:
                        json.dump(r, fh)
                except BaseException:  # noqa: BLE001
                    with open(os.path.join(outdir, "%d.err" % i), "w") as fh:
                        fh.write(traceback.format_exc())
                    code = 3
                finally:
                    os._exit(code)
            running[pid_child] = (i, f, s, time.time())
        if violated and queue:
            unfinished += len(queue)
            queue = []
            continue
        done, st = os.waitpid(-1, os.WNOHANG)
        if done == 0:
            if time.time() - t0 > hard or (violated and time.time() - violated > 60):
                for p in running:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                unfinished += len(running)
                for p in list(running):
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                unfinished += len(queue)
                break
            time.sleep(0.02)
            continue
        if done not in running:
            continue
        i, f, s, _ = running.pop(done)
        fn = os.path.join(outdir, "%d.json" % i)
        if os.path.exists(fn):
            with open(fn) as fh:
                r = json.load(fh)
            results.append(r)
            if r["violation"] and not violated:
                violated = time.time()
            if r["error"]:
                errors.append("%s[%d]: %s" % (f.name, s, r["error"]))
        else:
            ef = os.path.join(outdir, "%d.err" % i)
            msg = open(ef).read() if os.path.exists(ef) else "child ended with status %d" % st
            errors.append("%s[%d]: %s" % (f.name, s, msg))
    for fn in os.listdir(outdir):
        os.unlink(os.path.join(outdir, fn))
    os.rmdir(outdir)

    # merge
    per = collections.OrderedDict()
    samples = []
    allh = set()
    for f in facets:
        rs = [r for r in results if r["facet"] == f.name]
        classes = collections.Counter()
        hs = set()
        for r in rs:
            classes.update(r["classes"])
            hs.update(r["hashes"])
        allh.update(f.name + h for h in hs)
        per[f.name] = dict(evaluations=sum(r["evaluations"] for r in rs),
                           skipped=sum(r["skipped"] for r in rs),
                           distinct_nontrivial=len(hs),
                           classes=dict(sorted(classes.items())), rule=f.rule,
                           budget_truncated=sum(r["truncated"] for r in rs))
        for r in rs[:1]:
            samples.extend(r["samples"][:2])

    # known findings: re-confirm the listed input; never suppresses anything else
    known_lines = []
    for k in load_known():
        if k.get("property") != pid or k.get("status") != "known":
            continue
        fac = [f for f in module.FACETS if f.name == k["facet"]]
        probe = getattr(module, "KNOWN_PROBES", {}).get(k["probe"])
        if probe is None:
            errors.append("known finding %s has no probe" % k["id"])
            continue
        if probe(k.get("case")):
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    viols = [r for r in results if r["violation"]]
    lines = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    seen = set()
    for r in viols:
        if r["facet"] in seen:
            continue
        seen.add(r["facet"])
        # independent confirmation, outside the search library
        fac = [f for f in facets if f.name == r["facet"]][0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, r["facet"]))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, facet=r["facet"], case=r["violation"]["case"],
                           message=r["violation"]["message"], seed=seed), fh, indent=1)
        ok = False
        for _ in range(3):
            st, msg = evaluate(fac, r["violation"]["case"])
            if st == "violation":
                ok = True
                break
        if ok:
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  facet %s: %s" % (r["facet"], msg))
            print("  case %s" % canon(r["violation"]["case"])[:600])
        else:
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  facet %s (does not reproduce in a fresh process: the result depends on "
                  "earlier calls): %s" % (r["facet"], r["violation"]["message"]))

    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=len(allh),
            rule=getattr(module, "RULE", "") + " | per facet: " + "; ".join(
                "%s: %s" % (f.name, f.rule) for f in facets),
            samples=samples[:24],
            facets=per,
            unfinished_tasks=unfinished,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(lines),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

    for l in known_lines:
        print(l)
    print("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s%s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        sum(p["skipped"] for p in per.values()), time.time() - t0,
        "" if not unfinished else ", %d tasks unfinished" % unfinished))
    for l in lines:
        print(l)
    if lines:
        return 1
    if errors:
        sys.stderr.write("HARNESS ERROR\n" + "\n".join(errors)[:6000] + "\n")
        return 2
    return 0


def replay(pid, module, path):
    with open(path) as f:
        d = json.load(f)
    fac = [f for f in module.FACETS if f.name == d["facet"]][0]
    st, msg = evaluate(fac, d["case"])
    print(st, msg)
    if st == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
