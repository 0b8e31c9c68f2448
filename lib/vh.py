"""Harness of the runtime monitors: cases, oracles, verdicts and evidence.

A check is a module with a PROPERTY, a RULE and functions decorated with ``@case``. Each case drives
the real code of /repo and judges what it observes through ``m`` (a Monitor):

* ``m.check(cond, msg, **data)``      one oracle evaluation; a failed one is a violation
* ``m.close(got, want, msg, ...)``    numerical oracle
* ``m.pvalue(p, msg)``                statistical oracle (only absurdly small p are violations)
* ``m.raises(exc, func, msg)``        the call has to be refused
* ``m.seen(kind, key)``               a distinct situation the monitor observed
* ``m.known(key, msg, **data)``       a listed known finding, otherwise a violation

Verdicts: violated (exit 1), held on what was observed (0), inconclusive or broken harness (2).
"""

import contextlib
import functools
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
P_MIN = 1e-9  # statistical oracles only refuse below


class Violation(Exception):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.msg = msg
        self.data = data or {}


class Inconclusive(Exception):
    pass


CASES = []


def case(func=None, *, tiers=("quick", "thorough"), repeat=(1, 4)):
    """Register a case. It runs repeat[0] times in quick and repeat[1] times in thorough tier."""
    if func is None:
        return functools.partial(case, tiers=tiers, repeat=repeat)
    CASES.append((func.__name__, func, tiers, repeat))
    return func


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (str, bool, int)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if hasattr(x, "shape") and hasattr(x, "dtype"):
        a = np.asarray(x)
        if a.size <= 64:
            return jsonable(a.tolist(), depth + 1)
        return {"shape": list(a.shape), "head": jsonable(a.ravel()[:20].tolist(), depth + 1)}
    return repr(x)[:400]


class Monitor:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.sample_cases = {}
        self.case_name = None
        self.iteration = 0
        self.known_hits = {}
        self.known_list = load_known(pid)

    # -- workload
    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *tags):
        h = hashlib.sha256(repr((self.seed, self.pid, self.case_name, self.iteration) + tags).encode())
        return np.random.default_rng(int.from_bytes(h.digest()[:8], "big"))

    def key(self, *tags):
        import jax

        return jax.random.PRNGKey(int(self.rng("key", *tags).integers(0, 2**31 - 1)))

    # -- observations
    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + int(n)

    def seen(self, kind, key=None):
        self.distinct.add((self.case_name, kind, key if isinstance(key, (str, int)) else repr(key)))

    def sample(self, **data):
        n = self.sample_cases.get(self.case_name, 0)
        if n < 2 and len(self.samples) < 60:
            self.sample_cases[self.case_name] = n + 1
            self.samples.append({"case": self.case_name, **jsonable(data)})

    # -- oracles
    def check(self, cond, msg, /, **data):
        self.evaluations += 1
        try:
            ok = bool(np.all(np.asarray(cond)))
        except Exception:
            ok = bool(cond)
        if not ok:
            raise Violation(msg, data)

    def fail(self, msg, /, **data):
        self.evaluations += 1
        raise Violation(msg, data)

    def close(self, got, want, msg, /, rtol=1e-5, atol=1e-6, **data):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.check(got.shape == want.shape, msg + ": shape", **{**data, "got": got.shape, "want": want.shape})
        self.evaluations += max(got.size - 1, 0)
        if got.size == 0:
            return
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if np.any(bad):
            i = np.argwhere(np.atleast_1d(bad))[:5]
            raise Violation(
                msg,
                dict(
                    {"_" + k if k in ("got", "want") else k: v for k, v in data.items()},
                    n_bad=int(bad.sum()),
                    where=i.tolist(),
                    got=[float(np.atleast_1d(got)[tuple(j)]) for j in i],
                    want=[float(np.atleast_1d(want)[tuple(j)]) for j in i],
                ),
            )

    def same(self, got, want, msg, /, **data):
        """Bit-identical arrays (or lists of them)."""
        if isinstance(got, (list, tuple)) or isinstance(want, (list, tuple)):
            self.check(len(got) == len(want), msg + ": length", **{**data, "got": len(got), "want": len(want)})
            for g, w in zip(got, want):
                self.same(g, w, msg, **data)
            return
        g, w = np.asarray(got), np.asarray(want)
        self.check(g.shape == w.shape, msg + ": shape", **{**data, "got": g.shape, "want": w.shape})
        self.evaluations += max(g.size - 1, 0)
        eq = (g == w) | ((g != g) & (w != w))
        if not np.all(eq):
            i = np.argwhere(~np.atleast_1d(eq))[:5]
            raise Violation(
                msg,
                dict(
                    {"_" + k if k in ("got", "want") else k: v for k, v in data.items()},
                    n_bad=int((~eq).sum()),
                    where=i.tolist(),
                    got=[np.atleast_1d(g)[tuple(j)].item() for j in i],
                    want=[np.atleast_1d(w)[tuple(j)].item() for j in i],
                ),
            )

    def pvalue(self, p, msg, /, **data):
        self.count("statistical tests")
        self.check(not (p < P_MIN), msg, **{"p": float(p), **{("_" + k if k == "p" else k): v for k, v in data.items()}})
        self.check(p == p, msg + ": not a number", **data)

    def raises(self, exc, func, msg, /, **data):
        """The call has to be refused with one of the exceptions."""
        self.evaluations += 1
        try:
            with quiet():
                out = func()
        except exc as e:
            self.count("refusals")
            return e
        except Exception as e:
            raise Violation(
                msg + f": refused with {type(e).__name__} instead of {exc}",
                {**data, "error": repr(e)[:500]},
            )
        raise Violation(msg + ": accepted", {**data, "returned": repr(out)[:300]})

    def known(self, key, msg, /, **data):
        """A violation that may be listed in the known findings."""
        self.evaluations += 1
        if key in self.known_list:
            self.known_hits[key] = msg
            return
        raise Violation(msg, data)


def load_known(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    fields = line[len("known: "):].split(" ", 2)
                    if fields[0] == "property=" + pid and fields[1].startswith("key="):
                        out[fields[1][4:]] = fields[2] if len(fields) > 2 else ""
    return out


@contextlib.contextmanager
def quiet():
    """Drop what the code under test prints, and its warnings."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def in_repo(tb):
    root = os.path.join(os.path.realpath(REPO), "appletree") + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


class Watchdog(Exception):
    pass


def reset():
    """Forget everything a previous case left behind in the process."""
    import appletree as apt

    try:
        import appletree.share as share

        share._cached_configs.clear()
        share._cached_functions.clear()
    except (ImportError, AttributeError):
        apt.clear_cache()
    from lib import toys

    toys.cleanup()
    import matplotlib.pyplot as plt

    plt.close("all")
    np.random.seed(0)
    del apt


def run(pid, module, seed, tier, replay=None):
    t0 = time.time()
    m = Monitor(pid, seed, tier)
    violations, errors = [], []
    limit = int(os.environ.get("VERIF_LIMIT", "840" if tier == "quick" else "6000"))

    def alarm(*_):
        raise Watchdog(f"watchdog after {limit} s")

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    per_case = {}
    only = os.environ.get("VERIF_CASE")
    try:
        for name, func, tiers, repeat in CASES:
            if func.__module__ != module.__name__ or tier not in tiers or (only and name != only):
                continue
            for it in range(repeat[0] if tier == "quick" else repeat[1]):
                if replay and (replay["case"] != name or replay["iteration"] != it):
                    continue
                m.case_name, m.iteration = name, it
                n0, tc = m.evaluations, time.time()
                try:
                    with quiet():
                        reset()
                        func(m)
                except Violation as e:
                    violations.append((name, it, e.msg, e.data, traceback.format_exc(limit=-6)))
                except Inconclusive as e:
                    errors.append((name, it, "inconclusive: " + str(e), ""))
                except Watchdog:
                    raise
                except Exception as e:
                    text = traceback.format_exc()
                    if in_repo(e.__traceback__) or not isinstance(e, (OSError, MemoryError)):
                        violations.append(
                            (name, it, f"unexpected {type(e).__name__}: {str(e)[:300]}", {}, text[-3000:])
                        )
                    else:
                        errors.append((name, it, f"{type(e).__name__}: {e}", text))
                c = per_case.setdefault(name, {"runs": 0, "evaluations": 0, "wall_s": 0.0})
                c["runs"] += 1
                c["evaluations"] += m.evaluations - n0
                c["wall_s"] = round(c["wall_s"] + time.time() - tc, 2)
                if m.evaluations == n0 and not violations and not errors:
                    errors.append((name, it, "inconclusive: the monitor observed nothing", ""))
                if len(violations) >= 3:
                    break
            if len(violations) >= 3:
                break
    except Watchdog as e:
        errors.append((m.case_name, m.iteration, str(e), ""))
    finally:
        signal.alarm(0)
    with quiet():
        try:
            reset()
        except Exception:
            pass

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": m.evaluations,
            "distinct_nontrivial": len(m.distinct),
            "rule": module.RULE,
            "samples": m.samples or [{"note": "no sample recorded"}],
            "cases": per_case,
            "observed": m.counters,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if m.known_hits:
        evidence["coverage"]["known_findings"] = m.known_hits
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay and not only:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for key, msg in m.known_hits.items():
        print(f"KNOWN-FINDING: property={pid} {key}: {msg}")
    for name, it, text, tb in errors:
        print(f"ERROR case={name}#{it} {text}\n{tb}", file=sys.stderr)
    if violations:
        for n, (name, it, msg, data, tb) in enumerate(violations):
            path = os.path.join(VERIF, "evidence", "replays", f"{pid}_{name}_{it}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(
                    dict(property=pid, seed=seed, tier=tier, case=name, iteration=it, message=msg,
                         witness=jsonable(data), traceback=tb),
                    f, indent=1,
                )
            print(f"  case {name}#{it}: {msg}")
            print("  " + json.dumps(jsonable(data))[:1500])
            if not data:
                print(tb[-1500:])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        return 2
    print(
        f"HELD property={pid} evaluations={m.evaluations} distinct={len(m.distinct)} "
        f"wall={time.time() - t0:.1f}s"
    )
    return 0
