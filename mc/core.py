"""Explorer core shared by every check.

A check enumerates a bounded space of *cases* (inputs, programs or operation
histories), runs the real yapCAD code on every one of them and compares it to
a reference that lives in /verif.  Nothing here samples: a driver is a
generator that yields every case of its space, in a fixed order, and the
engine runs all of them.

Vocabulary
  case     a JSON value that fully determines one execution
  judge    judge(kind, case) -> Outcome; raises Violation if the property fails
  driver   (kind, iterator of cases)
"""
from __future__ import annotations

import collections
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def setup_import():
    """Make the code under test importable from the working tree in /repo."""
    os.environ.setdefault("VISUALTEST", "false")
    sys.dont_write_bytecode = True
    for p in (os.path.join(REPO, "src"),):
        if p not in sys.path:
            sys.path.insert(0, p)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def _quiet():
    """Pool worker: the code under test prints and logs; drop that."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


class Tally:
    """What a batch of judged cases covered (mergeable)."""

    def __init__(self):
        self.n = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.viol = []
        self.samples = {}

    def merge(self, o):
        self.n += o.n
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes.update(o.outcomes)
        self.viol.extend(o.viol)
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)


class Out:
    """Result of one judged case: an outcome label and the states it visited."""

    __slots__ = ("label", "states", "steps")

    def __init__(self, label="ok", states=(), steps=1):
        self.label = label
        self.states = states
        self.steps = steps


def h(x):
    """Short canonical hash of an abstract state."""
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


_JUDGE = None
_LIMIT = 60.0


def judge_one(judge, kind, case, limit=60.0):
    """Run one case under a watchdog.  Returns (Out|None, message|None)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        out = judge(kind, case)
        return (out if isinstance(out, Out) else Out(out or "ok")), None, None
    except Violation as v:
        return None, str(v), v.key
    except Hang:
        return None, "did not terminate within %gs" % limit, "hang"
    except RecursionError:
        return None, "unbounded recursion", "recursion"
    except Exception as e:  # an escape from the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/repo/" in f.filename or "yapcad" in f.filename]
        loc = ""
        if where:
            loc = " at %s:%s" % (os.path.basename(where[-1].filename), where[-1].name)
        return None, "unexpected %s: %s%s" % (type(e).__name__, e, loc), "exc:%s" % type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_batch(batch):
    kind, cases = batch
    t = Tally()
    for case in cases:
        out, msg, key = judge_one(_JUDGE, kind, case, _LIMIT)
        t.n += 1
        if msg is not None:
            t.viol.append((kind, case, msg, key))
            t.outcomes["VIOLATION"] += 1
            if len(t.viol) > 40:
                break
            continue
        t.transitions += out.steps
        if out.states:
            t.states.update(out.states)
        else:
            t.states.add(h((kind, case)))
        lab = "%s:%s" % (kind, out.label)
        t.outcomes[lab] += 1
        if lab not in t.samples:
            t.samples[lab] = json.dumps(case)[:300]
    return t


def _batches(drivers, size):
    for kind, cases, sz in drivers:
        it = iter(cases)
        n = sz or size
        while True:
            chunk = list(itertools.islice(it, n))
            if not chunk:
                break
            yield kind, chunk


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.level = level
        self.total = Tally()
        self.per_driver = collections.Counter()
        self.t0 = time.time()
        self.notes = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.unlisted = []
        self.traces_validated = None
        self.exhaustive = True
        self.budget = 780.0 if tier == "quick" else 3.0e4

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- exploration -----------------------------------------------------
    def explore(self, judge, drivers, workers=None, batch=64, limit=60.0):
        """Judge every case of every driver; drivers = [(kind, cases[, batch])]."""
        global _JUDGE, _LIMIT
        _JUDGE, _LIMIT = judge, limit
        drivers = [(d + (None,))[:3] for d in drivers]
        workers = workers or min(8, os.cpu_count() or 1)
        stop_after = 200
        if workers == 1:
            for b in _batches(drivers, batch):
                self._absorb(b[0], _run_batch(b))
                if len(self.unlisted) >= stop_after:
                    self.exhaustive = False
                    break
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(workers, initializer=_quiet) as pool:
            # bounded look-ahead so huge generators are not materialised
            pending = collections.deque()
            gen = _batches(drivers, batch)
            stop = False
            while True:
                while len(pending) < workers * 4 and not stop:
                    b = next(gen, None)
                    if b is None:
                        stop = True
                        break
                    pending.append((b[0], pool.apply_async(_run_batch, (b,))))
                if not pending:
                    break
                kind, r = pending.popleft()
                self._absorb(kind, r.get())
                if len(self.unlisted) >= stop_after:
                    self.exhaustive = False
                    pool.terminate()
                    break
                if time.time() - self.t0 > self.budget:
                    self.exhaustive = False
                    self.notes["stopped"] = "time budget reached"
                    pool.terminate()
                    break

    def _absorb(self, kind, t):
        self.per_driver[kind] += t.n
        viol, t.viol = t.viol, []
        self.total.merge(t)
        for v in viol:
            self.report(*v)

    def report(self, kind, case, msg, key=None):
        for k in self.known:
            if k["kind"] == kind and k["case"] == json.loads(json.dumps(case)) and k["what"] in msg:
                self.known_hit[json.dumps([kind, case])] = (k, msg)
                return
        self.unlisted.append((kind, case, msg, key))

    # -- reporting -------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        t = self.total
        cov = {
            "states": len(t.states),
            "transitions": t.transitions,
            "traces_validated_against_impl": (
                t.n if self.traces_validated is None else self.traces_validated
            ),
            "evaluations": t.n,
            "distinct_nontrivial": len(t.outcomes),
            "rule": "every case of the bounded space is executed on the real code; "
            "an outcome class is non-trivial when it is a distinct (driver, observed behaviour) label",
            "cases_per_driver": dict(self.per_driver),
            "outcomes": dict(t.outcomes.most_common(60)),
            "exhaustive": self.exhaustive,
            "samples": list(t.samples.values())[:12],
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "wall_s": round(wall, 2),
            "assumptions": self.assumptions,
            "violations": len(self.unlisted),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rc = 0
        seen = set()
        for k, (ent, msg) in sorted(self.known_hit.items()):
            line = "KNOWN-FINDING: property=%s %s" % (self.pid, ent["summary"])
            if line not in seen:
                seen.add(line)
                print(line)
        if self.unlisted:
            rc = 1
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            # smallest case first
            self.unlisted.sort(key=lambda v: len(json.dumps(v[1], default=str)))
            kinds = set()
            for i, (kind, case, msg, key) in enumerate(self.unlisted):
                if (kind, key) in kinds and i > 3:
                    continue
                kinds.add((kind, key))
                path = os.path.join(rdir, "%s_%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "kind": kind, "case": case, "message": msg}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("   [%s] %s" % (kind, msg[:600]))
                print("   case: %s" % json.dumps(case, default=str)[:600])
                if i > 12:
                    break
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            "%s %s: %d cases, %d states, %d transitions, %d violation(s), %d known, %.1fs"
            % (self.pid, self.tier, t.n, len(t.states), t.transitions, len(self.unlisted), len(self.known_hit), wall)
        )
        return rc


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid:
                out.append(d)
    return out


# -- small helpers used by many checks -----------------------------------
def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol


def histories(ops, depth, first=None):
    """All operation sequences over ``ops`` of length 1..depth."""
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            yield list(seq)
