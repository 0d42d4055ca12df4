"""
Bounded, exhaustive exploration of the real petrofit code.

A check describes a finite space of *executions* (``cases``): input tuples,
configurations, operation histories or schedules, each one JSON-able.  The
engine runs every case of the space on the implementation in /repo and compares
each observation with a reference model that lives in /verif (``run``).

Exit codes of a check: 0 the property held on everything explored, 1 a
violation (with a replayable case file), 2 an error of the machinery itself.
"""
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 240  # a single execution that runs longer than this does not terminate


class Violation(Exception):
    """The implementation left the specified behaviour."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


class Trace:
    """Counters and oracle helpers that are handed to each explored execution."""

    def __init__(self):
        self.ops = 0  # transitions: calls into the implementation that were observed
        self.compared = 0  # observations compared with the reference model
        self.states = set()  # canonical states visited inside this execution
        self.outcomes = set()  # digests of what was observed
        self.known = []

    # -- driving the implementation
    def call(self, fn, *args, **kwargs):
        """One transition: call into the implementation; an exception is a violation."""
        self.ops += 1
        try:
            return fn(*args, **kwargs)
        except (MemoryError, Hang):
            raise
        except Violation:
            raise
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.format_exc(limit=-3)
            raise Violation(
                "{} raised {}: {}\n{}".format(
                    getattr(fn, "__name__", fn), type(e).__name__, e, tb
                )
            )

    def attempt(self, fn, *args, **kwargs):
        """One transition that may be rejected: returns (value, exception)."""
        self.ops += 1
        try:
            return fn(*args, **kwargs), None
        except (MemoryError, Hang):
            raise
        except Exception as e:
            return None, e

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *obs):
        self.outcomes.add(digest(obs))

    # -- comparing with the reference model
    def check(self, cond, msg, *args):
        self.compared += 1
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def same(self, got, want, what, rtol=1e-9, atol=1e-12):
        """got equals want up to float tolerance (NaN equals NaN)."""
        import numpy as np

        self.compared += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception:
            raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))
        if g.shape != w.shape:
            raise Violation(
                "{}: shape {} instead of {} (got {}, expected {})".format(
                    what, g.shape, w.shape, short(got), short(want)
                )
            )
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            bad = np.argwhere(~ok)
            first = tuple(int(v) for v in bad[0])
            raise Violation(
                "{}: {} of {} values differ; at {} got {!r}, expected {!r}\n got {}\n expected {}".format(
                    what, len(bad), max(g.size, 1), first,
                    float(g[first]), float(w[first]), short(got), short(want),
                )
            )

    def equal(self, got, want, what):
        self.compared += 1
        if not (type(got) is type(want) and got == want) and got != want:
            raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))

    def rejects(self, fn, what, *args, **kwargs):
        """The call has to raise."""
        self.ops += 1
        self.compared += 1
        try:
            r = fn(*args, **kwargs)
        except (MemoryError, Hang):
            raise
        except Exception:
            return
        raise Violation("{}: accepted, returned {}".format(what, short(r)))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def digest(obj):
    return hashlib.blake2b(canon(obj).encode(), digest_size=8).hexdigest()


def canon(o):
    """Canonical text of an observation; floats at 9 significant digits."""
    import numpy as np

    if o is None or isinstance(o, (bool, str, np.bool_)):
        return repr(o if not isinstance(o, np.bool_) else bool(o))
    if isinstance(o, (int, np.integer)):
        return repr(int(o))
    if isinstance(o, (float, np.floating)):
        return "{:.9g}".format(float(o) + 0.0)
    if isinstance(o, np.ndarray):
        return "A{}[{}]".format(o.shape, ",".join(canon(v) for v in o.ravel().tolist()))
    if isinstance(o, (list, tuple)):
        return "(" + ",".join(canon(v) for v in o) + ")"
    if isinstance(o, dict):
        return "{" + ",".join(
            sorted(canon(k) + ":" + canon(v) for k, v in o.items())
        ) + "}"
    if isinstance(o, (set, frozenset)):
        return "S{" + ",".join(sorted(canon(v) for v in o)) + "}"
    return repr(o)


def product(**axes):
    """All combinations of the named axes, as dicts (first axis outermost)."""
    names = list(axes)
    return [dict(zip(names, vals)) for vals in itertools.product(*axes.values())]


def deviations(base, axes, bound):
    """
    All cases that differ from ``base`` in at most ``bound`` axes (iterative
    deviation bounding: fewest deviations first).
    """
    names = list(axes)
    out = []
    for k in range(bound + 1):
        for combo in itertools.combinations(names, k):
            alts = [[v for v in axes[n] if v != base[n]] for n in combo]
            for vals in itertools.product(*alts):
                c = dict(base)
                c.update(zip(combo, vals))
                out.append(c)
    return out


def histories(alphabet, depth, min_depth=1):
    """All operation sequences up to ``depth``, shortest first."""
    for d in range(min_depth, depth + 1):
        for h in itertools.product(range(len(alphabet)), repeat=d):
            yield [alphabet[i] for i in h]


def bfs(trace, init, ops, enabled, replay, canon_state, check, depth):
    """
    Explicit-state search over real objects.  ``replay(history)`` builds a fresh
    object and applies the history; states are merged by ``canon_state``.
    Returns (states, transitions).
    """
    import collections

    seen = {}
    s0 = replay([])
    check(s0, [])
    seen[digest(canon_state(s0))] = []
    frontier = collections.deque([[]])
    transitions = 0
    while frontier:
        h = frontier.popleft()
        if len(h) >= depth:
            continue
        for op in ops:
            if not enabled(h, op):
                continue
            transitions += 1
            h2 = h + [op]
            s = replay(h2)
            check(s, h2)
            k = digest(canon_state(s))
            if k not in seen:
                seen[k] = h2
                frontier.append(h2)
    trace.states.update(seen)
    trace.ops += transitions
    return len(seen), transitions


# ----------------------------------------------------------------------------


def _run_case(check, case):
    """Run one execution; returns (violation or None, trace)."""
    t = Trace()

    def on_alarm(sig, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(HANG_S)
    try:
        import numpy as np

        with np.errstate(all="ignore"):
            check.run(case, t)
        return None, t
    except Violation as v:
        return (str(v), v.key), t
    except Hang:
        return ("the execution did not terminate within {} s".format(HANG_S), None), t
    except (MemoryError, OSError):
        raise
    except Exception as e:
        return (
            "observation has an unexpected form: {}: {}\n{}".format(
                type(e).__name__, e, traceback.format_exc(limit=-4)
            ),
            None,
        ), t
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(check, cases, start, step, known, q, current):
    import warnings

    warnings.simplefilter("ignore")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    res = dict(
        n=0, ops=0, compared=0, states=set(), outcomes=set(), violation=None,
        error=None, history=None, known=[], slow=(0.0, None),
    )
    try:
        for i in range(start, len(cases), step):
            current[start] = i
            t0 = time.time()
            v, t = _run_case(check, cases[i])
            dt = time.time() - t0
            if dt > res["slow"][0]:
                res["slow"] = (dt, i)
            res["n"] += 1
            res["ops"] += t.ops
            res["compared"] += t.compared
            if t.states:
                res["states"] |= t.states
            else:
                res["states"].add(digest(cases[i]))
            res["outcomes"] |= t.outcomes
            if v is not None:
                msg, key = v
                if key is not None and key in known:
                    res["known"].append((key, i, msg))
                    continue
                # the same execution has to fail again
                v2, _ = _run_case(check, cases[i])
                if v2 is None:
                    # it depends on the executions before it in this process
                    res["history"] = (i, msg)
                else:
                    res["violation"] = (i, msg)
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    q.put((start, res))
    q.close()
    q.join_thread()
    os._exit(0)


def _again(check, cases, start, step, last):
    """Does the last execution of a sequence fail again in a fresh process?"""
    pid = os.fork()
    if pid == 0:
        try:
            sys.stdout = open(os.devnull, "w")
            import warnings

            warnings.simplefilter("ignore")
            for i in range(start, last + 1, step):
                v, _ = _run_case(check, cases[i])
            os._exit(7 if v is not None else 0)
        except BaseException:
            os._exit(1)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 7


def load_known(pid):
    """Known findings: lines 'known: property=<id> key=<key> <text>'."""
    path = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            parts = line.split()
            if len(parts) >= 3 and parts[0] == "known:" and parts[1] == "property=" + pid:
                out[parts[2].split("=", 1)[1]] = " ".join(parts[3:])
    return out


def run_check(check, tier, seed, only_case=None, after=()):
    t0 = time.time()
    pid = check.ID
    known = load_known(pid)
    if only_case is not None:
        for c in after:
            _run_case(check, c)
        v, t = _run_case(check, only_case)
        if v is None:
            print("replay: the property held on this execution")
            return 0
        print("replay: " + v[0])
        print("VIOLATION property={} replay={}".format(pid, "-"))
        return 1

    cases = list(check.cases(tier))
    n = len(cases)
    if n == 0:
        print("no cases")
        return 2
    jobs = min(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1, n)
    # The seed only rotates which worker explores which part of the space.
    if seed % n and getattr(check, "ROTATE", True):
        order = [(i + seed) % n for i in range(n)]
    else:
        order = list(range(n))
    work = [cases[i] for i in order]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    current = ctx.Array("l", [-1] * jobs, lock=False)
    procs = []
    for w in range(jobs):
        p = ctx.Process(target=_worker, args=(check, work, w, jobs, known, q, current))
        p.start()
        procs.append(p)
    results = {}
    died = {}
    last = {w: (None, time.time()) for w in range(jobs)}
    import queue as _queue

    while len(results) + len(died) < jobs:
        try:
            w, r = q.get(timeout=1.0)
            results[w] = r
            continue
        except _queue.Empty:
            pass
        for w, p in enumerate(procs):
            if w in results or w in died:
                continue
            cur = current[w]
            if last[w][0] != cur:
                last[w] = (cur, time.time())
            elif time.time() - last[w][1] > 2 * HANG_S + 60:
                p.kill()
                died[w] = (cur, "the execution did not terminate and could not be interrupted")
                continue
            if not p.is_alive():
                try:
                    w2, r = q.get(timeout=1.0)
                    results[w2] = r
                    continue
                except _queue.Empty:
                    died[w] = (cur, "the process that ran the execution died (exit {})".format(p.exitcode))
    for p in procs:
        p.join(5)
    errors = [r["error"] for r in results.values() if r["error"]]
    after, unrepeated, loose = {}, [], []
    for w, r in results.items():
        if r["history"]:
            i, msg = r["history"]
            after[i] = [_jsonable(work[k]) for k in range(w, i, jobs)]
            if any(_again(check, work, w, jobs, i) for _ in range(3)):
                r["violation"] = (i, msg + "\n(only after the executions before it in the same process)")
            else:
                unrepeated.append((i, msg))
    # Executions are deterministic, so a failure that does not come back is one of the
    # sandbox (no memory, no time) or of code that depends on something that differs between
    # processes, like the addresses of objects. The latter hits several workers.
    sandbox = ("MemoryError", "OSError", "No space", "terminate", "Resource temporarily")
    if len([m for _, m in unrepeated if not any(x in m for x in sandbox)]) > 1:
        for i, msg in unrepeated:
            if not any(x in msg for x in sandbox):
                loose.append((i, msg + "\n(in this process only, as in {} others)".format(len(unrepeated) - 1)))
    else:
        errors += ["execution {} failed once and passed when it was repeated: {}".format(i, m) for i, m in unrepeated]
    for w, (cur, why) in died.items():
        if procs[w].exitcode == -9 and "died" in why:
            errors.append("worker was killed: " + why)  # e.g. out of memory
    viol = [r["violation"] for r in results.values() if r["violation"]] + loose
    viol += [
        (cur, why) for w, (cur, why) in died.items()
        if not (procs[w].exitcode == -9 and "died" in why)
    ]
    states, outcomes = set(), set()
    for r in results.values():
        states |= r["states"]
        outcomes |= r["outcomes"]
    done = sum(r["n"] for r in results.values())
    wall = time.time() - t0
    knowns = {}
    for r in results.values():
        for key, i, msg in r["known"]:
            knowns.setdefault(key, []).append(i)
    if hasattr(check, "evidence"):
        extra = check.evidence(tier)
    else:
        extra = {}
    sample_idx = sorted({0, n // 3, (2 * n) // 3, n - 1})
    cov = dict(
        states=len(states),
        transitions=sum(r["ops"] for r in results.values()),
        traces_validated_against_impl=done - len(viol),
        executions_in_space=n,
        observations_compared=sum(r["compared"] for r in results.values()),
        distinct_outcomes=len(outcomes),
        exhaustive=bool(done == n and not viol and not errors),
        samples=[_jsonable(cases[i]) for i in sample_idx],
        bounds=check.bounds(tier) if hasattr(check, "bounds") else (check.__doc__ or ""),
        slowest_execution_s=round(max([r["slow"][0] for r in results.values()] or [0]), 3),
        workers=jobs,
        known_findings_seen={k: len(v) for k, v in knowns.items()},
    )
    cov.update(extra)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(viol),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".{}.tmp".format(pid))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    print(
        "{} [{}] {} executions of {}, {} states, {} transitions, {} observations compared, "
        "{} distinct outcomes, {:.1f} s".format(
            pid, tier, done, n, cov["states"], cov["transitions"],
            cov["observations_compared"], cov["distinct_outcomes"], wall,
        )
    )
    for key in sorted(knowns):
        print("KNOWN-FINDING: property={} {} ({})".format(pid, key, known[key]))
    if viol:
        i, msg = min(viol, key=lambda v: order[v[0]])
        case = work[i]
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "{}.json".format(pid))
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=_jsonable(case), message=msg, after=after.get(i, [])), f, indent=1)
        print(msg)
        print("case: " + short(case, 1500))
        print("VIOLATION property={} replay={}".format(pid, os.path.relpath(path, ROOT)))
        return 1
    if errors:
        print("ERROR of the check:")
        print(errors[0])
        return 2
    if done != n:
        print("ERROR: explored {} of {} executions".format(done, n))
        return 2
    return 0


def _jsonable(c):
    try:
        json.dumps(c)
        return c
    except TypeError:
        return repr(c)
