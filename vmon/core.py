"""Recorder, runner and verdict of the monitors.

A property module observes executions of the real code and reports every
judgement to a ``Rec``.  The verdict has three values: violated (exit 1, with a
replay file), held on what was observed (exit 0) and inconclusive (exit 2, when
a monitor was not reached often enough, a worker was killed or time ran out).
"""

import collections
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import re
import signal
import sys
import time
import traceback
import zlib

import numpy as np

CPU_LIMIT = 120
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """Raised to leave a case after a violation made going on pointless."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        x = list(x)
        return [jsonable(v, depth + 1) for v in x[:60]]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {
                "shape": list(x.shape),
                "head": jsonable(x.ravel()[:20].tolist(), depth + 1),
            }
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if x is None or isinstance(x, (int, str)):
        return x
    return repr(x)[:300]


class Rec:
    """What the monitors of one process have seen and judged"""

    def __init__(self, prop, known):
        self.prop = prop
        self.known = known
        self.counts = collections.Counter()
        self.events = collections.Counter()
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.known_hits = collections.Counter()
        self.errors = []
        self.ratio = {}
        self.case = None
        self.ctx = {}
        self.inside = None
        self.flag = None
        self.slowest = 0.0

    # -- observations -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def seen(self, *key, nontrivial=True, sample=None):
        """One execution was observed; ``key`` identifies what was distinct"""
        self.evaluations += 1
        if nontrivial:
            h = hash(
                tuple(
                    k.tobytes() if isinstance(k, np.ndarray) else repr(k)
                    for k in key
                )
            )
            self.distinct.add(h)
            if sample is not None and len(self.samples) < 2:
                self.samples.append(jsonable(sample))

    # -- judgements -------------------------------------------------------
    def violate(self, rule, key=None, **witness):
        if key is not None and key in self.known:
            self.known_hits[key] += 1
            return
        self.events["violations"] += 1
        if len(self.violations) < 5:
            w = dict(self.ctx)
            w.update(witness)
            self.violations.append(
                dict(rule=rule, case=self.case, witness=jsonable(w))
            )

    def check(self, rule, ok, key=None, n=1, **witness):
        self.counts[rule] += int(n)
        if not bool(ok):
            self.violate(rule, key=key, **witness)
            return False
        return True

    def close(self, rule, got, want, tol, key=None, mask=None, **witness):
        """got == want within the absolute tolerance tol, same shape"""
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            self.counts[rule] += 1
            self.violate(
                rule + ":shape", key=key, got=got.shape, want=want.shape,
                **witness
            )
            return False
        tol = np.asarray(tol, dtype=np.float64)
        if tol.ndim > want.ndim:
            tol = np.squeeze(tol)
        tol = np.broadcast_to(tol, want.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= tol)
            # identical infinities agree
            bad &= ~((got == want) & np.isinf(want))
        if mask is not None:
            bad &= np.broadcast_to(mask, bad.shape)
            n = int(np.sum(np.broadcast_to(mask, bad.shape)))
        else:
            n = max(got.size, 1)
        self.counts[rule] += n
        if got.size and not np.any(bad):
            with np.errstate(all="ignore"):
                rt = np.abs(got - want) / tol
            if mask is not None:
                rt = np.where(mask, rt, 0.0)
            rt = rt[np.isfinite(rt)]
            if rt.size:
                self.ratio[rule] = max(
                    self.ratio.get(rule, 0.0), float(np.max(rt))
                )
        if np.any(bad):
            ind = np.unravel_index(int(np.argmax(bad)), bad.shape)
            self.violate(
                rule,
                key=key,
                index=[int(i) for i in ind],
                got=got[ind],
                want=want[ind],
                tol=tol[ind],
                nbad=int(bad.sum()),
                of=int(bad.size),
                **witness
            )
            return False
        return True

    @contextlib.contextmanager
    def product(self, what, **witness):
        """Real code runs here: on valid input it must not raise"""
        self.events["product_calls"] += 1
        outer, self.inside = self.inside, what
        if self.flag is not None:
            self.flag.value = 1
        try:
            yield
        except (CaseTimeout, Stop, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            msg = str(e).strip().split("\n")[0][:300]
            tb = traceback.extract_tb(e.__traceback__)
            where = [
                "{0}:{1}".format(os.path.basename(f.filename), f.name)
                for f in tb
            ][-6:]
            self.violate(
                "raised:" + what,
                error=type(e).__name__,
                message=msg,
                where=where,
                **witness
            )
            raise Stop()
        finally:
            self.inside = outer
            if self.flag is not None:
                self.flag.value = int(outer is not None)

    def expect_raise(self, rule, excs, fn, **witness):
        self.counts[rule] += 1
        try:
            fn()
        except excs:
            return True
        except (CaseTimeout, Stop):
            raise
        except BaseException as e:
            self.violate(
                rule, got=type(e).__name__, message=str(e)[:200], **witness
            )
            return False
        self.violate(rule, got="no exception", **witness)
        return False

    def dump(self):
        return dict(
            counts=dict(self.counts),
            events=dict(self.events),
            distinct=self.distinct,
            evaluations=self.evaluations,
            samples=self.samples,
            violations=self.violations,
            known_hits=dict(self.known_hits),
            errors=self.errors,
            ratio=self.ratio,
            slowest=self.slowest,
        )


def load_findings(prop):
    """{mechanism key: text} of the known (unrepaired) findings of prop"""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def case_rng(prop, seed, i):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), i])


MALFORMED = (KeyError, IndexError, AttributeError, TypeError, ValueError)


def run_one(mod, rec, prop, seed, i, limit=240, cpu=CPU_LIMIT):
    """One case, within limits

    The limit on processor time decides that the code under test never answers
    (no case takes a tenth of it); the one on elapsed time only ends the case
    without a verdict, the machine may be busy.
    """
    rec.case = i
    rec.ctx = {}
    rec.inside = None

    def onalarm(*_):
        raise CaseTimeout()

    def oncpu(*_):
        if rec.inside is None:
            raise CaseTimeout()
        rec.violate("no-answer:" + rec.inside, cpu_seconds=cpu)
        raise Stop()

    calls_before = rec.events["product_calls"]
    signal.signal(signal.SIGALRM, onalarm)
    signal.signal(signal.SIGPROF, oncpu)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.alarm(limit)
    try:
        mod.run_case(rec, case_rng(prop, seed, i), i)
    except Stop:
        pass
    except CaseTimeout:
        rec.errors.append("case {0}: timeout".format(i))
    except Exception as e:
        # what the code under test returned does not have the documented form
        # (a key is missing, a dictionary is a list, ...): every consumer fails
        # on it like the oracle did.  Other errors are the harness' own.
        if isinstance(e, MALFORMED) and (
                rec.events["product_calls"] > calls_before):
            rec.violate(
                "unusable-result", error=type(e).__name__,
                message=str(e)[:300],
                where=traceback.format_exc().strip().split("\n")[-4:])
        rec.errors.append(
            "case {0}: harness error: {1}".format(
                i, traceback.format_exc()[-1500:]
            )
        )
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def cpu_seconds(pid):
    """Processor time of one of our own workers"""
    try:
        with open("/proc/{0}/stat".format(pid)) as f:
            q = f.read().rsplit(")", 1)[1].split()
        return (int(q[11]) + int(q[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def worker(wid, mod, prop, seed, ncases, known, nxt, cur, stop, soft, out,
           flag):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    rec = Rec(prop, known)
    rec.flag = flag
    done = 0
    skipped = False
    while True:
        if stop.value:
            break
        if time.time() > soft:
            skipped = True
            break
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= ncases:
            break
        cur[wid] = i
        began = time.process_time()
        run_one(mod, rec, prop, seed, i)
        rec.slowest = max(rec.slowest, time.process_time() - began)
        done += 1
        if rec.violations:
            stop.value = 1
    cur[wid] = -1
    out.put((wid, done, skipped, rec.dump()))
    out.close()
    out.join_thread()
    os._exit(0)


def merge(dumps):
    tot = dict(
        counts=collections.Counter(),
        events=collections.Counter(),
        distinct=set(),
        evaluations=0,
        samples=[],
        violations=[],
        known_hits=collections.Counter(),
        errors=[],
        ratio={},
        slowest=0.0,
    )
    for d in dumps:
        for k, v in d["ratio"].items():
            tot["ratio"][k] = max(v, tot["ratio"].get(k, 0.0))
        tot["counts"].update(d["counts"])
        tot["events"].update(d["events"])
        tot["known_hits"].update(d["known_hits"])
        tot["distinct"] |= d["distinct"]
        tot["evaluations"] += d["evaluations"]
        tot["slowest"] = max(tot["slowest"], d["slowest"])
        for k in ("samples", "violations", "errors"):
            tot[k] += d[k]
    return tot


def main(argv):
    if argv and argv[0] == "--selftest":
        from vmon import env  # noqa: F401

        print("real code imported from", env.xo.__file__)
        return 0
    prop = argv[0]
    replay = None
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
    override = None
    k = 1
    while k < len(argv):
        if argv[k] == "--replay":
            replay = argv[k + 1]
            k += 2
        elif argv[k] == "--cases":
            override = int(argv[k + 1])
            k += 2
        elif argv[k] == "--jobs":
            jobs = int(argv[k + 1])
            k += 2
        else:
            print("unknown argument", argv[k])
            return 2

    t_begin = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_findings(prop)

    from vmon import env  # noqa: F401  (imports the real code)

    mod = importlib.import_module("vmon.props." + prop.lower())
    mod.TIER = tier
    if hasattr(mod, "prepare"):
        mod.prepare(tier)

    if replay is not None:
        info = json.load(open(replay))
        rec = Rec(prop, known)
        run_one(mod, rec, prop, info["seed"], info["case"], limit=600)
        for v in rec.violations:
            print(json.dumps(v, indent=1))
        for e in rec.errors:
            print(e)
        if rec.violations:
            print("VIOLATION property={0} replay={1}".format(prop, replay))
            return 1
        return 2 if rec.errors else 0

    ncases = override or mod.CASES[tier]
    soft_s = 420 if tier == "quick" else 5400
    hard_s = soft_s + 330
    soft = t_begin + soft_s

    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    stop = ctx.Value("i", 0)
    jobs = max(1, min(jobs, ncases))
    cur = ctx.Array("i", [-1] * jobs)
    out = ctx.Queue()
    flags = [ctx.Value("i", 0, lock=False) for _ in range(jobs)]
    procs = []
    for w in range(jobs):
        p = ctx.Process(
            target=worker,
            args=(
                w, mod, prop, seed, ncases, known, nxt, cur, stop, soft, out,
                flags[w],
            ),
            daemon=True,
        )
        p.start()
        procs.append(p)

    dumps, reported = [], set()
    done = 0
    skipped = False
    crashes, killed = [], []
    hung = {}
    since = {}
    while len(reported) + len(crashes) + len(killed) < jobs:
        try:
            wid, n, sk, d = out.get(timeout=0.5)
            dumps.append(d)
            reported.add(wid)
            done += n
            skipped |= sk
            continue
        except queue_mod.Empty:
            pass
        for w, p in enumerate(procs):
            if w in reported or w in [c[0] for c in crashes + killed]:
                continue
            if p.exitcode is not None and p.exitcode != 0:
                sig = -p.exitcode
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                           signal.SIGBUS, signal.SIGILL):
                    crashes.append((w, cur[w], sig))
                else:
                    killed.append((w, cur[w], sig))
            elif since.get(w, (None,))[0] != cur[w]:
                since[w] = (cur[w], cpu_seconds(p.pid))
            elif (flags[w].value and cur[w] >= 0
                  and cpu_seconds(p.pid) - since[w][1] > 1.5 * CPU_LIMIT):
                # stuck in native code, where no handler runs
                hung[w] = cur[w]
                crashes.append((w, cur[w], 0))
                p.kill()
        if time.time() > t_begin + hard_s:
            for w, p in enumerate(procs):
                if w not in reported:
                    killed.append((w, cur[w], 0))
                    p.kill()
            break
    for p in procs:
        p.join(5)

    tot = merge(dumps)
    for w, c, sig in crashes:
        tot["violations"].append(
            dict(rule="no-answer" if w in hung else "process-died", case=c,
                 witness=dict(signal=sig))
        )
    wall = time.time() - t_begin

    # the evidence of this run
    rule = getattr(mod, "RULE", (mod.__doc__ or "").strip())
    cov = dict(
        evaluations=int(tot["evaluations"]),
        distinct_nontrivial=len(tot["distinct"]),
        rule=rule,
        samples=tot["samples"][:6] or ["none"],
        cases_run=int(done),
        cases_planned=int(ncases),
        judgements={k: int(v) for k, v in sorted(tot["counts"].items())},
        events={k: int(v) for k, v in sorted(tot["events"].items())},
        worst_error_over_tolerance={
            k: float("%.3g" % v) for k, v in sorted(tot["ratio"].items())
        },
        slowest_case_cpu_s=round(tot["slowest"], 2),
        known_finding_hits={
            k: int(v) for k, v in sorted(tot["known_hits"].items())
        },
        inconclusive=[str(e)[:600] for e in tot["errors"][:5]]
        + ["worker {0} killed in case {1}".format(w, c) for w, c, _ in killed],
    )
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=seed,
        level="exploration",
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(tot["violations"]),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    print(
        "{0} tier={1} seed={2}: {3}/{4} cases, {5} executions, {6} distinct, "
        "{7} judgements, {8:.1f}s".format(
            prop, tier, seed, done, ncases, tot["evaluations"],
            len(tot["distinct"]), sum(tot["counts"].values()), wall,
        )
    )
    for k, v in sorted(tot["counts"].items()):
        r = tot["ratio"].get(k)
        print("  {0}: {1}{2}".format(
            k, v, "" if r is None else " (worst error/tolerance %.2g)" % r
        ))
    for k, text in known.items():
        print("KNOWN-FINDING: property={0} {1}".format(prop, text))

    if tot["violations"]:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        v = tot["violations"][0]
        rp = os.path.join(
            ROOT, "replays", "{0}-s{1}-c{2}.json".format(prop, seed, v["case"])
        )
        with open(rp, "w") as f:
            json.dump(
                dict(property=prop, seed=seed, tier=tier, case=v["case"],
                     violations=tot["violations"][:10]),
                f, indent=1,
            )
        for v in tot["violations"][:3]:
            print(json.dumps(v)[:1500])
        print("VIOLATION property={0} replay={1}".format(prop, rp))
        return 1

    bad = []
    if killed:
        bad.append("workers killed: {0}".format(killed))
    nerr = len(tot["errors"])
    if nerr:
        bad.append("{0} cases without a verdict".format(nerr))
        for e in tot["errors"][:3]:
            print(e)
    if override is None:
        for k, m in getattr(mod, "MIN", {}).items():
            got = tot["counts"].get(k, 0) + tot["events"].get(k, 0)
            if got < m:
                bad.append("monitor {0} saw {1} < {2}".format(k, got, m))
    if done == 0 or sum(tot["counts"].values()) == 0:
        bad.append("nothing observed")
    if bad:
        print("INCONCLUSIVE: " + "; ".join(bad))
        return 2
    print("held on everything observed")
    return 0
