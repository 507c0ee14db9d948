"""Shared machinery of the checks: context, evidence, violations, known findings, and a
crash-isolating parallel enumerator."""
import collections
import faulthandler
import hashlib
import json
import mmap
import os
import pathlib
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, bytes):
        return x.decode("latin1")
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Finding:
    """One failing case: `key` groups cases of one cause (and is what the known-findings file
    names), `case` is the concrete input/schedule/history, `detail` says what was observed."""

    def __init__(self, key, case, detail):
        self.key, self.case, self.detail = key, case, detail


class Ctx:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = tier == "quick"
        self.coverage = collections.OrderedDict()
        self.assumptions = []
        self.findings = []          # list of Finding
        self.samples = []
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif-%s-" % prop.lower()))
        self.parts = []             # per-part counters
        self.replay = None
        self.pkg = None

    # -- counters -------------------------------------------------------------------------
    def add(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(jsonable(s))

    def part(self, name, **kw):
        self.parts.append(dict(part=name, **jsonable(kw)))
        print("  [%s] %s (%.1fs)" % (name, " ".join("%s=%s" % i for i in kw.items()), time.time() - self.t0),
              flush=True)

    def fail(self, key, case, detail):
        self.findings.append(Finding(key, case, detail))

    def extend(self, fails):
        for f in fails:
            self.fail(*f)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------------------------------
def _load_known():
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <text>' and 'fixed: ...' lines."""
    known = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("KNOWN "):
                head, text = line.split("::", 1)
                f = dict(t.split("=", 1) for t in head.split()[1:])
                known[(f["property"], f["key"])] = text.strip()
    return known


def finish(ctx, replay_fn_name=None):
    """Write evidence, print KNOWN-FINDING / VIOLATION lines, return the exit code."""
    known = _load_known()
    groups = collections.OrderedDict()
    for f in ctx.findings:
        groups.setdefault(f.key, []).append(f)
    nviol = 0
    known_seen = []
    rdir = VERIF / "replays" / ctx.prop
    rdir.mkdir(parents=True, exist_ok=True)
    for key, fs in groups.items():
        if (ctx.prop, key) in known:
            known_seen.append(key)
            print("KNOWN-FINDING: property=%s %s (%d cases; key=%s)"
                  % (ctx.prop, known[(ctx.prop, key)], len(fs), key))
            continue
        nviol += len(fs)
        f = fs[0]
        rp = rdir / (hashlib.sha1(key.encode()).hexdigest()[:12] + ".json")
        rp.write_text(json.dumps(dict(property=ctx.prop, tier=ctx.tier, key=key, case=jsonable(f.case),
                                      detail=jsonable(f.detail), more_cases=len(fs) - 1,
                                      replay="./run.sh %s --replay %s" % (ctx.prop, rp)), indent=1))
        print("  %s: %s\n    case: %s" % (key, str(f.detail)[:700], str(jsonable(f.case))[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
    cov = dict(ctx.coverage)
    cov["parts"] = ctx.parts
    cov["samples"] = ctx.samples or ["(none)"]
    if known_seen:
        cov["known_findings_seen"] = known_seen
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=ctx.level, coverage=jsonable(cov),
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    ed = VERIF / "evidence"
    ed.mkdir(exist_ok=True)
    (ed / (ctx.prop + ".json")).write_text(json.dumps(ev, indent=1))
    print("%s %s: %s in %.1fs; %s" % (ctx.prop, ctx.tier, "VIOLATED" if nviol else "holds on everything explored",
                                      time.time() - ctx.t0,
                                      {k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
    return 1 if nviol else 0


# ------------------------------------------------------------------------------------------
class CaseTimeout(Exception):
    pass


def _worker(k, n, lo_list, cases, func, shm, out_path, err_path, init):
    """Runs cases k, k+n, ... from position lo_list; publishes the case index it is on."""
    try:
        efd = os.open(err_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(efd, 1)
        os.dup2(efd, 2)
        faulthandler.enable(file=sys.stderr, all_threads=False)
        state = init() if init else None
        res = []
        with open(out_path, "wb") as out:
            for i in range(lo_list, len(cases), n):
                struct.pack_into("qd", shm, 16 * k, i, time.time())
                if os.fstat(efd).st_size > 20_000_000:
                    os.ftruncate(efd, 0)
                try:
                    r = func(cases[i], state) if init else func(cases[i])
                except Exception:
                    r = ("__exc__", traceback.format_exc()[-3000:])
                if r[0] and r[0] != "__exc__":
                    r = ([(k, jsonable(d)) for k, d in r[0]],) + tuple(r[1:]) if isinstance(r[0], list) else r
                res.append((i, r))
                if len(res) >= 200:
                    pickle.dump(res, out)
                    out.flush()
                    res = []
            pickle.dump(res, out)
        struct.pack_into("qd", shm, 16 * k, -1, time.time())
        os._exit(0)
    except BaseException:
        try:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(99)


def pmap(func, cases, scratch, init=None, nproc=None, case_timeout=60.0):
    """Run func(case[, state]) on every case in forked workers.

    Returns (results, crashes): results is a list aligned with cases (None for crashed ones);
    crashes is a list of (index, kind, stderr tail) for cases that killed their worker
    (signal, exit, sanitizer abort) or exceeded case_timeout.
    """
    nproc = nproc or NPROC
    cases = list(cases)
    results = [None] * len(cases)
    crashes = []
    if not cases:
        return results, crashes
    n = min(nproc, len(cases))
    shm = mmap.mmap(-1, 16 * n)
    tag = hashlib.sha1(os.urandom(8)).hexdigest()[:8]
    live = {}
    files = []

    def spawn(k, lo):
        out_path = os.path.join(scratch, "pm-%s-%d-%d.pkl" % (tag, k, lo))
        err_path = os.path.join(scratch, "pm-%s-%d-%d.err" % (tag, k, lo))
        files.append((out_path, err_path))
        struct.pack_into("qd", shm, 16 * k, lo, time.time())
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _worker(k, n, lo, cases, func, shm, out_path, err_path, init)
        live[pid] = (k, lo, out_path, err_path)

    def harvest(out_path):
        last = -1
        if os.path.exists(out_path):
            with open(out_path, "rb") as f:
                while True:
                    try:
                        for i, r in pickle.load(f):
                            results[i] = r
                            last = max(last, i)
                    except EOFError:
                        break
                    except Exception:
                        break
        return last

    for k in range(n):
        spawn(k, k)
    redo = []
    while live:
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            now = time.time()
            for p, (k, lo, _, _) in list(live.items()):
                i, t = struct.unpack_from("qd", shm, 16 * k)
                if i >= 0 and t > 1e6 and now - t > case_timeout and (i, t) == struct.unpack_from("qd", shm, 16 * k):
                    struct.pack_into("qd", shm, 16 * k, i, now + 1e9)
                    crashes.append((i, "timeout", "no result within %.0f s" % case_timeout))
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.005)
            continue
        if pid not in live:
            continue
        k, lo, out_path, err_path = live.pop(pid)
        i, _ = struct.unpack_from("qd", shm, 16 * k)
        harvest(out_path)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            continue
        err = ""
        if os.path.exists(err_path):
            with open(err_path, "rb") as f:
                data = f.read()
            pos = data.rfind(b"==ERROR: AddressSanitizer")
            err = (data[pos:pos + 3000] if pos >= 0 else data[-2500:]).decode("latin1")
        if i < 0:
            raise RuntimeError("worker died outside a case: %s" % err)
        if not any(c[0] == i for c in crashes):
            kind = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99 and i == lo and "Error" in err and init:
                raise RuntimeError("worker initialisation failed: %s" % err)
            crashes.append((i, kind, err))
        # results of up to 199 finished cases may have been buffered: redo them one by one
        redo += [j for j in range(lo, i, n) if results[j] is None]
        if len(crashes) > 40:
            for p in live:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            live.clear()
            break
        if i + n < len(cases):
            spawn(k, i + n)
    for o, e in files:
        for p in (o, e):
            if os.path.exists(p):
                os.unlink(p)
    if redo and len(crashes) <= 40:
        sub, c2 = pmap(func, [cases[j] for j in redo], scratch, init, nproc, case_timeout)
        for j, r in zip(redo, sub):
            results[j] = r
        crashes += [(redo[a], b, c) for a, b, c in c2]
    return results, crashes


def run_cases(ctx, part, func, cases, init=None, describe=None, case_timeout=60.0, crash_key=None, nproc=None):
    """pmap plus bookkeeping.  func returns (list of (key, detail), digest) per case (or, for a case that explores a
    subtree itself, a dict of counters with the set of digests); digest None means
    the case was vacuous (it counts as an evaluation but not as a distinct non-trivial one)."""
    cases = list(cases)
    describe = describe or (lambda c: c)
    if ctx.replay is not None:
        want = ctx.replay["case"]
        if not isinstance(want, dict) or want.get("part") != part:
            return []
        cases = [c for c in cases if jsonable(describe(c)) == want["case"]]
        print("replaying %d case(s) of part %s" % (len(cases), part))
    t = time.time()
    results, crashes = pmap(func, cases, str(ctx.scratch), init, nproc, case_timeout)
    digests = set()
    nfail = 0
    bad = set()
    for n, (i, kind, err) in enumerate(crashes):
        # replay before report: a case that ended its worker is run again alone, with a longer limit
        if n < 3:
            r2, c2 = pmap(func, [cases[i]], str(ctx.scratch), init, 1, case_timeout * 3)
            if not c2 and (kind == "timeout" or kind == "signal 9"):
                results[i] = r2[0]
                continue
            if c2:
                kind, err = c2[0][1], c2[0][2]
        bad.add(i)
        nfail += 1
        ctx.fail("%s:crash" % (crash_key or part), dict(part=part, case=describe(cases[i])), "%s %s" % (kind, err))
    for i, r in enumerate(results):
        if i in bad or r is None:
            continue
        if r[0] == "__exc__":
            # an exception of the code under test that no part of the check expected: replay, then report
            r2, c2 = pmap(func, [cases[i]], str(ctx.scratch), init, 1, case_timeout * 3)
            if not c2 and r2[0][0] != "__exc__":
                r = r2[0]
            else:
                nfail += 1
                ctx.fail("%s:exception" % (crash_key or part), dict(part=part, case=describe(cases[i])), r[1])
                continue
        fails, dig = r
        if isinstance(dig, dict):          # an explored subtree: {"digests": set, any counter: n}
            digests |= dig.pop("digests", set())
            for k, v in dig.items():
                ctx.add(k, v)
        elif dig == "near":
            ctx.add("near_ties")
        elif dig is not None:
            digests.add(dig)
        for key, detail in fails:
            nfail += 1
            ctx.fail(key, dict(part=part, case=describe(cases[i])), detail)
    done = sum(r is not None for r in results)
    ctx.add("evaluations", done)
    ctx.add("distinct_nontrivial", len(digests))
    ctx.part(part, cases=len(cases), evaluated=done, distinct_outcomes=len(digests), failures=nfail,
             wall_s=round(time.time() - t, 1))
    if cases:
        ctx.sample(dict(part=part, case=describe(cases[0])))
        ctx.sample(dict(part=part, case=describe(cases[len(cases) // 2])))
    return results
