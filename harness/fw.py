"""Shared machinery: TLC runs, scenario execution against the real code, trace validation, verdicts, evidence.

A check has three stages
 1. DESIGN   TLC explores the property's specification exhaustively for small constants (invariants /
             action properties of the design); `PrintT("SCN " \\o json)` lines become scenarios.
 2. EXECUTE  scenarios (TLC-generated + seeded random, larger) are executed on the real MyCapytain code,
             every public call becoming one fully logged event.
 3. VALIDATE the recorded traces are checked by TLC against the Trace specification; each event must be
             the transition/value the specification allows.  Verdicts are total: a rejected event prints
             MISMATCH with scenario, position and clause.
"""
import json
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.environ.get("VERIF_WORK", "/tmp/vcheck-work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Machinery(Exception):
    """The machinery (not the code under test) failed: exit status 3."""


# --------------------------------------------------------------------------- encoding of observations
def S(v):
    """ a string, or a marked representation of whatever else was returned """
    if isinstance(v, str):
        return clean(str.__str__(v) if type(v) is str else "".join(str.__getitem__(v, i) for i in range(str.__len__(v))))
    return "!!%s:%s" % (type(v).__name__, clean(str(v))[:60])


def clean(s):
    return s


_NA = re.compile(u"[^\\x00-\\x7d\\x7f]")


def asc(x):
    """ injective ASCII rendering of every string of a trace (TLC's string operators are byte based):
    each non-ASCII character (and '~') becomes ~hex~ ; applied to inputs and observations alike """
    if isinstance(x, str):
        return _NA.sub(lambda m: "~%x~" % ord(m.group()), x)
    if isinstance(x, dict):
        return {asc(k): asc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [asc(v) for v in x]
    return x


def O(v, f=S):
    """ optional value: [] or [x] """
    return [] if v is None else [f(v)]


def I(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) and abs(v) < 2 ** 30:
        return v
    return -999999


def L(v, f=S):
    try:
        return [f(x) for x in v]
    except TypeError:
        return ["!!%s" % type(v).__name__]


def B(v):
    return bool(v)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def obs(fn, enc=S):
    """ run fn(); {"k":"v","v":enc(result)} or {"k":"x","v":[exception class names]} """
    try:
        r = fn()
        return {"k": "v", "v": enc(r)}
    except Exception as e:  # noqa
        return {"k": "x", "v": [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException)]}
    except (Timeout, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa  what "except Exception" lets through is not an error report
        return {"k": "b", "v": [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException)]}


# --------------------------------------------------------------------------- TLC
class TlcResult(object):
    def __init__(self):
        self.distinct = self.generated = 0
        self.lines = []
        self.error = None
        self.err_state = None
        self.wall = 0.0


def tlc(spec, cfg, env=None, workers=8, timeout=600, heap="10g", simulate=None):
    meta = os.path.join(WORK, "meta-%d-%d" % (os.getpid(), random.SystemRandom().randint(0, 1 << 30)))
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Dfile.encoding=UTF-8",
           "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, cfg)]
    if simulate:
        cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(simulate[2])]
    cmd.append(os.path.join(SPEC, spec))
    e = dict(os.environ)
    e.update(env or {})
    r = TlcResult()
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s/%s after %ss" % (spec, cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.wall = time.time() - t0
    out = p.stdout.decode("utf-8", "replace")
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.lines.append(json.loads(line))
            except ValueError:
                r.lines.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    if p.returncode != 0 or ("Error:" in out and not simulate):
        i = out.find("Error:")
        r.error = (out[i:i + 3000] if i >= 0 else out[-2000:]) + ("\n" + out[out.find("*** Errors"):][:800] if "*** Errors" in out else "")
        ms = re.findall(r"/\\ s = (\d+)", out)
        ml = re.findall(r"/\\ l = (\d+)", out)
        if ms and ml:
            r.err_state = (int(ms[-1]), int(ml[-1]))
    return r


# --------------------------------------------------------------------------- execution of scenarios
_EXEC = None


def _run_one(args):
    scn, tmo = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(tmo)
    try:
        return _EXEC(scn)
    except Timeout:
        return {"__timeout__": True, "scn": scn}
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # driver error: the driver could not even observe
        import traceback
        return {"__driver__": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:], "scn": scn}
    finally:
        signal.alarm(0)


def execute(fn, scns, timeout=20, procs=8):
    global _EXEC
    _EXEC = fn
    work = [(s, timeout) for s in scns]
    if len(work) < 50 or procs == 1:
        return [_run_one(w) for w in work]
    ctx = mp.get_context("fork")
    try:
        with ProcessPoolExecutor(procs, mp_context=ctx) as pool:
            return list(pool.map(_run_one, work, chunksize=max(1, min(200, len(work) // (procs * 6) or 1))))
    except BrokenProcessPool:  # a scenario killed its process: one process for each, to know which
        return [_alone(ctx, w) for w in work]


def _alone(ctx, w):
    r, s = ctx.Pipe(False)
    p = ctx.Process(target=lambda: s.send(_run_one(w)))
    p.start()
    s.close()
    try:
        return r.recv()
    except EOFError:
        return {"__driver__": "the process was killed", "scn": w[0]}
    finally:
        p.join()


# --------------------------------------------------------------------------- trace validation
def validate(spec, cfg, traces, env=None, chunk_events=250000, timeout=800):
    """ -> (mismatches, stats).  mismatch: {"id","l","clause","trace"} """
    mism, stats = [], {"distinct": 0, "generated": 0, "traces": 0, "events": 0, "wall": 0.0}
    i = 0
    while i < len(traces):
        j, n, b = i, 0, 0
        while j < len(traces) and (j == i or (n + len(traces[j]["ev"]) <= chunk_events and b < 48e6)):
            n += len(traces[j]["ev"]) + 1
            b += len(json.dumps(traces[j]["ev"]))
            j += 1
        _validate_chunk(spec, cfg, traces[i:j], env, timeout, mism, stats)
        i = j
    return mism, stats


def _validate_chunk(spec, cfg, traces, env, timeout, mism, stats, attempts=12):
    skipped = set()
    for attempt in range(attempts):
        part = [t for k, t in enumerate(traces) if k not in skipped]
        if not part:
            return
        path = os.path.join(WORK, "trace-%d.ndjson" % random.SystemRandom().randint(0, 1 << 40))
        with open(path, "w") as f:
            for t in part:
                f.write(json.dumps(asc(t), ensure_ascii=True) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(spec, cfg, e, timeout=timeout)
        os.unlink(path)
        if r.error:
            if r.err_state and r.err_state[0] <= len(part):
                # an event whose observed shape the specification cannot even be evaluated on
                bad = part[r.err_state[0] - 1]
                mism.append({"id": bad["id"], "l": r.err_state[1], "clause": "ill-shaped observation",
                             "detail": r.error[:600], "trace": bad})
                idx = [k for k, t in enumerate(traces) if t is bad]
                skipped.update(idx)
                continue
            raise Machinery("TLC failed on %s: %s" % (spec, r.error[:2500]))
        byid = {t["id"]: t for t in part}
        if len(byid) != len(part):
            raise Machinery("duplicate scenario ids")
        expected = sum(len(t["ev"]) + 1 for t in part)
        seen = {}
        for line in r.lines:
            if isinstance(line, str) and line.startswith("MISMATCH "):
                m = json.loads(line[9:])
                if m["id"] in seen:
                    continue
                seen[m["id"]] = m
                m["trace"] = byid[m["id"]]
                mism.append(m)
                expected -= len(byid[m["id"]]["ev"]) + 1 - m["l"]
        if r.distinct != expected:
            raise Machinery("trace validation of %s visited %d states, expected %d" % (spec, r.distinct, expected))
        stats["distinct"] += r.distinct
        stats["generated"] += r.generated
        stats["traces"] += len(part)
        stats["events"] += sum(len(t["ev"]) for t in part)
        stats["wall"] += r.wall
        return
    stats["illshaped"] = stats.get("illshaped", 0) + 1  # more of the same: those found are reported
