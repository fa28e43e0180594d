"""Looking up generators and oracles, running one case, replaying a case file."""
import json
import os
import random
import signal
import sys
import traceback


class Hang(BaseException):
    pass


def tables():
    from . import oracle, oracle2, oracle3, oracle4
    return [oracle, oracle2, oracle3, oracle4]


def lookup(pid):
    gen = chk = None
    for m in tables():
        gen = getattr(m, "gen_" + pid, None) or gen
        chk = getattr(m, "check_" + pid, None) or chk
    return gen, chk


def unreadable(e):
    """An exception in the oracle that says that a result has the wrong shape (rather than that a helper
    the oracle calls by name is gone or takes other arguments)."""
    if isinstance(e, TypeError):
        return "argument" not in str(e)
    return isinstance(e, (IndexError, ValueError))


def run_case(chk, case, cpu=25.0):
    """('ok'|'skip'|'fail'|'harness', message)."""
    from .oracle import Skip, Bad

    def onalarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        msg = chk(json.loads(json.dumps(case)))
    except Skip as e:
        return "skip", str(e)
    except Bad as e:
        return "fail", str(e)
    except Hang:
        return "fail", "the code does not come to an end (%.0f s of computing time)" % cpu
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any("/compas_cem/" in f.filename for f in tb):
            where = [f for f in tb if "/compas_cem/" in f.filename][-1]
            return "fail", "unexpected %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
        if unreadable(e):
            return "fail", "what the code returned cannot be read: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "harness", "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return ("fail", msg) if msg else ("ok", None)


def worker(pid, seed, start, step, seconds, limit, out):
    """Run the cases start, start+step, ... for the given time."""
    import time
    gen, chk = lookup(pid)
    t0 = time.time()
    stat = {"ok": 0, "skip": 0, "harness": 0, "fail": [], "skips": {}, "samples": [], "errors": [], "hashes": []}
    i = start
    hashes = set()
    while time.time() - t0 < seconds and (limit is None or i < limit):
        case = gen(random.Random("%s/%s/%d" % (pid, seed, i)))
        kind, msg = run_case(chk, case)
        if kind == "fail":
            stat["fail"].append({"index": i, "case": case, "message": msg})
            if len(stat["fail"]) >= 2:
                break
        else:
            stat[kind] += 1
            if kind == "skip":
                stat["skips"][msg] = stat["skips"].get(msg, 0) + 1
            if kind == "harness" and len(stat["errors"]) < 3:
                stat["errors"].append(msg)
            if kind == "ok":
                hashes.add(hash(json.dumps(case, sort_keys=True)))
                if len(stat["samples"]) < 1:
                    stat["samples"].append(case)
        i += step
    stat["distinct"] = len(hashes)
    del stat["hashes"]
    with open(out, "w") as f:
        json.dump(stat, f)


if __name__ == "__main__":
    pid, seed, start, step, seconds, limit, out = sys.argv[1:8]
    worker(pid, int(seed), int(start), int(step), float(seconds), None if limit == "-" else int(limit), out)
