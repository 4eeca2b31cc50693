"""Runs one conformance driver: makes the cases and records what the real code does.

usage: drvmain.py DRIVER PROPERTY TIER SEED TLC_CASES|- REPLAY_CASES|- OUT
Runs under the interpreter that has docria's dependencies, with /repo/py in front.
"""
import sys, os
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import importlib, json, pickle, random, subprocess, signal, resource, traceback, tempfile, shutil, logging, faulthandler
logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "drv"))


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_one(mod, prop, case, limit):
    rec = {"p": prop, "st": "ok", "in": case, "out": {}}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        rec["out"] = mod.run(case)
    except Timeout:
        rec["st"] = "timeout"
    except Exception as e:
        rec["st"] = "crash"
        rec["why"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        rec["tb"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec


def worker(args):
    modname, prop, cases, limit, outp = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module(modname)
    scratch = tempfile.mkdtemp(prefix="vdrv")
    os.chdir(scratch)
    mod.SCRATCH = scratch
    try:
        with open(outp, "w") as f:
            for n, case in cases:
                with open(outp + ".cur", "w") as g:
                    g.write(str(n))
                rec = run_one(mod, prop, case, limit)
                rec["n"] = n
                f.write(json.dumps(rec) + "\n")
                f.flush()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    modname, prop, tier, seed, tlcp, replayp, outp = sys.argv[1:]
    mod = importlib.import_module(modname)
    rng = random.Random("%s/%s/%s" % (prop, seed, modname))
    if replayp != "-":
        cases = [json.loads(l) for l in open(replayp)]
    else:
        tlc = [json.loads(l) for l in open(tlcp)] if tlcp != "-" else []
        cases = list(mod.cases(rng, tier, prop, tlc))
    limit = getattr(mod, "CASE_TIMEOUT", 20)
    nproc = getattr(mod, "NPROC", 8)
    numbered = list(enumerate(cases))
    k = max(1, min(nproc, len(cases)))
    # every worker orders sets in its own way; a replay tries each case in all of them
    jobs = [(modname, prop, numbered if replayp != "-" else numbered[i::k], limit, outp + ".%d" % i) for i in range(nproc if replayp != "-" else k)]
    procs = []
    for i, j in enumerate(jobs):
        with open(j[4] + ".job", "wb") as f:
            pickle.dump(j, f)
        procs.append(subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), "--worker", j[4] + ".job"],
                                      env=dict(os.environ, PYTHONHASHSEED=str(i))))
    for p in procs:
        p.wait()
    recs = []
    for j in jobs:
        if os.path.exists(j[4]):
            for l in open(j[4]):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
    have = {r["n"] for r in recs}
    cur = set()
    for j in jobs:
        if os.path.exists(j[4] + ".cur"):
            s = open(j[4] + ".cur").read()
            if s:
                cur.add(int(s))
    lost = [n for n, _ in numbered if n not in have]
    for n in lost:
        if n in cur:  # the case on which a worker died (killed, out of memory, hard crash)
            recs.append({"p": prop, "st": "died", "in": cases[n], "out": {}, "n": n})
    if replayp != "-":                                       # different outcomes of a case, each once
        keep = {}
        for r in recs:
            keep.setdefault((r["n"], json.dumps(r["out"], sort_keys=True)), r)
        recs = list(keep.values())
    recs.sort(key=lambda r: r["n"])
    with open(outp, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    print(json.dumps({"cases": len(cases), "lost": len(lost)}))


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        with open(sys.argv[2], "rb") as jf:
            worker(pickle.load(jf))
    else:
        main()
