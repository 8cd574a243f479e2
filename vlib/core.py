"""Common machinery of the checks: builds from /repo into a scratch directory, runs harness shards, writes evidence."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))


class CheckError(Exception):
    """The check could not be carried out (not a verdict on the code)."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


LIVE = set()
STOPPING = []


def _terminated(sig, frame):
    """A check that is told to stop takes its jobs (each a session of its own) with it."""
    STOPPING.append(1)
    for _ in range(2):
        for p in list(LIVE):
            if p.returncode is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        time.sleep(0.1)
    os._exit(2)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % pid.lower())
        self.repdir = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(self.repdir, ignore_errors=True)
        os.makedirs(self.repdir, exist_ok=True)
        self.known = []
        self.assumptions = []
        self.nrun = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sh(self, *cmd, cwd=None):
        r = subprocess.run(cmd, cwd=cwd or self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        return r.stdout

    def par(self, fns):
        with ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(f) for f in fns]:
                f.result()

    def run_jobs(self, jobs, timeout=700, env=None):
        """jobs: [(name, argv)].  Each prints one JSON object on its last line; exit 1 = violation.

        Returns the list of objects in order.  Raises Violation for the first failing job."""
        results = [None] * len(jobs)
        procs = []
        stop = []

        def one(k):
            name, argv = jobs[k]
            if stop or STOPPING:
                return
            rep = os.path.join(self.repdir, "%s.txt" % name.replace("/", "_").replace(" ", "_"))
            argv = [a.replace("@REPLAY@", rep) for a in argv]
            e = dict(os.environ)
            e.update(env or {})
            p = subprocess.Popen(argv, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
            procs.append(p)
            LIVE.add(p)
            try:
                out, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.communicate()
                results[k] = ("timeout", None, name, "", "")
                return
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            obj = None
            for line in reversed(out.strip().splitlines()):
                try:
                    obj = json.loads(line)
                    break
                except ValueError:
                    continue
            results[k] = (p.returncode, obj, name, out, err, rep, argv)
            if p.returncode == 1:
                stop.append(1)
                for q in procs:
                    if q is not p and q.poll() is None:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass

        for x in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(x, _terminated)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, range(len(jobs))))
        for r in results:
            if r and r[0] == 1:
                _, obj, name, out, err, rep, argv = r
                if not os.path.exists(rep):
                    with open(rep, "w") as f:
                        f.write("command: %s\n%s\n%s\n" % (" ".join(argv), out[-20000:], err[-20000:]))
                raise Violation("%s: %s" % (name, (obj or {}).get("violation", out[-500:])), rep)
        for r in results:
            if r is None:
                continue
            if r[0] == "timeout":
                raise CheckError("job %s did not finish in %d s" % (r[2], timeout))
            if r[0] < 0 and r[0] != -signal.SIGKILL:
                rep = r[5]
                with open(rep, "w") as f:
                    f.write("command: %s\nthe harness was ended by signal %d while it ran librseq code\n%s\n%s\n" % (" ".join(r[6]), -r[0], r[3][-20000:], r[4][-20000:]))
                raise Violation("%s: ended by signal %d" % (r[2], -r[0]), rep)
            if r[0] != 0 or r[1] is None:
                raise CheckError("job %s failed with status %s\n%s\n%s" % (r[2], r[0], r[3][-3000:], r[4][-3000:]))
        self.nrun += len(jobs)
        return [r[1] for r in results]

    def finish(self, level, coverage, violations=0):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def listed(pid, text):
    """Is this specific finding in the committed known-findings file?"""
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return any(l.startswith("finding: property=%s " % pid) and text in l for l in f)


def add(objs, key):
    return sum(o.get(key, 0) for o in objs if o)


def main(plans, levels):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.property not in plans:
        print("unknown property %s" % a.property)
        return 2
    ctx = Ctx(a.property, a.tier, seed)
    level = levels.get(a.property, "model_checking")
    try:
        cov = plans[a.property](ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, k))
        ctx.finish(level, cov)
        print("%s: held on everything explored (%.1f s)" % (a.property, time.time() - ctx.t0))
        return 0
    except Violation as v:
        print("%s: %s" % (a.property, v))
        print("VIOLATION property=%s replay=%s" % (a.property, v.replay))
        cov = {"explanation": "stopped at the first violation: %s" % v, "samples": [str(v)], "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
               "evaluations": 0, "distinct_nontrivial": 0, "rule": "stopped at the first violation"}
        ctx.finish(level, cov, 1)
        return 1
    except CheckError as e:
        print("check %s could not be carried out: %s" % (a.property, e), file=sys.stderr)
        return 2
    finally:
        ctx.close()
