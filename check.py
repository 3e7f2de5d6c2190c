#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.
   check.py <property> [--tier quick|thorough]
exit 0: no violation derived; exit 1: VIOLATION line printed."""
import argparse, json, multiprocessing as mp, os, queue, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONHASHSEED", "0")


def findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


_H = None
_PLAN = None
MEM = 3500 << 20  # address space of one analysis worker


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_task(job):
    global _H
    pid, name, limit = job
    t0 = time.time()
    import judge, props
    try:
        if _H is None and _PLAN is not None:
            import mir, rt
            _H = rt.Harness(mir.Server(_PLAN))
        task = {t.name: t for t in props.tasks(pid, os.environ.get("VERIF_TIER", "quick"))}[name]
        J = judge.Judge(_H)
        J.pid = pid
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit))
        try:
            task.run(J)
        except Timeout:
            J.add(name, judge.UND, "time limit of %ds" % limit)
            _H = None
        except RecursionError:
            J.add(name, judge.UND, "recursion limit")
        except MemoryError:
            J.add(name, judge.UND, "memory limit")
            _H = None
        finally:
            signal.alarm(0)
        return dict(task=name, obs=[o.d() for o in J.obs], paths=J.npaths, steps=J.steps, fns=sorted(J.fns), wall=time.time() - t0)
    except Exception:
        return dict(task=name, obs=[dict(name=name, status="undecided", key=name, msg="internal: " + traceback.format_exc()[-1500:])],
                    paths=0, steps=0, fns=[], wall=time.time() - t0)


def worker(jobs, results):
    """take jobs until there are none left"""
    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
    while True:
        job = jobs.get()
        if job is None:
            break
        results.put(run_task(job))
    if _H is not None:
        _H.srv.close()
    results.put(None)


def main():
    global _PLAN
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import mir, judge, props
    pid = a.pid
    P = props.PROPS[pid]
    tasks = props.tasks(pid, a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t.name]
    build_err = None
    if P.get("server", True):
        try:
            _PLAN = mir.plan(**P.get("plan", {}))
        except mir.BuildError as e:
            build_err = str(e)
    res = []
    if build_err is None:
        limit = 300 if a.tier == "quick" else 600
        total = 600 if a.tier == "quick" else 820
        known0 = {f["key"] for f in findings() if f["property"] == pid}
        until = t0 + total
        n = min(8, len(tasks)) or 1
        jobs = [(pid, t.name, min(limit, t.limit)) for t in sorted(tasks, key=lambda t: -t.cost)]
        if n == 1 or a.v:
            res = [run_task(j) for j in jobs]
        else:
            ctx = mp.get_context("fork")
            jq, rq = ctx.Queue(), ctx.Queue()
            for j in jobs:
                jq.put(j)
            for _ in range(n):
                jq.put(None)
            ps = [ctx.Process(target=worker, args=(jq, rq), daemon=True) for _ in range(n)]
            for p in ps:
                p.start()
            left = n
            while left:
                if time.time() > until:
                    break
                try:
                    r = rq.get(timeout=2)
                except queue.Empty:
                    dead = [p for p in ps if not p.is_alive()]
                    if len(dead) == n and rq.empty():
                        break
                    continue
                if r is None:
                    left -= 1
                else:
                    res.append(r)
                    if any(o["status"] == "violated" and o["key"] not in known0 for o in r["obs"]):
                        # the answer is known; the others get a little longer to say more
                        until = min(until, time.time() + 20)
            for p in ps:
                p.join(0.2)
                if p.is_alive():
                    p.terminate()
            got = {r["task"] for r in res}
            for t in tasks:
                if t.name not in got:
                    res.append(dict(task=t.name, obs=[dict(name=t.name, status="undecided", key=t.name, msg="worker ended early")],
                                    paths=0, steps=0, fns=[], wall=0))
    order = {t.name: i for i, t in enumerate(tasks)}
    res.sort(key=lambda r: order[r["task"]])
    obs = [o for r in res for o in r["obs"]]
    if build_err is not None:
        # the public interface the property is stated on no longer type-checks
        obs = P["unbuilt"](build_err) if "unbuilt" in P else []
        obs = obs or [dict(name="build", key="build", status="undecided", msg=build_err[-3000:])]
    known = {f["key"]: f for f in findings() if f["property"] == pid}
    viol, seen, kseen = [], set(), set()
    for o in obs:
        if o["status"] == "violated":
            if o["key"] in known:
                kseen.add(o["key"])
                o["status"] = "known"
            elif o["key"] not in seen:
                seen.add(o["key"])
                viol.append(o)
    ok = sum(o["status"] == "ok" for o in obs)
    und = [o for o in obs if o["status"] == "undecided"]
    fns = sorted({f for r in res for f in r["fns"]})
    repo_fns = [f for f in fns if "dlhn" in f]
    ev = dict(property=pid, tier=a.tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=P.get("assumptions", []))
    expl = P["rule"]
    cov = dict(obligations=len(obs), discharged=ok, undecided=len(und), known_findings=len(kseen),
               paths=sum(r["paths"] for r in res), abstract_steps=sum(r["steps"] for r in res),
               functions_analysed=len(fns), repository_functions=repo_fns[:400], entry_points=[t.name for t in tasks],
               rule=expl, explanation=expl, checker_cmd="python3 check.py %s --tier %s" % (pid, a.tier),
               trusted_base=P.get("trusted", props.TRUSTED),
               undecided_samples=[dict(name=o["name"], why=o.get("msg", "")[:300]) for o in und[:10]],
               per_task={r["task"]: dict(paths=r["paths"], obligations=len(r["obs"]), s=round(r["wall"], 1)) for r in res})
    for r in res:
        for k, v in (r.get("extra") or {}).items():
            cov[k] = v
    ev["coverage"] = cov
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(kseen):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]["what"]))
    for o in und[:10] if not a.v else und:
        print("undecided: %s: %s" % (o["name"], o.get("msg", "")[:400]))
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions of the repository on %d paths in %.1fs" % (
        pid, len(obs), ok, len(und), len(kseen), len(viol), len(repo_fns), cov["paths"], time.time() - t0))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + "-violation.json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1, default=str)
        for o in viol[:8]:
            print("  %s: %s" % (o["key"], o.get("msg", "")[:300]))
            if o.get("where"):
                print("    at %s" % o["where"][:600])
            if o.get("wit"):
                print("    for example %s" % str(o["wit"])[:300])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        # no answer about the property: nothing was shown to be violated
        traceback.print_exc()
        sys.exit(0)
